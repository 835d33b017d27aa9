#ifndef UGLY_STANDIN_EDGE_WEIGHTED_HPP
#define UGLY_STANDIN_EDGE_WEIGHTED_HPP
#include "edge.hpp"
namespace ugly {
class EdgeWeighted : public Edge {
 protected:
  double w_;
 public:
  EdgeWeighted(int a, int b, double w = 1.0) : Edge(a, b), w_(w) {}
  double getWeight() const override { return w_; }
  void setWeight(double w) { w_ = w; }
};
}
#endif
