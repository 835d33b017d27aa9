#ifndef UGLY_STANDIN_EDGE_DIRECTED_WEIGHTED_HPP
#define UGLY_STANDIN_EDGE_DIRECTED_WEIGHTED_HPP
#include "edge_weighted.hpp"
namespace ugly {
class EdgeDirectedWeighted : public EdgeWeighted {
 public:
  EdgeDirectedWeighted(int a, int b, double w = 1.0) : EdgeWeighted(a, b, w) {}
  bool directional() const override { return true; }
};
}
#endif
