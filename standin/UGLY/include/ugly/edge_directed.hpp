#ifndef UGLY_STANDIN_EDGE_DIRECTED_HPP
#define UGLY_STANDIN_EDGE_DIRECTED_HPP
#include "edge.hpp"
namespace ugly {
class EdgeDirected : public Edge {
 public:
  EdgeDirected(int a, int b) : Edge(a, b) {}
  bool directional() const override { return true; }
};
}
#endif
