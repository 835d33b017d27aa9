#ifndef UGLY_STANDIN_EDGE_UNDIRECTED_HPP
#define UGLY_STANDIN_EDGE_UNDIRECTED_HPP
#include "edge.hpp"
namespace ugly {
class EdgeUndirected : public Edge {
 public:
  EdgeUndirected(int a, int b) : Edge(std::min(a, b), std::max(a, b)) {}
};
}
#endif
