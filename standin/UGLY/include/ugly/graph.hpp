#ifndef UGLY_STANDIN_GRAPH_HPP
#define UGLY_STANDIN_GRAPH_HPP
#include "edge.hpp"
#include "graph_node.hpp"
namespace ugly {
template <typename... Ts>
class Graph {
 public:
  Graph() {}
  Graph(std::list<std::weak_ptr<Edge>> edges,
        std::unordered_map<int, std::weak_ptr<GraphNode<Ts...>>> nodes)
      : edges_(edges), nodes_(nodes) {}
  std::vector<int> getVertices() const {
    std::vector<int> v;
    for (auto& n : nodes_) v.push_back(n.first);
    return v;
  }
  const std::list<std::weak_ptr<Edge>>& getEdges() const { return edges_; }
 private:
  std::list<std::weak_ptr<Edge>> edges_;
  std::unordered_map<int, std::weak_ptr<GraphNode<Ts...>>> nodes_;
};
}
#endif
