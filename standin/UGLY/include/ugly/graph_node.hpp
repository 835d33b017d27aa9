#ifndef UGLY_STANDIN_GRAPH_NODE_HPP
#define UGLY_STANDIN_GRAPH_NODE_HPP
#include <string>
#include <tuple>
namespace ugly {
template <typename... Ts>
class GraphNode {
 public:
  explicit GraphNode(Ts... ts) : values_(ts...) {}
 private:
  std::tuple<Ts...> values_;
};
}
#endif
