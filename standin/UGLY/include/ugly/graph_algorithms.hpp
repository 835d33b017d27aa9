#ifndef UGLY_STANDIN_GRAPH_ALGORITHMS_HPP
#define UGLY_STANDIN_GRAPH_ALGORITHMS_HPP
#include "graph.hpp"
#include "pair_hash.hpp"
namespace ugly {
namespace graphalgorithms {
// For every unordered pair of vertices the larger of the two directed shortest
// distances; pairs with no path in one of the directions are infinitely far apart.
// Only edges between two vertices of the graph count.
template <typename... Ts>
std::unordered_map<std::pair<int, int>, double, hash_functions::hash>
maxMinimumDistanceBetweenEveryVertex(const Graph<Ts...>& graph) {
  std::vector<int> v = graph.getVertices();
  std::sort(v.begin(), v.end());
  std::map<int, std::map<int, double>> d;
  const double inf = std::numeric_limits<double>::infinity();
  for (int a : v)
    for (int b : v) d[a][b] = a == b ? 0.0 : inf;
  for (auto& we : graph.getEdges()) {
    if (auto e = we.lock()) {
      int a = e->getVertex1(), b = e->getVertex2();
      if (!d.count(a) || !d.count(b)) continue;
      d[a][b] = std::min(d[a][b], e->getWeight());
      if (!e->directional()) d[b][a] = std::min(d[b][a], e->getWeight());
    }
  }
  for (int k : v)
    for (int a : v)
      for (int b : v) d[a][b] = std::min(d[a][b], d[a][k] + d[k][b]);
  std::unordered_map<std::pair<int, int>, double, hash_functions::hash> out;
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = i + 1; j < v.size(); ++j)
      out[std::make_pair(v[i], v[j])] = std::max(d[v[i]][v[j]], d[v[j]][v[i]]);
  return out;
}
}
}
#endif
