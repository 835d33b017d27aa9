#ifndef UGLY_STANDIN_GRAPHVISITOR_HPP
#define UGLY_STANDIN_GRAPHVISITOR_HPP
#include "../edge.hpp"
#include "../edge_weighted.hpp"
namespace ugly {
// Grows a set of explored vertices from a starting vertex.  Candidate edges have
// exactly one explored end (for directed edges the tail); the next edge is the
// candidate with the largest (smallest) weight, ties by vertex ids.
class GraphVisitorBase_ {
 public:
  explicit GraphVisitorBase_(bool largest) : largest_(largest) {}
  virtual ~GraphVisitorBase_() {}
  void setStartingVertex(int v) {
    start_ = v;
    explored_.insert(v);
    order_.push_back(v);
  }
  int getStartingVertex() const { return start_; }
  bool edgeCanBeAdded(const std::weak_ptr<Edge>& we) const {
    auto e = we.lock();
    if (!e) return false;
    return isCandidate_(*e);
  }
  void addEdge(const std::weak_ptr<Edge>& we) {
    auto e = we.lock();
    if (!e || !isCandidate_(*e)) throw std::invalid_argument("edge cannot be added");
    candidates_.push_back(we);
  }
  void addEdges(const std::vector<std::weak_ptr<Edge>>& v) {
    for (auto& e : v) addEdge(e);
  }
  bool allEdgesExplored() const {
    for (auto& we : candidates_)
      if (auto e = we.lock())
        if (isCandidate_(*e)) return false;
    return true;
  }
  template <typename T>
  std::weak_ptr<T> getNextEdge() {
    std::shared_ptr<Edge> best;
    for (auto& we : candidates_) {
      auto e = we.lock();
      if (!e || !isCandidate_(*e)) continue;
      if (!best || better_(*e, *best)) best = e;
    }
    return std::static_pointer_cast<T>(best);
  }
  int chooseTerminalVertex(const std::weak_ptr<Edge>& we) const {
    auto e = we.lock();
    if (!e || !isCandidate_(*e)) throw std::invalid_argument("edge has no terminal vertex");
    return explored_.count(e->getVertex1()) ? e->getVertex2() : e->getVertex1();
  }
  void exploreEdge(const std::weak_ptr<Edge>& we) {
    int v = chooseTerminalVertex(we);
    explored_.insert(v);
    order_.push_back(v);
    candidates_.erase(std::remove_if(candidates_.begin(), candidates_.end(),
                                     [this](const std::weak_ptr<Edge>& w) {
                                       auto e = w.lock();
                                       return !e || !isCandidate_(*e);
                                     }),
                      candidates_.end());
  }
  bool vertexExplored(int v) const { return explored_.count(v) != 0; }
  std::size_t countExploredVertices() const { return explored_.size(); }
  std::vector<int> getExploredVertices() const { return order_; }
 private:
  bool isCandidate_(const Edge& e) const {
    bool a = explored_.count(e.getVertex1()), b = explored_.count(e.getVertex2());
    if (e.directional()) return a && !b;
    return a != b;
  }
  bool better_(const Edge& x, const Edge& y) const {
    if (x.getWeight() != y.getWeight())
      return largest_ ? x.getWeight() > y.getWeight() : x.getWeight() < y.getWeight();
    return std::make_pair(x.getVertex1(), x.getVertex2()) <
           std::make_pair(y.getVertex1(), y.getVertex2());
  }
  bool largest_;
  int start_ = 0;
  std::set<int> explored_;
  std::vector<int> order_;
  std::vector<std::weak_ptr<Edge>> candidates_;
};
}
#endif
