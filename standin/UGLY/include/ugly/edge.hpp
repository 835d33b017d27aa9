// Stand-in for the UGLY graph library (the submodule is absent offline).
// Only the interface MythiCaL uses; see /verif/DESIGN.md "The UGLY stand-in".
#ifndef UGLY_STANDIN_EDGE_HPP
#define UGLY_STANDIN_EDGE_HPP
#include <algorithm>
#include <cmath>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
namespace ugly {
class Edge {
 protected:
  int v1_, v2_;
 public:
  Edge() : v1_(0), v2_(0) {}
  Edge(int a, int b) : v1_(a), v2_(b) {}
  virtual ~Edge() {}
  int getVertex1() const { return v1_; }
  int getVertex2() const { return v2_; }
  int getOtherVertex(int v) const {
    if (v == v1_) return v2_;
    if (v == v2_) return v1_;
    throw std::invalid_argument("vertex is not part of the edge");
  }
  bool containsVertex(int v) const { return v == v1_ || v == v2_; }
  virtual bool directional() const { return false; }
  virtual double getWeight() const { return 1.0; }
};
}
#endif
