// Exhaustive enumeration of the random draws made by a piece of library code.
#ifndef VERIF_DRAWS_HPP
#define VERIF_DRAWS_HPP
#include "mc.hpp"
namespace mcrng { struct Source; }

// Runs f once for every sequence of draws it can make. A draw in [0,1) takes the K
// midpoints (i+0.5)/K, a draw of an integer takes every value of its range. leaf gets
// the weight (probability) of each sequence. Sequences longer than max_depth draws
// continue with the middle value.
struct DrawTree {
  int K = 100;
  size_t max_depth = 4;
  std::vector<int> dig, wid;
  size_t pos = 0;
  double weight = 1.0;
  unsigned long long runs = 0;
  static double frac(int i, int K) { return (i + 0.5) / K; }
  int next(int n) {
    if (pos >= max_depth) { ++pos; return n / 2; }
    if (pos >= dig.size()) { dig.push_back(0); wid.push_back(n); }
    else if (pos >= wid.size() || wid[pos] != n) throw mc::Divergence();
    weight /= n;
    return dig[pos++];
  }
  template <class F> void run(F f) {
    dig.clear(); wid.clear();
    auto& src = mcrng::source();
    auto su = src.unit; auto si = src.integer;
    src.unit = [this]() { return frac(next(K), K); };
    src.integer = [this](long lo, long hi) -> long {
      long n = hi - lo + 1;
      if (n <= 4096) return lo + next((int)n);
      return lo + (long)std::floor(frac(next(K), K) * (double)n);
    };
    try {
      for (;;) {
        pos = 0; weight = 1.0;
        f(*this);
        ++runs;
        if (dig.size() > pos) { dig.resize(pos); wid.resize(pos); }
        while (!dig.empty() && dig.back() + 1 >= wid.back()) { dig.pop_back(); wid.pop_back(); }
        if (dig.empty()) break;
        ++dig.back();
      }
    } catch (...) { src.unit = su; src.integer = si; throw; }
    src.unit = su; src.integer = si;
  }
};

// feeds a fixed list of unit draws, then repeats `rest`
struct DrawScript {
  std::vector<double> v;
  double rest = 0.5;
  size_t i = 0;
  std::function<double()> saved_u;
  std::function<long(long, long)> saved_i;
  explicit DrawScript(std::vector<double> d, double r = 0.5) : v(d), rest(r) {
    auto& s = mcrng::source();
    saved_u = s.unit; saved_i = s.integer;
    s.unit = [this]() { return i < v.size() ? v[i++] : (++i, rest); };
    s.integer = nullptr;
  }
  ~DrawScript() {
    auto& s = mcrng::source();
    s.unit = saved_u; s.integer = saved_i;
  }
};
#endif
