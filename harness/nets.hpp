// Small rate networks: members of a cluster, rates between them and rates off it,
// with the exact answers for walkers in local equilibrium.
#ifndef VERIF_NETS_HPP
#define VERIF_NETS_HPP
#include "mc.hpp"
typedef std::unordered_map<int, double> RMap;

struct Net {
  std::string name;
  std::vector<int> id;                       // member ids
  std::vector<std::vector<double>> k;        // k[i][j] rate from member i to member j, 0 none
  struct Ext { int from, to; double w; };    // member index, neighbour id, weight
  std::vector<Ext> ext;
  double eps = 1e-7, scale = 1.0;
  int n() const { return (int)id.size(); }
  double erate(const Ext& e) const { return e.w * eps * scale; }
  std::vector<RMap> rates() const {
    std::vector<RMap> r(n());
    for (int i = 0; i < n(); ++i) for (int j = 0; j < n(); ++j) if (i != j && k[i][j] > 0) r[i][id[j]] = k[i][j] * scale;
    for (auto& e : ext) r[e.from][e.to] += erate(e);
    return r;
  }
  std::string str() const {
    std::string s = name + mc::strf(" eps %g scale %g;", eps, scale);
    for (int i = 0; i < n(); ++i) for (int j = 0; j < n(); ++j) if (k[i][j] > 0) s += mc::strf(" %d>%d:%g", id[i], id[j], k[i][j]);
    for (auto& e : ext) s += mc::strf(" %d>>%d:%g", id[e.from], e.to, e.w);
    return s;
  }
};

struct Answer {
  std::vector<double> pi;      // share of time on each member
  std::vector<double> hop;     // share of the hops that land on each member
  std::map<int, double> exit;  // probability to leave to each neighbour
  double tau;                  // mean time until the cluster is left
  double fastest;              // fastest rate off
};

// stationary distribution of the internal chain by state elimination
inline std::vector<double> stationary(std::vector<std::vector<double>> q) {
  int n = (int)q.size();
  std::vector<std::vector<long double>> a(n, std::vector<long double>(n));
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a[i][j] = i == j ? 0 : q[i][j];
  for (int m = n - 1; m > 0; --m) {
    long double s = 0;
    for (int j = 0; j < m; ++j) s += a[m][j];
    for (int i = 0; i < m; ++i) a[i][m] /= s;
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) if (i != j) a[i][j] += a[i][m] * a[m][j];
  }
  std::vector<long double> p(n, 0);
  p[0] = 1;
  long double t = 1;
  for (int m = 1; m < n; ++m) { for (int i = 0; i < m; ++i) p[m] += p[i] * a[i][m]; t += p[m]; }
  std::vector<double> r(n);
  for (int i = 0; i < n; ++i) r[i] = (double)(p[i] / t);
  return r;
}

inline Answer answer(const Net& N) {
  Answer a;
  a.pi = stationary(N.k);
  double tot = 0, h = 0;
  a.fastest = 0;
  std::map<std::pair<int, int>, double> pair;
  for (auto& e : N.ext) {
    double f = a.pi[e.from] * N.erate(e);
    a.exit[e.to] += f;
    tot += f;
    pair[{e.from, e.to}] += N.erate(e);
  }
  for (auto& p : pair) a.fastest = std::max(a.fastest, p.second);
  for (auto& x : a.exit) x.second /= tot;
  a.tau = 1.0 / tot;
  a.hop.resize(N.n());
  for (int i = 0; i < N.n(); ++i) {
    double K = 0;
    for (int j = 0; j < N.n(); ++j) if (i != j) K += N.k[i][j];
    a.hop[i] = a.pi[i] * K;
    h += a.hop[i];
  }
  for (auto& x : a.hop) x /= h;
  return a;
}

inline bool strongly(const std::vector<std::vector<double>>& k) {
  int n = (int)k.size();
  for (int dir = 0; dir < 2; ++dir) {
    std::vector<int> st = {0};
    std::vector<char> s(n, 0);
    s[0] = 1;
    while (!st.empty()) {
      int u = st.back();
      st.pop_back();
      for (int v = 0; v < n; ++v) if (!s[v] && (dir ? k[v][u] : k[u][v]) > 0) { s[v] = 1; st.push_back(v); }
    }
    for (int i = 0; i < n; ++i) if (!s[i]) return false;
  }
  return true;
}

inline std::vector<int> ids_of(int n, int style) {
  static const int odd[24] = {7, -3, 100, 0, 65536, -1, 12, 2000000000, 5, -2000000000, 33, 18, 4, 9, 77, -8, 1, 2, 3, 6, 8, 10, 11, 13};
  std::vector<int> r;
  for (int i = 0; i < n; ++i) r.push_back(style == 0 ? i + 1 : style == 1 ? odd[i] : 1000 - 13 * i);
  return r;
}
// off-cluster patterns
inline std::vector<Net::Ext> pattern(int n, int p) {
  std::vector<Net::Ext> e;
  switch (p % 7) {
    case 0: for (int i = 0; i < n; ++i) e.push_back({i, 500 + i, 1.0}); break;                         // one each
    case 1: e.push_back({0, 500, 1.0}); break;                                                         // a single way out
    case 2: e.push_back({n - 1, 500, 2.0}); e.push_back({n - 1, -501, 1.0}); break;                    // two from the last
    case 3: for (int i = 0; i < n; ++i) e.push_back({i, 500, 1.0 + i}); break;                         // one shared neighbour
    case 4: for (int i = 0; i < n; ++i) { e.push_back({i, 500 + i, 1.0 + 2 * (i % 2)}); e.push_back({i, 500 + (i + 1) % n, 0.5}); } break;
    case 5: e.push_back({0, 500, 10.0}); e.push_back({n - 1, 501, 0.5}); e.push_back({n / 2, 501, 1.0}); break;
    default: for (int i = 0; i < n; i += 2) for (int j = 0; j < 4; ++j) e.push_back({i, 600 - 7 * j, 1.0 + j + i}); break;
  }
  return e;
}

inline std::vector<Net> nets(bool thorough) {
  std::vector<Net> out;
  // two members, all ratios
  for (double a : {1.0, 2.0, 10.0, 0.1, 0.02}) for (double b : {1.0, 3.0, 0.1, 25.0}) for (int p = 0; p < 7; ++p) {
    Net N;
    N.name = "pair";
    N.id = ids_of(2, p % 3);
    N.k = {{0, a}, {b, 0}};
    N.ext = pattern(2, p);
    out.push_back(N);
  }
  const double W[4][5] = {{1, 1, 1, 1, 1}, {1, 2, 5, 3, 0.5}, {1, 20, 1, 4, 0.2}, {0.7, 7, 2, 1, 9}};
  // every strongly connected digraph on three members
  for (int mask = 0; mask < 64; ++mask) {
    std::vector<std::vector<double>> g(3, std::vector<double>(3, 0));
    int b = 0;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) { g[i][j] = mask >> b & 1; ++b; }
    if (!strongly(g)) continue;
    for (int w = 0; w < 4; ++w) for (int p = 0; p < 7; ++p) {
      Net N;
      N.name = mc::strf("three[%d,%d]", mask, w);
      N.id = ids_of(3, (mask + p) % 3);
      N.k = g;
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) N.k[i][j] *= W[w][(i * 3 + j * 2 + mask) % 5];
      N.ext = pattern(3, p);
      out.push_back(N);
    }
  }
  // every strongly connected digraph on four members
  int cnt = 0;
  for (int mask = 0; mask < 4096; ++mask) {
    std::vector<std::vector<double>> g(4, std::vector<double>(4, 0));
    int b = 0;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != j) { g[i][j] = mask >> b & 1; ++b; }
    if (!strongly(g)) continue;
    ++cnt;
    for (int w = 0; w < (thorough ? 4 : 1); ++w) for (int p = 0; p < (thorough ? 7 : 1); ++p) {
      int ww = thorough ? w : cnt % 4, pp = thorough ? p : cnt % 7;
      Net N;
      N.name = mc::strf("four[%d,%d]", mask, ww);
      N.id = ids_of(4, (mask + pp) % 3);
      N.k = g;
      for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) N.k[i][j] *= W[ww][(i * 3 + j * 2 + mask) % 5];
      N.ext = pattern(4, pp);
      out.push_back(N);
    }
  }
  // larger shapes
  for (int n : {5, 6, 8, 12, 20}) for (int shape = 0; shape < 6; ++shape) for (int p = 0; p < (n <= 8 ? 7 : 3); ++p) {
    Net N;
    N.name = mc::strf("%s%d", std::vector<const char*>{"chain", "ring", "oneway", "star", "complete", "comb"}[shape], n);
    N.id = ids_of(n, (n + p) % 3);
    N.k.assign(n, std::vector<double>(n, 0));
    auto put = [&](int a, int b2) { N.k[a][b2] = W[p % 4][(a * 3 + b2 * 2) % 5]; };
    for (int i = 0; i < n; ++i) {
      if (shape == 0 && i + 1 < n) { put(i, i + 1); put(i + 1, i); }
      if (shape == 1) { put(i, (i + 1) % n); put((i + 1) % n, i); }
      if (shape == 2) put(i, (i + 1) % n);
      if (shape == 3 && i) { put(0, i); put(i, 0); }
      if (shape == 4) for (int j = 0; j < n; ++j) if (i != j) put(i, j);
      if (shape == 5 && i) { int q = i % 2 ? i - 1 : i - 2; put(i, q); put(q, i); }
    }
    N.ext = pattern(n, p);
    out.push_back(N);
  }
  return out;
}
#endif
