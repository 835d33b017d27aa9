#include <climits>
#include "draws.hpp"
#include "mythical/charge_transport/cuboid_lattice.hpp"

using mythical::charge_transport::BoundarySetting;
using mythical::charge_transport::Cuboid;
using mc::Ctx;
using mc::strf;
typedef std::vector<int> V3;

namespace {
struct Lat {
  int L, W, H, b;
  double s;
  bool per(int a) const { return (b >> a) & 1; }
  int dim(int a) const { return a == 0 ? L : a == 1 ? W : H; }
  long n() const { return (long)L * W * H; }
  int idx(int x, int y, int z) const { return (z * W + y) * L + x; }
  Cuboid make(int ctor = 2) const {
    auto B = [&](int a) { return per(a) ? BoundarySetting::Periodic : BoundarySetting::Fixed; };
    if (ctor == 0) return Cuboid(L, W, H);
    if (ctor == 1) return Cuboid(L, W, H, s);
    return Cuboid(L, W, H, s, B(0), B(1), B(2));
  }
  std::string str() const { return strf("%dx%dx%d %c%c%c spacing %g", L, W, H, "FP"[per(0)], "FP"[per(1)], "FP"[per(2)], s); }
  // squared smallest distance in lattice steps
  long d2(int i, int j) const {
    int p[3] = {i % L, (i / L) % W, i / (L * W)}, q[3] = {j % L, (j / L) % W, j / (L * W)};
    long t = 0;
    for (int a = 0; a < 3; ++a) {
      int d = std::abs(p[a] - q[a]);
      if (per(a)) d = std::min(d, dim(a) - d);
      t += (long)d * d;
    }
    return t;
  }
};

std::vector<V3> small_dims(int m) {
  std::vector<V3> r;
  for (int a = 1; a <= m; ++a) for (int b = 1; b <= m; ++b) for (int c = 1; c <= m; ++c) r.push_back({a, b, c});
  return r;
}
const std::vector<V3> BIG = {{7, 3, 2}, {2, 7, 3}, {3, 2, 7}, {10, 10, 1}, {1, 12, 9}, {20, 1, 1}, {1, 1, 33}, {1, 64, 1}, {9, 8, 7}, {16, 16, 16}, {12, 11, 13}, {100, 3, 2}, {2, 3, 100}, {2, 100, 3}};
const std::vector<V3> HUGE_ = {{1000, 1000, 1000}, {40000, 50000, 1}, {1, 46341, 46000}, {2000000000, 1, 1}, {1, 1, 2000000000}, {1, 2000000000, 1}, {128, 256, 512}, {200, 200, 200}, {65536, 4, 7}, {3, 65537, 5}, {5, 3, 70001}};
std::vector<int> edge_coords(int n) {
  std::set<int> s;
  for (long c : {0L, 1L, 2L, 3L, (long)n / 3, (long)n / 2 - 1, (long)n / 2, (long)n / 2 + 1, (long)n - 3, (long)n - 2, (long)n - 1}) if (c >= 0 && c < n) s.insert((int)c);
  return std::vector<int>(s.begin(), s.end());
}

void check_site(Ctx& c, const Lat& l, Cuboid& q, int x, int y, int z) {
  int i = q.getIndex(x, y, z);
  REQ(c, i >= 0 && i < l.n(), "getIndex(%d,%d,%d)=%d is outside of [0,%ld)", x, y, z, i, l.n());
  REQ(c, (long)i == ((long)z * l.W + y) * l.L + x, "getIndex(%d,%d,%d)=%d, row-major index is %ld", x, y, z, i, ((long)z * l.W + y) * l.L + x);
  REQ(c, q.getIndex(V3{x, y, z}) == i, "getIndex of the position vector differs at (%d,%d,%d)", x, y, z);
  auto p = q.getPosition(i);
  REQ(c, p == (V3{x, y, z}), "getPosition(%d) is not (%d,%d,%d)", i, x, y, z);
  REQ(c, q.getX(i) == x && q.getY(i) == y && q.getZ(i) == z, "getX/Y/Z(%d)=(%d,%d,%d), expected (%d,%d,%d)", i, q.getX(i), q.getY(i), q.getZ(i), x, y, z);
  c.step();
  c.visited();
}

void bad_indices(Ctx& c, const Lat& l, Cuboid& q) {
  for (long i : {-1L, -2L, -l.n(), -l.n() - 1, (long)INT_MIN, l.n(), l.n() + 1, 2 * l.n(), (long)INT_MAX}) {
    if (i < INT_MIN || i > INT_MAX || (i >= 0 && i < l.n())) continue;
    int k = (int)i;
    REQ(c, mc::throws([&] { q.getPosition(k); }), "getPosition(%d) accepted on %ld sites", k, l.n());
    REQ(c, mc::throws([&] { q.getX(k); }), "getX(%d) accepted on %ld sites", k, l.n());
    REQ(c, mc::throws([&] { q.getY(k); }), "getY(%d) accepted on %ld sites", k, l.n());
    REQ(c, mc::throws([&] { q.getZ(k); }), "getZ(%d) accepted on %ld sites", k, l.n());
    c.step();
  }
}

// ---- C24
void bijection(Ctx& c, const V3& d, int b, double s, int ctor, bool full) {
  Lat l{d[0], d[1], d[2], ctor == 2 ? b : 0, s};
  c.label(l.str());
  Cuboid q = l.make(ctor);
  REQ(c, q.getLength() == l.L && q.getWidth() == l.W && q.getHeight() == l.H, "dimensions not as given");
  REQ(c, q.getLatticeSpacing() == (ctor == 0 ? 1.0 : s), "spacing not as given");
  REQ(c, q.isXPeriodic() == l.per(0) && q.isYPeriodic() == l.per(1) && q.isZPeriodic() == l.per(2), "boundary settings not as given");
  if (full) {
    std::vector<char> hit(l.n(), 0);
    for (int z = 0; z < l.H; ++z) for (int y = 0; y < l.W; ++y) for (int x = 0; x < l.L; ++x) {
      check_site(c, l, q, x, y, z);
      int i = q.getIndex(x, y, z);
      REQ(c, !hit[i], "index %d given to two sites", i);
      hit[i] = 1;
    }
    // and the other way round
    for (int i = 0; i < l.n(); ++i) {
      auto p = q.getPosition(i);
      REQ(c, p.size() == 3 && p[0] >= 0 && p[0] < l.L && p[1] >= 0 && p[1] < l.W && p[2] >= 0 && p[2] < l.H, "getPosition(%d) outside of the lattice", i);
      REQ(c, q.getIndex(p) == i, "getIndex(getPosition(%d))=%d", i, q.getIndex(p));
    }
  } else
    for (int z : edge_coords(l.H)) for (int y : edge_coords(l.W)) for (int x : edge_coords(l.L)) check_site(c, l, q, x, y, z);
  bad_indices(c, l, q);
  for (int a = 0; a < 3; ++a) {
    if (l.per(a)) continue;
    for (long v : {-1L, -2L, -(long)l.dim(a), (long)INT_MIN, (long)l.dim(a), (long)l.dim(a) + 1, (long)INT_MAX}) {
      if (v < INT_MIN || v > INT_MAX) continue;
      V3 p = {0, 0, 0};
      p[a] = (int)v;
      REQ(c, mc::throws([&] { q.getIndex(p); }) && mc::throws([&] { q.getIndex(p[0], p[1], p[2]); }), "getIndex(%d,%d,%d) accepted outside of a fixed boundary", p[0], p[1], p[2]);
    }
  }
  REQ(c, mc::throws([&] { q.getIndex(V3{}); }) && mc::throws([&] { q.getIndex(V3{0, 0}); }) && mc::throws([&] { q.getIndex(V3{0, 0, 0, 0}); }), "getIndex accepts a position that is not 3 dimensional");
  c.outcome(mc::hstr(l.str()));
  c.sample(l.str() + strf(": %ld sites, position<->index", l.n()));
}

// ---- C25
void wrap(Ctx& c, const V3& d, int b, bool full) {
  Lat l{d[0], d[1], d[2], b, 1.0};
  c.label(l.str());
  Cuboid q = l.make();
  std::vector<int> co[3];
  for (int a = 0; a < 3; ++a) {
    long n = l.dim(a);
    std::set<long> s;
    if (full) for (long v = l.per(a) ? -3 * n - 1 : -2; v <= (l.per(a) ? 3 * n + 1 : n + 1); ++v) s.insert(v);
    else for (long k = -3; k <= 3; ++k) for (long o : {-1L, 0L, 1L, n / 2, n - 1}) s.insert(k * n + o);
    if (l.per(a)) for (long v : {(long)INT_MIN, (long)INT_MIN + 1, (long)INT_MAX, (long)INT_MAX - 1, -1000003L, 1000003L, -17L * n, 17L * n - 1}) s.insert(v);
    else for (long v : {(long)INT_MIN, (long)INT_MAX}) s.insert(v);
    for (long v : s) if (v >= INT_MIN && v <= INT_MAX) co[a].push_back((int)v);
  }
  auto one = [&](int x, int y, int z) {
    V3 v = {x, y, z};
    long r[3];
    bool out = false;
    for (int a = 0; a < 3; ++a) {
      long n = l.dim(a);
      r[a] = ((v[a] % n) + n) % n;
      if (!l.per(a) && (v[a] < 0 || v[a] >= n)) out = true;
    }
    c.step();
    if (out) {
      REQ(c, mc::throws([&] { q.getIndex(x, y, z); }), "(%d,%d,%d) is beyond a fixed boundary but was accepted", x, y, z);
      REQ(c, mc::throws([&] { q.getIndex(v); }), "vector (%d,%d,%d) is beyond a fixed boundary but was accepted", x, y, z);
      return;
    }
    long e = (r[2] * l.W + r[1]) * l.L + r[0];
    int i = q.getIndex(x, y, z);
    REQ(c, i == e, "(%d,%d,%d) gives site %d, it is an image of site %ld", x, y, z, i, e);
    REQ(c, q.getIndex(v) == e, "vector (%d,%d,%d) gives site %d, it is an image of site %ld", x, y, z, q.getIndex(v), e);
    c.visited();
  };
  if (full) { for (int x : co[0]) for (int y : co[1]) for (int z : co[2]) one(x, y, z); }
  else {
    // every coordinate of each axis, with every edge coordinate of the others
    auto e = [&](int a) { std::vector<int> r = edge_coords(l.dim(a)); if (l.per(a)) { r.push_back(-1); r.push_back(l.dim(a) == INT_MAX ? 0 : l.dim(a)); } return r; };
    for (int x : co[0]) for (int y : e(1)) for (int z : e(2)) one(x, y, z);
    for (int y : co[1]) for (int x : e(0)) for (int z : e(2)) one(x, y, z);
    for (int z : co[2]) for (int x : e(0)) for (int y : e(1)) one(x, y, z);
  }
  c.outcome(mc::hstr(l.str()));
  c.sample(l.str() + strf(": coordinates x in [%d,%d]", co[0].front(), co[0].back()));
}

// ---- C26
bool dyadic(double s) { int e; double m = std::frexp(s, &e); return m * 1024 == std::floor(m * 1024); }
// 1 neighbour, 0 not, 2 too close to the cutoff to say
int within(const Lat& l, long d2, double cut) {
  if (d2 == 0) return 0;
  double d = std::sqrt((double)d2) * l.s;
  long r = (long)std::llround(std::sqrt((double)d2));
  if (r * r == d2 && dyadic(l.s)) return d <= cut;
  if (std::fabs(d - cut) <= 1e-9 * d) return 2;
  return d <= cut;
}
void check_neigh(Ctx& c, const Cuboid& q, const Lat& l, int i, double cut, const std::vector<std::pair<int, double>>& got, const char* what, bool dist) {
  std::map<int, double> m;
  for (auto& g : got) {
    REQ(c, m.count(g.first) == 0, "%s(%d, %.17g) lists site %d twice", what, i, cut, g.first);
    REQ(c, g.first >= 0 && g.first < l.n(), "%s(%d, %.17g) lists %d which is no site", what, i, cut, g.first);
    m[g.first] = g.second;
  }
  size_t seen = 0;
  auto one = [&](int j) {
    int w = within(l, l.d2(i, j), cut);
    // a site exactly at the cutoff, by the lattice's own account, is within it
    if (w == 2 && q.getSmallestDistance(i, j) == cut && q.getSmallestDistance(j, i) == cut) w = 1;
    bool in = m.count(j) != 0;
    if (in) ++seen;
    if (w != 2) REQ(c, in == (w == 1), "%s(%d, %.17g) %s site %d at smallest distance %.17g", what, i, cut, in ? "lists" : "misses", j, std::sqrt((double)l.d2(i, j)) * l.s);
    if (in && dist) REQ(c, mc::close(m[j], std::sqrt((double)l.d2(i, j)) * l.s, 1e-12), "%s(%d, %.17g) gives distance %.17g to site %d, smallest is %.17g", what, i, cut, m[j], j, std::sqrt((double)l.d2(i, j)) * l.s);
  };
  for (int j = 0; j < l.n(); ++j) one(j);
  c.step();
}
void neighbours(Ctx& c, const Lat& l, std::vector<double> cuts, bool all_sites, bool whole, bool ties = false) {
  c.label(l.str());
  Cuboid q = l.make();
  if (ties) {
    // every distance of the lattice is a cutoff
    std::set<double> d;
    for (int j = 1; j < l.n(); ++j) d.insert(q.getSmallestDistance(0, j));
    cuts.assign(d.begin(), d.end());
  }
  std::vector<int> sites;
  if (all_sites) for (int i = 0; i < l.n(); ++i) sites.push_back(i);
  else for (int z : edge_coords(l.H)) for (int y : edge_coords(l.W)) for (int x : edge_coords(l.L)) sites.push_back(l.idx(x, y, z));
  for (double cu : cuts) {
    double cut = ties ? cu : cu * l.s;
    for (int i : sites) {
      c.label(l.str() + strf(" site %d cutoff %.17g", i, cut));
      auto nb = q.getNeighbors(i, cut);
      std::vector<std::pair<int, double>> a;
      for (int j : nb) a.emplace_back(j, 0.0);
      check_neigh(c, q, l, i, cut, a, "getNeighbors", false);
      check_neigh(c, q, l, i, cut, q.getNeighborDistances(i, cut), "getNeighborDistances", true);
      V3 p = {i % l.L, (i / l.L) % l.W, i / (l.L * l.W)};
      check_neigh(c, q, l, i, cut, q.getNeighborDistances(p, cut), "getNeighborDistances(position)", true);
      c.visited();
    }
    if (whole) {
      auto all = q.getNeighborDistances(cut);
      for (auto& k : all) REQ(c, k.first >= 0 && k.first < l.n(), "getNeighborDistances(%.17g) has an entry for %d which is no site", cut, k.first);
      for (int i = 0; i < l.n(); ++i) {
        c.label(l.str() + strf(" site %d cutoff %.17g", i, cut));
        std::vector<std::pair<int, double>> a;
        auto it = all.find(i);
        if (it != all.end()) a.assign(it->second.begin(), it->second.end());
        check_neigh(c, q, l, i, cut, a, "getNeighborDistances(whole lattice)", true);
      }
    }
  }
  for (long i : {-1L, (long)INT_MIN, l.n(), l.n() + 1}) {
    if (i > INT_MAX) continue;
    REQ(c, mc::throws([&] { q.getNeighbors((int)i, l.s); }), "getNeighbors(%ld) accepted", i);
    REQ(c, mc::throws([&] { q.getNeighborDistances((int)i, l.s); }), "getNeighborDistances(%ld) accepted", i);
  }
  REQ(c, mc::throws([&] { q.getNeighborDistances(V3{0, 0}, l.s); }) && mc::throws([&] { q.getNeighborDistances(V3{0, 0, 0, 0}, l.s); }), "a position that is not 3 dimensional accepted");
  for (int a = 0; a < 3; ++a) if (!l.per(a)) for (int v : {-1, l.dim(a)}) {
    V3 p = {0, 0, 0};
    p[a] = v;
    REQ(c, mc::throws([&] { q.getNeighborDistances(p, l.s); }), "getNeighborDistances of a position beyond a fixed boundary accepted");
  }
  c.outcome(mc::hstr(l.str()));
  c.sample(l.str() + strf(": %zu cutoffs x %zu sites", cuts.size(), sites.size()));
}

// ---- C27
void distances(Ctx& c, const Lat& l, bool full) {
  c.label(l.str());
  Cuboid q = l.make();
  std::vector<int> s;
  if (full) for (int i = 0; i < l.n(); ++i) s.push_back(i);
  else {
    auto e = [](int n) {
      std::set<int> r;
      for (int k : {0, 1, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1}) if (k >= 0 && k < n) r.insert(k);
      return r;
    };
    for (int z : e(l.H)) for (int y : e(l.W)) for (int x : e(l.L)) s.push_back(l.idx(x, y, z));
  }
  for (int i : s) for (int j : s) {
    double d = q.getSmallestDistance(i, j), e = std::sqrt((double)l.d2(i, j)) * l.s;
    REQ(c, mc::close(d, e, 1e-12), "getSmallestDistance(%d,%d)=%.17g, smallest over all images is %.17g", i, j, d, e);
    c.step();
    c.visited();
  }
  for (long i : {-1L, (long)INT_MIN, l.n(), (long)INT_MAX}) {
    if (i < l.n() && i >= 0) continue;
    if (i > INT_MAX) continue;
    REQ(c, mc::throws([&] { q.getSmallestDistance((int)i, 0); }), "getSmallestDistance(%ld,0) accepted", i);
    REQ(c, mc::throws([&] { q.getSmallestDistance(0, (int)i); }), "getSmallestDistance(0,%ld) accepted", i);
  }
  c.outcome(mc::hstr(l.str()));
  c.sample(l.str() + strf(": %zu x %zu pairs", s.size(), s.size()));
}

// ---- C28
void random_site(Ctx& c, const Lat& l) {
  c.label(l.str());
  struct P { Cuboid::Plane p; int axis; const char* n; };
  for (P p : {P{Cuboid::Plane::YZ, 0, "YZ"}, P{Cuboid::Plane::XZ, 1, "XZ"}, P{Cuboid::Plane::XY, 2, "XY"}}) {
    for (int k = 0; k < l.dim(p.axis); ++k) {
      Cuboid q = l.make();
      std::map<int, double> w;
      DrawTree t;
      t.K = 2520;
      t.max_depth = 3;
      c.label(l.str() + strf(" plane %s %d", p.n, k));
      t.run([&](DrawTree& tt) {
        int i = q.getRandomSite(p.p, k);
        REQ(c, i >= 0 && i < l.n(), "getRandomSite gives %d which is no site", i);
        int pos[3] = {i % l.L, (i / l.L) % l.W, i / (l.L * l.W)};
        REQ(c, pos[p.axis] == k, "getRandomSite(%s,%d) gives (%d,%d,%d) outside of the plane", p.n, k, pos[0], pos[1], pos[2]);
        w[i] += tt.weight;
        c.step();
      });
      size_t n = l.n() / l.dim(p.axis);
      REQ(c, w.size() == n, "getRandomSite(%s,%d) can reach %zu of the %zu sites of the plane", p.n, k, w.size(), n);
      for (auto& x : w) REQ(c, std::fabs(x.second * n - 1.0) < 1e-2, "getRandomSite(%s,%d) gives site %d with probability %g, expected %g", p.n, k, x.first, x.second, 1.0 / n);
      c.visited(w.size());
    }
    for (long k : {-1L, -2L, (long)INT_MIN, (long)l.dim(p.axis), (long)l.dim(p.axis) + 1, (long)INT_MAX}) {
      Cuboid q = l.make();
      REQ(c, mc::throws([&] { q.getRandomSite(p.p, (int)k); }), "getRandomSite(%s,%ld) accepted", p.n, k);
    }
  }
  c.outcome(mc::hstr(l.str()));
  c.sample(l.str() + ": every plane, every draw");
}
}  // namespace

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool T = m.thorough();
  const std::vector<double> SP = {1.0, 0.5, 2.0, 0.1, 3e-10, 1.7, 1e6};
  {
    static std::vector<V3> d = small_dims(T ? 8 : 6);
    m.add("C24", "bijection_small", (int)d.size(), [](Ctx& c) {
      int b = c.choose(8), s = c.choose(3), k = c.choose(3);
      bijection(c, d[c.cfg], b, std::vector<double>{1.0, 0.25, 3e-10}[s], k, true);
    });
    static std::vector<V3> e = BIG;
    m.add("C24", "bijection_big", (int)e.size(), [](Ctx& c) { bijection(c, e[c.cfg], c.choose(8), 1.0, 2, true); });
    // lengths of which at least one is negative
    m.add("C24", "negative_lengths", 1, [](Ctx& c) {
      const int N[5] = {-1, -7, -1000, 1, 3};
      int l = N[c.choose(5)], w = N[c.choose(5)], h = N[c.choose(5)], k = c.choose(3);
      if (l > 0 && w > 0 && h > 0) return;
      c.label(strf("%dx%dx%d constructor %d", l, w, h, k));
      c.step();
      const BoundarySetting B[2] = {BoundarySetting::Fixed, BoundarySetting::Periodic};
      bool t = mc::throws([&] {
        if (k == 0) Cuboid q(l, w, h);
        else if (k == 1) Cuboid q(l, w, h, 0.5);
        else Cuboid q(l, w, h, 0.5, B[l > 0], B[w > 0], B[h > 0]);
      });
      REQ(c, t, "a lattice of %dx%dx%d sites was accepted", l, w, h);
      c.visited();
    });
    static std::vector<V3> f = HUGE_;
    m.add("C24", "bijection_huge", (int)f.size(), [](Ctx& c) { bijection(c, f[c.cfg], c.choose(8), 1.0, 2, false); });
  }
  {
    static std::vector<V3> d = small_dims(T ? 5 : 4);
    m.add("C25", "wrap_small", (int)d.size(), [](Ctx& c) { wrap(c, d[c.cfg], c.choose(8), true); });
    static std::vector<V3> e = BIG;
    for (auto& x : HUGE_) e.push_back(x);
    for (auto& x : small_dims(T ? 9 : 7)) e.push_back(x);
    m.add("C25", "wrap_big", (int)e.size(), [](Ctx& c) { wrap(c, e[c.cfg], c.choose(8), false); });
  }
  {
    // cutoffs in units of the spacing
    static std::vector<double> cuts = {0.0, 0.5, 0.99, 1.0, 1.3, 1.45, 1.6, 1.8, 2.0, 2.3, 2.6, 3.0, 3.2, 4.0, 5.0, 7.5, 1e3, 1e12, 1e300};
    static std::vector<V3> d = small_dims(T ? 5 : 4);
    static std::vector<double> sp = SP;
    m.add("C26", "neighbours_small", (int)d.size(), [](Ctx& c) {
      int b = c.choose(8);
      double s = sp[c.choose((int)(c.thorough ? sp.size() : 4))];
      const V3& v = d[c.cfg];
      neighbours(c, Lat{v[0], v[1], v[2], b, s}, cuts, true, true);
    });
    static std::vector<V3> e = {{5, 5, 5}, {6, 5, 4}, {7, 3, 2}, {2, 7, 3}, {3, 2, 7}, {1, 1, 20}, {20, 1, 1}, {1, 20, 1}, {8, 8, 1}, {1, 8, 8}, {8, 1, 8}, {6, 6, 6}};
    m.add("C26", "neighbours_mid", (int)e.size() * 8, [](Ctx& c) {
      const V3& v = e[c.cfg / 8];
      neighbours(c, Lat{v[0], v[1], v[2], c.cfg % 8, 1.0}, {1.0, 1.5, 2.0, 2.9, 3.7, 6.0, 100.0}, true, v[0] * v[1] * v[2] <= 130);
    });
    static std::vector<V3> h = {{31, 1, 1}, {1, 31, 1}, {1, 1, 31}, {40, 1, 1}, {4, 4, 4}, {7, 2, 3}, {3, 7, 2}, {2, 3, 7}};
    m.add("C26", "neighbours_at_cutoff", (int)h.size() * 8, [](Ctx& c) {
      const V3& v = h[c.cfg / 8];
      const std::vector<double> S = {0.7, 1.3, 1.1, 0.47, 0.1, 1.83, 0.03, 6.9, 548.0 / 3, 1e-9, 1.7, 0.119};
      double s = S[c.choose((int)S.size())];
      neighbours(c, Lat{v[0], v[1], v[2], c.cfg % 8, s}, {}, v[0] * v[1] * v[2] <= 64, true, true);
    });
    static std::vector<V3> f = {{15, 14, 13}, {40, 3, 2}, {2, 3, 40}, {3, 40, 2}, {200, 1, 1}, {1, 200, 2}, {16, 16, 16}};
    m.add("C26", "neighbours_big", (int)f.size() * 8, [](Ctx& c) {
      const V3& v = f[c.cfg / 8];
      int b = c.cfg % 8;
      neighbours(c, Lat{v[0], v[1], v[2], b, 1.0}, c.thorough ? std::vector<double>{1.0, 2.5, 7.2, 8.0, 25.0} : std::vector<double>{1.0, 2.5, 7.2}, false, false);
    });
  }
  {
    static std::vector<V3> d = small_dims(T ? 6 : 5);
    static std::vector<double> sp = SP;
    m.add("C27", "distance_small", (int)d.size(), [](Ctx& c) {
      int b = c.choose(8);
      double s = sp[c.choose((int)(c.thorough ? sp.size() : 3))];
      const V3& v = d[c.cfg];
      distances(c, Lat{v[0], v[1], v[2], b, s}, true);
    });
    static std::vector<V3> e = BIG;
    for (auto& x : {V3{64, 64, 64}, V3{200, 200, 200}, V3{1000, 1000, 1000}, V3{6, 7, 8}, V3{8, 6, 7}, V3{20000, 1, 1}, V3{1, 20000, 3}, V3{46342, 1, 1}, V3{1, 100000, 2}, V3{3, 2, 200000}, V3{30000, 40000, 1}, V3{1000000000, 1, 1}}) e.push_back(x);
    m.add("C27", "distance_big", (int)e.size() * 8, [](Ctx& c) {
      const V3& v = e[c.cfg / 8];
      distances(c, Lat{v[0], v[1], v[2], c.cfg % 8, c.cfg % 2 ? 1.0 : 0.3}, (long)v[0] * v[1] * v[2] <= 350);
    });
  }
  {
    static std::vector<V3> d = small_dims(T ? 7 : 5);
    for (auto& x : {V3{9, 2, 3}, V3{2, 9, 3}, V3{3, 2, 9}, V3{12, 1, 1}, V3{1, 12, 1}, V3{1, 1, 12}, V3{20, 11, 2}, V3{2, 20, 11}}) d.push_back(x);
    m.add("C28", "random_site", (int)d.size(), [](Ctx& c) {
      const V3& v = d[c.cfg];
      random_site(c, Lat{v[0], v[1], v[2], c.choose(8), 1.0});
    });
  }
  return m.run();
}
