#include <climits>
#include "draws.hpp"
#include "nets.hpp"
#include "libmythical/topologyfeatures/cluster.hpp"
#include "libmythical/topologyfeatures/site.hpp"
#include "mythical/constants.hpp"
using namespace mythical;
using mc::Ctx;
using mc::strf;
namespace {
std::vector<Net> NETS;
// a cluster made of a net; owns the rates
struct Made {
  Net N;
  Answer A;
  std::vector<RMap> r;
  Cluster cl;
  explicit Made(const Net& net) : N(net), A(answer(net)), r(net.rates()) {}
  Site site(int i) {
    Site s;
    s.setId(N.id[i]);
    s.setRatesToNeighbors(r[i]);
    return s;
  }
  // how: 0 addSite, 1 addSites, 2 in two steps with an update in between
  void build(int how = 0, int method = 0) {
    if (method == 0) { cl.setConvergenceMethod(Cluster::converge_by_tolerance); cl.setConvergenceTolerance(1e-13); }
    else if (method == 1) { cl.setConvergenceMethod(Cluster::converge_by_iterations_per_cluster); cl.setConvergenceIterations(6000); }
    else { cl.setConvergenceMethod(Cluster::converge_by_iterations_per_site); cl.setConvergenceIterations(2000); }
    std::vector<Site> v;
    for (int i = 0; i < N.n(); ++i) v.push_back(site(i));
    if (how == 0) for (auto& s : v) cl.addSite(s);
    else if (how == 1) cl.addSites(v);
    else {
      // backwards, one at a time
      for (size_t i = v.size(); i-- > 0;) cl.addSite(v[i]);
    }
    cl.updateProbabilitiesAndTimeConstant();
  }
  bool member(int id) const { return std::find(N.id.begin(), N.id.end(), id) != N.id.end(); }
  // runs walker w from its arrival until it picks a neighbour; every draw is u
  // returns the total time, `out` the neighbour, `slices` the dwell times
};

double tol_of(const Net& N) {
  // local equilibrium holds up to the ratio of the rates off to the slowest relaxation
  return N.eps > 1e-4 ? 0.08 : N.n() >= 8 ? 0.03 : 1e-3;
}

void exits(Ctx& c, Cluster& cl, const Net& N, const Answer& A, int K, int walker) {
  double tol = tol_of(N);
  auto nb = cl.getSiteIdsNeighboringCluster();
  std::set<int> s(nb.begin(), nb.end()), e;
  for (auto& x : A.exit) e.insert(x.first);
  REQ(c, s == e && s.size() == nb.size(), "getSiteIdsNeighboringCluster lists %zu sites, %zu sites border the cluster", nb.size(), e.size());
  double tot = 0;
  for (auto& x : A.exit) {
    double p = cl.getProbabilityOfHoppingToNeighborOfCluster(x.first);
    tot += p;
    REQ(c, std::fabs(p - x.second) <= tol * x.second + 1e-12, "probability to leave to %d is %.9g, in local equilibrium it is %.9g", x.first, p, x.second);
  }
  REQ(c, mc::close(tot, 1.0, 1e-9), "the probabilities to leave sum to %.12g", tot);
  REQ(c, cl.getFastestRateOffCluster() > 0 && mc::close(cl.getFastestRateOffCluster(), A.fastest, 1e-12), "fastest rate off the cluster %g, it is %g", cl.getFastestRateOffCluster(), A.fastest);
  // what a walker does, for every draw
  std::map<int, double> w;
  for (int v = 0; v < K; ++v) {
    double u = (v + 0.5) / K;
    // short stay whichever way the draw is used
    { DrawScript d({}, 0.99); cl.getDwellTime(walker); }
    int id = 0;
    bool in = true;
    for (int guard = 0; in; ++guard) {
      REQ(c, guard < 100000, "a walker never leaves the cluster");
      if (guard) { DrawScript d({}, 0.99); cl.getDwellTime(walker); }
      DrawScript d({}, u);
      id = cl.pickNewSiteId(walker);
      in = std::find(N.id.begin(), N.id.end(), id) != N.id.end();
    }
    REQ(c, A.exit.count(id), "a walker leaves to %d which does not border the cluster", id);
    w[id] += 1.0 / K;
    c.step();
  }
  for (auto& x : A.exit) {
    double t = tol * x.second + (A.exit.size() + 1.0) / K;
    REQ(c, std::fabs(w[x.first] - x.second) <= t, "walkers leave to %d with probability %g, in local equilibrium it is %g", x.first, w[x.first], x.second);
  }
  for (double u : {0.0, 1e-300, 1e-12, 1 - 1e-12, 1 - 1.0 / 9007199254740992.0}) {
    { DrawScript d({}, 0.99); cl.getDwellTime(walker); }
    int id = 0;
    for (int guard = 0; guard < 100000; ++guard) {
      if (guard) { DrawScript d({}, 0.99); cl.getDwellTime(walker); }
      DrawScript d({}, u);
      id = cl.pickNewSiteId(walker);
      if (A.exit.count(id)) break;
      REQ(c, std::find(N.id.begin(), N.id.end(), id) != N.id.end(), "for the draw %.17g a walker moves to %d, no site of the cluster and none next to it", u, id);
    }
    REQ(c, A.exit.count(id), "for the draw %.17g a walker never leaves", u);
  }
  c.visited(w.size());
}

// total time a walker stays when every draw during its stay is u; checks the slices
double stay(Ctx& c, Cluster& cl, const Net& N, const Answer& A, int w, double u, double pick_u, std::vector<double>* sl = nullptr) {
  double inc = cl.getTimeIncrement(), total = 0;
  for (int g = 0;; ++g) {
    REQ(c, g < 2000000, "the walker does not leave the cluster");
    double t;
    { DrawScript d({}, u); t = cl.getDwellTime(w); }
    REQ(c, std::isfinite(t) && t > 0, "time slice %g", t);
    REQ(c, t <= inc * (1 + 1e-12), "time slice %g is longer than the time increment %g", t, inc);
    if (sl) sl->push_back(t);
    total += t;
    int id;
    { DrawScript d({}, pick_u); id = cl.pickNewSiteId(w); }
    bool in = std::find(N.id.begin(), N.id.end(), id) != N.id.end();
    if (in) REQ(c, mc::close(t, inc, 1e-9), "a walker that stays got a slice of %g, the time increment is %g", t, inc);
    else { REQ(c, A.exit.count(id), "a walker leaves to %d which does not border the cluster", id); break; }
  }
  c.step();
  return total;
}

void residence(Ctx& c, Cluster& cl, const Net& N, const Answer& A, int K) {
  double tol = tol_of(N);
  REQ(c, mc::close(cl.getTimeConstant(), A.tau, tol), "time constant of the cluster %.9g, the mean time to leave it is %.9g", cl.getTimeConstant(), A.tau);
  double tau = cl.getTimeConstant();
  std::vector<double> got;
  for (int i = 0; i < K; ++i) got.push_back(stay(c, cl, N, A, i % 4, (i + 0.5) / K, (i * 7 % K + 0.5) / K));
  std::sort(got.begin(), got.end());
  for (int i = 0; i < K; ++i) {
    double e = -std::log((K - 1 - i + 0.5) / K) * tau;
    REQ(c, mc::close(got[i], e, 1e-7), "quantile %d/%d of the time spent in the cluster is %.9g, exponential with mean %.6g has %.9g", i, K, got[i], tau, e);
  }
  c.visited(K);
}

void shares(Ctx& c, Cluster& cl, const Net& N, const Answer& A, int K) {
  double tol = tol_of(N), tot = 0;
  for (int i = 0; i < N.n(); ++i) {
    double p = cl.getProbabilityOfOccupyingInternalSite(N.id[i]);
    tot += p;
    REQ(c, std::fabs(p - A.hop[i]) <= tol * A.hop[i] + 1e-12, "share of the hops to member %d is %.9g, in local equilibrium it is %.9g", N.id[i], p, A.hop[i]);
  }
  REQ(c, mc::close(tot, 1, 1e-9), "the shares sum to %.12g", tot);
  if (!K) return;
  // where a staying walker goes, for every draw
  std::map<int, double> w;
  double res = cl.getResolution();
  cl.setResolution(1e6);
  { DrawScript d({}, 0.5); cl.getDwellTime(9); }
  for (int v = 0; v < K; ++v) {
    DrawScript d({}, (v + 0.5) / K);
    int id = cl.pickNewSiteId(9);
    REQ(c, std::find(N.id.begin(), N.id.end(), id) != N.id.end(), "a walker that stays moves to %d, no member", id);
    w[id] += 1.0 / K;
    c.step();
    if (v % 16 == 15) { DrawScript d2({}, 0.5); cl.getDwellTime(9); }
  }
  for (double u : {0.0, 1e-300, 1 - 1e-12, 1 - 1.0 / 9007199254740992.0}) {
    DrawScript d({}, u);
    int id = cl.pickNewSiteId(9);
    REQ(c, std::find(N.id.begin(), N.id.end(), id) != N.id.end(), "for the draw %.17g a walker that stays moves to %d, no member", u, id);
  }
  for (int i = 0; i < N.n(); ++i) REQ(c, std::fabs(w[N.id[i]] - A.pi[i]) <= tol * A.pi[i] + (N.n() + 1.0) / K, "a staying walker is on member %d with probability %g, its share of the time is %g", N.id[i], w[N.id[i]], A.pi[i]);
  cl.setResolution(res);
  { cl.occupy(N.id[0]); cl.removeWalker(9, N.id[0]); }
  c.visited(w.size());
}

Net scaled(Net N, int k) {
  static const double S[5] = {1.0, 1e12, 1e-9, 3.7, 1e5};
  N.scale = S[k % 5];
  return N;
}
bool moderate(const Net& N) {
  // nets whose relaxation is not much slower than their rates, for the 1e-2 ratio
  double lo = 1e9, hi = 0;
  for (auto& r : N.k) for (double x : r) if (x > 0) { lo = std::min(lo, x); hi = std::max(hi, x); }
  return N.n() <= 3 && lo >= 0.5 && hi <= 10;
}
Net soft(Net N) {
  double w = 0;
  for (auto& e : N.ext) w += e.w;
  N.eps = 0.005 / w * N.n();
  return N;
}

// splits for merging: parts of a well connected net
struct Split { Net N; std::vector<std::vector<int>> part; };
std::vector<Split> splits(bool th) {
  std::vector<Split> out;
  const double W[3][5] = {{1, 1, 1, 1, 1}, {1, 2, 5, 3, 0.5}, {0.7, 7, 2, 1, 9}};
  for (int n : {4, 5, 6, 7}) for (int w = 0; w < 3; ++w) for (int p = 0; p < (th ? 7 : 3); ++p) for (int shape = 0; shape < 2; ++shape) {
    Net N;
    N.name = strf("%s%d", shape ? "chain" : "complete", n);
    N.id = ids_of(n, (n + w + p) % 3);
    N.k.assign(n, std::vector<double>(n, 0));
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && (!shape || std::abs(i - j) == 1)) N.k[i][j] = W[w][(i * 3 + j * 2) % 5];
    N.ext = pattern(n, p * 2 + w);
    std::vector<std::vector<std::vector<int>>> ps;
    auto range = [](int a, int b) { std::vector<int> r; for (int i = a; i < b; ++i) r.push_back(i); return r; };
    for (int cut = 2; cut <= n - 2; ++cut) { ps.push_back({range(0, cut), range(cut, n)}); ps.push_back({range(cut, n), range(0, cut)}); }
    if (n >= 6) { ps.push_back({range(0, 2), range(2, 4), range(4, n)}); ps.push_back({range(2, 4), range(0, 2), range(4, n)}); ps.push_back({range(4, n), range(2, 4), range(0, 2)}); }
    for (auto& q : ps) out.push_back(Split{N, q});
  }
  return out;
}
std::vector<Split> SPL;
std::vector<Split> CHG;
}  // namespace

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool T = m.thorough();
  NETS = nets(T);
  SPL = splits(T);
  const int n = (int)NETS.size();

  m.add("C11", "exit_law", n, [](Ctx& c) {
    int how = c.choose(3);
    Made q(scaled(NETS[c.cfg], c.cfg + how));
    c.label(q.N.str() + strf(" built %d", how));
    q.build(how);
    exits(c, q.cl, q.N, q.A, c.thorough ? 400 : 120, 3);
    // not changed by asking, nor by walkers passing through, nor by recalculating
    q.cl.updateProbabilitiesAndTimeConstant();
    exits(c, q.cl, q.N, q.A, 40, -5);
    Cluster cp = q.cl;
    exits(c, cp, q.N, q.A, 40, 0);
    c.outcome(mc::hstr(q.N.name));
    c.sample(c.label_);
  });
  m.add("C11", "exit_law_finite_separation", n, [](Ctx& c) {
    if (!moderate(NETS[c.cfg])) return;
    Made q(soft(NETS[c.cfg]));
    c.label(q.N.str());
    q.build(1);
    exits(c, q.cl, q.N, q.A, 120, 3);
  });
  m.add("C12", "residence_law", n, [](Ctx& c) {
    int res = c.choose(4), how = c.choose(2);
    Made q(scaled(NETS[c.cfg], c.cfg + res));
    c.label(q.N.str() + strf(" resolution %d", res));
    if (res == 1) q.cl.setResolution(7.0);
    q.build(how);
    if (res == 2) q.cl.setResolution(2.0);
    if (res == 3) q.cl.setResolution(33.25);
    residence(c, q.cl, q.N, q.A, c.thorough ? 101 : 31);
    q.cl.updateProbabilitiesAndTimeConstant();
    residence(c, q.cl, q.N, q.A, 7);
    // different draws for the slices: only the first counts
    c.outcome(mc::hstr(q.N.name));
    c.sample(c.label_);
  });
  m.add("C12", "residence_law_finite_separation", n, [](Ctx& c) {
    if (!moderate(NETS[c.cfg])) return;
    Made q(soft(NETS[c.cfg]));
    c.label(q.N.str());
    q.build(1);
    residence(c, q.cl, q.N, q.A, 13);
  });
  m.add("C13", "internal_shares", n, [](Ctx& c) {
    int method = c.choose(3);
    Made q(scaled(NETS[c.cfg], c.cfg + method));
    if (method && (q.N.n() > 6 || (!c.thorough && q.N.n() >= 4 && c.cfg % 8))) return;
    c.label(q.N.str() + strf(" method %d", method));
    q.build(method, method);
    shares(c, q.cl, q.N, q.A, method == 0 ? (c.thorough ? 600 : 150) : 0);
    if (method == 0) { q.cl.updateProbabilitiesAndTimeConstant(); shares(c, q.cl, q.N, q.A, 60); }
    c.outcome(mc::hstr(q.N.name));
    c.sample(c.label_);
  });
  m.add("C13", "internal_shares_finite_separation", n, [](Ctx& c) {
    if (!moderate(NETS[c.cfg])) return;
    Made q(soft(NETS[c.cfg]));
    c.label(q.N.str());
    q.build(1);
    shares(c, q.cl, q.N, q.A, 100);
  });
  m.add("C13", "convergence_settings", 60, [](Ctx& c) {
    // iterations per site x sites = iterations per cluster; more iterations come closer
    const Net& base = NETS[140 + c.cfg * 7 % 500];
    std::vector<std::vector<double>> p;
    Answer A = answer(base);
    double last = 1e9;
    for (long it : {1L, 2L, 3L, 5L, 9L, 20L, 60L, 200L}) {
      std::vector<double> a, b;
      for (int k = 0; k < 2; ++k) {
        Made q(base);
        q.cl.setConvergenceMethod(k ? Cluster::converge_by_iterations_per_site : Cluster::converge_by_iterations_per_cluster);
        q.cl.setConvergenceIterations(k ? it : it * q.N.n());
        REQ(c, q.cl.getConvergenceIterations() == (k ? it : it * q.N.n()), "iterations not as set");
        for (int i = 0; i < q.N.n(); ++i) { Site s = q.site(i); q.cl.addSite(s); }
        q.cl.updateProbabilitiesAndTimeConstant();
        double t = 0;
        for (int i = 0; i < q.N.n(); ++i) { (k ? a : b).push_back(q.cl.getProbabilityOfOccupyingInternalSite(q.N.id[i])); t += (k ? a : b).back(); }
        REQ(c, mc::close(t, 1, 1e-9), "the shares sum to %g after %ld iterations", t, it);
        c.step();
      }
      double err = 0;
      for (size_t i = 0; i < a.size(); ++i) { REQ(c, mc::close(a[i], b[i], 1e-9, 1e-12), "%ld iterations per site of %d sites differ from %ld per cluster", it, (int)a.size(), it * (long)a.size()); err = std::max(err, std::fabs(a[i] - A.hop[i])); }
      c.label(base.str() + strf(" iterations %ld", it));
      if (it == 200) REQ(c, err < 2e-2, "200 iterations per site are still off by %g", err);
      (void)last;
      last = err;
    }
    for (double tol : {1e-2, 1e-3, 1e-5, 1e-8}) {
      Made q(base);
      q.cl.setConvergenceMethod(Cluster::converge_by_tolerance);
      q.cl.setConvergenceTolerance(tol);
      REQ(c, q.cl.getConvergenceTolerance() == tol, "tolerance not as set");
      for (int i = 0; i < q.N.n(); ++i) { Site s = q.site(i); q.cl.addSite(s); }
      q.cl.updateProbabilitiesAndTimeConstant();
      for (int i = 0; i < q.N.n(); ++i) {
        double d = std::fabs(q.cl.getProbabilityOfOccupyingInternalSite(q.N.id[i]) - A.hop[i]);
        REQ(c, d <= 300 * tol, "with tolerance %g member %d is off by %g", tol, q.N.id[i], d);
      }
      c.step();
    }
    c.visited();
    c.sample(base.str());
  });
  // ---- C14
  m.add("C14", "slices", n, [](Ctx& c) {
    int ri = c.choose(5);
    const double RES[5] = {2.0, 3.7, 20.0, 50.0, 400.0};
    Made q(scaled(NETS[c.cfg], c.cfg + ri));
    c.label(q.N.str() + strf(" resolution %g", RES[ri]));
    int when = c.choose(2);
    if (when) q.cl.setResolution(RES[ri]);
    q.build(1);
    if (!when) q.cl.setResolution(RES[ri]);
    REQ(c, q.cl.getResolution() == RES[ri], "resolution %g, set to %g", q.cl.getResolution(), RES[ri]);
    double tau = q.cl.getTimeConstant(), inc = q.cl.getTimeIncrement();
    REQ(c, mc::close(inc, tau / RES[ri], 1e-12), "time increment %g, time constant/resolution is %g", inc, tau / RES[ri]);
    for (double u : {0.999, 0.9, 0.5, 0.3, 0.1, 1e-3, 1e-9, std::exp(-1.0 / RES[ri]), std::exp(-2.0 / RES[ri]), std::exp(-1.0)}) {
      std::vector<double> sl;
      double t = stay(c, q.cl, q.N, q.A, 1, u, 0.4, &sl);
      double e1 = -std::log(u) * tau, e2 = -std::log1p(-u) * tau;
      REQ(c, mc::close(t, e1, 1e-7) || mc::close(t, e2, 1e-7), "the slices add up to %.9g for the draw %g and the time constant %.9g", t, u, tau);
      double ex = t / inc;
      REQ(c, std::fabs(sl.size() - std::ceil(ex - 1e-6)) < 1.5, "%zu slices for %g time increments", sl.size(), ex);
      for (size_t i = 0; i + 1 < sl.size(); ++i) REQ(c, mc::close(sl[i], inc, 1e-12), "slice %zu is %g, the time increment is %g", i, sl[i], inc);
    }
    c.visited();
    c.outcome(mc::hmix(mc::hstr(q.N.name), ri));
    c.sample(c.label_);
  });
  m.add("C14 C04", "walkers_do_not_interfere", 24, [](Ctx& c) {
    // every interleaving of the slices of three walkers, with removals
    const int pick[6] = {0, 30, 150, 300, 700, 900};
    Made q(NETS[pick[c.cfg % 6] % NETS.size()]);
    q.build(1);
    q.cl.setResolution(c.cfg / 6 % 2 ? 2.0 : 3.0);
    double tau = q.cl.getTimeConstant(), inc = q.cl.getTimeIncrement();
    const int wid[3] = {c.cfg / 12 ? 0 : 7, c.cfg / 12 ? -1 : 8, c.cfg / 12 ? 1 << 30 : 2};
    const double U[3] = {0.35, 0.6, 0.08};
    struct W { bool in = false, out = false; double left = 0; } w[3];
    int depth = c.thorough ? 9 : 7;
    std::string tr = q.N.str();
    for (int d = 0; d < depth; ++d) {
      uint64_t h = 5;
      for (auto& x : w) h = mc::hmix(mc::hmix(h, x.in * 2 + x.out), (uint64_t)std::llround(x.left / inc * 1e6));
      c.state(h, depth - d);
      int op = c.choose(6), k = op % 3;
      c.step();
      if (op < 3) {
        int slot = (d + k) % 3;
        DrawScript ds({}, U[slot]);
        double t = q.cl.getDwellTime(wid[k]);
        bool fresh = !w[k].in;
        if (fresh) {
          w[k].in = true;
          double e1 = -std::log(U[slot]) * tau, e2 = -std::log1p(-U[slot]) * tau;
          // which way the draw is used shows in the first slice
          w[k].left = e1;
          double s1 = std::min(e1, inc);
          if (!mc::close(t, s1, 1e-9)) w[k].left = e2;
        }
        double e = std::min(w[k].left, inc);
        tr += strf(" stay(%d,u=%g)", wid[k], U[slot]);
        c.label(tr);
        REQ(c, mc::close(t, e, 1e-7), "walker %d gets a slice of %.9g, %.9g of its stay is left and the time increment is %.9g", wid[k], t, w[k].left, inc);
        w[k].left -= t;
        int id = q.cl.pickNewSiteId(wid[k]);
        bool in = q.member(id);
        if (w[k].left > inc * 1e-9) REQ(c, in, "walker %d leaves with %.9g of its stay left", wid[k], w[k].left);
        if (w[k].left < -inc * 1e-9 || (!in)) { REQ(c, !in && q.A.exit.count(id), "walker %d stays although its time is over", wid[k]); w[k] = W(); }
      } else if (w[k].in) {
        tr += strf(" remove(%d)", wid[k]);
        q.cl.occupy(q.N.id[0]);
        q.cl.removeWalker(wid[k], q.N.id[0]);
        REQ(c, !q.cl.isOccupied(q.N.id[0]), "the site of a removed walker is occupied");
        w[k] = W();
      }
      c.label(tr);
    }
    c.sample(tr);
  });
  m.add("C14 C04", "many_walkers", 24, [](Ctx& c) {
    // a hundred walkers take turns in one cluster; every seventh is taken out on the way and comes back
    const int pick[6] = {0, 30, 150, 300, 700, 900};
    Made q(NETS[pick[c.cfg % 6] % NETS.size()]);
    q.build(1);
    q.cl.setResolution(c.cfg / 6 % 2 ? 2.5 : 11.0);
    double tau = q.cl.getTimeConstant(), inc = q.cl.getTimeIncrement();
    const int W = c.cfg / 12 ? 100 : 37;
    int conv = 0;
    { DrawScript ds({}, 0.95); double t = q.cl.getDwellTime(-5); conv = mc::close(t, std::min(inc, -std::log(0.95) * tau), 1e-9) ? 1 : 2; q.cl.occupy(q.N.id[0]); q.cl.removeWalker(-5, q.N.id[0]); }
    std::vector<double> left(W, -1);
    std::vector<int> stays(W, 0);
    c.label(q.N.str() + strf(" %d walkers", W));
    for (int r = 0; r < 60; ++r) for (int k = 0; k < W; ++k) {
      int i = r % 2 ? W - 1 - k : k, id = i * 257 - 4000;
      double u = ((i * 37 + stays[i] * 11) % 97 + 0.5) / 97;
      if (i % 7 == 3 && r % 9 == 8 && left[i] > 0) {
        q.cl.occupy(q.N.id[0]);
        q.cl.removeWalker(id, q.N.id[0]);
        left[i] = -1;
        continue;
      }
      DrawScript ds({}, u);
      double t = q.cl.getDwellTime(id);
      if (left[i] < 0) { left[i] = conv == 1 ? -std::log(u) * tau : -std::log1p(-u) * tau; ++stays[i]; }
      double e = std::min(left[i], inc);
      REQ(c, mc::close(t, e, 1e-6), "walker %d of %d gets a slice of %.9g, %.9g of its stay is left and the time increment is %.9g", id, W, t, left[i], inc);
      left[i] -= t;
      bool in = q.member(q.cl.pickNewSiteId(id));
      if (left[i] > inc * 1e-6) REQ(c, in, "walker %d of %d leaves with %.9g of its stay left", id, W, left[i]);
      else if (!in) left[i] = -1;
      else { REQ(c, left[i] > -inc * 1e-6, "walker %d stays although its time is over", id); }
      c.step();
    }
    c.visited();
    c.sample(c.label_);
  });
  // ---- C15
  m.add("C15", "merging", (int)SPL.size(), [](Ctx& c) {
    Split& S = SPL[c.cfg];
    int how = c.choose(3);   // migrate, add the sites, migrate with walkers around
    int ph = c.choose(3);
    Made whole(scaled(S.N, how));
    c.label(whole.N.str() + strf(" %zu parts how %d", S.part.size(), how));
    std::vector<Cluster> cl(S.part.size());
    std::map<int, int> visits;
    std::set<int> occ;
    for (size_t p = 0; p < S.part.size(); ++p) {
      cl[p].setConvergenceMethod(Cluster::converge_by_tolerance);
      cl[p].setConvergenceTolerance(1e-13);
      for (int i : S.part[p]) { Site s = whole.site(i); cl[p].addSite(s); }
      cl[p].updateProbabilitiesAndTimeConstant();
      for (int i : S.part[p]) {
        int id = whole.N.id[i];
        int v = (ph == 0 ? 0 : 11 * (i + 1) + 1000 * (ph - 1));
        cl[p].setVisitFrequency(v, id);
        REQ(c, cl[p].getVisitFrequency(id) == v, "visits of %d are %d, set to %d", id, cl[p].getVisitFrequency(id), v);
        visits[id] = v;
      }
    }
    int A = cl[0].getId();
    cl[0].setResolution(13.0);
    if (how == 2) for (size_t p = 0; p < cl.size(); ++p) {
      int id = whole.N.id[S.part[p].back()];
      cl[p].occupy(id);
      occ.insert(id);
      DrawScript d({}, 0.4);
      cl[p].getDwellTime(50 + (int)p);
      cl[p].pickNewSiteId(50 + (int)p);
      for (auto& x : S.part[p]) visits[whole.N.id[x]] = cl[p].getVisitFrequency(whole.N.id[x]);
    }
    std::set<int> sites;
    for (int i : S.part[0]) sites.insert(whole.N.id[i]);
    for (size_t p = 1; p < cl.size(); ++p) {
      if (how == 1) {
        std::vector<Site> v;
        for (int i : S.part[p]) v.push_back(whole.site(i));
        cl[0].addSites(v);
        cl[0].updateProbabilitiesAndTimeConstant();
        for (int i : S.part[p]) visits[whole.N.id[i]] = 0;
      } else {
        cl[0].migrateSitesFrom(cl[p]);
        REQ(c, cl[p].getNumberOfSitesInCluster() == 0 && cl[p].getSiteIdsInCluster().empty() && cl[p].getSitesInCluster().empty() && cl[p].getSiteIdsNeighboringCluster().empty(), "sites are left in the cluster that was merged");
        for (int i : S.part[p]) REQ(c, !cl[p].siteIsInCluster(whole.N.id[i]), "site %d is still in the cluster that was merged", whole.N.id[i]);
      }
      for (int i : S.part[p]) sites.insert(whole.N.id[i]);
      auto g = cl[0].getSiteIdsInCluster();
      REQ(c, std::set<int>(g.begin(), g.end()) == sites && g.size() == sites.size(), "the merged cluster does not have all sites once");
      REQ(c, cl[0].getNumberOfSitesInCluster() == (int)sites.size(), "getNumberOfSitesInCluster %d of %zu", cl[0].getNumberOfSitesInCluster(), sites.size());
      for (auto& s : cl[0].getSitesInCluster()) REQ(c, s.getClusterId() == A && s.partOfCluster(), "site %d is marked with cluster %d instead of %d", s.getId(), s.getClusterId(), A);
      for (auto& v : visits) if (sites.count(v.first)) {
        REQ(c, cl[0].siteIsInCluster(v.first), "site %d missing", v.first);
        REQ(c, std::abs(cl[0].getVisitFrequency(v.first) - v.second) <= 0, "site %d has %d visits after merging, it had %d", v.first, cl[0].getVisitFrequency(v.first), v.second);
        REQ(c, cl[0].isOccupied(v.first) == (occ.count(v.first) && sites.count(v.first)), "occupation of site %d changed by merging", v.first);
      }
    }
    REQ(c, cl[0].getId() == A, "the id of the cluster changed");
    REQ(c, cl[0].getResolution() == 13.0 && mc::close(cl[0].getTimeIncrement(), cl[0].getTimeConstant() / 13.0, 1e-12), "time increment %g does not follow the time constant %g", cl[0].getTimeIncrement(), cl[0].getTimeConstant());
    exits(c, cl[0], whole.N, whole.A, 30, 3);
    residence(c, cl[0], whole.N, whole.A, 5);
    shares(c, cl[0], whole.N, whole.A, how == 2 ? 0 : 40);
    c.outcome(mc::hmix(mc::hstr(S.N.name), how));
    c.sample(c.label_);
  });
  m.add("C15", "adding_twice_and_ids", 200, [](Ctx& c) {
    Made q(NETS[c.cfg * 3]);
    q.build(c.cfg % 3);
    std::set<int> ids(q.N.id.begin(), q.N.id.end());
    auto g = q.cl.getSiteIdsInCluster();
    REQ(c, std::set<int>(g.begin(), g.end()) == ids && g.size() == ids.size(), "members wrong");
    for (int i : ids) REQ(c, q.cl.siteIsInCluster(i), "member %d missing", i);
    for (auto& e : q.A.exit) REQ(c, !q.cl.siteIsInCluster(e.first), "neighbour %d is a member", e.first);
    for (auto& s : q.cl.getSitesInCluster()) REQ(c, s.getClusterId() == q.cl.getId(), "member %d is marked with cluster %d", s.getId(), s.getClusterId());
    // updating again changes nothing
    double t = q.cl.getTimeConstant();
    std::map<int, double> ex;
    for (auto& e : q.A.exit) ex[e.first] = q.cl.getProbabilityOfHoppingToNeighborOfCluster(e.first);
    for (int k = 0; k < 3; ++k) {
      q.cl.updateProbabilitiesAndTimeConstant();
      REQ(c, mc::close(q.cl.getTimeConstant(), t, 1e-9), "the time constant drifts from %g to %g when recalculated", t, q.cl.getTimeConstant());
      for (auto& e : ex) REQ(c, mc::close(q.cl.getProbabilityOfHoppingToNeighborOfCluster(e.first), e.second, 1e-9), "the probability to leave drifts when recalculated");
      auto nb = q.cl.getSiteIdsNeighboringCluster();
      REQ(c, nb.size() == q.A.exit.size(), "%zu neighbours after recalculating, %zu border the cluster", nb.size(), q.A.exit.size());
    }
    Cluster a, b;
    REQ(c, a.getId() != b.getId() && a.getId() != q.cl.getId() && a.getId() >= 0, "two clusters share the id %d", a.getId());
    c.step();
    c.visited();
  });
  // ---- C16
  m.add("C16", "cluster_rates_live", 200, [](Ctx& c) {
    Made q(NETS[(c.cfg * 5) % NETS.size()]);
    q.build(1);
    std::string tr = q.N.str();
    int depth = c.thorough ? 3 : 2;
    for (int d = 0; d < depth; ++d) {
      int op = c.choose(5);
      // change the rates where they live; the net mirrors it
      auto setk = [&](int i, int j, double v) { if (q.N.k[i][j] > 0) { q.N.k[i][j] = v; q.r[i][q.N.id[j]] = v * q.N.scale; } };
      int n2 = q.N.n();
      if (op == 0) setk(0, 1, q.N.k[0][1] * 7);
      else if (op == 1) for (int i = 0; i < n2; ++i) setk(i, 0, q.N.k[i][0] * 0.2);
      else if (op == 2) for (int i = 0; i < n2; ++i) for (int j = 0; j < n2; ++j) setk(i, j, q.N.k[i][j] * (1 + (i + j) % 3));
      else if (op == 3) { q.N.ext[0].w *= 5; q.r[q.N.ext[0].from][q.N.ext[0].to] += 4.0 / 5 * q.N.erate(q.N.ext[0]); }
      else { for (auto& e : q.N.ext) { double o = q.N.erate(e); e.w *= 3; q.r[e.from][e.to] += q.N.erate(e) - o; } }
      tr += strf(" change%d", op);
      c.label(tr);
      q.A = answer(q.N);
      REQ(c, mc::close(q.cl.getFastestRateOffCluster(), q.A.fastest, 1e-9), "fastest rate off %g, it is %g", q.cl.getFastestRateOffCluster(), q.A.fastest);
      q.cl.updateProbabilitiesAndTimeConstant();
      exits(c, q.cl, q.N, q.A, 30, 3);
      residence(c, q.cl, q.N, q.A, 5);
      shares(c, q.cl, q.N, q.A, 60);
      c.outcome(mc::hstr(tr));
    }
    c.sample(tr);
  });
  // ---- C17
  m.add("C17", "visit_estimate", n, [](Ctx& c) {
    int ri = c.choose(4), every = c.choose(2);
    const double RES[4] = {2.0, 5.5, 20.0, 300.0};
    Net base = scaled(NETS[c.cfg], c.cfg + ri);
    base.eps = 1e-5;
    {
      // a clear signal that still fits an int
      Answer a0 = answer(base);
      double mx = 0;
      for (int i = 0; i < base.n(); ++i) { double K = 0; for (double x : base.k[i]) K += x; mx = std::max(mx, a0.tau * a0.pi[i] * K * base.scale); }
      if (mx > 1e7) base.eps *= mx / 1e7;
      if (base.eps > 1e-4) return;
    }
    Made q(base);
    q.build(1);
    q.cl.setResolution(RES[ri]);
    c.label(q.N.str() + strf(" resolution %g, %s", RES[ri], every ? "asked often" : "asked once"));
    int nn = q.N.n();
    std::vector<int> start(nn), last(nn);
    for (int i = 0; i < nn; ++i) { start[i] = c.cfg % 2 ? 100 * i : 0; if (start[i]) q.cl.setVisitFrequency(start[i], q.N.id[i]); last[i] = q.cl.getVisitFrequency(q.N.id[i]); REQ(c, last[i] == start[i], "%d visits before any walker came", last[i]); }
    int N = 0;
    auto expected = [&](int i) {
      double K = 0;
      for (double x : q.N.k[i]) K += x;
      K *= q.N.scale;
      return start[i] + N * q.A.tau * (1 - std::exp(-1.0 / RES[ri])) * q.A.pi[i] * K;
    };
    // big enough for a clear signal, small enough for an int
    for (int round = 0; round < 41 + (int)(c.cfg % 3); ++round) {
      int id = q.N.id[round % nn];
      q.cl.occupy(id);
      REQ(c, q.cl.isOccupied(id), "not occupied");
      q.cl.vacate(id);
      ++N;
      if (every) for (int i = 0; i < nn; ++i) {
        int v = q.cl.getVisitFrequency(q.N.id[i]);
        REQ(c, v >= last[i], "the visits of %d went down from %d to %d", q.N.id[i], last[i], v);
        REQ(c, q.cl.getVisitFrequency(q.N.id[i]) == v, "asking again for the visits of %d changes them", q.N.id[i]);
        last[i] = v;
        double e = expected(i);
        if (e < 1e9) REQ(c, std::fabs(v - e) <= 0.02 * (e - start[i]) + 1.01, "%d visits to member %d after %d stays, expected %.1f", v, q.N.id[i], N, e);
      }
      c.step();
    }
    for (int i = 0; i < nn; ++i) {
      double e = expected(i);
      int v = q.cl.getVisitFrequency(q.N.id[i]);
      if (e > 1e9) continue;
      REQ(c, std::fabs(v - e) <= 0.02 * (e - start[i]) + 1.01, "%d visits to member %d for %d stays, expected %.1f", v, q.N.id[i], N, e);
      q.cl.updateProbabilitiesAndTimeConstant();
      REQ(c, q.cl.getVisitFrequency(q.N.id[i]) == v, "recalculating changes the visits of %d from %d to %d", q.N.id[i], v, q.cl.getVisitFrequency(q.N.id[i]));
    }
    c.visited();
    c.outcome(mc::hmix(mc::hstr(q.N.name), ri));
    c.sample(c.label_);
  });
  m.add("C17", "visit_estimate_far", 40, [](Ctx& c) {
    // thousands of arrivals, and estimates beyond what an int can hold
    Net base = NETS[(size_t)(c.cfg * 31) % NETS.size()];
    bool big = c.cfg % 2;
    base.eps = big ? 1e-9 : 1e-5;
    Made q(base);
    q.build(1);
    q.cl.setResolution(big ? 2.0 : 400.0);
    int nn = q.N.n(), rounds = big ? 400 : 40000, N = 0;
    std::vector<int> last(nn, 0);
    c.label(q.N.str() + strf(" %d arrivals", rounds));
    for (int r = 0; r < rounds; ++r) {
      int id = q.N.id[r % nn];
      q.cl.occupy(id);
      q.cl.vacate(id);
      ++N;
      if (r % (big ? 7 : 997) && r + 1 < rounds) continue;
      for (int i = 0; i < nn; ++i) {
        int v = q.cl.getVisitFrequency(q.N.id[i]);
        double K = 0;
        for (double x : q.N.k[i]) K += x;
        double e = N * q.A.tau * (1 - std::exp(-1.0 / (big ? 2.0 : 400.0))) * q.A.pi[i] * K * q.N.scale;
        REQ(c, v >= last[i], "the visits of %d went down from %d to %d", q.N.id[i], last[i], v);
        if (e < 2e9) REQ(c, std::fabs(v - e) <= 0.02 * e + 1.01, "%d visits to member %d after %d arrivals, expected %.1f", v, q.N.id[i], N, e);
        last[i] = v;
      }
      if (r % 5 == 0) q.cl.updateProbabilitiesAndTimeConstant();
      c.step();
    }
    c.visited();
    c.sample(c.label_);
  });
  // ---- C18
  m.add("C18", "cluster_occupation", 60, [](Ctx& c) {
    if (!c.thorough && c.cfg % 4 > 1) return;
    Made q(NETS[(c.cfg * 37) % 1500 % NETS.size()]);
    std::set<int> occ;
    int nn = std::min(q.N.n(), 3);
    unsigned pre = c.choose(1 << nn);
    std::vector<Site> all;
    for (int i = 0; i < q.N.n(); ++i) { Site s = q.site(i); if (i < nn && pre >> i & 1) { s.occupy(); occ.insert(q.N.id[i]); } all.push_back(s); }
    if (c.cfg % 2) q.cl.addSites(all);
    else for (auto& s : all) q.cl.addSite(s);
    q.cl.updateProbabilitiesAndTimeConstant();
    std::string tr = q.N.name + strf(" occupied at first %u", pre);
    int depth = c.thorough ? 6 : 4;
    for (int d = 0; d <= depth; ++d) {
      c.label(tr);
      for (int i = 0; i < q.N.n(); ++i) REQ(c, q.cl.isOccupied(q.N.id[i]) == (occ.count(q.N.id[i]) != 0), "isOccupied(%d)=%d", q.N.id[i], q.cl.isOccupied(q.N.id[i]));
      REQ(c, q.cl.isOccupied() == !occ.empty(), "the cluster isOccupied()=%d with %zu walkers on it", q.cl.isOccupied(), occ.size());
      c.visited();
      if (d == depth) break;
      int op = c.choose(nn + 2), i = op % nn;
      int id = q.N.id[i];
      c.step();
      if (op >= nn) { if (op == nn) q.cl.updateProbabilitiesAndTimeConstant(); else { Cluster cp = q.cl; q.cl = cp; } tr += op == nn ? " update" : " copy"; continue; }
      if (!occ.count(id)) { q.cl.occupy(id); occ.insert(id); tr += strf(" occupy(%d)", id); }
      else {
        if (d % 2) q.cl.vacate(id); else { DrawScript ds({}, 0.5); q.cl.getDwellTime(i); q.cl.removeWalker(i, id); }
        occ.erase(id);
        tr += strf(" vacate(%d)", id);
      }
    }
    c.outcome(mc::hstr(tr));
    c.sample(tr);
  });
  // sites that stand alone, join a cluster, and clusters that merge, while walkers come and go
  m.add("C18", "occupation_and_lumping", 12, [](Ctx& c) {
    Net N;
    N.name = "complete4";
    N.id = ids_of(4, c.cfg % 3);
    N.k.assign(4, std::vector<double>(4, 1.0));
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) N.k[i][j] = i == j ? 0 : 1.0 + (i + 2 * j) % 3;
    N.ext = pattern(4, c.cfg % 7);
    Made q(N);
    const int form = c.cfg / 3;  // of members 2 and 3: 0 both free, 1 a cluster, 2 one at a time, 3 a cluster, joining the other way round
    Cluster other;
    std::vector<Site> site;
    unsigned pre = c.choose(16);
    std::set<int> occ;
    int where[4] = {-1, -1, -1, -1};  // -1 free, 0 in q.cl, 1 in other
    for (int i = 0; i < 4; ++i) {
      site.push_back(q.site(i));
      if (pre >> i & 1) { site[i].occupy(); occ.insert(i); }
    }
    { std::vector<Site> v = {site[0], site[1]}; q.cl.addSites(v); q.cl.updateProbabilitiesAndTimeConstant(); where[0] = where[1] = 0; }
    if (form == 1 || form == 3) { other.addSite(site[2]); other.addSite(site[3]); other.updateProbabilitiesAndTimeConstant(); where[2] = where[3] = 1; }
    std::string tr = strf("complete4 form %d occupied at first %u:", form, pre);
    auto f = [&](int i) -> TopologyFeature& { return where[i] < 0 ? (TopologyFeature&)site[i] : where[i] == 0 ? (TopologyFeature&)q.cl : (TopologyFeature&)other; };
    int depth = c.thorough ? 6 : 4;
    for (int d = 0; d <= depth; ++d) {
      c.label(tr);
      for (int i = 0; i < 4; ++i) REQ(c, f(i).isOccupied(N.id[i]) == (occ.count(i) != 0), "%s reports site %d %s", where[i] < 0 ? "the site" : "its cluster", N.id[i], occ.count(i) ? "free, a walker is on it" : "occupied, no walker is on it");
      for (int w = 0; w < 2; ++w) {
        bool any = false, has = false;
        for (int i = 0; i < 4; ++i) if (where[i] == w) { has = true; any = any || occ.count(i); }
        if (has) REQ(c, (w ? other : q.cl).isOccupied() == any, "cluster reported %s", any ? "free" : "occupied");
        if (!has) continue;
        for (auto& s : (w ? other : q.cl).getSitesInCluster()) for (int i = 0; i < 4; ++i) if (N.id[i] == s.getId()) REQ(c, s.isOccupied() == (occ.count(i) != 0), "member %d of the cluster is reported %s", N.id[i], occ.count(i) ? "free" : "occupied");
      }
      c.visited();
      if (d == depth) break;
      int op = c.choose(5);
      c.step();
      if (op < 4) {
        if (occ.count(op)) { f(op).vacate(N.id[op]); occ.erase(op); tr += strf(" vacate(%d)", N.id[op]); }
        else { f(op).occupy(N.id[op]); occ.insert(op); tr += strf(" occupy(%d)", N.id[op]); }
        continue;
      }
      if (where[2] < 0 && form == 0) { std::vector<Site> v = {site[3], site[2]}; q.cl.addSites(v); where[2] = where[3] = 0; tr += " join(2,3)"; q.cl.updateProbabilitiesAndTimeConstant(); }
      else if (where[2] < 0) { q.cl.addSite(site[2]); where[2] = 0; tr += " join(2)"; q.cl.updateProbabilitiesAndTimeConstant(); }
      else if (where[3] < 0) { std::vector<Site> v = {site[3]}; q.cl.addSites(v); where[3] = 0; tr += " join(3)"; q.cl.updateProbabilitiesAndTimeConstant(); }
      else if (where[2] == 1 && form == 1) { q.cl.migrateSitesFrom(other); where[2] = where[3] = 0; tr += " merge"; }
      else if (where[0] == 0 && form == 3) { other.migrateSitesFrom(q.cl); for (int& w : where) w = 1; tr += " merge"; }
      else { (where[0] ? other : q.cl).updateProbabilitiesAndTimeConstant(); tr += " update"; }
    }
    c.outcome(mc::hstr(tr));
    c.sample(tr);
  });
  return m.run();
}
