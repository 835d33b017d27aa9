// The whole system: every sequence of hops, removals and arrivals of walkers with every
// outcome of the random draws (from a small alphabet) on small graphs, against a model
// of where the walkers are, which sites are coarse grained and how long walkers stay.
#include <array>
#include "draws.hpp"
#include "nets.hpp"
#include "mythical/coarsegrainsystem.hpp"
#include "mythical/constants.hpp"
#include "mythical/walker.hpp"
#include "libmythical/topologyfeatures/site.hpp"
using namespace mythical;
using mc::Ctx;
using mc::strf;
namespace {
typedef std::unordered_map<int, std::unordered_map<int, double>> Rates;
typedef std::pair<int, std::shared_ptr<Walker>> WP;

struct Graph {
  std::string name;
  std::map<int, std::map<int, double>> k;
  std::set<int> sites() const {
    std::set<int> s;
    for (auto& a : k) { s.insert(a.first); for (auto& b : a.second) s.insert(b.first); }
    return s;
  }
  bool drain(int s) const { return !k.count(s); }
  Rates rates() const {
    Rates r;
    for (auto& a : k) for (auto& b : a.second) r[a.first][b.first] = b.second;
    return r;
  }
  double fastest(int s) const {
    double f = 0;
    auto it = k.find(s);
    if (it != k.end()) for (auto& b : it->second) f = std::max(f, b.second);
    return f;
  }
  std::string str() const {
    std::string s = name + ":";
    for (auto& a : k) for (auto& b : a.second) s += strf(" %d>%d:%g", a.first, b.first, b.second);
    return s;
  }
};

// the longest of the shortest times between two of the sites
double traverse(const Graph& g, const std::set<int>& s) {
  std::vector<int> v(s.begin(), s.end());
  size_t n = v.size();
  std::vector<std::vector<double>> d(n, std::vector<double>(n, INFINITY));
  for (size_t i = 0; i < n; ++i) {
    d[i][i] = 0;
    auto it = g.k.find(v[i]);
    if (it == g.k.end()) continue;
    for (size_t j = 0; j < n; ++j) { auto e = it->second.find(v[j]); if (i != j && e != it->second.end()) d[i][j] = 1.0 / e->second; }
  }
  for (size_t m = 0; m < n; ++m) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) d[i][j] = std::min(d[i][j], d[i][m] + d[m][j]);
  double t = 0;
  for (auto& r : d) for (double x : r) t = std::max(t, x);
  return t;
}
double rate_out(const Graph& g, const std::set<int>& s) {
  double r = 0;
  for (int a : s) { auto it = g.k.find(a); if (it != g.k.end()) for (auto& b : it->second) if (!s.count(b.first)) r += b.second; }
  return r;
}
double fastest_out(const Graph& g, const std::set<int>& s) {
  double r = 0;
  for (int a : s) { auto it = g.k.find(a); if (it != g.k.end()) for (auto& b : it->second) if (!s.count(b.first)) r = std::max(r, b.second); }
  return r;
}
std::set<int> around(const Graph& g, const std::set<int>& s) {
  std::set<int> r;
  for (int a : s) { auto it = g.k.find(a); if (it != g.k.end()) for (auto& b : it->second) if (!s.count(b.first)) r.insert(b.first); }
  return r;
}
// -1 the sites must not be lumped, 1 they must, 0 too close to call
int worthwhile(const Graph& g, const std::set<int>& s, double res, double ratio) {
  double out = rate_out(g, s);
  if (s.size() < 2 || out == 0) return -1;
  double T = 2 * traverse(g, s);
  if (std::isinf(T)) return -1;
  double a = 1.0 / out, b = T * ratio;
  if (mc::close(a, b, 1e-9) || mc::close(T, res, 1e-9)) return 0;
  return a > b && T < res ? 1 : -1;
}

std::string PROP;
bool mine(const char* tags) { return PROP.empty() || std::string(tags).find(PROP) != std::string::npos; }
// a requirement of the listed properties; for the others the model only follows
#define CHK(tags, cond, ...) do { if (!(cond) && mine(tags)) c.fail(mc::strf(__VA_ARGS__)); } while (0)

struct Mirror {
  struct W {
    int id = 0;
    bool on = false;
    int pos = 0, pot = 0;
    bool known = false;       // the rest of its stay in the cluster is known
    bool fresh = true;        // its next stay starts anew
    double left = 0;
    uint64_t hist = 0;        // draws since it entered the cluster
    int from = 0;             // where it was when it was removed
    bool was = false;
    double dwell = 0;
  };
};

int CONV = 0;  // how a draw becomes a dwell time: 1 -log(u), 2 -log(1-u), 0 unknown
double stay_of(double u, double tau) { return CONV == 1 ? -std::log(u) * tau : -std::log1p(-u) * tau; }

const int DEFAULT = -77;
struct Opt {
  int thr = 0;
  double res = 1, ratio = 1;
  int walkers = 1, depth = 5;
  std::vector<double> draws = {0.13, 0.55, 0.93};
  int idstyle = 0;
  bool removals = true;
  std::vector<double> word;           // the draws repeat this word instead of being chosen one by one
};

// a second system that is given the same calls and the same draws
enum { T_NONE, T_SCALE, T_QUIET, T_BYSTANDERS };
const char* TWIN_TAG[4] = {"", "C31", "C32", "C33"};
struct Twin {
  int mode = T_NONE;
  double k = 1;                       // its rates are k times faster
  Rates r;
  std::unique_ptr<CoarseGrainSystem> s;
  std::vector<WP> w;
};

struct Sim {
  Ctx& c;
  Graph g;
  Opt o;
  Rates r;
  CoarseGrainSystem sys;
  std::vector<WP> wp;
  std::vector<Mirror::W> w;
  std::set<int> sites;
  std::map<int, std::set<int>> cl;   // clusters as last seen
  std::map<int, int> of;             // cluster of a site
  std::map<int, int> visits;
  std::vector<double> drawn;
  std::string tr;
  size_t wi = 0;                     // draws taken from the word
  long it = 0, thr = 0;              // hops since the last check, and how many are needed
  int last_change = 0, nops = 0;
  Twin tw;

  Sim(Ctx& cc, const Graph& gg, const Opt& oo, int mode = T_NONE, double k = 1) : c(cc), g(gg), o(oo), r(gg.rates()) {
    tw.mode = mode;
    tw.k = k;
    tr = g.str() + strf(" threshold %d time resolution %g ratio %g |", o.thr, o.res, o.ratio);
    c.label(tr);
    sys.setTimeResolution(o.res);
    if (o.ratio != 1) sys.setPerformanceRatio(o.ratio);
    if (o.thr == DEFAULT) o.thr = 1000;  // what a system starts with
    else sys.setMinCoarseGrainIterationThreshold(o.thr);
    thr = o.thr;
    sys.initializeSystem(r);
    sites = g.sites();
    const int IDS[2][4] = {{1, 2, 3, 4}, {0, -7, 1 << 30, 19}};
    for (int i = 0; i < o.walkers; ++i) {
      const int wid = i < 4 ? IDS[o.idstyle][i] : o.idstyle ? i * 65536 - 300000 : i + 1;
      wp.emplace_back(wid, std::make_shared<Walker>());
      Mirror::W x;
      x.id = wid;
      w.push_back(x);
    }
    if (tw.mode) make_twin();
    for (int s : sites) { visits[s] = sys.getVisitFrequencyOfSite(s); CHK("C06", visits[s] == 0, "site %d has %d visits before any walker", s, visits[s]); }
    look();
  }
  void make_twin() {
    tr += tw.mode == T_SCALE ? strf(" rates times %g |", tw.k) : tw.mode == T_QUIET ? " and unobserved |" : " and among bystanders |";
    c.label(tr);
    tw.r = r;
    if (tw.mode == T_SCALE) for (auto& a : tw.r) for (auto& b : a.second) b.second *= tw.k;
    if (tw.mode == T_BYSTANDERS) {
      // sites that are not connected with the others, faster and slower ones
      for (int i = 0; i < 12; ++i) { int a = -100000 + i, b = -100000 + (i + 1) % 12; double f = i % 3 == 0 ? 1e10 : i % 3 == 1 ? 1e6 : 1e-4; tw.r[a][b] = f; tw.r[b][a] = f * 0.5; }
    }
    tw.s.reset(new CoarseGrainSystem());
    tw.s->setTimeResolution(o.res / tw.k);
    if (o.ratio != 1) tw.s->setPerformanceRatio(o.ratio);
    if (o.thr != 1000) tw.s->setMinCoarseGrainIterationThreshold(o.thr);
    tw.s->initializeSystem(tw.r);
    const int OTHER[4] = {7, 7 + (1 << 16), 7 - (1 << 24), -1};
    for (size_t i = 0; i < wp.size(); ++i) tw.w.emplace_back(tw.mode == T_BYSTANDERS ? (i < 4 ? OTHER[i] : 1000 - 3 * (int)i) : wp[i].first, std::make_shared<Walker>());
  }
  // the twin makes the same call with the same draws, for walker i
  template <class F> void twin(int i, F f) {
    if (!tw.mode) return;
    const char* tag = TWIN_TAG[tw.mode];
    DrawScript d(drawn, 0.5);
    f(*tw.s, tw.w[i]);
    CHK(tag, d.i == drawn.size(), "the other system uses %zu random numbers instead of %zu", d.i, drawn.size());
    Walker &a = *wp[i].second, &b = *tw.w[i].second;
    CHK(tag, a.getIdOfSiteCurrentlyOccupying() == b.getIdOfSiteCurrentlyOccupying(), "walker %d is on site %d, in the other system on %d", w[i].id, a.getIdOfSiteCurrentlyOccupying(), b.getIdOfSiteCurrentlyOccupying());
    if (g.drain(a.getIdOfSiteCurrentlyOccupying())) return;
    CHK(tag, a.getPotentialSite() == b.getPotentialSite(), "walker %d is to go to site %d, in the other system to %d", w[i].id, a.getPotentialSite(), b.getPotentialSite());
    CHK(tag, mc::close(a.getDwellTime(), b.getDwellTime() * tw.k, 1e-9), "walker %d stays for %.17g, in the other system for %.17g", w[i].id, a.getDwellTime(), b.getDwellTime() * tw.k);
    if (tw.mode != T_QUIET) twin_state(0);
  }
  // the clusters and the visits agree
  void twin_state(int slack) {
    if (!tw.mode) return;
    const char* tag = TWIN_TAG[tw.mode];
    auto parts = [](CoarseGrainSystem& s, double k) {
      std::map<std::set<int>, std::pair<double, double>> m;
      auto inc = s.getTimeIncrementOfClusters();
      auto rs = s.getResolutionOfClusters();
      for (auto& x : s.getClusters()) m[std::set<int>(x.second.begin(), x.second.end())] = {inc[x.first] * k, rs[x.first]};
      return m;
    };
    auto a = parts(sys, 1), b = parts(*tw.s, tw.k);
    for (auto& x : a) {
      auto y = b.find(x.first);
      CHK(tag, y != b.end(), "the cluster of site %d is not there in the other system", *x.first.begin());
      if (y == b.end()) continue;
      CHK(tag, mc::close(x.second.first, y->second.first, 1e-9) && mc::close(x.second.second, y->second.second, 1e-9), "the cluster of site %d has the time increment %g and the resolution %g, in the other system %g and %g", *x.first.begin(), x.second.first, x.second.second, y->second.first, y->second.second);
    }
    CHK(tag, a.size() == b.size(), "%zu clusters, in the other system %zu", a.size(), b.size());
    for (int q : sites) {
      int v = sys.getVisitFrequencyOfSite(q), u = tw.s->getVisitFrequencyOfSite(q);
      CHK(tag, std::abs(v - u) <= slack, "site %d has %d visits, in the other system %d", q, v, u);
    }
    if (tw.mode == T_BYSTANDERS) for (int i = 0; i < 12; ++i) {
      CHK(tag, tw.s->getVisitFrequencyOfSite(-100000 + i) == 0, "site %d was visited, nothing leads there", -100000 + i);
      CHK(tag, tw.s->getClusterIdOfSite(-100000 + i) == constants::unassignedId, "site %d was lumped, no walker ever was near", -100000 + i);
    }
  }
  void say(const std::string& s) { tr += s; c.label(tr); }
  // every draw is a choice, except the one that sets the time on a single site
  template <class F> void with_draws(bool clustered, F f) {
    auto& src = mcrng::source();
    auto su = src.unit; auto si = src.integer;
    drawn.clear();
    src.unit = [this, clustered]() { double u = !clustered && drawn.empty() ? o.draws[0] : !o.word.empty() ? o.word[wi++ % o.word.size()] : o.draws[c.choose((int)o.draws.size())]; drawn.push_back(u); return u; };
    src.integer = nullptr;
    try { f(); } catch (...) { src.unit = su; src.integer = si; throw; }
    src.unit = su; src.integer = si;
    for (double u : drawn) say(strf(" u=%g", u));
  }
  bool w_was_from(int s) const { for (auto& x : w) if (!x.on && x.was && x.from == s) return true; return false; }
  bool taken(int s, int except = -1) const { for (size_t i = 0; i < w.size(); ++i) if ((int)i != except && w[i].on && w[i].pos == s) return true; return false; }

  // reads the clusters and checks that they are a partition in step with the sites
  void look() {
    auto m = sys.getClusters();
    std::map<int, std::set<int>> n;
    std::map<int, int> f;
    for (auto& x : m) {
      std::set<int> s(x.second.begin(), x.second.end());
      CHK("C02", s.size() == x.second.size(), "cluster %d lists a site twice", x.first);
      CHK("C02", s.size() >= 2, "cluster %d has %zu sites", x.first, s.size());
      for (int a : s) {
        CHK("C02", sites.count(a), "cluster %d lists the unknown site %d", x.first, a);
        CHK("C02", !f.count(a), "site %d is in the clusters %d and %d", a, f[a], x.first);
        f[a] = x.first;
      }
      if (!s.empty()) n[x.first] = s;
    }
    for (int s : sites) {
      int id = sys.getClusterIdOfSite(s);
      int e = f.count(s) ? f[s] : constants::unassignedId;
      CHK("C02", id == e, "getClusterIdOfSite(%d)=%d, getClusters says %d", s, id, e);
    }
    // clusters only grow, the smallest id survives
    for (auto& x : cl) {
      int id = f.count(*x.second.begin()) ? f[*x.second.begin()] : constants::unassignedId;
      CHK("C02", id != constants::unassignedId, "site %d fell out of its cluster", *x.second.begin());
      for (int a : x.second) CHK("C02", f.count(a) && f[a] == id, "cluster %d was split at site %d", x.first, a);
      CHK("C02", id <= x.first, "cluster %d was merged into the younger cluster %d", x.first, id);
      CHK("C02", cl.count(id), "cluster %d became the new cluster %d", x.first, id);
    }
    cl = n;
    of = f;
    // the resolution and the time increment of the clusters
    auto inc = sys.getTimeIncrementOfClusters();
    auto rs = sys.getResolutionOfClusters();
    CHK("C07", inc.size() == cl.size() && rs.size() == cl.size(), "time increments of %zu and resolutions of %zu clusters, there are %zu", inc.size(), rs.size(), cl.size());
    for (auto& x : cl) {
      CHK("C07", inc.count(x.first) && rs.count(x.first), "no time increment for cluster %d", x.first);
      double i = inc[x.first], q = rs[x.first];
      CHK("C07", std::isfinite(i) && i > 0 && i <= o.res * (1 + 1e-9), "the time increment of cluster %d is %g, the time resolution %g", x.first, i, o.res);
      CHK("C07", q >= 2.0 * (1 - 1e-12), "the resolution of cluster %d is %g", x.first, q);
    }
  }
  double inc_of(int id) { return sys.getTimeIncrementOfClusters().at(id); }
  double tau_of(int id) { return inc_of(id) * sys.getResolutionOfClusters().at(id); }

  // a walker sits at w.pos and was given a dwell time and a potential site
  void judge_stay(int i, const std::map<int, std::set<int>>& C, const std::map<int, int>& F, const std::map<int, std::pair<double, double>>& T) {
    Mirror::W& x = w[i];
    double d = wp[i].second->getDwellTime();
    int q = wp[i].second->getPotentialSite();
    x.pot = q;
    x.dwell = d;
    if (g.drain(x.pos)) return;
    if (!sites.count(q)) { CHK("C03", false, "walker %d on site %d is to go to %d, which is no site", x.id, x.pos, q); throw mc::Prune(); }
    CHK("C03", std::isfinite(d) && d > 0, "walker %d gets the dwell time %g on site %d", x.id, d, x.pos);
    if (!F.count(x.pos)) {
      CHK("C03", g.k.at(x.pos).count(q), "walker %d on site %d is to go to %d, which is no neighbour", x.id, x.pos, q);
      x.fresh = true; x.known = false; x.hist = 0;
      return;
    }
    int id = F.at(x.pos);
    const std::set<int>& m = C.at(id);
    bool in = m.count(q) != 0;
    CHK("C03", in || around(g, m).count(q), "walker %d in the cluster of site %d is to go to %d, neither in the cluster nor next to it", x.id, x.pos, q);
    const char* slice_tag = x.was ? "C04 C14" : "C14";
    double inc = T.at(id).first, tau = T.at(id).second;
    CHK(slice_tag, d <= inc * (1 + 1e-9), "walker %d gets the dwell time %g in a cluster with time increment %g", x.id, d, inc);
    for (double u : drawn) x.hist = mc::hmix(x.hist, (uint64_t)(u * 1e6));
    if (x.fresh) {
      x.hist = 0;
      for (double u : drawn) x.hist = mc::hmix(x.hist, (uint64_t)(u * 1e6));
      x.fresh = false;
      if (CONV && !drawn.empty()) {
        x.known = true;
        x.left = stay_of(drawn[0], tau);
      } else x.known = false;
    }
    if (x.known) {
      double e = std::min(x.left, inc);
      CHK(slice_tag, mc::close(d, e, 1e-6), "walker %d in the cluster of site %d gets the dwell time %.9g, %.9g of its stay is left and the time increment is %.9g", x.id, x.pos, d, x.left, inc);
      x.left -= d;
      if (x.left > inc * 1e-6) CHK(slice_tag, in, "walker %d leaves the cluster of site %d with %.9g of its stay left", x.id, x.pos, x.left);
      
    } else CHK(slice_tag, !in || mc::close(d, inc, 1e-6), "walker %d stays in its cluster after a slice of %.9g, the time increment is %.9g", x.id, d, inc);
    if (!in) { x.fresh = true; x.known = false; }
  }
  std::map<int, std::pair<double, double>> times() {
    std::map<int, std::pair<double, double>> t;
    for (auto& x : cl) t[x.first] = {inc_of(x.first), tau_of(x.first)};
    return t;
  }
  void walkers_sane(int moved = -1) {
    std::set<int> p;
    for (size_t i = 0; i < w.size(); ++i) if (w[i].on) {
      int s = wp[i].second->getIdOfSiteCurrentlyOccupying();
      if ((int)i != moved) CHK("C01", g.drain(s) || (wp[i].second->getPotentialSite() == w[i].pot && wp[i].second->getDwellTime() == w[i].dwell), "the next site or the dwell time of walker %d changed although another one was moved", w[i].id);
      CHK("C01", s == w[i].pos, "walker %d is on site %d, it should be on %d", w[i].id, s, w[i].pos);
      CHK("C01", p.insert(s).second, "two walkers on site %d", s);
    }
  }
  // visits after an operation in which walker i came to (or stayed at) w[i].pos
  void visit(int i, const std::map<int, std::set<int>>& C, const std::map<int, int>& F) {
    int s = w[i].pos;
    bool clustered = F.count(s) != 0;
    for (int a : sites) {
      int v = sys.getVisitFrequencyOfSite(a);
      CHK("C06", v == sys.getVisitFrequencyOfSite(a), "asking for the visits of %d changes them", a);
      if (!clustered) {
        int e = visits[a] + (a == s);
        CHK("C06", v == e, "site %d has %d visits, expected %d", a, v, e);
      } else if (C.at(F.at(s)).count(a)) CHK("C06", v >= visits[a], "the visits of site %d fell from %d to %d", a, visits[a], v);
      else CHK("C06", v == visits[a], "site %d has %d visits, expected %d", a, v, visits[a]);
      visits[a] = v;
    }
  }
  void place(int i, int s) {
    say(strf(" place(%d@%d)", w[i].id, s));
    wp[i].second->occupySite(s);
    auto C = cl; auto F = of; auto T = times();
    w[i].on = true; w[i].pos = s; w[i].fresh = true; w[i].known = false; w[i].hist = 0;
    with_draws(F.count(s), [&] { std::vector<WP> v = {wp[i]}; sys.initializeWalkers(v); });
    twin(i, [&](CoarseGrainSystem& t, WP& x) { x.second->occupySite(s); std::vector<WP> v = {x}; t.initializeWalkers(v); });
    c.step();
    walkers_sane(i);
    judge_stay(i, C, F, T);
    visit(i, C, F);
    auto before = cl;
    look();
    CHK("C02", cl == before, "placing a walker changes the clusters");
  }
  void take(int i) {
    say(strf(" remove(%d)", w[i].id));
    c.step();
    if (nops % 2) sys.removeWalkerFromSystem(wp[i]); else sys.removeWalkerFromSystem(wp[i].first, wp[i].second);
    if (tw.mode) tw.s->removeWalkerFromSystem(tw.w[i]);
    w[i].on = false; w[i].was = true; w[i].from = w[i].pos; w[i].fresh = true; w[i].known = false; w[i].hist = 0;
    for (int a : sites) { int v = sys.getVisitFrequencyOfSite(a); CHK("C06", v == visits[a], "removing a walker changes the visits of %d from %d to %d", a, visits[a], v); }
    walkers_sane();
    auto before = cl;
    look();
    CHK("C02", cl == before, "removing a walker changes the clusters");
  }
  void threshold(int n) {
    say(strf(" threshold(%d)", n));
    sys.setMinCoarseGrainIterationThreshold(n);
    if (tw.mode) tw.s->setMinCoarseGrainIterationThreshold(n);
    o.thr = n;
    thr = n;
    walkers_sane();
    auto before = cl;
    look();
    CHK("C02", cl == before, "setting the iteration threshold changes the clusters");
  }
  void hop(int i) {
    int p = w[i].pos, q = w[i].pot;
    bool blocked = taken(q, i);
    say(strf(" hop(%d:%d->%d)", w[i].id, p, q));
    auto C = cl; auto F = of; auto T = times();
    int dest = blocked ? p : q;
    // leaving for another cluster starts a new stay
    int cp = F.count(p) ? F[p] : -1, cq = F.count(dest) ? F[dest] : -2;
    if (cp != cq) { w[i].fresh = true; w[i].known = false; }
    w[i].pos = dest;
    with_draws(F.count(dest), [&] { if (nops % 2) sys.hop(wp[i]); else sys.hop(wp[i].first, wp[i].second); });
    twin(i, [](CoarseGrainSystem& t, WP& x) { t.hop(x); });
    c.step();
    CHK(w_was_from(q) ? "C01 C04" : "C01", wp[i].second->getIdOfSiteCurrentlyOccupying() == dest, "walker %d wanted to go from %d to %d, which is %s, and is on %d", w[i].id, p, q, blocked ? "taken" : "free", wp[i].second->getIdOfSiteCurrentlyOccupying());
    walkers_sane(i);
    if (!sites.count(w[i].pos = wp[i].second->getIdOfSiteCurrentlyOccupying())) throw mc::Prune();
    if (w[i].pos != dest) { w[i].fresh = true; dest = w[i].pos; }
    judge_stay(i, C, F, T);
    visit(i, C, F);
    look();
    check_clusters(q, C, F);
    ++nops;
    if (g.drain(dest)) take(i);
  }
  // which sites should have been lumped in the hop that tried for site q
  void check_clusters(int q, const std::map<int, std::set<int>>& C, const std::map<int, int>& F) {
    bool changed = cl != C;
    ++it;
    bool due = o.thr != constants::inf_iterations && it > thr;
    if (!due) {
      CHK("C07", !changed, "sites were lumped although no check was due (%ld hops of %ld)", it, thr);
      return;
    }
    it = 0;
    double r0 = g.fastest(q);
    std::set<int> own = {q};
    if (F.count(q)) { own = C.at(F.at(q)); r0 = fastest_out(g, own); }
    std::set<int> b = {q};
    std::vector<int> st = {q};
    while (!st.empty()) {
      int a = st.back();
      st.pop_back();
      auto f = g.k.find(a);
      if (f != g.k.end()) for (auto& e : f->second) if (e.second >= r0 * 0.9999 && b.insert(e.first).second) st.push_back(e.first);
    }
    int want = b.size() > 5 ? -1 : worthwhile(g, b, o.res, o.ratio);
    std::set<int> u;
    std::set<int> ids;
    for (int a : b) { if (F.count(a)) { ids.insert(F.at(a)); for (int x : C.at(F.at(a))) u.insert(x); } else u.insert(a); }
    bool free_site = false;
    for (int a : b) if (!F.count(a)) free_site = true;
    if (ids.size() == 1 && !free_site) want = -1;
    if (!changed) CHK("C07", want <= 0, "%zu sites around site %d are crossed in %g, left after %g, and were not lumped (time resolution %g, ratio %g)", b.size(), q, traverse(g, b), 1 / rate_out(g, b), o.res, o.ratio);
    else {
      CHK("C07", want >= 0, "sites around site %d were lumped: %zu sites, crossed in %g, left after %g (time resolution %g, ratio %g)", q, b.size(), traverse(g, b), 1 / rate_out(g, b), o.res, o.ratio);
      CHK("C07", of.count(q), "lumping does not include site %d", q);
      if (!of.count(q)) throw mc::Prune();
      int id = of[q];
      CHK("C02 C07", cl[id] == u, "the cluster of site %d has %zu sites, expected %zu", q, cl[id].size(), u.size());
      if (!ids.empty()) CHK("C02", id == *ids.begin(), "the merged cluster got the id %d instead of %d", id, *ids.begin());
      for (auto& x : C) if (!ids.count(x.first)) CHK("C02", cl.count(x.first) && cl[x.first] == x.second, "the unrelated cluster %d changed", x.first);
      CHK("C02", cl.size() == C.size() - ids.size() + 1, "%zu clusters after lumping, expected %zu", cl.size(), C.size() - ids.size() + 1);
      if (ids.empty()) {
        // a new cluster: slices as coarse as allowed
        double tau = tau_of(id), T = 2 * traverse(g, b);
        double e = tau / std::max(2.0, std::min(tau / T, tau / o.res));
        CHK("C07", mc::close(inc_of(id), e, 1e-6), "the time increment of the new cluster is %g, expected %g", inc_of(id), e);
      }
      last_change = nops + 1;
      // the visits are kept, and walkers in merged clusters may start a new stay
      for (int a : sites) { int v = sys.getVisitFrequencyOfSite(a); CHK("C06", v == visits[a], "lumping changes the visits of site %d from %d to %d", a, visits[a], v); }
      for (auto& x : w) if (x.on && u.count(x.pos)) {
        // a walker of a cluster that was merged away starts anew, one of the surviving cluster goes on
        x.known = false;
        x.fresh = x.fresh || !F.count(x.pos) || F.at(x.pos) != id;
      }
    }
    thr = changed ? o.thr : thr * 2;
  }
  uint64_t key() const {
    uint64_t h = 77;
    for (auto& x : w) {
      h = mc::hmix(h, x.on ? 1 : 2);
      if (x.on) { h = mc::hmix(h, (uint64_t)x.pos); h = mc::hmix(h, (uint64_t)x.pot); h = mc::hmix(h, x.fresh); h = mc::hmix(h, of.count(x.pos) && !x.fresh ? x.hist : 1); }
      else h = mc::hmix(h, x.was ? (uint64_t)x.from : 3);
    }
    std::set<std::set<int>> p;
    for (auto& x : cl) p.insert(x.second);
    for (auto& s : p) { h = mc::hmix(h, 0xabc); for (int a : s) h = mc::hmix(h, (uint64_t)a); }
    h = mc::hmix(h, (uint64_t)it * 1000 + (uint64_t)thr);
    h = mc::hmix(h, (uint64_t)nops % 2);
    return h;
  }
};

struct Shape { const char* name; int n; std::vector<std::pair<int, int>> e; };
const std::vector<Shape> SHAPES = {
    {"path3", 3, {{0, 1}, {1, 2}}},
    {"path4", 4, {{0, 1}, {1, 2}, {2, 3}}},
    {"star4", 4, {{0, 1}, {0, 2}, {0, 3}}},
    {"ring3", 3, {{0, 1}, {1, 2}, {2, 0}}},
    {"ring4", 4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}},
    {"path5", 5, {{0, 1}, {1, 2}, {2, 3}, {3, 4}}},
    {"kite", 4, {{0, 1}, {1, 2}, {2, 0}, {2, 3}}},
    {"path6", 6, {{0, 1}, {1, 2}, {2, 3}, {3, 4}, {4, 5}}},
};
const double LEVEL[3] = {1e6, 1e3, 1.0};
std::vector<Graph> GR;

void build_graphs(bool thorough) {
  int serial = 0;
  for (auto& sh : SHAPES) {
    int ne = (int)sh.e.size(), tot = 1;
    for (int i = 0; i < ne; ++i) tot *= 3;
    // 0 symmetric, 1 uphill slower, 2 last edge one way (a drain or a one way ring)
    for (int code = 0; code < tot; ++code) for (int var = 0; var < 3; ++var) {
      if (!thorough && ne == 3 && (code + var) % 2) continue;
      if (!thorough && ne >= 4 && (code + var) % 5) continue;
      if (!thorough && ne >= 5 && (code / 3) % 4) continue;
      Graph g;
      int x = code;
      std::string lv;
      std::vector<int> id;
      const int ODD[6] = {40, -3, 7, 0, 1000000, 12};
      for (int i = 0; i < sh.n; ++i) id.push_back(serial % 2 ? ODD[i] : i + 1);
      for (int i = 0; i < ne; ++i) {
        int l = x % 3;
        x /= 3;
        lv += (char)('a' + l);
        int a = id[sh.e[i].first], b = id[sh.e[i].second];
        g.k[a][b] = LEVEL[l] * (var == 1 ? 1.7 + 0.1 * i : 1);
        if (!(var == 2 && i == ne - 1)) g.k[b][a] = LEVEL[l] * (var == 1 ? 0.3 : 1);
      }
      g.name = strf("%s/%s/%d", sh.name, lv.c_str(), var);
      GR.push_back(g);
      ++serial;
    }
  }
  // hand made: nested basins, two basins with a bridge, a plateau too large to lump
  auto add = [&](const char* nm, std::vector<std::array<double, 4>> e) {
    Graph g;
    g.name = nm;
    for (auto& x : e) { if (x[2] > 0) g.k[(int)x[0]][(int)x[1]] = x[2]; if (x[3] > 0) g.k[(int)x[1]][(int)x[0]] = x[3]; }
    GR.push_back(g);
  };
  add("nested", {{1, 2, 1e9, 1e9}, {2, 3, 1e6, 1e6}, {3, 4, 1e3, 1e3}, {4, 5, 1, 1}, {5, 6, 1e-3, 1e-3}});
  add("bridge", {{1, 2, 1e8, 1e8}, {2, 3, 1e4, 1e4}, {3, 4, 1e8, 1e8}, {4, 5, 1, 1}, {1, 6, 1, 1}});
  add("bridge3", {{1, 2, 1e8, 1e8}, {2, 3, 1e4, 1e4}, {3, 4, 1e8, 1e8}, {4, 5, 1e4, 1e4}, {5, 6, 1e8, 1e8}, {6, 7, 1, 1}, {1, 8, 1, 1}});
  add("plateau7", {{1, 2, 1e6, 1e6}, {2, 3, 1e6, 1e6}, {3, 4, 1e6, 1e6}, {4, 5, 1e6, 1e6}, {5, 6, 1e6, 1e6}, {6, 7, 1e6, 1e6}, {7, 8, 1e-6, 1e-6}});
  add("plateau5", {{1, 2, 1e6, 1e6}, {2, 3, 1e6, 1e6}, {3, 4, 1e6, 1e6}, {4, 5, 1e6, 1e6}, {5, 6, 1e-6, 1e-6}});
  add("onewayring", {{1, 2, 1e6, 0}, {2, 3, 1e6, 0}, {3, 1, 1e6, 0}, {3, 4, 1, 1}, {1, 5, 2, 1}});
  add("twodeep", {{1, 2, 1e7, 1e5}, {2, 3, 10, 1e3}, {3, 4, 1e3, 10}, {4, 5, 1e5, 1e7}, {5, 1, 0.1, 0.1}});
  add("sink", {{1, 2, 1e6, 1e6}, {2, 3, 1, 0}, {1, 4, 1, 1e6}, {4, 5, 10, 0}});
}

// larger landscapes for many walkers
std::vector<Graph> BIG;
void build_big() {
  auto link = [](Graph& g, int a, int b, double f, double r) { g.k[a][b] = f; g.k[b][a] = r; };
  {
    Graph g;  // a grid with slow lines between fast patches
    g.name = "grid6x6";
    for (int x = 0; x < 6; ++x) for (int y = 0; y < 6; ++y) {
      int a = 10 * x + y;
      if (x < 5) { double f = x % 2 ? 1 : 1e6; link(g, a, a + 10, f, f * (1 + y)); }
      if (y < 5) { double f = y % 3 == 2 ? 0.5 : 1e5; link(g, a, a + 1, f, f); }
    }
    BIG.push_back(g);
  }
  {
    Graph g;  // dimers in a row, the bridges slower and slower
    g.name = "dimers";
    for (int k = 0; k < 14; ++k) {
      link(g, 2 * k, 2 * k + 1, 1e9, 1e9);
      if (k < 13) { double f = k % 4 == 3 ? 1 : 1e4; link(g, 2 * k + 1, 2 * k + 2, f, f); }
    }
    BIG.push_back(g);
  }
  {
    Graph g;  // many traps around one site
    g.name = "flower";
    for (int k = 1; k <= 12; ++k) { link(g, 0, 100 * k, 1.0 + k, 1); link(g, 100 * k, 100 * k + 1, 1e7, 1e6); }
    BIG.push_back(g);
  }
  {
    Graph g;  // a staircase: every site is left faster than the one before it
    g.name = "stairs";
    for (int k = 0; k < 24; ++k) link(g, -k, -k - 1, std::pow(4.0, k), std::pow(4.0, k) * (k % 2 ? 0.25 : 1));
    BIG.push_back(g);
  }
  {
    Graph g;  // one fast plateau much larger than a basin may be
    g.name = "plateau30";
    for (int k = 0; k < 30; ++k) { link(g, k, (k + 1) % 30, 1e6, 1e6); if (k % 6 == 0) link(g, k, 1000 + k, 1e-3, 1e-3); }
    BIG.push_back(g);
  }
  {
    Graph g;  // no fast and slow at all
    g.name = "even25";
    for (int k = 0; k < 25; ++k) { link(g, k, (k + 1) % 25, 1, 1); link(g, k, (k + 7) % 25, 1.5, 1.5); }
    BIG.push_back(g);
  }
}

void explore(Ctx& c, const Graph& g, const Opt& o, const uint64_t salt0, int mode = T_NONE, double k = 1) {
  Sim s(c, g, o, mode, k);
  std::vector<int> land;
  for (int a : s.sites) if (!g.drain(a)) land.push_back(a);
  // the walkers come in at every choice of sites
  for (int i = 0; i < o.walkers; ++i) {
    std::vector<int> f;
    for (int a : land) if (!s.taken(a)) f.push_back(a);
    if (f.empty()) return;
    s.place(i, i == 0 ? f[c.choose((int)f.size())] : f[c.choose(std::min<int>(2, (int)f.size()))]);
  }
  int removed = 0, reset = o.walkers == 1 && !c.light ? 0 : 1;
  for (int d = 0; d < o.depth; ++d) {
    uint64_t salt = salt0;
    if (mode == T_QUIET) for (auto& v : s.visits) salt = mc::hmix(salt, (uint64_t)v.second);
    c.state(mc::hmix(mc::hmix(mc::hmix(s.key(), salt), (uint64_t)removed), (uint64_t)(reset * 7 + s.o.thr)), o.depth - d);
    // operations that make sense now
    struct Op { int kind, i, site; };
    std::vector<Op> ops;
    for (int i = 0; i < o.walkers; ++i) {
      if (s.w[i].on) {
        ops.push_back({0, i, 0});
        if (o.removals && removed < 2) ops.push_back({1, i, 0});
      } else {
        int n = 0;
        if (!s.taken(s.w[i].from) && !g.drain(s.w[i].from)) ops.push_back({2, i, s.w[i].from});
        for (int a : land) if (!s.taken(a) && a != s.w[i].from && n < 1) { ops.push_back({2, i, a}); ++n; }
      }
    }
    if (ops.empty()) break;
    if (!reset && d > 0) { ops.push_back({3, 0, s.o.thr ? 0 : 2}); ops.push_back({3, 0, constants::inf_iterations}); }
    Op op = ops[c.choose((int)ops.size())];
    if (op.kind == 0) s.hop(op.i);
    else if (op.kind == 1) { s.take(op.i); ++removed; }
    else if (op.kind == 3) { s.threshold(op.site); reset = 1; }
    else s.place(op.i, op.site);
  }
  if (mode == T_QUIET) s.twin_state(1);
  c.outcome(s.key());
  c.sample(s.tr);
}

// long histories: the draws repeat a word, the walkers take turns in a repeating order, one is
// removed and put back from time to time; every word and every order up to their lengths
void marathon(Ctx& c, const Graph& g, Opt o, int hops, int order, int away, int mode = T_NONE, double k = 1) {
  Sim s(c, g, o, mode, k);
  std::vector<int> land;
  for (int a : s.sites) if (!g.drain(a)) land.push_back(a);
  int n = std::min<int>(o.walkers, (int)land.size());
  int start = c.choose(std::min<int>(2, (int)land.size()));
  for (int i = 0; i < n; ++i) s.place(i, land[(size_t)(start + i) % land.size()]);
  for (int h = 0; h < hops; ++h) {
    int i = n == 1 ? 0 : order == 0 ? h % n : order == 1 ? (h / 3) % n : (h % 3 == 2 ? 1 : 0) % n;
    if (!s.w[i].on) {
      int to = -1;
      bool found = false;
      for (size_t q = 0; q < land.size() && !found; ++q) { int a = land[(q + (size_t)h) % land.size()]; if (!s.taken(a)) { to = a; found = true; } }
      if (found) s.place(i, to);
      continue;
    }
    if (away && h % away == away - 1) s.take(i); else s.hop(i);
    if (s.tr.size() > 6000) { s.tr = s.tr.substr(0, 600) + " ..."; }
    if (o.thr == 1000 && h == 1100) break;
  }
  if (mode == T_QUIET) s.twin_state(1);
  c.visited((uint64_t)hops);
  c.outcome(s.key());
  c.sample(s.tr.substr(0, 600));
}
// the i-th word over the draws, shorter ones first
std::vector<double> word_of(int i) {
  const double D[3] = {0.13, 0.55, 0.93};
  int len = 1, tot = 3;
  while (i >= tot) { i -= tot; ++len; tot *= 3; }
  std::vector<double> w;
  for (int k = 0; k < len; ++k) { w.push_back(D[i % 3]); i /= 3; }
  return w;
}

// ---------------------------------------------------------------- C30
// mean time to leave the set and where to, from each start, exactly
struct Exact { std::map<int, double> t; std::map<int, std::map<int, double>> to; };
std::vector<double> solve(std::vector<std::vector<double>> a, std::vector<double> b) {
  int n = (int)b.size();
  for (int i = 0; i < n; ++i) {
    int p = i;
    for (int j = i; j < n; ++j) if (std::fabs(a[j][i]) > std::fabs(a[p][i])) p = j;
    std::swap(a[i], a[p]); std::swap(b[i], b[p]);
    for (int j = i + 1; j < n; ++j) { double f = a[j][i] / a[i][i]; for (int k = i; k < n; ++k) a[j][k] -= f * a[i][k]; b[j] -= f * b[i]; }
  }
  for (int i = n; i-- > 0;) { for (int k = i + 1; k < n; ++k) b[i] -= a[i][k] * b[k]; b[i] /= a[i][i]; }
  return b;
}
Exact exact(const Graph& g, const std::set<int>& s) {
  std::vector<int> v(s.begin(), s.end());
  int n = (int)v.size();
  std::vector<std::vector<double>> A(n, std::vector<double>(n, 0));
  std::vector<double> K(n, 0);
  for (int i = 0; i < n; ++i) for (auto& e : g.k.at(v[i])) K[i] += e.second;
  for (int i = 0; i < n; ++i) { A[i][i] = 1; for (auto& e : g.k.at(v[i])) for (int j = 0; j < n; ++j) if (v[j] == e.first) A[i][j] -= e.second / K[i]; }
  Exact x;
  std::vector<double> b(n);
  for (int i = 0; i < n; ++i) b[i] = 1 / K[i];
  auto t = solve(A, b);
  for (int i = 0; i < n; ++i) x.t[v[i]] = t[i];
  for (int q : around(g, s)) {
    for (int i = 0; i < n; ++i) { auto f = g.k.at(v[i]).find(q); b[i] = f == g.k.at(v[i]).end() ? 0 : f->second / K[i]; }
    auto p = solve(A, b);
    for (int i = 0; i < n; ++i) x.to[v[i]][q] = p[i];
  }
  return x;
}
std::vector<double> shares(const Graph& g, const std::set<int>& s) {
  std::vector<int> v(s.begin(), s.end());
  std::vector<std::vector<double>> k(v.size(), std::vector<double>(v.size(), 0));
  for (size_t i = 0; i < v.size(); ++i) for (auto& e : g.k.at(v[i])) for (size_t j = 0; j < v.size(); ++j) if (v[j] == e.first) k[i][j] = e.second;
  return stationary(k);
}

// what happens to a walker that arrives at s, seen through the public interface
struct Seen {
  double mean = 0;                 // mean time until it leaves the site or the cluster
  std::map<int, double> to;        // where it leaves to
  std::map<int, double> inside;    // where it is told to go while it stays
  double ninside = 0;
};
struct Lab {
  Ctx& c;
  Graph g;
  Rates r;
  CoarseGrainSystem sys;
  std::shared_ptr<Walker> w = std::make_shared<Walker>();
  std::map<int, std::set<int>> cl;
  std::map<int, int> of;
  Lab(Ctx& cc, const Graph& gg, int thr, double res) : c(cc), g(gg), r(gg.rates()) {
    sys.setTimeResolution(res);
    sys.setMinCoarseGrainIterationThreshold(thr);
    sys.initializeSystem(r);
  }
  void look() {
    cl.clear(); of.clear();
    for (auto& x : sys.getClusters()) for (int a : x.second) { cl[x.first].insert(a); of[a] = x.first; }
  }
  std::set<int> here(int s) { return of.count(s) ? cl[of[s]] : std::set<int>{s}; }
  void place(int s) { w->occupySite(s); std::vector<WP> v = {{3, w}}; sys.initializeWalkers(v); }
  // walk about with well spread draws so that the basins are found; then stop lumping
  void warm(int hops) {
    for (int s : g.sites()) {
      if (g.drain(s)) continue;
      double x = 0.31;
      auto& src = mcrng::source();
      auto su = src.unit;
      src.unit = [&x]() { x += 0.6180339887498949; x -= std::floor(x); return x > 0 ? x : 0.5; };
      src.integer = nullptr;
      try {
        place(s);
        for (int i = 0; i < hops && !g.drain(w->getIdOfSiteCurrentlyOccupying()); ++i) sys.hop(3, w);
        sys.removeWalkerFromSystem(3, w);
      } catch (...) { src.unit = su; throw; }
      src.unit = su;
      c.step();
    }
    sys.setMinCoarseGrainIterationThreshold(constants::inf_iterations);
    look();
  }
  double run(int s, double u, double v, Seen& out, double wt_t, double wt_to) {
    std::set<int> in = here(s);
    double t = 0;
    DrawScript d({u}, v);
    place(s);
    for (int i = 0;; ++i) {
      REQ(c, i < 200000, "a walker never leaves from site %d", s);
      double dt = w->getDwellTime();
      REQ(c, std::isfinite(dt) && dt > 0, "dwell time %g", dt);
      t += dt;
      int q = w->getPotentialSite();
      if (!in.count(q)) { out.to[q] += wt_to; out.mean += wt_t * t; sys.removeWalkerFromSystem(3, w); break; }
      if (wt_to > 0) { out.inside[q] += wt_to; out.ninside += wt_to; }
      sys.hop(3, w);
    }
    c.step();
    return t;
  }
  Seen measure(int s, int K1, int K2) {
    Seen o;
    double norm = 0;
    for (int i = 0; i < K1; ++i) norm += -std::log((i + 0.5) / K1) / K1;
    for (int i = 0; i < K1; ++i) for (double v : {0.2, 0.8}) run(s, (i + 0.5) / K1, v, o, 0.5 / K1 / norm, 0);
    o.to.clear();
    for (int i = 0; i < K2; ++i) for (double u : {0.37, 0.63}) run(s, u, (i + 0.5) / K2, o, 0, 0.5 / K2);
    return o;
  }
};
}  // namespace

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  PROP = m.property();
  build_graphs(m.thorough());
  {
    Site s;
    RMap r;
    r[5] = 1.0;
    s.setId(1);
    s.setRatesToNeighbors(r);
    DrawScript d({}, 0.1);
    double t = s.getDwellTime(1);
    CONV = mc::close(t, -std::log(0.1), 1e-9) ? 1 : mc::close(t, -std::log(0.9), 1e-9) ? 2 : 0;
  }
  const std::string ALL = "C01 C02 C03 C04 C06 C07 C14";
  m.add(ALL, "histories", (int)GR.size(), [](Ctx& c) {
    Opt o;
    const int THR[3] = {0, 1, 2};
    const double RES[3] = {1e3, 1e-2, 1e-5};
    int wk = c.choose(3), ti = c.thorough ? c.choose(3) : (c.cfg + wk) % 3 == 2 ? 1 : 0, ri = c.thorough ? c.choose(3) : (c.cfg / 3 + wk) % 2;
    o.walkers = wk + 1;
    o.thr = THR[ti];
    o.res = RES[ti == 1 ? (ri + 1) % 3 : ri];
    const double RATIO[4] = {1, 1, 100, 1000};
    o.ratio = c.thorough ? RATIO[(size_t)(c.cfg + wk + ti) % 4] : RATIO[(size_t)(c.cfg / 2 + wk) % 4];
    o.idstyle = (c.cfg + wk) % 2;
    o.depth = (c.thorough ? 6 : 4) - (wk > 1) + (wk == 0) + (o.thr > 0 ? 1 : 0);
    o.draws = {0.13, 0.93};
    if (c.light) { o.depth = 3; o.removals = wk < 2; bool hand = c.cfg + 8 >= (int)GR.size(); if (hand ? wk == 2 : c.cfg % 9 || c.cfg / 9 % 3 != wk) return; }
    if (wk == 0) o.draws = {0.13, 0.55, 0.93};
    explore(c, GR[c.cfg], o, (uint64_t)(wk * 100 + ti * 10 + ri));
  });

  // long histories
  auto far = [](Ctx& c, int mode) {
    Opt o;
    const double RES[3] = {1e3, 1e-2, 1e-5};
    const int THR[4] = {0, 3, 17, 5};
    o.walkers = 1 + c.cfg % 3;
    if (mode != T_NONE) o.walkers = 1 + c.cfg % 2;
    int wi = c.choose(c.light ? 3 : c.thorough ? 120 : 39);
    o.word = word_of(wi);
    o.thr = THR[(size_t)(c.cfg / 3 + wi) % 4];
    o.res = RES[(size_t)(c.cfg / 5 + wi / 2) % 3];
    o.ratio = (c.cfg + wi) % 7 == 0 ? 100 : 1;
    o.idstyle = wi % 2;
    int hops = c.light ? 60 : 120;
    if (wi == 2 && c.cfg % 3 == 0) { o.thr = DEFAULT; hops = 1101; }
    if (c.light && c.cfg % 7 && c.cfg + 8 < (int)GR.size()) return;
    marathon(c, GR[c.cfg], o, hops, wi % 3, wi % 4 == 3 ? 13 : 0, mode, mode == T_SCALE ? (wi % 2 ? std::ldexp(1, 61) : std::ldexp(1, -73)) : 1.0);
  };
  m.add(ALL, "long_histories", (int)GR.size(), [far](Ctx& c) { far(c, T_NONE); });
  // crowds
  build_big();
  auto crowd = [](Ctx& c, int mode) {
    Opt o;
    const double RES[3] = {1e3, 1e-2, 1e-5};
    const int THR[4] = {0, 3, 17, 5}, CROWD[4] = {4, 9, 16, 23};
    const Graph& g = BIG[c.cfg % BIG.size()];
    int wi = c.choose(c.light ? 1 : c.thorough ? 39 : 12), n = c.cfg / (int)BIG.size();
    o.walkers = CROWD[n];
    o.word = word_of(wi);
    o.thr = THR[(size_t)(n + wi) % 4];
    o.res = RES[(size_t)(wi / 3 + c.cfg) % 3];
    o.ratio = wi % 7 == 5 ? 100 : 1;
    o.idstyle = wi % 2;
    marathon(c, g, o, c.light ? 60 : c.thorough ? 1500 : 300, (wi + n) % 2, wi % 2 ? 13 : 0, mode, mode == T_SCALE ? std::ldexp(1, 40) : 1.0);
  };
  m.add(ALL, "crowds", (int)BIG.size() * 4, [crowd](Ctx& c) { crowd(c, T_NONE); });
  m.add("C31", "crowds_unit_of_time", (int)BIG.size() * 4, [crowd](Ctx& c) { crowd(c, T_SCALE); });
  m.add("C32", "crowds_unobserved", (int)BIG.size() * 4, [crowd](Ctx& c) { crowd(c, T_QUIET); });
  m.add("C33", "crowds_bystanders", (int)BIG.size() * 4, [crowd](Ctx& c) { crowd(c, T_BYSTANDERS); });
  m.add("C31", "unit_of_time_long", (int)GR.size(), [far](Ctx& c) { far(c, T_SCALE); });
  m.add("C32", "unobserved_long", (int)GR.size(), [far](Ctx& c) { far(c, T_QUIET); });
  m.add("C33", "bystanders_long", (int)GR.size(), [far](Ctx& c) { far(c, T_BYSTANDERS); });

  // ---- C31, C32, C33: two systems side by side
  for (int mode = T_SCALE; mode <= T_BYSTANDERS; ++mode)
    m.add(TWIN_TAG[mode], mode == T_SCALE ? "unit_of_time" : mode == T_QUIET ? "unobserved" : "bystanders", (int)GR.size(), [mode](Ctx& c) {
      Opt o;
      const double RES[3] = {1e3, 1e-2, 1e-5}, K[4] = {std::ldexp(1, -90), 1 << 20, 1.0 / 8, std::ldexp(1, 100)};
      int wk = c.choose(2), ti = c.cfg % 2, ri = (c.cfg / 2 + wk) % 3;
      o.walkers = wk + 1;
      o.thr = ti;
      o.res = RES[ri];
      o.ratio = c.cfg % 5 == 0 ? 100 : 1;
      o.idstyle = c.cfg / 3 % 2;
      o.depth = (c.thorough ? 6 : 4) + (wk == 0);
      o.draws = {0.13, 0.93};
      if (c.light) { o.depth = 3; if (c.cfg % 9 && c.cfg + 8 < (int)GR.size()) return; }
      int ki = mode == T_SCALE ? c.choose(c.thorough ? 4 : 2) : 0;
      explore(c, GR[c.cfg], o, (uint64_t)(wk * 1000 + ki * 10 + mode), mode, mode == T_SCALE ? K[ki + (c.thorough ? 0 : 2 * (c.cfg % 2))] : 1.0);
    });

  // ---- C08
  m.add("C08", "misuse", 4, [](Ctx& c) {
    CoarseGrainSystem sys;
    Graph g;
    g.name = "path";
    const double f = c.cfg % 2 ? 1e6 : 1.0;
    g.k[1][2] = g.k[2][1] = f;
    g.k[2][3] = g.k[3][2] = 1.0;
    g.k[3][9] = 0.5;
    Rates r = g.rates();
    bool resolved = false, ready = false;
    double res = 0;
    auto w = std::make_shared<Walker>(), lost = std::make_shared<Walker>(), away = std::make_shared<Walker>();
    away->occupySite(4242);
    bool placed = false;
    int thr = 1000;
    std::map<int, int> vis;
    std::string tr;
    int depth = c.light ? 4 : c.thorough ? 12 : 9;
    bool style = c.cfg / 2;
    for (int d = 0; d < depth; ++d) {
      uint64_t h = mc::hmix(mc::hmix(mc::hmix(1, resolved * 2 + ready), (uint64_t)(res * 1e6)), placed ? (uint64_t)w->getIdOfSiteCurrentlyOccupying() * 64 + (uint64_t)w->getPotentialSite() : 99);
      h = mc::hmix(h, (uint64_t)thr);
      for (auto& v : vis) h = mc::hmix(h, (uint64_t)v.second);
      c.state(h, depth - d);
      int op = c.choose(19);
      c.step();
      auto deny = [&](const char* what, std::function<void()> fn) {
        tr += strf(" %s", what);
        c.label(tr);
        bool t = false;
        try { fn(); } catch (const std::exception&) { t = true; }
        REQ(c, t, "%s was accepted", what);
      };
      auto allow = [&](const char* what, std::function<void()> fn) {
        tr += strf(" %s", what);
        c.label(tr);
        try { fn(); } catch (const std::exception& e) { c.fail(strf("%s was refused: %s", what, e.what())); }
      };
      auto at = [&](std::shared_ptr<Walker> p) { return std::vector<WP>{{5, p}}; };
      DrawScript ds({}, 0.4);
      switch (op) {
        case 0: allow("setTimeResolution(2.5)", [&] { sys.setTimeResolution(2.5); }); resolved = true; res = 2.5; break;
        case 1: allow("setTimeResolution(1e-9)", [&] { sys.setTimeResolution(1e-9); }); resolved = true; res = 1e-9; break;
        case 2: deny("setTimeResolution(0)", [&] { sys.setTimeResolution(0.0); }); break;
        case 3: deny("setTimeResolution(-1)", [&] { sys.setTimeResolution(-1.0); }); break;
        case 4: deny("setTimeResolution(-1e-300)", [&] { sys.setTimeResolution(-1e-300); }); break;
        case 5: if (!ready) allow("setRandomSeed", [&] { sys.setRandomSeed(7); }); else deny("setRandomSeed after initializeSystem", [&] { sys.setRandomSeed(7); }); break;
        case 6:
          if (!resolved) deny("initializeSystem without a time resolution", [&] { sys.initializeSystem(r); });
          else if (ready) deny("initializeSystem a second time", [&] { sys.initializeSystem(r); });
          else { allow("initializeSystem", [&] { sys.initializeSystem(r); }); ready = true; for (int x : g.sites()) vis[x] = 0; }
          break;
        case 7: deny(ready ? "initializeWalkers(not placed)" : "initializeWalkers before initializeSystem", [&] { auto v = at(lost); sys.initializeWalkers(v); }); break;
        case 8: deny("initializeWalkers(on an unknown site)", [&] { auto v = at(away); sys.initializeWalkers(v); }); break;
        case 9: {
          if (placed) break;
          w->occupySite(2);
          if (!ready) deny("initializeWalkers before initializeSystem", [&] { auto v = at(w); sys.initializeWalkers(v); });
          else { allow("initializeWalkers", [&] { auto v = at(w); sys.initializeWalkers(v); }); placed = true; ++vis[2]; }
          break;
        }
        case 10: deny("getVisitFrequencyOfSite(unknown)", [&] { sys.getVisitFrequencyOfSite(4242); }); break;
        case 11: deny("getClusterIdOfSite(unknown)", [&] { sys.getClusterIdOfSite(4242); }); break;
        case 12: deny("hop of a walker that was not placed", [&] { if (style) { WP x(5, lost); sys.hop(x); } else sys.hop(5, lost); }); break;
        case 13: deny("removal of a walker that was not placed", [&] { if (style) { WP x(5, lost); sys.removeWalkerFromSystem(x); } else sys.removeWalkerFromSystem(5, lost); }); break;
        case 14: thr = constants::inf_iterations; allow("no coarse graining", [&] { sys.setMinCoarseGrainIterationThreshold(thr); }); break;
        case 15: deny("getVisitFrequencyOfSite(unassigned)", [&] { sys.getVisitFrequencyOfSite(constants::unassignedId); }); break;
        case 16: if (!resolved) deny("getTimeResolution before it is set", [&] { sys.getTimeResolution(); }); break;
        case 17:
          if (placed) {
            int q = w->getPotentialSite();
            allow("hop", [&] { sys.hop(5, w); });
            ++vis[q];
            if (q == 9) { allow("remove", [&] { sys.removeWalkerFromSystem(5, w); }); placed = false; }
          }
          break;
        case 18: if (placed) { allow("remove", [&] { sys.removeWalkerFromSystem(5, w); }); placed = false; } break;
      }
      // what was refused left no trace
      c.label(tr);
      if (resolved) REQ(c, sys.getTimeResolution() == res, "the time resolution is %g, it was set to %g", sys.getTimeResolution(), res);
      else REQ(c, mc::throws([&] { sys.getTimeResolution(); }), "a time resolution that was never set is %g", sys.getTimeResolution());
      REQ(c, sys.getClusters().empty() && sys.getResolutionOfClusters().empty() && sys.getTimeIncrementOfClusters().empty(), "clusters appeared");
      if (ready) for (auto& v : vis) {
        REQ(c, sys.getVisitFrequencyOfSite(v.first) == v.second, "site %d has %d visits, expected %d", v.first, sys.getVisitFrequencyOfSite(v.first), v.second);
        REQ(c, sys.getClusterIdOfSite(v.first) == constants::unassignedId, "site %d is in a cluster", v.first);
      } else for (int x : g.sites()) REQ(c, mc::throws([&] { sys.getVisitFrequencyOfSite(x); }) && mc::throws([&] { sys.getClusterIdOfSite(x); }), "site %d is known before initializeSystem", x);
      REQ(c, mc::throws([&] { lost->getIdOfSiteCurrentlyOccupying(); }) && mc::throws([&] { lost->getPotentialSite(); }), "a walker that was refused has a site");
      REQ(c, away->getIdOfSiteCurrentlyOccupying() == 4242 && mc::throws([&] { away->getPotentialSite(); }), "a walker that was refused was changed");
    }
    c.outcome(mc::hstr(tr));
    c.sample(tr);
  });


  // ---- C30
  m.add("C30", "without_coarse_graining", (int)GR.size(), [](Ctx& c) {
    const Graph& g = GR[c.cfg];
    c.label(g.str());
    Lab L(c, g, constants::inf_iterations, 1e-3);
    int K = c.light ? 8 : 40;
    for (int s : g.sites()) if (!g.drain(s)) {
      double tot = 0;
      for (auto& e : g.k.at(s)) tot += e.second;
      std::vector<double> q;
      for (int i = 0; i < K; ++i) { Seen o; q.push_back(L.run(s, (i + 0.5) / K, 0.3, o, 1, 0)); }
      std::sort(q.begin(), q.end());
      for (int i = 0; i < K; ++i) REQ(c, mc::close(q[i], -std::log((K - 1 - i + 0.5) / K) / tot, 1e-7), "quantile %d/%d of the time on site %d is %g, exponential with the sum of its rates gives %g", i, K, s, q[i], -std::log((K - 1 - i + 0.5) / K) / tot);
      Seen o = L.measure(s, 16, 400);
      for (auto& e : g.k.at(s)) REQ(c, std::fabs(o.to[e.first] - e.second / tot) <= 2.01 / 400, "walkers go from %d to %d with probability %g, the rates say %g", s, e.first, o.to[e.first], e.second / tot);
      // the same after arriving by a hop
      for (auto& e : g.k.at(s)) {
        int q2 = e.first;
        if (g.drain(q2)) continue;
        double t2 = 0, p2 = 0;
        for (auto& f : g.k.at(q2)) t2 += f.second;
        std::map<int, double> to;
        for (int i = 0; i < 60; ++i) {
          { DrawScript d({}, 0.5); L.place(s); }
          L.w->setPotentialSite(q2);
          DrawScript d({(i + 0.5) / 60}, (i + 0.5) / 60);
          L.sys.hop(3, L.w);
          REQ(c, L.w->getIdOfSiteCurrentlyOccupying() == q2, "the hop from %d to %d did not happen", s, q2);
          p2 += L.w->getDwellTime() / 60;
          to[L.w->getPotentialSite()] += 1.0 / 60;
          L.sys.removeWalkerFromSystem(3, L.w);
          c.step();
        }
        REQ(c, mc::close(p2, 1 / t2, 0.03), "mean time on site %d after a hop is %g, the rates say %g", q2, p2, 1 / t2);
        for (auto& f : g.k.at(q2)) REQ(c, std::fabs(to[f.first] - f.second / t2) <= 2.01 / 60, "walkers go from %d to %d with probability %g after a hop, the rates say %g", q2, f.first, to[f.first], f.second / t2);
      }
    }
    L.look();
    REQ(c, L.cl.empty(), "sites were lumped although coarse graining is off");
    c.visited(g.sites().size());
    c.outcome(mc::hstr(g.name));
    c.sample(c.label_);
  });
  m.add("C30", "coarse_against_exact", (int)GR.size(), [](Ctx& c) {
    const Graph& g = GR[c.cfg];
    int ri = c.choose(c.light ? 1 : 3);
    const double RES[3] = {1e5, 1.0, 2e-2};
    c.label(g.str() + strf(" time resolution %g", RES[ri]));
    Lab L(c, g, 0, RES[ri]);
    L.warm(c.light ? 10 : 40);
    bool good = true;
    std::map<int, Seen> seen;
    for (int s : g.sites()) if (!g.drain(s)) {
      std::set<int> in = L.here(s);
      if (in.size() > 1) {
        double T = 2 * traverse(g, in), sep = 1 / rate_out(g, in) / T;
        Exact e = exact(g, in);
        if (sep < 20 || e.t[s] > 3e3 * RES[ri]) { good = false; continue; }
        double tol = 0.01 + 1 / sep;
        Seen o = L.measure(s, c.light ? 8 : 24, c.light ? 20 : 200);
        if (getenv("VERIF_DEBUG")) printf("%s s=%d n=%zu sep=%g t=%g/%g\n", g.name.c_str(), s, in.size(), sep, o.mean, e.t[s]);
        REQ(c, mc::close(o.mean, e.t[s], tol), "a walker that comes to site %d leaves its cluster of %zu sites after %g on average, hop by hop it takes %g", s, in.size(), o.mean, e.t[s]);
        for (auto& x : e.to[s]) { if (getenv("VERIF_DEBUG")) printf("   to %d %g/%g\n", x.first, o.to[x.first], x.second); REQ(c, std::fabs(o.to[x.first] - x.second) <= tol + (c.light ? 0.11 : 0.011), "a walker that comes to site %d leaves its cluster to %d with probability %g, hop by hop with %g", s, x.first, o.to[x.first], x.second); }
        seen[s] = o;
        auto pi = shares(g, in);
        int i = 0;
        if (o.ninside > 0.05) for (int a : in) { double p = o.inside[a] / o.ninside; if (getenv("VERIF_DEBUG")) printf("   in %d %g/%g\n", a, p, pi[i]); REQ(c, std::fabs(p - pi[i]) <= tol + (c.light ? 0.3 : 0.02), "a walker in the cluster of site %d is sent to %d in %g of the cases, the share of time there is %g", s, a, p, pi[i]); ++i; }
      } else seen[s] = L.measure(s, c.light ? 8 : 24, c.light ? 20 : 200);
    }
    // the walk as a whole: mean time to come to each site that is not lumped
    if (good && !c.light) for (int target : g.sites()) if (!L.of.count(target)) {
      std::vector<int> st;
      for (int s : g.sites()) if (s != target && !g.drain(s)) st.push_back(s);
      // exact and as seen
      std::vector<std::vector<double>> A(st.size(), std::vector<double>(st.size(), 0)), B = A;
      std::vector<double> a(st.size()), b(st.size());
      bool all = true;
      for (size_t i = 0; i < st.size(); ++i) {
        double K = 0;
        for (auto& e : g.k.at(st[i])) { K += e.second; if (g.drain(e.first) && e.first != target) all = false; }
        A[i][i] = 1; a[i] = 1 / K;
        B[i][i] = 1; b[i] = seen[st[i]].mean;
        for (auto& e : g.k.at(st[i])) for (size_t j = 0; j < st.size(); ++j) if (st[j] == e.first) A[i][j] -= e.second / K;
        for (auto& e : seen[st[i]].to) for (size_t j = 0; j < st.size(); ++j) if (st[j] == e.first) B[i][j] -= e.second;
      }
      if (!all || st.empty()) continue;
      // reachable from everywhere?
      std::set<int> reach = {target};
      for (bool grew = true; grew;) { grew = false; for (int s : st) if (!reach.count(s)) for (auto& e : g.k.at(s)) if (reach.count(e.first)) { reach.insert(s); grew = true; break; } }
      if (reach.size() != st.size() + 1) continue;
      auto ta = solve(A, a), tb = solve(B, b);
      // rare branches are not resolved by the grid of draws
      bool fine = true;
      for (size_t i = 0; i < st.size(); ++i) { double tot = 0, mn = 1; if (L.of.count(st[i])) { Exact ex = exact(g, L.here(st[i])); for (auto& x : ex.to[st[i]]) mn = std::min(mn, x.second); } else { for (auto& e : g.k.at(st[i])) tot += e.second; for (auto& e : g.k.at(st[i])) mn = std::min(mn, e.second / tot); } if (mn < 0.15) fine = false; }
      if (!fine) continue;
      for (size_t i = 0; i < st.size(); ++i) { if (getenv("VERIF_DEBUG")) printf("  mfpt %d->%d %g/%g\n", st[i], target, tb[i], ta[i]); REQ(c, mc::close(ta[i], tb[i], 0.06), "the mean time from %d to %d is %g with coarse graining, %g without", st[i], target, tb[i], ta[i]); }
      c.step();
    }
    c.visited(L.cl.size() + 1);
    c.outcome(mc::hmix(mc::hstr(g.name), ri));
    c.sample(c.label_);
  });

  return m.run();
}
