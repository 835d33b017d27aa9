#include <climits>
#include "draws.hpp"
#include "libmythical/topologyfeatures/site.hpp"
#include "mythical/constants.hpp"
using namespace mythical;
using mc::Ctx;
using mc::strf;
namespace {
typedef std::unordered_map<int, double> R;
const std::vector<double> A = {1.0, 2.0, 0.5, 1e3, 1.0, 0.3};
// every rate set over the first n ids with rates from the alphabet, then special ones
std::vector<R> rate_sets(bool th) {
  std::vector<R> out;
  std::vector<double> al = {1.0, 2.0, 0.3, 50.0};
  const int ids[5] = {3, 0, -4, 100001, 7};
  for (int n = 1; n <= (th ? 5 : 4); ++n) {
    long tot = 1;
    for (int i = 0; i < n; ++i) tot *= (long)al.size();
    for (long k = 0; k < tot; ++k) {
      R r;
      long q = k;
      for (int i = 0; i < n; ++i) { r[ids[i]] = al[q % al.size()]; q /= (long)al.size(); }
      out.push_back(r);
    }
  }
  // many neighbours, equal and unequal
  for (int n : {6, 7, 8, 12, 16, 17, 26, 32, 40}) {
    R e, u, t;
    for (int i = 0; i < n; ++i) { e[i * 5 - 11] = 1e12; u[i] = 1.0 + i; t[1000 - i] = i % 2 ? 1e-3 : 4.0; }
    out.push_back(e);
    out.push_back(u);
    out.push_back(t);
  }
  out.push_back({{1, 1e-12}, {2, 3e-12}});
  out.push_back({{1, 1e12}, {2, 3e12}, {3, 1e12}});
  out.push_back({{1, 1e-300}, {2, 1e-300}});
  out.push_back({{1, 1e300}, {2, 2e300}});
  out.push_back({{1, 1e9}, {2, 1.0}});
  out.push_back({{-1, 1.0}, {-2, 1.0}, {INT_MAX, 1.0}, {INT_MIN + 1, 1.0}});
  out.push_back({{1, 1.0}, {2, 1e20}});
  out.push_back({{1, 0.1}, {2, 0.2}, {3, 0.3}, {4, 0.4}, {5, 0.7}, {6, 1.3}});
  return out;
}
std::string show(const R& r) {
  std::map<int, double> m(r.begin(), r.end());
  std::string s;
  int k = 0;
  for (auto& x : m) { if (++k > 8) { s += " ..."; break; } s += strf(" %d:%g", x.first, x.second); }
  return s;
}
// how: 0 all at once, 1 one by one, 2 wrong values first and then reset, 3 reset only
void give(Site& s, R& r, int how, std::vector<double>& junk) {
  if (how == 0) s.setRatesToNeighbors(r);
  else if (how == 1) for (auto& x : r) s.addNeighRate(std::pair<int, double*>(x.first, &x.second));
  else if (how == 2) {
    junk.assign(r.size(), 0);
    size_t k = 0;
    for (auto& x : r) { junk[k] = 0.7 + (double)k; s.addNeighRate(std::pair<int, double*>(x.first, &junk[k])); ++k; }
    for (auto& x : r) s.resetNeighRate(std::pair<int, double*>(x.first, &x.second));
  } else for (auto& x : r) s.resetNeighRate(std::pair<int, double*>(x.first, &x.second));
}
double sum(const R& r) { double t = 0; for (auto& x : r) t += x.second; return t; }

void facts(Ctx& c, Site& s, R& r) {
  double K = sum(r);
  std::set<int> ids;
  double mx = 0, ptot = 0;
  for (auto& x : r) {
    ids.insert(x.first);
    mx = std::max(mx, x.second);
    REQ(c, s.isNeighbor(x.first), "isNeighbor(%d) is false", x.first);
    REQ(c, s.getRateToNeighbor(x.first) == x.second, "getRateToNeighbor(%d)=%g, given %g", x.first, s.getRateToNeighbor(x.first), x.second);
    double p = s.getProbabilityOfHoppingToNeighboringSite(x.first);
    REQ(c, mc::close(p, x.second / K, 1e-12), "probability to hop to %d is %.17g, rate/sum is %.17g", x.first, p, x.second / K);
    ptot += p;
  }
  REQ(c, mc::close(ptot, 1.0, 1e-12), "the probabilities sum to %.17g", ptot);
  for (int u : {55, -55, INT_MIN}) REQ(c, !s.isNeighbor(u), "isNeighbor(%d) is true", u);
  auto nb = s.getNeighborSiteIds();
  REQ(c, std::set<int>(nb.begin(), nb.end()) == ids && nb.size() == ids.size(), "getNeighborSiteIds are not the neighbours given");
  auto rs = s.getRateToNeighbors();
  std::multiset<double> a(rs.begin(), rs.end()), b;
  for (auto& x : r) b.insert(x.second);
  REQ(c, a == b, "getRateToNeighbors are not the rates given");
  REQ(c, s.getFastestRate() == mx, "getFastestRate %g, fastest is %g", s.getFastestRate(), mx);
  auto pi = s.getProbabilitiesAndIdsOfNeighbors();
  REQ(c, pi.size() == r.size(), "getProbabilitiesAndIdsOfNeighbors lists %zu of %zu", pi.size(), r.size());
  std::set<int> pid;
  for (auto& x : pi) { pid.insert(x.first); REQ(c, r.count(x.first) && mc::close(x.second, r[x.first] / K, 1e-12), "getProbabilitiesAndIdsOfNeighbors gives %g for %d", x.second, x.first); }
  REQ(c, pid == ids, "getProbabilitiesAndIdsOfNeighbors lists a neighbour twice");
  auto nr = s.getNeighborsAndRates();
  REQ(c, nr.size() == r.size(), "getNeighborsAndRates has %zu entries", nr.size());
  for (auto& x : nr) REQ(c, r.count(x.first) && *x.second == r[x.first], "getNeighborsAndRates wrong for %d", x.first);
  auto& nc = s.getNeighborsAndRatesConst();
  REQ(c, nc.size() == r.size(), "getNeighborsAndRatesConst has %zu entries", nc.size());
  for (auto& x : nc) REQ(c, r.count(x.first) && *x.second == r[x.first], "getNeighborsAndRatesConst wrong for %d", x.first);
  REQ(c, mc::close(s.getTimeConstant(), 1.0 / K, 1e-12), "time constant %.17g, 1/sum of the rates is %.17g", s.getTimeConstant(), 1.0 / K);
  c.step();
}
void pick_law(Ctx& c, Site& s, R& r, int K, bool with_walker, const char* when) {
  double tot = sum(r);
  std::map<int, double> w;
  DrawTree t;
  t.K = K;
  t.max_depth = 1;
  int wid = 0;
  t.run([&](DrawTree& tt) {
    int id = with_walker ? s.pickNewSiteId(wid++ % 3) : s.pickNewSiteId();
    REQ(c, r.count(id), "%s: pickNewSiteId gives %d which is no neighbour", when, id);
    w[id] += tt.weight;
  });
  double tol = (double)(r.size() + 1) / K;
  for (auto& x : r) {
    double p = x.second / tot, g = w.count(x.first) ? w[x.first] : 0;
    REQ(c, std::fabs(p - g) <= tol, "%s: %d is picked with probability %g, rate/sum is %g", when, x.first, g, p);
    if (p > tol) REQ(c, g > 0, "%s: %d is never picked", when, x.first);
  }
  c.step(K);
  c.visited(w.size());
  // the ends of the range of the draws
  for (double u : {0.0, 1e-300, 1e-17, 1e-9, 1e-3, 1 - 1e-3, 1 - 1e-9, 1 - 1e-15, 1 - 1.0 / 9007199254740992.0}) {
    DrawScript d({}, u);
    int id = s.pickNewSiteId(4);
    REQ(c, r.count(id), "%s: pickNewSiteId gives %d for the draw %.17g", when, id, u);
    c.step();
  }
}
void dwell_law(Ctx& c, Site& s, R& r, int K, const char* when) {
  double tau = 1.0 / sum(r);
  std::vector<double> got;
  DrawTree t;
  t.K = K;
  t.max_depth = 1;
  int wid = -2;
  t.run([&](DrawTree&) { got.push_back(s.getDwellTime(wid++ % 5)); });
  REQ(c, (int)got.size() == K, "%s: the dwell time does not depend on one draw", when);
  std::sort(got.begin(), got.end());
  for (int i = 0; i < K; ++i) {
    double e = -std::log((K - 1 - i + 0.5) / K) * tau;
    REQ(c, mc::close(got[i], e, 1e-9), "%s: quantile %d/%d of the dwell time is %.12g, exponential with time constant %g has %.12g", when, i, K, got[i], tau, e);
  }
  c.step(K);
  c.visited(K);
  for (double u : {0.0, 5e-324, 1e-300, 1e-17, 0.5, 1 - 1e-9, 1 - 1.0 / 9007199254740992.0}) {
    DrawScript d({u}, 0.5);
    double x = s.getDwellTime(1);
    REQ(c, std::isfinite(x) && x > 0, "%s: dwell time %g for the draw %g", when, x, u);
  }
}
}  // namespace
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  static std::vector<R> S = rate_sets(m.thorough());
  m.add("C09", "destination_law", (int)S.size(), [](Ctx& c) {
    R r = S[c.cfg];
    int how = c.choose(4);
    c.label(show(r) + strf(" given by method %d", how));
    Site s;
    s.setId(9999);
    std::vector<double> junk;
    give(s, r, how, junk);
    facts(c, s, r);
    pick_law(c, s, r, c.thorough ? 4000 : 1000, how % 2, "fresh site");
    facts(c, s, r);
    // independent of visits, occupation, cluster membership, copies and dwell draws
    s.occupy();
    s.setClusterId(3);
    { DrawScript d({}, 0.3); for (int i = 0; i < 5; ++i) s.getDwellTime(i); }
    Site t = s;
    pick_law(c, t, r, 300, true, "copied site");
    s.vacate();
    pick_law(c, s, r, 300, false, "visited site");
    c.outcome(mc::hstr(show(r)));
    c.sample(c.label_);
  });
  m.add("C09", "picks_are_independent", 5, [](Ctx& c) {
    // two and three picks in a row: every combination of draws, product law
    R r = std::vector<R>{{{1, 1.0}, {2, 3.0}}, {{1, 1.0}, {2, 1.0}, {3, 2.0}}, {{5, 1.0}, {6, 1.0}}, {{0, 2.0}, {-1, 5.0}, {8, 3.0}}, {{4, 1.0}}}[c.cfg];
    Site s;
    s.setId(77);
    s.setRatesToNeighbors(r);
    double tot = sum(r);
    std::map<std::pair<int, int>, double> w;
    DrawTree t;
    t.K = 60;
    t.max_depth = 2;
    t.run([&](DrawTree& tt) { int a = s.pickNewSiteId(0), b = s.pickNewSiteId(1); w[{a, b}] += tt.weight; c.step(); });
    for (auto& x : r) for (auto& y : r) {
      double p = x.second * y.second / tot / tot;
      REQ(c, std::fabs(w[{x.first, y.first}] - p) < 0.06, "picking %d and then %d has probability %g, expected %g", x.first, y.first, w[{x.first, y.first}], p);
    }
    c.visited(w.size());
  });
  m.add("C10", "dwell_law", (int)S.size(), [](Ctx& c) {
    R r = S[c.cfg];
    int how = c.choose(4);
    c.label(show(r) + strf(" given by method %d", how));
    Site s;
    s.setId(-8);
    std::vector<double> junk;
    give(s, r, how, junk);
    REQ(c, mc::close(s.getTimeConstant(), 1.0 / sum(r), 1e-12), "time constant %g, 1/sum of the rates is %g", s.getTimeConstant(), 1.0 / sum(r));
    dwell_law(c, s, r, c.thorough ? 2000 : 400, "fresh site");
    s.occupy(-8);
    s.setClusterId(1);
    { DrawScript d({}, 0.2); for (int i = 0; i < 7; ++i) s.pickNewSiteId(i); }
    Site t = s;
    dwell_law(c, t, r, 60, "copied site");
    s.vacate(-8);
    dwell_law(c, s, r, 60, "visited site");
    c.outcome(mc::hstr(show(r)));
    c.sample(c.label_);
  });
  // ---- C16: rates are read where they live
  m.add("C16", "site_rates_live", 81, [](Ctx& c) {
    const double V[3] = {1.0, 4.0, 0.02};
    int k = c.cfg;
    R r = {{1, V[k % 3]}, {2, V[k / 3 % 3]}, {-7, V[k / 9 % 3]}, {40, V[k / 27 % 3]}};
    double spare = 0.33, spare2 = 9.0;
    Site s;
    s.setId(0);
    s.setRatesToNeighbors(r);
    int depth = c.thorough ? 4 : 3;
    std::string tr = show(r);
    std::map<int, double*> ptr;
    for (auto& x : r) ptr[x.first] = &x.second;
    for (int d = 0; d < depth; ++d) {
      int op = c.choose(9);
      const int ids[4] = {1, 2, -7, 40};
      if (op < 8) { *ptr[ids[op % 4]] *= op < 4 ? 10.0 : 0.125; tr += strf(" scale(%d)", ids[op % 4]); }
      else if (ptr.count(99)) { ptr[99] = ptr[99] == &spare ? &spare2 : &spare; s.resetNeighRate(std::pair<int, double*>(99, ptr[99])); tr += " reset(99)"; }
      else { ptr[99] = &spare; s.addNeighRate(std::pair<int, double*>(99, &spare)); tr += " add(99)"; }
      c.label(tr);
      double mx = 0;
      for (auto& x : ptr) {
        mx = std::max(mx, *x.second);
        REQ(c, s.getRateToNeighbor(x.first) == *x.second, "rate to %d is %g after the rate became %g", x.first, s.getRateToNeighbor(x.first), *x.second);
        REQ(c, *s.getNeighborsAndRates()[x.first] == *x.second, "getNeighborsAndRates does not follow the rate to %d", x.first);
      }
      REQ(c, s.getFastestRate() == mx, "fastest rate %g, it is %g", s.getFastestRate(), mx);
      Site cp = s;
      REQ(c, cp.getRateToNeighbor(1) == *ptr[1], "a copy of the site does not follow the rate");
      // announcing a rate brings everything derived up to date
      int who = c.choose(2);
      s.resetNeighRate(std::pair<int, double*>(who ? 2 : 40, ptr[who ? 2 : 40]));
      R now;
      for (auto& x : ptr) now[x.first] = *x.second;
      facts(c, s, now);
      { double e = 1.0 / sum(now); std::vector<double> g; DrawTree t; t.K = 8; t.max_depth = 1; t.run([&](DrawTree&) { g.push_back(s.getDwellTime(0)); }); std::sort(g.begin(), g.end()); REQ(c, g.size() == 8 && mc::close(g[0], -std::log(7.5 / 8) * e, 1e-9), "dwell time does not follow the changed rates"); }
      pick_law(c, s, now, 100, true, "after the rates changed");
      c.outcome(mc::hstr(tr));
    }
    c.sample(tr);
  });
  // ---- C18: occupation of a single site
  m.add("C18", "site_occupation", 1, [](Ctx& c) {
    R r = {{1, 1.0}};
    Site s;
    s.setId(5);
    s.setRatesToNeighbors(r);
    bool occ = false;
    int visits = 0, depth = c.thorough ? 12 : 9;
    std::string tr;
    REQ(c, !s.isOccupied() && s.getVisitFrequency() == 0, "a new site is occupied or visited");
    for (int d = 0; d < depth; ++d) {
      int op = c.choose(3);
      if (!occ) {
        if (op == 0) { s.occupy(); ++visits; } else if (op == 1) { s.occupy(5); ++visits; } else s.setToOccupiedStatus();
        occ = true;
        tr += strf(" occupy%d", op);
      } else {
        if (op == 0) s.vacate(); else if (op == 1) s.removeWalker(3, 5); else s.setToUnoccupiedStatus();
        occ = false;
        tr += strf(" vacate%d", op);
      }
      c.label(tr);
      REQ(c, s.isOccupied() == occ && s.isOccupied(5) == occ, "isOccupied()=%d after%s", s.isOccupied(), tr.c_str());
      REQ(c, s.getVisitFrequency() == visits, "%d visits counted, %d made", s.getVisitFrequency(), visits);
      Site t = s;
      REQ(c, t.isOccupied() == occ && t.getVisitFrequency() == visits, "the copy of a site has another occupation or visit count");
      c.step();
      c.visited();
    }
    c.outcome(mc::hmix(visits, occ));
    c.sample(tr);
  });
  return m.run();
}
