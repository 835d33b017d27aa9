#include <climits>
#include "draws.hpp"
#include "libmythical/cluster_container.hpp"
#include "libmythical/rate_container.hpp"
#include "libmythical/site_container.hpp"
#include "mythical/constants.hpp"
using namespace mythical;
using mc::Ctx;
using mc::strf;
namespace {
// ------------------------------------------------------------ C19
typedef std::map<int, std::map<int, double*>> M;
template <class R> M norm(const R& r) {
  M m;
  for (auto& a : r) for (auto& b : a.second) m[a.first][b.first] = b.second;
  return m;
}
std::set<int> once(Ctx& c, const std::vector<int>& v, const char* what) {
  std::set<int> s(v.begin(), v.end());
  REQ(c, s.size() == v.size(), "%s lists a site twice", what);
  return s;
}
void check_rates(Ctx& c, Rate_Container& rc, const M& m, const std::vector<int>& ids) {
  std::set<int> out, in;
  for (auto& a : m) { if (!a.second.empty()) out.insert(a.first); for (auto& b : a.second) in.insert(b.first); }
  for (size_t a = 0; a < ids.size(); ++a) {
    int i = ids[a];
    size_t no = m.count(i) ? m.at(i).size() : 0, ni = 0;
    M mi, mo;
    for (auto& a : m) if (a.second.count(i)) { ++ni; mi[a.first][i] = a.second.at(i); }
    if (no) mo[i] = m.at(i);
    REQ(c, rc.outgoingRateCount(i) == no, "outgoingRateCount(%d)=%zu, %zu rates leave it", i, rc.outgoingRateCount(i), no);
    REQ(c, rc.incomingRateCount(i) == ni, "incomingRateCount(%d)=%zu, %zu rates reach it", i, rc.incomingRateCount(i), ni);
    REQ(c, norm(rc.getOutgoingRates(i)) == mo, "getOutgoingRates(%d) are not the rates added", i);
    REQ(c, norm(rc.getIncomingRates(i)) == mi, "getIncomingRates(%d) are not the rates added", i);
    for (size_t b = 0; b < ids.size(); ++b) {
      int j = ids[b];
      bool has = m.count(i) && m.at(i).count(j);
      if (!has && ids.size() > 20 && b + 1 < ids.size() && b != (a + 3) % ids.size()) continue;
      if (has) REQ(c, rc.getRate(i, j) == m.at(i).at(j), "getRate(%d,%d) is not the rate added", i, j);
      else REQ(c, mc::throws([&] { rc.getRate(i, j); }), "getRate(%d,%d) of a rate never added does not throw", i, j);
    }
  }
  std::set<int> src, snk;
  for (int i : out) if (!in.count(i)) src.insert(i);
  for (int i : in) if (!out.count(i)) snk.insert(i);
  REQ(c, once(c, rc.getSourceSiteIds(), "getSourceSiteIds") == src, "getSourceSiteIds are not the sites rates only leave");
  REQ(c, once(c, rc.getSinkSiteIds(), "getSinkSiteIds") == snk, "getSinkSiteIds are not the sites rates only reach");
  c.step();
}
double pool[64];
void rates_scenario(Ctx& c, const std::vector<int>& ids, bool self, unsigned mask) {
  std::vector<std::pair<int, int>> E;
  for (int a : ids) for (int b : ids) if (self || a != b) E.emplace_back(a, b);
  M m;
  Rate_Map rm;
  std::vector<int> present;
  for (size_t e = 0; e < E.size(); ++e) if (mask >> e & 1) { m[E[e].first][E[e].second] = &pool[e]; rm[E[e].first][E[e].second] = &pool[e]; present.push_back((int)e); }
  std::vector<int> q = ids;
  q.push_back(99);
  q.push_back(-1);
  int how = c.choose(6);
  Rate_Container rc;
  if (how == 0) rc = Rate_Container(rm);
  else if (how == 1) rc.addRates(rm);
  else if (how == 2) { M now; for (int e : present) { rc.addRate(E[e].first, E[e].second, &pool[e]); now[E[e].first][E[e].second] = &pool[e]; check_rates(c, rc, now, q); } }
  else if (how == 3) for (size_t k = present.size(); k-- > 0;) rc.addRate(E[present[k]].first, E[present[k]].second, &pool[present[k]]);
  else {
    // in two parts; part of the rates of one site may already be there
    Rate_Map r1, r2;
    for (size_t k = 0; k < present.size(); ++k) {
      int e = present[k];
      bool first = how == 4 ? k % 2 == 0 : k < present.size() / 2;
      (first ? r1 : r2)[E[e].first][E[e].second] = &pool[e];
    }
    rc.addRates(r1);
    rc.addRates(r2);
  }
  c.label(strf("edges mask %u over %zu ids, built by method %d", mask, ids.size(), how));
  check_rates(c, rc, m, q);
  for (int e : present) {
    double other = 0;
    REQ(c, mc::throws([&] { rc.addRate(E[e].first, E[e].second, &other); }), "adding the rate %d -> %d twice is accepted", E[e].first, E[e].second);
    Rate_Map one;
    one[E[e].first][E[e].second] = &other;
    REQ(c, mc::throws([&] { rc.addRates(one); }), "adding the rates %d -> %d twice is accepted", E[e].first, E[e].second);
  }
  check_rates(c, rc, m, q);
  // the container refers to the rates, it does not copy them
  for (int e : present) { pool[e] = e * 1.5 + 0.25; REQ(c, *rc.getRate(E[e].first, E[e].second) == e * 1.5 + 0.25, "a changed rate is not seen"); }
  c.visited();
  c.outcome(mc::hmix(mask, how));
  c.sample(c.label_);
}

// many ids: stars, rings, chords, sources and sinks by the hundred
void rates_large(Ctx& c) {
  static const int N[] = {17, 70, 140, 300};
  int n = N[c.cfg % 4], kind = c.cfg / 4 % 5, how = c.cfg / 20;
  auto id = [&](int k) { return k * 37 - 5 * n; };
  std::vector<std::pair<int, int>> E;
  for (int k = 0; k < n; ++k) {
    if (kind == 0) E.emplace_back(id(k), id((k + 1) % n));
    if (kind == 1 && k) E.emplace_back(id(0), id(k));
    if (kind == 2 && k) E.emplace_back(id(k), id(0));
    if (kind == 3) for (int d : {1, 5, 11}) E.emplace_back(id(k), id((k + d) % n));
    if (kind == 4) { if (k % 2) E.emplace_back(id(k), id(k - 1)); if (k % 2 && k + 1 < n) E.emplace_back(id(k), id(k + 1)); }
  }
  std::vector<double> val(E.size());
  M m;
  Rate_Map rm;
  Rate_Container rc;
  for (size_t e = 0; e < E.size(); ++e) m[E[e].first][E[e].second] = rm[E[e].first][E[e].second] = &val[e];
  if (how == 0) rc.addRates(rm);
  else for (size_t e = 0; e < E.size(); ++e) rc.addRate(E[e].first, E[e].second, &val[e]);
  std::vector<int> q;
  for (int k = 0; k < n; ++k) q.push_back(id(k));
  q.push_back(1);
  c.label(strf("%zu rates between %d ids, kind %d, built by method %d", E.size(), n, kind, how));
  check_rates(c, rc, m, q);
  for (auto& e : E) { double other = 0; REQ(c, mc::throws([&] { rc.addRate(e.first, e.second, &other); }), "adding the rate %d -> %d twice is accepted", e.first, e.second); }
  check_rates(c, rc, m, q);
  c.visited();
  c.sample(c.label_);
}

// ------------------------------------------------------------ C20 / C18
struct SM { std::map<int, double> r; int cl = constants::unassignedId; bool occ = false; int visits = 0; };
const std::vector<int> SID = {0, 5, -3, 1000000};
std::unordered_map<int, double>* rate_pool(int k) {
  static std::vector<std::unordered_map<int, double>> p = {
      {{5, 2.0}, {-3, 0.5}}, {{0, 1.0}, {7, 1.0}, {8, 1.0}}, {{0, 1e-9}}, {{0, 3.0}, {5, 1e6}, {-3, 4.0}, {12, 0.125}}};
  return &p[k];
}
Site mk_site(int k) {
  Site s;
  s.setId(SID[k]);
  s.setRatesToNeighbors(*rate_pool(k));
  return s;
}
void check_sites(Ctx& c, Site_Container& sc, std::map<int, SM>& m) {
  REQ(c, sc.size() == m.size(), "size() %zu with %zu sites", sc.size(), m.size());
  std::set<int> ids;
  for (auto& x : m) ids.insert(x.first);
  REQ(c, once(c, sc.getSiteIds(), "getSiteIds") == ids, "getSiteIds are not the sites added");
  auto all = sc.getSites();
  std::set<int> a;
  for (auto& x : all) { a.insert(x.first); REQ(c, x.second.getId() == x.first, "site stored under another id"); }
  REQ(c, a == ids, "getSites() are not the sites added");
  auto rm = sc.getRates();
  REQ(c, rm.size() == m.size(), "getRates covers %zu of %zu sites", rm.size(), m.size());
  std::vector<int> un = {42, -1, INT_MAX, INT_MIN};
  for (int i : SID) if (!m.count(i)) un.push_back(i);
  for (auto& x : m) {
    int i = x.first;
    SM& s = x.second;
    double sum = 0, mx = 0;
    std::set<int> ng;
    REQ(c, sc.exist(i), "exist(%d) is false", i);
    REQ(c, sc.getSite(i).getId() == i, "getSite(%d) gives another site", i);
    for (auto& r : s.r) {
      sum += r.second; mx = std::max(mx, r.second); ng.insert(r.first);
      REQ(c, sc.getRateToNeighborOfSite(i, r.first) == r.second, "rate %d -> %d is %g", i, r.first, sc.getRateToNeighborOfSite(i, r.first));
      REQ(c, rm[i].count(r.first) && *rm[i][r.first] == r.second, "getRates misses %d -> %d", i, r.first);
    }
    REQ(c, rm[i].size() == s.r.size(), "getRates has %zu rates off %d", rm[i].size(), i);
    REQ(c, once(c, sc.getSiteIdsOfNeighbors(i), "getSiteIdsOfNeighbors") == ng, "getSiteIdsOfNeighbors(%d) wrong", i);
    REQ(c, sc.getFastestRateOffSite(i) == mx, "getFastestRateOffSite(%d)=%g, it is %g", i, sc.getFastestRateOffSite(i), mx);
    REQ(c, mc::close(sc.getTimeConstant(i), 1.0 / sum, 1e-12), "getTimeConstant(%d)=%g, 1/sum of rates is %g", i, sc.getTimeConstant(i), 1.0 / sum);
    { DrawScript d({}, std::exp(-1.0)); REQ(c, sc.getDwellTime(i) > 0, "dwell time of %d not positive", i); }
    REQ(c, sc.isOccupied(i) == s.occ, "isOccupied(%d)=%d", i, sc.isOccupied(i));
    REQ(c, sc.getSite(i).isOccupied() == s.occ, "site %d isOccupied()=%d", i, sc.getSite(i).isOccupied());
    REQ(c, sc.getClusterIdOfSite(i) == s.cl, "getClusterIdOfSite(%d)=%d, set to %d", i, sc.getClusterIdOfSite(i), s.cl);
    REQ(c, sc.partOfCluster(i) == (s.cl != constants::unassignedId), "partOfCluster(%d)=%d with cluster id %d", i, sc.partOfCluster(i), s.cl);
    REQ(c, sc.getSite(i).getVisitFrequency() == s.visits, "site %d has %d visits, %d registered", i, sc.getSite(i).getVisitFrequency(), s.visits);
  }
  // what is asked of unknown ids costs most: once per state, not again on the way to the next
  if (c.at_end()) for (int i : un) {
    REQ(c, !sc.exist(i), "exist(%d) is true for a site never added", i);
    REQ(c, mc::throws([&] { sc.getSite(i); }), "getSite(%d) of an unknown site", i);
    REQ(c, mc::throws([&] { sc.getSites(std::vector<int>{i}); }), "getSites({%d}) of an unknown site", i);
    REQ(c, mc::throws([&] { sc.setClusterId(i, 1); }), "setClusterId(%d) of an unknown site", i);
    REQ(c, mc::throws([&] { sc.getClusterIdOfSite(i); }), "getClusterIdOfSite(%d) of an unknown site", i);
    REQ(c, mc::throws([&] { sc.partOfCluster(i); }), "partOfCluster(%d) of an unknown site", i);
    REQ(c, mc::throws([&] { sc.getSmallestClusterId(std::vector<int>{i}); }), "getSmallestClusterId({%d}) of an unknown site", i);
    REQ(c, mc::throws([&] { sc.isOccupied(i); }), "isOccupied(%d) of an unknown site", i);
    REQ(c, mc::throws([&] { sc.vacate(i); }), "vacate(%d) of an unknown site", i);
    REQ(c, mc::throws([&] { sc.occupy(i); }), "occupy(%d) of an unknown site", i);
    REQ(c, mc::throws([&] { sc.getDwellTime(i); }), "getDwellTime(%d) of an unknown site", i);
    REQ(c, mc::throws([&] { sc.getTimeConstant(i); }), "getTimeConstant(%d) of an unknown site", i);
    REQ(c, mc::throws([&] { sc.getFastestRateOffSite(i); }), "getFastestRateOffSite(%d) of an unknown site", i);
    REQ(c, mc::throws([&] { sc.getRateToNeighborOfSite(i, 0); }), "getRateToNeighborOfSite(%d) of an unknown site", i);
    REQ(c, mc::throws([&] { sc.getSiteIdsOfNeighbors(i); }), "getSiteIdsOfNeighbors(%d) of an unknown site", i);
  }
  REQ(c, sc.size() == m.size(), "asking about unknown sites added one");
  // smallest cluster id and getSites of every subset
  std::vector<int> v(ids.begin(), ids.end());
  for (unsigned k = 0; k < (1u << v.size()); ++k) {
    std::vector<int> sub;
    int best = constants::unassignedId;
    for (size_t j = 0; j < v.size(); ++j) if (k >> j & 1) {
      sub.push_back(v[j]);
      int cl = m[v[j]].cl;
      if (cl != constants::unassignedId && (best == constants::unassignedId || cl < best)) best = cl;
    }
    REQ(c, sc.getSmallestClusterId(sub) == best, "getSmallestClusterId gives %d, smallest is %d", sc.getSmallestClusterId(sub), best);
    std::reverse(sub.begin(), sub.end());
    REQ(c, sc.getSmallestClusterId(sub) == best, "getSmallestClusterId depends on the order of the sites");
    auto g = sc.getSites(sub);
    REQ(c, g.size() == sub.size(), "getSites gives %zu of %zu sites", g.size(), sub.size());
    for (int i : sub) REQ(c, g.count(i) && g[i].getId() == i && g[i].isOccupied() == m[i].occ, "getSites misses site %d or its state", i);
    if (!sub.empty()) { sub.push_back(42); REQ(c, mc::throws([&] { sc.getSites(sub); }), "getSites with an unknown site among known ones accepted"); REQ(c, mc::throws([&] { sc.getSmallestClusterId(sub); }), "getSmallestClusterId with an unknown site accepted"); }
  }
}
void sites_scenario(Ctx& c) {
  Site_Container sc;
  std::map<int, SM> m;
  // some sites from the start, then operations
  unsigned start = c.cfg % 16;
  std::vector<Site> batch;
  for (int k = 0; k < 4; ++k) if (start >> k & 1) {
    Site s = mk_site(k);
    SM x;
    x.r = std::map<int, double>(rate_pool(k)->begin(), rate_pool(k)->end());
    m[SID[k]] = x;
    if (c.cfg / 16 % 2) batch.push_back(s); else sc.addSite(s);
  }
  if (!batch.empty()) sc.addSites(batch);
  std::string tr = strf("start %u", start);
  int depth = c.thorough ? 5 : 3;
  for (int d = 0; d <= depth; ++d) {
    c.label(tr);
    check_sites(c, sc, m);
    c.visited();
    if (d == depth) break;
    uint64_t k = 7;
    for (auto& x : m) k = mc::hmix(mc::hmix(mc::hmix(k, x.first), x.second.cl), x.second.occ * 100 + x.second.visits);
    c.state(k, depth - d);
    int op = c.choose(4 * 5);
    int s = op % 4, id = SID[s];
    c.step();
    switch (op / 4) {
      case 0: {
        Site x = mk_site(s);
        tr += strf(" add(%d)", id);
        if (m.count(id)) REQ(c, mc::throws([&] { sc.addSite(x); }), "site %d added twice", id);
        else { sc.addSite(x); SM y; y.r = std::map<int, double>(rate_pool(s)->begin(), rate_pool(s)->end()); m[id] = y; }
        break;
      }
      case 1: if (m.count(id)) { sc.setClusterId(id, 3); m[id].cl = 3; tr += strf(" cluster(%d,3)", id); } break;
      case 2: if (m.count(id)) { sc.setClusterId(id, 0); m[id].cl = 0; tr += strf(" cluster(%d,0)", id); } break;
      case 3: if (m.count(id) && !m[id].occ) { sc.occupy(id); m[id].occ = true; ++m[id].visits; tr += strf(" occupy(%d)", id); } break;
      default: if (m.count(id) && m[id].occ) { sc.vacate(id); m[id].occ = false; tr += strf(" vacate(%d)", id); } break;
    }
    c.outcome(mc::hstr(tr));
  }
  c.sample(tr);
}

// hundreds of sites, thousands of visits
void sites_large(Ctx& c) {
  int n = c.cfg % 2 ? 600 : 90, how = c.cfg / 2;
  auto id = [&](int k) { return k * 101 - 3000; };
  std::vector<std::unordered_map<int, double>> rates(n);
  Site_Container sc;
  std::vector<Site> batch;
  for (int k = 0; k < n; ++k) {
    for (int d : {1, 2, 9}) rates[k][id((k + d) % n)] = 1.0 + (k * 7 + d) % 23;
    if (k % 50 == 0) for (int j = 0; j < n; j += 2) if (j != k) rates[k][id(j)] = 0.5 + j % 3;
    Site s;
    s.setId(id(k));
    s.setRatesToNeighbors(rates[k]);
    if (how) batch.push_back(s); else sc.addSite(s);
  }
  if (how) sc.addSites(batch);
  std::vector<int> cl(n, constants::unassignedId), vis(n, 0);
  std::vector<bool> occ(n, false);
  auto check = [&] {
    REQ(c, (int)sc.size() == n, "size() %zu with %d sites", sc.size(), n);
    REQ(c, (int)once(c, sc.getSiteIds(), "getSiteIds").size() == n, "getSiteIds are not the sites added");
    auto all = sc.getSites();
    auto rm = sc.getRates();
    REQ(c, (int)all.size() == n && (int)rm.size() == n, "getSites or getRates do not cover all sites");
    for (int k = 0; k < n; ++k) {
      int i = id(k);
      double sum = 0, mx = 0;
      REQ(c, sc.exist(i) && !sc.exist(i + 1), "exist(%d) wrong", i);
      for (auto& r : rates[k]) {
        sum += r.second; mx = std::max(mx, r.second);
        REQ(c, sc.getRateToNeighborOfSite(i, r.first) == r.second && rm[i].count(r.first) && *rm[i][r.first] == r.second, "rate %d -> %d wrong", i, r.first);
      }
      REQ(c, rm[i].size() == rates[k].size() && once(c, sc.getSiteIdsOfNeighbors(i), "getSiteIdsOfNeighbors").size() == rates[k].size(), "neighbours of %d wrong", i);
      REQ(c, sc.getFastestRateOffSite(i) == mx && mc::close(sc.getTimeConstant(i), 1.0 / sum, 1e-12), "fastest rate or time constant of %d wrong", i);
      REQ(c, sc.isOccupied(i) == occ[k] && all[i].isOccupied() == occ[k], "isOccupied(%d)=%d", i, sc.isOccupied(i));
      REQ(c, sc.getClusterIdOfSite(i) == cl[k] && sc.partOfCluster(i) == (cl[k] != constants::unassignedId), "cluster of %d is %d, set to %d", i, sc.getClusterIdOfSite(i), cl[k]);
      REQ(c, sc.getSite(i).getVisitFrequency() == vis[k], "site %d has %d visits, %d registered", i, sc.getSite(i).getVisitFrequency(), vis[k]);
    }
    std::vector<int> some;
    int best = constants::unassignedId;
    for (int k = n - 1; k >= 0; --k) {
      some.push_back(id(k));
      if (cl[k] != constants::unassignedId && (best == constants::unassignedId || cl[k] < best)) best = cl[k];
      if (k % 40 == 0) { REQ(c, sc.getSmallestClusterId(some) == best, "getSmallestClusterId of %zu sites gives %d, smallest is %d", some.size(), sc.getSmallestClusterId(some), best); REQ(c, sc.getSites(some).size() == some.size(), "getSites gives %zu of %zu sites", sc.getSites(some).size(), some.size()); }
    }
    c.step(); c.visited();
  };
  c.label(strf("%d sites, added %s", n, how ? "together" : "one by one"));
  check();
  for (int k = 0; k < n; ++k) if (k % 3) { cl[k] = n - k + 7; sc.setClusterId(id(k), cl[k]); }
  check();
  for (int k = 0; k < n; ++k) if (k % 2) { sc.occupy(id(k)); occ[k] = true; ++vis[k]; }
  check();
  for (int k = 0; k < n; ++k) if (k % 5 == 1 && occ[k]) { sc.vacate(id(k)); occ[k] = false; }
  check();
  for (int k : {0, n / 2, n - 1}) {
    int times = k == 0 ? 70000 : 400;
    if (occ[k]) { sc.vacate(id(k)); occ[k] = false; }
    for (int t = 0; t < times; ++t) {
      sc.occupy(id(k)); ++vis[k];
      REQ(c, sc.isOccupied(id(k)), "site %d not occupied after occupation number %d", id(k), vis[k]);
      sc.vacate(id(k));
      REQ(c, !sc.isOccupied(id(k)), "site %d occupied after being vacated %d times", id(k), vis[k]);
      REQ(c, sc.getSite(id(k)).getVisitFrequency() == vis[k], "site %d has %d visits, %d registered", id(k), sc.getSite(id(k)).getVisitFrequency(), vis[k]);
    }
  }
  check();
  c.sample(c.label_);
}

// ------------------------------------------------------------ C21 / C18
struct CM { std::set<int> sites, neigh; double fastest, tau; std::set<int> occ; bool whole = false; };
struct Net {
  // three clusters of two sites (2k, 2k+1) and neighbours 100+k; 101 is shared
  std::vector<std::unordered_map<int, double>> r = std::vector<std::unordered_map<int, double>>(6);
  Net() {
    for (int k = 0; k < 3; ++k) {
      r[2 * k] = {{2 * k + 1, 1.0}, {100 + k, 1e-6 * (k + 1)}};
      r[2 * k + 1] = {{2 * k, 1.0}, {101, 2e-6}};
    }
  }
  Site site(int i) {
    Site s;
    s.setId(i);
    s.setRatesToNeighbors(r[i]);
    return s;
  }
};
Cluster mk_cluster(Net& n, int k) {
  Cluster cl;
  cl.setConvergenceMethod(Cluster::converge_by_tolerance);
  cl.setConvergenceTolerance(1e-12);
  Site a = n.site(2 * k), b = n.site(2 * k + 1);
  cl.addSite(a);
  cl.addSite(b);
  cl.updateProbabilitiesAndTimeConstant();
  return cl;
}
void check_clusters(Ctx& c, Cluster_Container& cc, std::map<int, CM>& m) {
  REQ(c, cc.size() == m.size(), "size() %zu with %zu clusters", cc.size(), m.size());
  std::set<int> ids;
  for (auto& x : m) ids.insert(x.first);
  REQ(c, once(c, cc.getClusterIds(), "getClusterIds") == ids, "getClusterIds are not the clusters added");
  auto so = cc.getSiteIdsOfClusters();
  auto re = cc.getResolutionOfClusters();
  auto ti = cc.getTimeIncrementOfClusters();
  REQ(c, so.size() == m.size() && re.size() == m.size() && ti.size() == m.size(), "a per cluster table does not cover all clusters");
  for (auto& x : m) {
    int i = x.first;
    REQ(c, cc.exist(i), "exist(%d) false", i);
    Cluster& cl = cc.getCluster(i);
    REQ(c, cl.getId() == i, "getCluster(%d) gives cluster %d", i, cl.getId());
    REQ(c, once(c, so[i], "getSiteIdsOfClusters") == x.second.sites, "sites of cluster %d wrong", i);
    REQ(c, once(c, cl.getSiteIdsInCluster(), "getSiteIdsInCluster") == x.second.sites, "getSiteIdsInCluster of %d wrong", i);
    REQ(c, once(c, cc.getSiteIdsOfNeighbors(i), "getSiteIdsOfNeighbors") == x.second.neigh, "neighbours of cluster %d wrong", i);
    REQ(c, cc.getFastestRateOffCluster(i) == x.second.fastest, "getFastestRateOffCluster(%d)=%g, it is %g", i, cc.getFastestRateOffCluster(i), x.second.fastest);
    REQ(c, cc.getTimeConstant(i) == cl.getTimeConstant() && mc::close(cl.getTimeConstant(), x.second.tau, 1e-4), "time constant of cluster %d %g, expected %g", i, cc.getTimeConstant(i), x.second.tau);
    REQ(c, re[i] == cl.getResolution() && ti[i] == cl.getTimeIncrement(), "resolution or time increment of cluster %d differs from the cluster", i);
    REQ(c, mc::close(ti[i] * re[i], cl.getTimeConstant(), 1e-12), "time increment x resolution is not the time constant of cluster %d", i);
    bool occ = x.second.whole || !x.second.occ.empty();
    REQ(c, cc.isOccupied(i) == occ, "isOccupied(%d)=%d", i, cc.isOccupied(i));
    for (int s : x.second.sites) REQ(c, cl.isOccupied(s) == (x.second.occ.count(s) != 0), "site %d of cluster %d isOccupied()=%d", s, i, cl.isOccupied(s));
    for (int f : x.second.sites) if (!x.second.occ.count(f)) {
      // a walker comes to the free site, stays for a slice and is taken away
      DrawScript d({}, 0.5);
      cl.occupy(f);
      double t = cc.getDwellTime(77, i);
      REQ(c, t > 0 && t <= ti[i] * (1 + 1e-12), "dwell time %g of cluster %d, increment %g", t, i, ti[i]);
      cl.removeWalker(77, f);
      REQ(c, !cl.isOccupied(f), "site %d occupied after its walker was removed", f);
      break;
    }
  }
  if (c.at_end()) for (int u : {-1, -5, INT_MAX, INT_MIN}) {
    REQ(c, !cc.exist(u), "exist(%d) true", u);
    REQ(c, mc::throws([&] { cc.getCluster(u); }), "getCluster(%d) of an unknown cluster", u);
    REQ(c, mc::throws([&] { cc.isOccupied(u); }), "isOccupied(%d) of an unknown cluster", u);
    REQ(c, mc::throws([&] { cc.vacate(u); }), "vacate(%d) of an unknown cluster", u);
    REQ(c, mc::throws([&] { cc.occupy(u); }), "occupy(%d) of an unknown cluster", u);
    REQ(c, mc::throws([&] { cc.getDwellTime(1, u); }), "getDwellTime(%d) of an unknown cluster", u);
    REQ(c, mc::throws([&] { cc.getTimeConstant(u); }), "getTimeConstant(%d) of an unknown cluster", u);
    REQ(c, mc::throws([&] { cc.getFastestRateOffCluster(u); }), "getFastestRateOffCluster(%d) of an unknown cluster", u);
    REQ(c, mc::throws([&] { cc.getSiteIdsOfNeighbors(u); }), "getSiteIdsOfNeighbors(%d) of an unknown cluster", u);
  }
  REQ(c, cc.size() == m.size(), "asking about unknown clusters added one");
}
void clusters_scenario(Ctx& c) {
  Net net;
  Cluster_Container cc;
  std::map<int, CM> m;
  std::vector<int> id(3, -1);
  std::set<int> used;
  std::string tr;
  auto model = [&](int k) {
    CM x;
    x.sites = {2 * k, 2 * k + 1};
    x.neigh = {100 + k, 101};
    x.fastest = std::max(1e-6 * (k + 1), 2e-6);
    x.tau = 2.0 / (1e-6 * (k + 1) + 2e-6);
    return x;
  };
  int depth = c.thorough ? 6 : 4;
  int startall = c.cfg % 2, first = c.cfg / 2;
  std::vector<Cluster> objs;
  objs.reserve(16);
  if (startall) {
    std::vector<Cluster> v;
    for (int k = 0; k < 3; ++k) { Cluster cl = mk_cluster(net, k); id[k] = cl.getId(); REQ(c, used.insert(id[k]).second, "cluster id %d given twice", id[k]); m[id[k]] = model(k); v.push_back(cl); }
    cc.addClusters(v);
    tr = "addClusters(0,1,2)";
  }
  for (int d = 0; d <= depth; ++d) {
    c.label(tr);
    check_clusters(c, cc, m);
    c.visited();
    if (d == depth) break;
    uint64_t h = 3;
    for (int k = 0; k < 3; ++k) { bool in = m.count(id[k]); h = mc::hmix(h, in); if (in) { CM& x = m[id[k]]; h = mc::hmix(h, x.whole * 4 + x.occ.count(2 * k) * 2 + x.occ.count(2 * k + 1)); } }
    c.state(h, depth - d);
    int op = d == 0 ? first : c.choose(3 * 6), k = op % 3;
    bool in = m.count(id[k]);
    c.step();
    switch (op / 3) {
      case 0: {
        if (in) {
          Cluster copy = cc.getCluster(id[k]);
          REQ(c, mc::throws([&] { cc.addCluster(copy); }), "cluster %d added twice", id[k]);
          tr += strf(" add-again(%d)", k);
        } else {
          Cluster cl = mk_cluster(net, k);
          id[k] = cl.getId();
          REQ(c, used.insert(id[k]).second, "cluster id %d given to two clusters", id[k]);
          cc.addCluster(cl);
          m[id[k]] = model(k);
          tr += strf(" add(%d)", k);
        }
        break;
      }
      case 1: if (in) { cc.erase(id[k]); m.erase(id[k]); REQ(c, !cc.exist(id[k]), "erased cluster exists"); REQ(c, mc::throws([&] { cc.getCluster(id[k]); }), "erased cluster can be retrieved"); tr += strf(" erase(%d)", k); } else { cc.erase(123456); } break;
      case 2: if (in && !m[id[k]].whole) { cc.occupy(id[k]); m[id[k]].whole = true; tr += strf(" occupy(%d)", k); } break;
      case 3: if (in && m[id[k]].whole) { cc.vacate(id[k]); m[id[k]].whole = false; tr += strf(" vacate(%d)", k); } break;
      case 4: if (in && !m[id[k]].occ.count(2 * k)) { cc.getCluster(id[k]).occupy(2 * k); m[id[k]].occ.insert(2 * k); tr += strf(" occupy-site(%d)", 2 * k); } break;
      default: if (in) { int s = 2 * k + (m[id[k]].occ.count(2 * k) ? 0 : 1); if (m[id[k]].occ.count(s)) { cc.getCluster(id[k]).vacate(s); m[id[k]].occ.erase(s); } else { cc.getCluster(id[k]).occupy(s); m[id[k]].occ.insert(s); } tr += strf(" toggle-site(%d)", s); } break;
    }
    c.outcome(mc::hstr(tr));
  }
  c.sample(tr);
}
// many clusters, one after the other and side by side
void clusters_large(Ctx& c) {
  int n = c.cfg % 2 ? 150 : 40, how = c.cfg / 2;
  std::vector<std::unordered_map<int, double>> r(2 * n);
  for (int k = 0; k < n; ++k) {
    r[2 * k] = {{2 * k + 1, 1.0}, {1000 + k, 1e-6 * (k + 1)}};
    r[2 * k + 1] = {{2 * k, 1.0}, {999, 2e-6}};
  }
  Cluster_Container cc;
  std::map<int, CM> m;
  std::vector<Cluster> batch;
  std::set<int> used;
  auto make = [&](int k) {
    Cluster cl;
    cl.setConvergenceMethod(Cluster::converge_by_tolerance);
    cl.setConvergenceTolerance(1e-12);
    Site a, b;
    a.setId(2 * k); a.setRatesToNeighbors(r[2 * k]);
    b.setId(2 * k + 1); b.setRatesToNeighbors(r[2 * k + 1]);
    cl.addSite(a);
    cl.addSite(b);
    cl.updateProbabilitiesAndTimeConstant();
    REQ(c, used.insert(cl.getId()).second, "cluster id %d given to two clusters", cl.getId());
    CM x;
    x.sites = {2 * k, 2 * k + 1};
    x.neigh = {1000 + k, 999};
    x.fastest = std::max(1e-6 * (k + 1), 2e-6);
    x.tau = 2.0 / (1e-6 * (k + 1) + 2e-6);
    m[cl.getId()] = x;
    return cl;
  };
  c.label(strf("%d clusters, added %s", n, how ? "together" : "one by one"));
  for (int k = 0; k < n; ++k) { Cluster cl = make(k); if (how) batch.push_back(cl); else cc.addCluster(cl); }
  if (how) cc.addClusters(batch);
  check_clusters(c, cc, m);
  std::vector<int> ids;
  for (auto& x : m) ids.push_back(x.first);
  for (size_t k = 0; k < ids.size(); k += 3) { cc.erase(ids[k]); m.erase(ids[k]); REQ(c, !cc.exist(ids[k]) && mc::throws([&] { cc.getCluster(ids[k]); }), "erased cluster %d is still there", ids[k]); }
  check_clusters(c, cc, m);
  for (size_t k = 1; k < ids.size(); k += 3) { int s = *m[ids[k]].sites.begin(); cc.getCluster(ids[k]).occupy(s); m[ids[k]].occ.insert(s); }
  check_clusters(c, cc, m);
  for (int k = 0; k < n; k += 7) { Cluster cl = make(k); cc.addCluster(cl); }
  check_clusters(c, cc, m);
  c.visited(4);
  c.sample(c.label_);
}
void cluster_ids(Ctx& c) {
  int n = c.thorough ? 1200000 : 70000;
  std::set<int> used;
  for (int k = 0; k < n; ++k) { Cluster cl; REQ(c, used.insert(cl.getId()).second, "cluster id %d given to two clusters, the second is number %d", cl.getId(), k); }
  c.label(strf("%d clusters made one after the other", n));
  c.step(n); c.visited();
  c.sample(c.label_);
}
}  // namespace
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  m.add("C19", "graphs3_with_self_rates", 512, [](Ctx& c) { rates_scenario(c, {-7, 0, 12}, true, c.cfg); });
  m.add("C19", "graphs4", 4096, [](Ctx& c) { rates_scenario(c, {3, 0, -2, 100000}, false, c.cfg); });
  m.add("C19", "many_ids", 40, rates_large);
  m.add("C20 C18", "many_sites", 4, sites_large);
  m.add("C21 C18", "many_clusters", 4, clusters_large);
  m.add("C21", "cluster_ids", 1, cluster_ids);
  m.add("C20 C18", "site_container", 32, sites_scenario);
  m.add("C21 C18", "cluster_container", 36, clusters_scenario);
  return m.run();
}
