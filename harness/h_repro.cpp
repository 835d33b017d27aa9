// Reproducibility: the same seed gives the same walk. The library's own random numbers.
#include <algorithm>
#include <array>
#include "mc.hpp"
#include "nets.hpp"
#include "mythical/charge_transport/cuboid_lattice.hpp"
#include "mythical/coarsegrainsystem.hpp"
#include "mythical/constants.hpp"
#include "mythical/queue.hpp"
#include "mythical/walker.hpp"
#include "libmythical/topologyfeatures/cluster.hpp"
#include "libmythical/topologyfeatures/site.hpp"
using namespace mythical;
using mc::Ctx;
using mc::strf;
namespace {
typedef std::unordered_map<int, std::unordered_map<int, double>> Rates;
typedef std::pair<int, std::shared_ptr<Walker>> WP;
struct Sys { std::string name; std::vector<std::array<double, 4>> e; };
std::vector<Sys> SY;
Rates rates(const Sys& s) {
  Rates r;
  for (auto& x : s.e) { if (x[2] > 0) r[(int)x[0]][(int)x[1]] = x[2]; if (x[3] > 0) r[(int)x[1]][(int)x[0]] = x[3]; }
  return r;
}
struct Step { int w, site, pot; double dwell; bool operator==(const Step& o) const { return w == o.w && site == o.site && pot == o.pot && dwell == o.dwell; } };

// runs a system; ops decides who moves; noise: things that must not matter
std::vector<Step> walk(const Sys& s, unsigned long seed, bool seeded, int thr, double res, const std::vector<int>& start, const std::vector<int>& ops, int noise, std::vector<std::vector<int>>* part = nullptr) {
  std::vector<std::unique_ptr<char[]>> junk;
  if (noise & 1) for (int i = 1; i < 60; ++i) junk.emplace_back(new char[i * 7]);
  Rates r = rates(s);
  std::unique_ptr<CoarseGrainSystem> other;
  Rates r2;
  CoarseGrainSystem sys;
  sys.setTimeResolution(res);
  sys.setMinCoarseGrainIterationThreshold(thr);
  if (seeded) sys.setRandomSeed(seed);
  sys.initializeSystem(r);
  auto ow = std::make_shared<Walker>();
  if (noise & 2) {
    // another simulation side by side
    r2 = rates(s);
    other.reset(new CoarseGrainSystem());
    other->setTimeResolution(res);
    other->setMinCoarseGrainIterationThreshold(thr);
    other->setRandomSeed(seed + 1000);
    other->initializeSystem(r2);
    ow->occupySite(start[0]);
    std::vector<WP> v = {{1, ow}};
    other->initializeWalkers(v);
  }
  std::vector<WP> w;
  for (size_t i = 0; i < start.size(); ++i) { w.emplace_back((int)i, std::make_shared<Walker>()); w.back().second->occupySite(start[i]); }
  sys.initializeWalkers(w);
  std::vector<Step> out;
  for (size_t i = 0; i < w.size(); ++i) out.push_back({(int)i, w[i].second->getIdOfSiteCurrentlyOccupying(), w[i].second->getPotentialSite(), w[i].second->getDwellTime()});
  for (int o : ops) {
    if (noise & 2) other->hop(1, ow);
    if (noise & 4) { sys.getClusters(); sys.getVisitFrequencyOfSite(start[0]); sys.getTimeIncrementOfClusters(); sys.getClusterIdOfSite(start[0]); }
    sys.hop(w[o]);
    out.push_back({o, w[o].second->getIdOfSiteCurrentlyOccupying(), w[o].second->getPotentialSite(), w[o].second->getDwellTime()});
  }
  std::set<int> all;
  for (auto& x : r) { all.insert(x.first); for (auto& y : x.second) all.insert(y.first); }
  for (int x : all) out.push_back({-1, x, sys.getVisitFrequencyOfSite(x), 0});
  if (part) {
    for (auto& x : sys.getClusters()) { std::vector<int> m = x.second; std::sort(m.begin(), m.end()); part->push_back(m); }
    std::sort(part->begin(), part->end());
  }
  return out;
}
}  // namespace

int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  SY.push_back({"ring", {{1, 2, 1, 2}, {2, 3, 3, 1}, {3, 4, 1, 1}, {4, 1, 2, 5}}});
  SY.push_back({"pair", {{1, 2, 1e6, 1e6}, {2, 3, 1, 1}, {3, 4, 1, 1}, {4, 1, 1, 1}}});
  SY.push_back({"bridge", {{1, 2, 1e8, 1e8}, {2, 3, 1e4, 1e4}, {3, 4, 1e8, 1e8}, {4, 5, 1, 1}, {1, 6, 1, 1}, {5, 6, 3, 4}}});
  SY.push_back({"nested", {{1, 2, 1e9, 1e9}, {2, 3, 1e6, 1e6}, {3, 4, 1e3, 1e3}, {4, 5, 1, 1}, {5, 1, 1e-3, 1e-3}}});
  SY.push_back({"odd", {{-7, 2000000, 1e6, 1e5}, {2000000, 0, 1, 50}, {0, 13, 2, 1}, {13, -7, 1, 0.5}}});
  {
    Sys g;
    g.name = "grid";
    for (int x = 0; x < 6; ++x) for (int y = 0; y < 6; ++y) {
      double a = std::pow(10.0, (x * 7 + y * 3) % 6), b = std::pow(10.0, (x * 5 + y * 11) % 6);
      g.e.push_back({(double)(x * 6 + y), (double)((x + 1) % 6 * 6 + y), a, b * 1.3});
      g.e.push_back({(double)(x * 6 + y), (double)(x * 6 + (y + 1) % 6), b, a * 0.7});
    }
    SY.push_back(g);
  }
  m.add("C05", "schedules", (int)SY.size() * 4, [](Ctx& c) {
    // every order in which two walkers move
    const Sys& s = SY[c.cfg % SY.size()];
    const int THR[4] = {0, 1, 3, constants::inf_iterations};
    int thr = THR[c.cfg / SY.size()];
    int depth = c.thorough ? 10 : 7;
    const unsigned long SEED[3] = {0, 1, 123456789};
    unsigned long seed = SEED[c.choose(3)];
    std::vector<int> ops, st;
    Rates r = rates(s);
    std::set<int> ids;
    for (auto& x : r) ids.insert(x.first);
    st.push_back(*ids.begin());
    st.push_back(*ids.rbegin());
    for (int i = 0; i < depth; ++i) ops.push_back(c.choose(2));
    std::vector<std::vector<int>> p0, p1;
    auto a = walk(s, seed, true, thr, 100.0, st, ops, 0, &p0);
    for (int noise : {0, 1, 7}) {
      p1.clear();
      auto b = walk(s, seed, true, thr, 100.0, st, ops, noise, &p1);
      c.label(s.name + strf(" seed %lu threshold %d noise %d", seed, thr, noise));
      for (size_t i = 0; i < a.size(); ++i) REQ(c, a[i] == b[i], "step %zu differs between two runs with the same seed: walker %d site %d/%d potential %d/%d dwell %.17g/%.17g", i, a[i].w, a[i].site, b[i].site, a[i].pot, b[i].pot, a[i].dwell, b[i].dwell);
      REQ(c, p0 == p1, "the clusters differ between two runs with the same seed");
      c.step();
    }
    uint64_t h = 3;
    for (auto& x : a) h = mc::hmix(mc::hmix(h, (uint64_t)x.site), (uint64_t)x.pot);
    c.visited();
    c.outcome(h);
    c.sample(c.label_);
  });
  m.add("C05", "long_runs", (int)SY.size() * 12, [](Ctx& c) {
    const Sys& s = SY[c.cfg % SY.size()];
    int k = c.cfg / (int)SY.size();
    const int THR[4] = {0, 5, 50, constants::inf_iterations};
    const double RES[3] = {1e4, 1.0, 1e-2};
    int seed = c.choose(c.thorough ? 64 : 8);
    Rates r = rates(s);
    std::set<int> ids;
    for (auto& x : r) ids.insert(x.first);
    std::vector<int> st = {*ids.begin(), *std::next(ids.begin()), *ids.rbegin()}, ops;
    st.resize(1 + k % 3);
    int len = c.thorough ? 3000 : 600;
    for (int i = 0; i < len; ++i) ops.push_back((i * i + i / 3) % (int)st.size());
    c.label(s.name + strf(" seed %d threshold %d", seed, THR[k % 4]));
    std::vector<std::vector<int>> p0, p1;
    auto a = walk(s, seed, true, THR[k % 4], RES[k / 4], st, ops, 0, &p0);
    auto b = walk(s, seed, true, THR[k % 4], RES[k / 4], st, ops, 7, &p1);
    for (size_t i = 0; i < a.size(); ++i) REQ(c, a[i] == b[i], "step %zu differs between two runs with the same seed", i);
    REQ(c, p0 == p1, "the clusters differ between two runs with the same seed");
    // and another seed another walk, and not the same draws for every site
    auto d = walk(s, seed + 1000, true, THR[k % 4], RES[k / 4], st, ops, 0);
    bool same = true;
    for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == d[i])) same = false;
    REQ(c, !same, "the seed has no effect");
    c.step(len * 2);
    c.visited();
    uint64_t h = 3;
    for (auto& x : a) h = mc::hmix(mc::hmix(h, (uint64_t)x.site), (uint64_t)x.pot);
    c.outcome(h);
    c.sample(c.label_);
  });
  m.add("C05", "single_features", 64, [](Ctx& c) {
    auto N = nets(false);
    const Net& n = N[(size_t)c.cfg * 29 % N.size()];
    unsigned long seed = (unsigned long)c.choose(4) * 77777;
    // a site and a cluster, each seeded twice; copies go on from the same draws
    auto mk = [&](std::vector<RMap>& r, Cluster& cl) {
      for (int i = 0; i < n.n(); ++i) { Site s; s.setId(n.id[i]); s.setRatesToNeighbors(r[i]); cl.addSite(s); }
      cl.updateProbabilitiesAndTimeConstant();
      cl.setRandomSeed(seed);
    };
    auto r1 = n.rates(), r2 = n.rates();
    Cluster a, b;
    mk(r1, a);
    mk(r2, b);
    Site s, t;
    s.setId(1); t.setId(1);
    s.setRatesToNeighbors(r1[0]); t.setRatesToNeighbors(r2[0]);
    s.setRandomSeed(seed); t.setRandomSeed(seed);
    c.label(n.str() + strf(" seed %lu", seed));
    for (int i = 0; i < 400; ++i) {
      int w = i % 3;
      double x = a.getDwellTime(w), y = b.getDwellTime(w);
      REQ(c, x == y, "dwell times %.17g and %.17g of two clusters with the same seed", x, y);
      int p = a.pickNewSiteId(w), q = b.pickNewSiteId(w);
      REQ(c, p == q, "two clusters with the same seed send a walker to %d and %d", p, q);
      x = s.getDwellTime(w); y = t.getDwellTime(w);
      REQ(c, x == y, "dwell times %.17g and %.17g of two sites with the same seed", x, y);
      p = s.pickNewSiteId(w); q = t.pickNewSiteId(w);
      REQ(c, p == q, "two sites with the same seed send a walker to %d and %d", p, q);
      if (i == 200) { a.setRandomSeed(5); b.setRandomSeed(5); s.setRandomSeed(9); t.setRandomSeed(9); }
      c.step(4);
    }
    c.visited();
    c.outcome(mc::hstr(c.label_));
  });
  return m.run();
}
