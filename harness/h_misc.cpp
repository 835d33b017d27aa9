#include <climits>
#include <limits>
#include "mc.hpp"
#include "libmythical/identity.hpp"
#include "mythical/walker.hpp"
using mc::Ctx;
using mythical::Identity;
using mythical::Walker;
namespace {
const std::vector<int> IDS = {0, 1, -1, 7, -1000000, 1 << 20, INT_MAX, INT_MIN + 1};
const std::vector<double> DW = {0.0, 1.0, 1e-300, 1e300, -1.0, 3.25, std::numeric_limits<double>::min()};
struct Mine : Walker { int extra = 5; };
}  // namespace
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  m.add("C23", "walker", 2, [](Ctx& c) {
    Mine mine;
    Walker plain;
    Walker& w = c.cfg ? (Walker&)mine : plain;
    bool s = false, p = false, dw = false;
    int ms = 0, mp = 0;
    double md = 0;
    std::string tr;
    int depth = c.thorough ? 4 : 3;
    for (int d = 0; d <= depth; ++d) {
      c.label(tr);
      if (s) REQ(c, w.getIdOfSiteCurrentlyOccupying() == ms, "current site %d, it was placed on %d", w.getIdOfSiteCurrentlyOccupying(), ms);
      else REQ(c, mc::throws([&] { w.getIdOfSiteCurrentlyOccupying(); }), "a walker that was never placed reports a site");
      if (p) REQ(c, w.getPotentialSite() == mp, "potential site %d, it was set to %d", w.getPotentialSite(), mp);
      else REQ(c, mc::throws([&] { w.getPotentialSite(); }), "a walker without a potential site reports one");
      if (dw) REQ(c, w.getDwellTime() == md, "dwell time %g, it was set to %g", w.getDwellTime(), md);
      else REQ(c, !(w.getDwellTime() >= 0), "a walker that was given no dwell time reports %g", w.getDwellTime());
      // copies carry the state and are independent
      Walker cp = w;
      if (s) REQ(c, cp.getIdOfSiteCurrentlyOccupying() == ms, "the copy is on site %d instead of %d", cp.getIdOfSiteCurrentlyOccupying(), ms);
      else REQ(c, mc::throws([&] { cp.getIdOfSiteCurrentlyOccupying(); }), "the copy of a walker that was never placed reports a site");
      if (p) REQ(c, cp.getPotentialSite() == mp, "the copy has the potential site %d instead of %d", cp.getPotentialSite(), mp);
      else REQ(c, mc::throws([&] { cp.getPotentialSite(); }), "the copy of a walker without a potential site reports one");
      if (dw) REQ(c, cp.getDwellTime() == md, "the copy has the dwell time %g instead of %g", cp.getDwellTime(), md);
      cp.occupySite(4242);
      cp.setPotentialSite(4243);
      cp.setDwellTime(4244);
      REQ(c, cp.getIdOfSiteCurrentlyOccupying() == 4242 && cp.getPotentialSite() == 4243 && cp.getDwellTime() == 4244, "copy does not take values");
      c.visited();
      if (d == depth) break;
      int op = c.choose((int)(2 * IDS.size() + DW.size()));
      c.step();
      int n = (int)IDS.size();
      if (op < n) { ms = IDS[op]; s = true; w.occupySite(ms); tr += mc::strf(" occupy(%d)", ms); }
      else if (op < 2 * n) { mp = IDS[op - n]; p = true; w.setPotentialSite(mp); tr += mc::strf(" potential(%d)", mp); }
      else { md = DW[op - 2 * n]; dw = true; w.setDwellTime(md); tr += mc::strf(" dwell(%g)", md); }
      c.outcome(s * 4 + p * 2 + dw);
    }
    c.sample(tr);
  });
  m.add("C23", "identity", 1, [](Ctx& c) {
    Identity a, b;
    std::vector<int> ids = IDS;
    ids.push_back(INT_MIN);
    int x = 0;
    bool set = false;
    for (int d = 0; d < 4; ++d) {
      if (set) { REQ(c, a.getId() == x, "id %d, it was set to %d", a.getId(), x); Identity cp = a; REQ(c, cp.getId() == x, "the copy has id %d instead of %d", cp.getId(), x); }
      else { REQ(c, mc::throws([&] { a.getId(); }), "an id that was never set is reported"); Identity cp = a; REQ(c, mc::throws([&] { cp.getId(); }), "an id that was never set is reported by the copy"); }
      REQ(c, mc::throws([&] { b.getId(); }), "the id of another object was set");
      int k = c.choose((int)ids.size());
      x = ids[k];
      a.setId(x);
      set = true;
      c.step();
      c.visited();
    }
  });
  return m.run();
}
