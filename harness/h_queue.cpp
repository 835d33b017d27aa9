#include <limits>
#include "mc.hpp"
#include "mythical/queue.hpp"
using mc::Ctx;
using mythical::Queue;
typedef std::pair<int, double> Ev;
namespace {
struct Model {
  std::multiset<Ev> held;
  bool ordered = true;  // only sorted insertions since the last sort
};
void check(Ctx& c, Queue& q, Model& m) {
  REQ(c, q.size() == m.held.size(), "size() is %zu with %zu events held", q.size(), m.held.size());
  std::multiset<Ev> got;
  bool asc = true;
  for (int i = 0; i < (int)m.held.size(); ++i) {
    got.insert(q.at(i));
    if (i && q.at(i).second < q.at(i - 1).second) asc = false;
  }
  REQ(c, got == m.held, "the events held are not those added and not yet popped");
  REQ(c, !q.isSorted() || asc, "isSorted() but the times are not ascending");
  REQ(c, !m.ordered || asc, "the times are not ascending after sorting / sorted insertion");
  REQ(c, !m.ordered || q.isSorted(), "an ordered queue is reported as not sorted");
}
void bounds(Ctx& c, Queue& q) {
  for (int i : {-1, (int)q.size(), (int)q.size() + 7}) REQ(c, mc::throws([&] { q.at(i); }), "at(%d) accepted with %zu events", i, q.size());
}
void pop(Ctx& c, Queue& q, Model& m) {
  Ev f = q.at(0);
  Ev e = q.pop_current();
  REQ(c, e == f, "pop_current gives (%d,%g), the front is (%d,%g)", e.first, e.second, f.first, f.second);
  if (m.ordered)
    for (auto& h : m.held) REQ(c, !(h.second < e.second), "popped an event at %g while one at %g is held", e.second, h.second);
  auto it = m.held.find(e);
  REQ(c, it != m.held.end(), "popped (%d,%g) which is not held", e.first, e.second);
  m.held.erase(it);
}
uint64_t key(Queue& q, Model& m, int nid) {
  uint64_t h = mc::hmix(m.ordered, nid);
  for (int i = 0; i < (int)q.size(); ++i) {
    uint64_t b;
    double d = q.at(i).second;
    memcpy(&b, &d, 8);
    h = mc::hmix(mc::hmix(h, q.at(i).first), b);
  }
  return mc::hmix(h, q.isSorted());
}
const std::vector<std::vector<double>> TIMES = {{1, 2, 3}, {0.5, 0.5, 1e-300}, {-1, 0, 1}, {0.0, 1e300, std::numeric_limits<double>::infinity()}, {1.0, 1.0 + 1e-15, 1.0 + 3e-15}, {5, 5, 5}, {1e-12, 2e-12, 1e-13}, {10000.25, 10000.75, 9999.5}};
}  // namespace
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  m.add("C22", "operation_sequences", (int)TIMES.size(), [](Ctx& c) {
    const auto& T = TIMES[c.cfg];
    Queue q;
    Model md;
    int depth = c.thorough ? 8 : 6, id = 0;
    std::string tr;
    for (int d = 0; d < depth; ++d) {
      c.state(key(q, md, id), depth - d);
      int op = c.choose(2 * (int)T.size() + 2 + (q.size() ? 1 : 0));
      int n = (int)T.size();
      c.step();
      if (op < n) { Ev e(id++ * 3 - 4, T[op]); q.add(e); md.held.insert(e); md.ordered = false; tr += mc::strf(" add(%d,%g)", e.first, e.second); }
      else if (op < 2 * n) { Ev e(id++ * 3 - 4, T[op - n]); q.sortedAdd(e); md.held.insert(e); tr += mc::strf(" sortedAdd(%d,%g)", e.first, e.second); }
      else if (op == 2 * n) { q.sort(); md.ordered = true; tr += " sort"; }
      else if (op == 2 * n + 1) { // a copy behaves the same and is independent
        Queue r = q;
        Model rm = md;
        check(c, r, rm);
        r.sort();
        rm.ordered = true;
        check(c, r, rm);
        while (r.size()) pop(c, r, rm);
        tr += " drain-copy";
      } else { pop(c, q, md); tr += " pop"; }
      c.label(tr);
      check(c, q, md);
      bounds(c, q);
      c.outcome(q.size() * 2 + q.isSorted());
    }
    c.sample(tr);
  });
  // long queues: shapes x lengths, drained completely
  m.add("C22", "long_queues", 120, [](Ctx& c) {
    int n = c.cfg < 70 ? c.cfg + 1 : (c.cfg - 69) * 20 + 70;
    int shape = c.choose(9), how = c.choose(3);
    std::vector<double> t(n);
    int st = 1;
    for (int k = 2; k < n; ++k) if (std::__gcd(k, n) == 1 && k * k > n) { st = k; break; }
    for (int i = 0; i < n; ++i) {
      switch (shape) {
        case 0: t[i] = i; break;
        case 1: t[i] = -i; break;
        case 2: t[i] = std::min(i, n - i); break;
        case 3: t[i] = (long)i * st % n; break;
        case 4: t[i] = i % 3; break;
        case 5: t[i] = 1; break;
        case 6: t[i] = (i * 7919 + 13) % 1009 * 1e-9; break;
        case 7: t[i] = i < n - 1 ? i : -5; break;
        default: t[i] = ((i ^ (i >> 1)) * 31 % 97) - 50.5; break;
      }
    }
    c.label(mc::strf("n %d shape %d how %d", n, shape, how));
    Queue q;
    Model md;
    for (int i = 0; i < n; ++i) {
      Ev e(i, t[i]);
      if (how == 0 || (how == 2 && i < n / 2)) { q.add(e); md.ordered = false; }
      else q.sortedAdd(e);
      md.held.insert(e);
      if (how == 2 && i == n / 2 - 1) { q.sort(); md.ordered = true; check(c, q, md); }
      if (how == 2 && i >= n / 2 && i % 5 == 0) { pop(c, q, md); }
      c.step();
    }
    check(c, q, md);
    if (!md.ordered) { q.sort(); md.ordered = true; }
    check(c, q, md);
    double last = -1e300;
    while (q.size()) {
      double at = q.at(0).second;
      pop(c, q, md);
      REQ(c, at >= last, "drained %g after %g", at, last);
      last = at;
      c.visited();
    }
    REQ(c, q.size() == 0 && md.held.empty(), "not empty after draining");
    c.outcome(mc::hmix(n, shape * 3 + how));
    c.sample(c.label_);
  });
  // all permutations
  m.add("C22", "permutations", 8, [](Ctx& c) {
    int n = c.cfg + 1;
    std::vector<int> left;
    for (int i = 0; i < n; ++i) left.push_back(i);
    Queue a, b;
    Model ma, mb;
    std::string tr;
    for (int i = 0; i < n; ++i) {
      int k = c.choose((int)left.size());
      Ev e(i, left[k] / (c.cfg % 2 ? 2 : 1));
      tr += mc::strf(" %d", left[k]);
      left.erase(left.begin() + k);
      a.add(e);
      ma.held.insert(e);
      ma.ordered = false;
      b.sortedAdd(e);
      mb.held.insert(e);
    }
    c.label(tr);
    a.sort();
    ma.ordered = true;
    check(c, a, ma);
    check(c, b, mb);
    while (a.size()) { pop(c, a, ma); pop(c, b, mb); }
    c.visited();
    c.step();
  });
  // the event loop of a simulation: pop the next walker, reinsert it later
  m.add("C22", "event_loop", 4, [](Ctx& c) {
    const std::vector<double> DT = c.cfg % 2 ? std::vector<double>{0.25, 1.0, 3.0} : std::vector<double>{1e-9, 0.0, 0.7};
    int nw = c.cfg / 2 + 2;
    Queue q;
    Model md;
    for (int i = 0; i < nw; ++i) { Ev e(i, c.pick(DT)); q.add(e); md.held.insert(e); }
    md.ordered = false;
    q.sort();
    md.ordered = true;
    double now = -1;
    int depth = c.thorough ? 8 : 6;
    for (int d = 0; d < depth; ++d) {
      Ev f = q.at(0);
      pop(c, q, md);
      REQ(c, f.second >= now, "time ran backwards from %g to %g", now, f.second);
      now = f.second;
      Ev e(f.first, now + c.pick(DT));
      q.sortedAdd(e);
      md.held.insert(e);
      check(c, q, md);
      c.step();
      c.visited();
    }
  });
  return m.run();
}
