// A small stateless model checker: jobs are (scenario, configuration) pairs; inside
// a job the body calls choose(), and every choice sequence is executed on the real
// code (depth-first, each execution from a fresh state), optionally pruned at states
// already expanded with at least the same remaining budget.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP
#include <execinfo.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace mc {

struct Violation {
  std::string msg;
};
struct Prune {};      // this execution reached an already expanded state
struct Divergence {}; // a replayed prefix saw a different number of options

inline std::string strf(const char* f, ...) {
  char buf[2048];
  va_list a;
  va_start(a, f);
  vsnprintf(buf, sizeof buf, f, a);
  va_end(a);
  return buf;
}

struct Shared {
  volatile long next_job;
  volatile int stop;
  struct Slot {
    volatile unsigned long beat;
    volatile long job;
    volatile int done;
    volatile int failed;       // 1 violation, 2 divergence
    char cas[8192];            // the case being executed
    char msg[4096];
    unsigned long long states, transitions, traces, pruned, outcomes, capped, jobs;
    char sample[1200];
  } slot[64];
};

inline uint64_t hmix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 12) + (h >> 4);
  h *= 0xff51afd7ed558ccdULL;
  h ^= h >> 32;
  return h;
}
inline uint64_t hstr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
  return h;
}

class Ctx {
 public:
  bool thorough = false;
  bool light = false;    // a shallow exploration
  bool replay = false;
  bool verbose = false;
  int cfg = 0;
  Shared::Slot* slot = nullptr;
  std::string scenario;

  // ---- choices
  int choose(int n) {
    if (n <= 0) throw std::logic_error("choose from nothing");
    if (pos_ < path_.size()) {
      if (pos_ < width_.size()) {
        if (width_[pos_] != n) throw Divergence();
      } else width_.push_back(n);
      if (path_[pos_] >= n) throw Divergence();
      return path_[pos_++];
    }
    path_.push_back(0);
    width_.push_back(n);
    ++pos_;
    ++transitions;
    record_case_();
    return 0;
  }
  template <class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
  bool flag() { return choose(2) == 1; }
  bool fresh() const { return pos_ >= path_.size() && pos_ > fixed_; }
  bool at_end() const { return pos_ >= path_.size(); }

  // ---- state caching. remaining: budget left below this state.
  void state(uint64_t key, int remaining) {
    // while replaying the prefix of this execution the states are old ones
    if (replay) return;
    if (pos_ < new_from_) return;
    auto it = seen_.find(key);
    if (it == seen_.end()) {
      seen_.emplace(key, remaining);
      ++states;
      return;
    }
    if (it->second >= remaining) {
      ++pruned;
      throw Prune();
    }
    it->second = remaining;
  }
  void visited(uint64_t n = 1) { states += n; }
  void step(uint64_t n = 1) { transitions += n; if (slot) ++slot->beat; }
  void outcome(uint64_t h) { outcomes_.insert(h); }
  void sample(const std::string& s) {
    if (slot && slot->sample[0] == 0) { strncpy(slot->sample, s.c_str(), sizeof slot->sample - 1); }
  }
  void fail(const std::string& m) { throw Violation{m}; }
  // keep the description of the input for the replay file
  void label(const std::string& s) { label_ = s; }
  std::string label_;

  uint64_t states = 0, transitions = 0, traces = 0, pruned = 0;
  std::set<uint64_t> outcomes_;

  std::string case_string() const {
    std::ostringstream o;
    o << scenario << " " << cfg;
    for (size_t i = 0; i < path_.size(); ++i) o << " " << path_[i];
    return o.str();
  }

  // used by the driver
  void begin_execution() { pos_ = 0; label_.clear(); record_case_(); if (slot) ++slot->beat; }
  bool next() {
    while (!path_.empty() && path_.back() + 1 >= width_.back()) { path_.pop_back(); width_.pop_back(); }
    if (path_.empty()) return false;
    ++path_.back();
    new_from_ = path_.size();
    return true;
  }
  void set_path(const std::vector<int>& p) { path_ = p; width_.clear(); }
  void reset_path() { path_.clear(); width_.clear(); seen_.clear(); new_from_ = 0; }
  void truncate() { path_.resize(pos_); width_.resize(pos_); }

 private:
  void record_case_() {
    if (!slot) return;
    char* c = slot->cas;
    size_t cap = sizeof slot->cas - 16, n = 0;
    n += snprintf(c, cap, "%s %d", scenario.c_str(), cfg);
    for (size_t i = 0; i < path_.size() && n < cap; ++i) n += snprintf(c + n, cap - n, " %d", path_[i]);
  }
  std::vector<int> path_, width_;
  size_t pos_ = 0, new_from_ = 0, fixed_ = 0;
  std::unordered_map<uint64_t, int> seen_;
};

struct Scenario {
  std::string property, name;
  int ncfg;
  std::function<void(Ctx&)> fn;
};

class Main {
 public:
  Main(int argc, char** argv) {
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
      if (a == "--property") property_ = val();
      else if (a == "--tier") { std::string t = val(); thorough_ = t == "thorough"; light_ = t == "light"; }
      else if (a == "--replay") replay_ = val();
      else if (a == "--jobs") workers_ = atoi(val().c_str());
      else if (a == "--hang") hang_ = atoi(val().c_str());
      else if (a == "--budget") budget_ = atoi(val().c_str());
      else if (a == "--list") list_ = true;
      else if (a == "--only") only_ = val();
    }
  }
  bool thorough() const { return thorough_; }
  const std::string& property() const { return property_; }
  // props: space separated list of property ids this scenario belongs to
  void add(const std::string& props, const std::string& name, int ncfg, std::function<void(Ctx&)> fn) {
    std::istringstream is(props);
    std::string p;
    while (is >> p)
      if (p == property_ || property_.empty()) {
        if (!only_.empty() && only_ != name) return;
        sc_.push_back(Scenario{p, name, ncfg, fn});
        return;
      }
  }
  int run() {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (list_) {
      for (auto& s : sc_) printf("%s %s %d\n", s.property.c_str(), s.name.c_str(), s.ncfg);
      return 0;
    }
    if (!replay_.empty()) return do_replay_();
    if (sc_.empty()) { fprintf(stderr, "no scenario for %s\n", property_.c_str()); return 3; }
    // interleave the scenarios so that no worker is left with one long tail
    std::vector<std::pair<int, int>> jobs;
    int mx = 0;
    for (auto& s : sc_) mx = std::max(mx, s.ncfg);
    for (int c = 0; c < mx; ++c)
      for (size_t i = 0; i < sc_.size(); ++i)
        if (c < sc_[i].ncfg) jobs.emplace_back((int)i, c);
    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)sh, 0, sizeof(Shared));
    int n = std::min<int>(workers_, 64);
    if ((size_t)n > jobs.size()) n = (int)jobs.size();
    std::vector<pid_t> pid(n);
    time_t t0 = time(nullptr);
    for (int w = 0; w < n; ++w) {
      pid_t p = fork();
      if (p == 0) { worker_(sh, w, jobs, t0); _exit(0); }
      pid[w] = p;
    }
    // monitor
    std::vector<unsigned long> beat(n, 0);
    std::vector<time_t> since(n, time(nullptr));
    std::vector<int> alive(n, 1);
    int rc = 0;
    std::string kind, cas, msg;
    int left = n;
    while (left > 0) {
      usleep(20000);
      for (int w = 0; w < n; ++w) {
        if (!alive[w]) continue;
        int st = 0;
        pid_t r = waitpid(pid[w], &st, WNOHANG);
        if (r == pid[w]) {
          alive[w] = 0;
          --left;
          auto& s = sh->slot[w];
          if (s.failed && rc == 0) {
            rc = s.failed == 1 ? 1 : 3;
            kind = s.failed == 1 ? "violation" : "divergence";
            cas = (const char*)s.cas;
            msg = (const char*)s.msg;
          } else if ((!WIFEXITED(st) || WEXITSTATUS(st) != 0) && rc == 0) {
            rc = 1;
            kind = "crash";
            cas = (const char*)s.cas;
            msg = strf("the library %s (status 0x%x)", WIFSIGNALED(st) ? "was killed by a signal (assert, abort or memory error)" : "ended the process", st);
          }
          if (rc) sh->stop = 1;
          continue;
        }
        auto& s = sh->slot[w];
        if (s.beat != beat[w]) { beat[w] = s.beat; since[w] = time(nullptr); }
        else if (time(nullptr) - since[w] > hang_) {
          kill(pid[w], SIGKILL);
          waitpid(pid[w], &st, 0);
          alive[w] = 0;
          --left;
          if (rc == 0) {
            rc = 1;
            kind = "hang";
            cas = (const char*)s.cas;
            msg = strf("no progress for %d s", hang_);
          }
          sh->stop = 1;
        }
      }
    }
    unsigned long long st = 0, tr = 0, ex = 0, pr = 0, oc = 0, cap = 0, done = 0;
    for (int w = 0; w < n; ++w) {
      auto& s = sh->slot[w];
      st += s.states; tr += s.transitions; ex += s.traces; pr += s.pruned; oc += s.outcomes; cap += s.capped; done += s.jobs;
    }
    printf("STATS jobs=%zu done=%llu states=%llu transitions=%llu traces=%llu pruned=%llu outcomes=%llu capped=%llu\n", jobs.size(), done, st, tr, ex, pr, oc, cap);
    for (auto& s : sc_) printf("SCENARIO %s configs=%d\n", s.name.c_str(), s.ncfg);
    for (int w = 0; w < n && w < 6; ++w)
      if (sh->slot[w].sample[0]) printf("SAMPLE %s\n", sh->slot[w].sample);
    if (rc) printf("FAIL kind=%s\nCASE %s\nMSG %s\n", kind.c_str(), cas.c_str(), oneline_(msg).c_str());
    fflush(stdout);
    return rc;
  }

 private:
  static std::string oneline_(std::string s) {
    for (auto& c : s) if (c == '\n') c = ' ';
    return s;
  }
  // 0 fine, 1 violation, 2 divergence
  int execute_(Ctx& c, Scenario& s, std::string& msg) {
    c.begin_execution();
    try {
      s.fn(c);
    } catch (Prune&) {
      c.truncate();
    } catch (Violation& v) {
      msg = v.msg + (c.label_.empty() ? "" : " | " + c.label_);
      return 1;
    } catch (Divergence&) {
      msg = "replaying a prefix met different choices";
      return 2;
    } catch (std::exception& e) {
      msg = std::string("unexpected exception: ") + e.what() + (c.label_.empty() ? "" : " | " + c.label_);
      return 1;
    }
    ++c.traces;
    return 0;
  }
  void worker_(Shared* sh, int w, std::vector<std::pair<int, int>>& jobs, time_t t0) {
    auto& sl = sh->slot[w];
    for (;;) {
      if (sh->stop) break;
      long j = __sync_fetch_and_add(&sh->next_job, 1);
      if (j >= (long)jobs.size()) break;
      if (budget_ > 0 && time(nullptr) - t0 > budget_) { ++sl.capped; continue; }
      Scenario& s = sc_[jobs[j].first];
      Ctx c;
      c.thorough = thorough_;
        c.light = light_;
      c.cfg = jobs[j].second;
      c.scenario = s.name;
      c.slot = &sl;
      sl.job = j;
      c.reset_path();
      std::string msg;
      int r = 0;
      do {
        r = execute_(c, s, msg);
        if (r) break;
        if (sh->stop) break;
        if (budget_ > 0 && (c.traces & 63) == 0 && time(nullptr) - t0 > budget_) { ++sl.capped; break; }
      } while (c.next());
      sl.states += c.states; sl.transitions += c.transitions; sl.traces += c.traces; sl.pruned += c.pruned;
      sl.outcomes += c.outcomes_.size();
      ++sl.jobs;
      if (r) {
        sl.failed = r;
        strncpy((char*)sl.cas, c.case_string().c_str(), sizeof sl.cas - 1);
        strncpy((char*)sl.msg, msg.c_str(), sizeof sl.msg - 1);
        _exit(0);
      }
    }
  }
  int do_replay_() {
    std::istringstream is(replay_);
    std::string name;
    int cfg;
    is >> name >> cfg;
    std::vector<int> p;
    int x;
    while (is >> x) p.push_back(x);
    for (auto& s : sc_)
      if (s.name == name) {
        Ctx c;
        c.thorough = thorough_;
        c.light = light_;
        c.replay = true;
        c.verbose = true;
        c.cfg = cfg;
        c.scenario = name;
        c.set_path(p);
        std::string msg;
        int r = execute_(c, s, msg);
        if (r) { printf("FAIL kind=%s\nCASE %s\nMSG %s\n", r == 1 ? "violation" : "divergence", c.case_string().c_str(), oneline_(msg).c_str()); return r == 1 ? 1 : 3; }
        printf("REPLAY OK\n");
        return 0;
      }
    fprintf(stderr, "unknown scenario %s\n", name.c_str());
    return 3;
  }
  std::string property_, replay_, only_;
  bool thorough_ = false, light_ = false, list_ = false;
  int workers_ = 8, hang_ = 120, budget_ = 0;
  std::vector<Scenario> sc_;
};

#define REQ(ctx, cond, ...) \
  do { if (!(cond)) (ctx).fail(mc::strf(__VA_ARGS__)); } while (0)

// expects the call to throw a std::exception
template <class F> bool throws(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
inline bool close(double a, double b, double rel, double abs_ = 0) {
  if (std::isnan(a) || std::isnan(b)) return false;
  return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
}  // namespace mc
#endif
