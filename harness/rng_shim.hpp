// Puts every random draw of the library behind one seam (see DESIGN.md).
// Force-included before any other header; the library sources are unchanged.
#ifndef VERIF_RNG_SHIM_HPP
#define VERIF_RNG_SHIM_HPP
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <istream>
#include <limits>
#include <numeric>
#include <ostream>
#include <random>
#include <vector>

namespace mcrng {
struct Source {
  std::function<double()> unit;              // next number in [0,1)
  std::function<long(long, long)> integer;   // next integer in [lo,hi]
  unsigned long long draws = 0;
};
inline Source& source() {
  static Source s;
  return s;
}
inline double next_unit() {
  Source& s = source();
  ++s.draws;
  return s.unit ? s.unit() : 0.5;
}
inline long next_int(long lo, long hi) {
  Source& s = source();
  ++s.draws;
  if (s.integer) return s.integer(lo, hi);
  if (s.unit) return lo + (long)std::floor(s.unit() * (double)(hi - lo + 1));
  return lo + (hi - lo) / 2;
}
}  // namespace mcrng

namespace std {
struct mc_engine {
  typedef uint_fast32_t result_type;
  static constexpr result_type default_seed = 5489u;
  mc_engine() {}
  template <typename S> explicit mc_engine(const S&) {}
  template <typename S> void seed(const S&) {}
  void seed() {}
  static constexpr result_type min() { return 0u; }
  static constexpr result_type max() { return 0xffffffffu; }
  result_type operator()() { return (result_type)(mcrng::next_unit() * 4294967296.0); }
  void discard(unsigned long long) {}
  friend bool operator==(const mc_engine&, const mc_engine&) { return true; }
  friend bool operator!=(const mc_engine&, const mc_engine&) { return false; }
  template <class C, class T> friend basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const mc_engine&) { return o; }
  template <class C, class T> friend basic_istream<C, T>& operator>>(basic_istream<C, T>& i, mc_engine&) { return i; }
};

template <typename T = double>
class mc_uniform_real_distribution {
  T a_, b_;
 public:
  typedef T result_type;
  struct param_type {
    typedef mc_uniform_real_distribution distribution_type;
    T a_, b_;
    explicit param_type(T a = 0, T b = 1) : a_(a), b_(b) {}
    T a() const { return a_; }
    T b() const { return b_; }
  };
  explicit mc_uniform_real_distribution(T a = 0, T b = 1) : a_(a), b_(b) {}
  explicit mc_uniform_real_distribution(const param_type& p) : a_(p.a_), b_(p.b_) {}
  void reset() {}
  T a() const { return a_; }
  T b() const { return b_; }
  T min() const { return a_; }
  T max() const { return b_; }
  param_type param() const { return param_type(a_, b_); }
  void param(const param_type& p) { a_ = p.a_; b_ = p.b_; }
  template <class G> T operator()(G&) { return (T)(a_ + (b_ - a_) * mcrng::next_unit()); }
  template <class G> T operator()(G&, const param_type& p) { return (T)(p.a_ + (p.b_ - p.a_) * mcrng::next_unit()); }
};

template <typename T = int>
class mc_uniform_int_distribution {
  T a_, b_;
 public:
  typedef T result_type;
  struct param_type {
    typedef mc_uniform_int_distribution distribution_type;
    T a_, b_;
    explicit param_type(T a = 0, T b = std::numeric_limits<T>::max()) : a_(a), b_(b) {}
    T a() const { return a_; }
    T b() const { return b_; }
  };
  explicit mc_uniform_int_distribution(T a = 0, T b = std::numeric_limits<T>::max()) : a_(a), b_(b) {}
  explicit mc_uniform_int_distribution(const param_type& p) : a_(p.a_), b_(p.b_) {}
  void reset() {}
  T a() const { return a_; }
  T b() const { return b_; }
  T min() const { return a_; }
  T max() const { return b_; }
  param_type param() const { return param_type(a_, b_); }
  void param(const param_type& p) { a_ = p.a_; b_ = p.b_; }
  template <class G> T operator()(G&) { return (T)mcrng::next_int((long)a_, (long)b_); }
  template <class G> T operator()(G&, const param_type& p) { return (T)mcrng::next_int((long)p.a_, (long)p.b_); }
};

template <typename T = double>
class mc_exponential_distribution {
  T l_;
 public:
  typedef T result_type;
  struct param_type {
    typedef mc_exponential_distribution distribution_type;
    T l_;
    explicit param_type(T l = 1) : l_(l) {}
    T lambda() const { return l_; }
  };
  explicit mc_exponential_distribution(T l = 1) : l_(l) {}
  explicit mc_exponential_distribution(const param_type& p) : l_(p.l_) {}
  void reset() {}
  T lambda() const { return l_; }
  T min() const { return 0; }
  T max() const { return std::numeric_limits<T>::infinity(); }
  template <class G> T operator()(G&) { return (T)(-std::log(1.0 - mcrng::next_unit()) / l_); }
  template <class G> T operator()(G&, const param_type& p) { return (T)(-std::log(1.0 - mcrng::next_unit()) / p.l_); }
};

class mc_bernoulli_distribution {
  double p_;
 public:
  typedef bool result_type;
  explicit mc_bernoulli_distribution(double p = 0.5) : p_(p) {}
  void reset() {}
  double p() const { return p_; }
  template <class G> bool operator()(G&) { return mcrng::next_unit() < p_; }
};

template <typename T = int>
class mc_discrete_distribution {
  std::vector<double> p_;
  void norm_() {
    double s = 0;
    for (double x : p_) s += x;
    for (double& x : p_) x /= s;
    if (p_.empty()) p_.push_back(1.0);
  }
 public:
  typedef T result_type;
  struct param_type {
    typedef mc_discrete_distribution distribution_type;
    std::vector<double> p_;
    param_type() {}
    template <class It> param_type(It a, It b) : p_(a, b) {}
    param_type(std::initializer_list<double> l) : p_(l) {}
  };
  mc_discrete_distribution() { norm_(); }
  template <class It> mc_discrete_distribution(It a, It b) : p_(a, b) { norm_(); }
  mc_discrete_distribution(std::initializer_list<double> l) : p_(l) { norm_(); }
  explicit mc_discrete_distribution(const param_type& p) : p_(p.p_) { norm_(); }
  void param(const param_type& p) { p_ = p.p_; norm_(); }
  void reset() {}
  std::vector<double> probabilities() const { return p_; }
  T min() const { return 0; }
  T max() const { return (T)(p_.size() - 1); }
  template <class G> T operator()(G&) {
    double u = mcrng::next_unit(), c = 0;
    size_t last = 0;
    for (size_t i = 0; i < p_.size(); ++i) {
      if (p_[i] > 0) last = i;
      c += p_[i];
      if (u < c) return (T)i;
    }
    return (T)last;
  }
};

template <class R, size_t bits, class G> R mc_generate_canonical(G&) { return (R)mcrng::next_unit(); }

struct mc_random_device {
  typedef unsigned int result_type;
  mc_random_device() {}
  template <class S> explicit mc_random_device(const S&) {}
  static constexpr result_type min() { return 0u; }
  static constexpr result_type max() { return 0xffffffffu; }
  result_type operator()() { return 12345u; }
  double entropy() const { return 0; }
};
}  // namespace std

#define mt19937 mc_engine
#define mt19937_64 mc_engine
#define minstd_rand mc_engine
#define minstd_rand0 mc_engine
#define ranlux24 mc_engine
#define ranlux48 mc_engine
#define knuth_b mc_engine
#define default_random_engine mc_engine
#define uniform_real_distribution mc_uniform_real_distribution
#define uniform_int_distribution mc_uniform_int_distribution
#define exponential_distribution mc_exponential_distribution
#define bernoulli_distribution mc_bernoulli_distribution
#define discrete_distribution mc_discrete_distribution
#define generate_canonical mc_generate_canonical
#define random_device mc_random_device
#endif
