// Small property-based-testing engine used by every check in /verif/checks.
//
// A sub-check is a function of a Gen.  All randomness is drawn through the
// Gen as a sequence of bounded integer choices, so a case is replayed and
// shrunk by editing that sequence (smaller/fewer choices == simpler case).
#pragma once
#include <cstdint>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>

namespace fw {

struct Fail { std::string msg; };

class Gen {
 public:
  enum Mode { RANDOM, REPLAY, BYTES };
  explicit Gen(uint64_t seed) : mode_(RANDOM) { reseed(seed); }
  explicit Gen(std::vector<uint64_t> replay)
      : mode_(REPLAY), src_(std::move(replay)) {}
  Gen(const uint8_t* d, size_t n) : mode_(BYTES), bytes_(d), nbytes_(n) {}

  void reseed(uint64_t seed);
  uint64_t next64();

  // Uniform integer in [0, bound); 0 is the simplest value.
  uint64_t below(uint64_t bound) {
    uint64_t v;
    if (bound <= 1) { v = 0; return 0; }
    if (mode_ == RANDOM) {
      v = (uint64_t)(((unsigned __int128)next64() * bound) >> 64);
    } else if (mode_ == REPLAY) {
      v = pos_ < src_.size() ? src_[pos_] : 0;
      ++pos_;
      if (v >= bound) v %= bound;
    } else {
      uint64_t b = bound - 1, acc = 0;
      do {
        acc = (acc << 8) | (bpos_ < nbytes_ ? bytes_[bpos_++] : 0);
        b >>= 8;
      } while (b);
      v = acc % bound;
    }
    rec_.push_back(v);
    if (sink && rec_.size() < sink_cap) {
      sink[rec_.size()] = v;
      sink[0] = rec_.size();
    }
    return v;
  }
  // [lo, hi], shrinks to lo
  int64_t range(int64_t lo, int64_t hi) {
    return lo + (int64_t)below((uint64_t)(hi - lo) + 1);
  }
  // [-m, m], shrinks to 0
  int64_t sym(int64_t m) {
    uint64_t v = below(2 * (uint64_t)m + 1);
    return (v & 1) ? (int64_t)((v + 1) / 2) : -(int64_t)(v / 2);
  }
  bool coin() { return below(2) == 1; }
  bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
  // a size: usually lo..hi, sometimes past hi, rarely far past it
  int sz(int lo, int hi) { return !chance(1, 14) ? (int)range(lo, hi) : chance(1, 6) ? (int)range(hi + 1, 4 * hi + 4) : (int)range(hi + 1, hi + 5); }
  // the same, and very rarely past the sizes at which an implementation might switch to another algorithm
  int szh(int lo, int hi, unsigned rare = 400) { return chance(1, rare) ? (int)range(4 * hi + 5, 24 * hi + 20) : sz(lo, hi); }
  // [0,1) with 2^-40 grid
  double unit() { return (double)below(1ull << 40) / (double)(1ull << 40); }
  // [lo,hi)
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // symmetric real in (-m, m); shrinks to 0
  double symreal(double m) {
    int64_t k = sym(1ll << 40);
    return (double)k / (double)(1ll << 40) * m;
  }
  template <class T> const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }

  // ---- classification -------------------------------------------------
  void nontrivial(bool b = true) { nt_ = nt_ || b; }
  void label(const char* s) { labels_.push_back(s); }
  void excluded(const char* s) { labels_.push_back(s); }

  uint64_t* sink = nullptr;   // shared-memory copy of the record (crash cases)
  size_t sink_cap = 0;
  bool verbose = false;
  std::ostringstream log;
  bool echo = false;
  template <class F> void note(F f) {
    if (!verbose) return;
    std::ostringstream os; os.precision(17);
    f(os);
    log << os.str() << "; ";
    if (echo) echo_line(os.str());
  }
  static void echo_line(const std::string& s);

  const std::vector<uint64_t>& record() const { return rec_; }
  bool is_nontrivial() const { return nt_; }
  const std::vector<const char*>& labels() const { return labels_; }
  void reset() { rec_.clear(); nt_ = false; labels_.clear(); pos_ = 0; bpos_ = 0; }

 private:
  Mode mode_;
  uint64_t s_[4] = {1, 2, 3, 4};
  std::vector<uint64_t> src_;
  size_t pos_ = 0;
  const uint8_t* bytes_ = nullptr;
  size_t nbytes_ = 0, bpos_ = 0;
  std::vector<uint64_t> rec_;
  std::vector<const char*> labels_;
  bool nt_ = false;
};

using PropFn = void (*)(Gen&);
struct Prop {
  std::string name;
  PropFn fn;
  uint64_t quick;   // cases in the quick tier
};
std::vector<Prop>& registry();
struct Reg {
  Reg(const std::string& name, PropFn fn, uint64_t quick) {
    registry().push_back({name, fn, quick});
  }
};

#define FW_CAT2(a, b) a##b
#define FW_CAT(a, b) FW_CAT2(a, b)
// PROP(name, ncases) { body uses g }
#define PROP(NAME, N)                                              \
  static void NAME(::fw::Gen& g);                                  \
  static ::fw::Reg FW_CAT(reg_, NAME)(#NAME, &NAME, N);            \
  static void NAME(::fw::Gen& g)
// register an instantiation
#define INST(LABEL, N, ...)                                        \
  static ::fw::Reg FW_CAT(reg_inst_, __COUNTER__)(LABEL, &__VA_ARGS__, N);

[[noreturn]] void fail_at(const char* file, int line, const std::string& msg);

#define REQUIRE(COND, ...)                                         \
  do {                                                             \
    if (!(COND)) {                                                 \
      std::ostringstream os_;                                      \
      os_ << #COND << " -- " __VA_ARGS__;                          \
      ::fw::fail_at(__FILE__, __LINE__, os_.str());                \
    }                                                              \
  } while (0)

// Requires an exception of exactly (or derived from) type EX.
#define REQUIRE_THROWS(EX, EXPR, ...)                              \
  do {                                                             \
    bool thrown_ = false;                                          \
    try { (void)(EXPR); } catch (const EX&) { thrown_ = true; }    \
    if (!thrown_) {                                                \
      std::ostringstream os_;                                      \
      os_ << "no " #EX " from " #EXPR " -- " __VA_ARGS__;          \
      ::fw::fail_at(__FILE__, __LINE__, os_.str());                \
    }                                                              \
  } while (0)

// ---- numeric helpers ----------------------------------------------------
inline bool near(long double a, long double b, long double tol) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (a == b) return true;
  return std::fabs(a - b) <= tol;
}

// same value including NaN==NaN and treating -0 == 0
template <class T> bool same(T a, T b) {
  if constexpr (std::is_floating_point_v<T>) {
    if (std::isnan(a) && std::isnan(b)) return true;
  }
  return a == b;
}

template <class E> constexpr long double eps_of() {
  return std::numeric_limits<E>::epsilon();
}

// ---- element generators -------------------------------------------------
// Exact elements: small dyadic numbers (integers for integral E): sums and
// products of a few dozen of them are exact in float, double and int.
template <class E> E exact(Gen& g, int m = 12) {
  if constexpr (std::is_integral_v<E>) {
    if constexpr (std::is_unsigned_v<E>) return (E)g.below(m + 1);
    else return (E)g.sym(m);
  } else {
    // a grid of 1/4
    return (E)((double)g.sym(4 * m) / 4.0);
  }
}
template <class E> E exact_nonzero(Gen& g, int m = 12) {
  E e = exact<E>(g, m);
  if (e == E(0)) e = E(1);
  return e;
}
// Power of two scalar (exact division for floating E)
template <class E> E pow2(Gen& g) {
  if constexpr (std::is_integral_v<E>) return (E)(1 << g.below(4));
  else {
    double v = std::ldexp(1.0, (int)g.range(-3, 3));
    return (E)(g.coin() ? -v : v);
  }
}
// 1 or a number at a distance 2^-k from it, k in 3..bits
inline long double near_one(Gen& g, int bits) { int k = (int)g.range(2, bits); return k == 2 ? 1 : 1 + (g.coin() ? -1 : 1) * std::ldexp(1.0L + g.unit(), -k); }
// "Any" finite value, moderately spread: values for which copies/comparisons
// are exact but arithmetic is not.
template <class E> E any_value(Gen& g) {
  if constexpr (std::is_integral_v<E>) {
    switch (g.below(4)) {
      case 0: return exact<E>(g);
      case 1: return std::numeric_limits<E>::max() - (E)g.below(3);
      case 2: return std::numeric_limits<E>::min() + (E)g.below(3);
      default: return (E)g.below(0);
    }
  } else {
    switch (g.below(8)) {
      case 0: return exact<E>(g);
      case 1: return (E)g.symreal(1e6);
      case 2: return std::numeric_limits<E>::max();
      case 3: return std::numeric_limits<E>::denorm_min();
      case 4: return -E(0);
      case 5: return (E)std::ldexp(g.symreal(1), (int)g.sym(100));
      case 6: return (E)(1.0 / (double)g.range(1, 1000));
      default: return (E)g.symreal(10);
    }
  }
}
// well-scaled real
template <class E> E scaled(Gen& g, double m = 8) {
  if (g.below(6) == 0) return (E)exact<E>(g, (int)m);
  return (E)g.symreal(m);
}

template <class E> const char* ename() {
  if constexpr (std::is_same_v<E, int>) return "int";
  else if constexpr (std::is_same_v<E, float>) return "float";
  else if constexpr (std::is_same_v<E, double>) return "double";
  else if constexpr (std::is_same_v<E, long>) return "long";
  else if constexpr (std::is_same_v<E, short>) return "short";
  else if constexpr (std::is_same_v<E, unsigned>) return "unsigned";
  else return "elem";
}

template <class Seq> std::string show(const Seq& s) {
  std::ostringstream os; os.precision(17);
  os << '[';
  bool first = true;
  for (auto&& e : s) { if (!first) os << ' '; first = false; os << +e; }
  os << ']';
  return os.str();
}

}  // namespace fw
