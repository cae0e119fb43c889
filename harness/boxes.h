// Uniform owners for every vector / matrix storage, plus plain reference
// models.  External storages wrap exactly-sized heap arrays, so any access
// outside the wrapped range is caught by AddressSanitizer.
#pragma once
#include <cml/cml.h>
#include <cml/vector/hadamard_product.h>
#include <cml/matrix/hadamard_product.h>
#include <memory>
#include "fw.h"

namespace bx {
using cml::vector; using cml::matrix; using cml::quaternion;
using cml::fixed; using cml::dynamic; using cml::external;
using cml::row_basis; using cml::col_basis; using cml::row_major; using cml::col_major;
using fw::Gen;

// ---------------------------------------------------------------- vectors
template <class V> struct vspec;
template <class E, int N> struct vspec<vector<E, fixed<N>>> {
  using elem = E; static constexpr int n = N; static constexpr char kind = 'F';
};
template <class E> struct vspec<vector<E, dynamic<>>> {
  using elem = E; static constexpr int n = -1; static constexpr char kind = 'D';
};
template <class E, int N> struct vspec<vector<E, external<N>>> {
  using elem = std::remove_const_t<E>; static constexpr int n = N;
  static constexpr char kind = std::is_const_v<E> ? 'c' : 'X';
};
template <class E> struct vspec<vector<E, external<>>> {
  using elem = std::remove_const_t<E>; static constexpr int n = -1;
  static constexpr char kind = std::is_const_v<E> ? 'k' : 'Y';
};
template <class V> using elem_t = typename vspec<V>::elem;

template <class V> std::string vname() {
  using S = vspec<V>;
  std::string s;
  switch (S::kind) {
    case 'F': s = "fixed"; break; case 'D': s = "dynamic"; break;
    case 'X': s = "external"; break; case 'Y': s = "externaln"; break;
    case 'c': s = "cexternal"; break; default: s = "cexternaln";
  }
  if (S::n > 0) s += std::to_string(S::n);
  return s + "_" + fw::ename<typename S::elem>();
}

// Owns a vector of type V initialised with vals.
template <class V> struct VBox {
  using S = vspec<V>; using E = typename S::elem;
  std::unique_ptr<E[]> buf;
  V v;
  static std::unique_ptr<E[]> mk(const std::vector<E>& x) {
    if constexpr (S::kind == 'F' || S::kind == 'D') return nullptr;
    else {
      std::unique_ptr<E[]> b(new E[x.size()]);
      for (size_t i = 0; i < x.size(); ++i) b[i] = x[i];
      return b;
    }
  }
  static V mkv(E* b, const std::vector<E>& x) {
    if constexpr (S::kind == 'F') {
      V r; for (int i = 0; i < S::n; ++i) r[i] = x[i]; return r;
    } else if constexpr (S::kind == 'D') {
      V r((int)x.size());
      for (size_t i = 0; i < x.size(); ++i) r[(int)i] = x[i];
      return r;
    } else if constexpr (S::n > 0) return V(b);
    else return V(b, (int)x.size());
  }
  explicit VBox(const std::vector<E>& x) : buf(mk(x)), v(mkv(buf.get(), x)) {}
  VBox(const VBox&) = delete;
  V& operator*() { return v; }
  const V& cr() const { return v; }
};

// Generates n values (n fixed by V or from [lo,hi]).
template <class V> int pick_n(Gen& g, int lo = 1, int hi = 8) {
  if constexpr (vspec<V>::n > 0) return vspec<V>::n;
  else return g.szh(lo, hi, 80);
}
template <class E> std::vector<E> exact_vec(Gen& g, int n, int m = 12) {
  std::vector<E> r(n);
  for (auto& e : r) e = fw::exact<E>(g, m);
  return r;
}
template <class E> std::vector<E> any_vec(Gen& g, int n) {
  std::vector<E> r(n);
  for (auto& e : r) e = fw::any_value<E>(g);
  return r;
}
template <class E> std::vector<E> scaled_vec(Gen& g, int n, double m = 8) {
  std::vector<E> r(n);
  for (auto& e : r) e = fw::scaled<E>(g, m);
  return r;
}
// non-zero vector with norm in roughly [1e-2, m*sqrt(n)]
template <class E> std::vector<E> nz_vec(Gen& g, int n, double m = 8) {
  auto r = scaled_vec<E>(g, n, m);
  long double s = 0; for (auto e : r) s += (long double)e * e;
  if (s < 1e-3L) r[g.below(n)] = (E)(g.coin() ? 1 : -2);
  return r;
}
// unit vector (rounded to E)
template <class E> std::vector<E> unit_vec(Gen& g, int n) {
  auto r = nz_vec<double>(g, n, 4);
  if (g.below(4) == 0) { for (auto& e : r) e = 0; r[g.below(n)] = g.coin() ? 1 : -1; }
  long double s = 0; for (auto e : r) s += (long double)e * e;
  s = std::sqrt(s);
  std::vector<E> o(n);
  for (int i = 0; i < n; ++i) o[i] = (E)(r[i] / s);
  return o;
}

// read every element through operator[]
template <class X> auto rd(const X& v) {
  using E = std::decay_t<decltype(v[0])>;
  std::vector<E> r;
  for (int i = 0; i < v.size(); ++i) r.push_back(v[i]);
  return r;
}
template <class X, class E> void expect_vec(const X& v, const std::vector<E>& w, const char* what) {
  REQUIRE(v.size() == (int)w.size(), << what << ": size " << v.size() << " want " << w.size());
  for (int i = 0; i < v.size(); ++i)
    REQUIRE(fw::same((std::common_type_t<E, std::decay_t<decltype(v[i])>>)v[i],
                     (std::common_type_t<E, std::decay_t<decltype(v[i])>>)w[i]),
            << what << ": element " << i << " of " << fw::show(rd(v)) << " want " << fw::show(w));
}
template <class X> void expect_vec_near(const X& v, const std::vector<long double>& w, long double tol, const char* what) {
  REQUIRE(v.size() == (int)w.size(), << what << ": size " << v.size() << " want " << w.size());
  for (int i = 0; i < v.size(); ++i)
    REQUIRE(fw::near(v[i], w[i], tol),
            << what << ": element " << i << " of " << fw::show(rd(v)) << " want " << fw::show(w) << " tol " << tol);
}

// --------------------------------------------------------------- matrices
template <class M> struct mspec;
template <class E, int R, int C, class B, class L> struct mspec<matrix<E, fixed<R, C>, B, L>> {
  using elem = E; using basis = B; using layout = L;
  static constexpr int r = R, c = C; static constexpr char kind = 'F';
};
template <class E, class B, class L> struct mspec<matrix<E, dynamic<>, B, L>> {
  using elem = E; using basis = B; using layout = L;
  static constexpr int r = -1, c = -1; static constexpr char kind = 'D';
};
template <class E, int R, int C, class B, class L> struct mspec<matrix<E, external<R, C>, B, L>> {
  using elem = E; using basis = B; using layout = L;
  static constexpr int r = R, c = C; static constexpr char kind = 'X';
};
template <class E, class B, class L> struct mspec<matrix<E, external<>, B, L>> {
  using elem = E; using basis = B; using layout = L;
  static constexpr int r = -1, c = -1; static constexpr char kind = 'Y';
};
template <class M> using melem_t = typename mspec<M>::elem;
template <class M> constexpr bool is_row_basis = std::is_same_v<typename mspec<M>::basis, row_basis>;
template <class M> constexpr bool is_row_major = std::is_same_v<typename mspec<M>::layout, row_major>;

template <class M> std::string mname() {
  using S = mspec<M>;
  std::string s = S::kind == 'F' ? "fixed" : S::kind == 'D' ? "dynamic" : S::kind == 'X' ? "external" : "externaln";
  if (S::r > 0) s += std::to_string(S::r) + "x" + std::to_string(S::c);
  s += is_row_basis<M> ? "_rb" : "_cb";
  s += is_row_major<M> ? "rm" : "cm";
  return s + "_" + fw::ename<typename S::elem>();
}

// Plain model: row-ordered r x c.
template <class E> struct Mod {
  int r = 0, c = 0;
  std::vector<E> d;
  Mod() = default;
  Mod(int r, int c) : r(r), c(c), d((size_t)r * c) {}
  E& operator()(int i, int j) { return d[(size_t)i * c + j]; }
  const E& operator()(int i, int j) const { return d[(size_t)i * c + j]; }
  Mod tr() const { Mod t(c, r); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) t(j, i) = (*this)(i, j); return t; }
  template <class F> Mod<F> as() const { Mod<F> t(r, c); for (size_t i = 0; i < d.size(); ++i) t.d[i] = (F)d[i]; return t; }
};
using LM = Mod<long double>;
inline LM mul(const LM& a, const LM& b) {
  LM o(a.r, b.c);
  for (int i = 0; i < a.r; ++i) for (int j = 0; j < b.c; ++j) {
    long double s = 0; for (int k = 0; k < a.c; ++k) s += a(i, k) * b(k, j); o(i, j) = s;
  }
  return o;
}
template <class E> std::string show(const Mod<E>& m) {
  std::ostringstream os; os.precision(17);
  os << m.r << "x" << m.c << fw::show(m.d); return os.str();
}

template <class M> struct MBox {
  using S = mspec<M>; using E = typename S::elem;
  std::unique_ptr<E[]> buf;
  M m;
  static std::unique_ptr<E[]> mk(const Mod<E>& x) {
    if constexpr (S::kind == 'F' || S::kind == 'D') return nullptr;
    else {
      std::unique_ptr<E[]> b(new E[x.d.size()]);
      for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j)
        b[is_row_major<M> ? i * x.c + j : j * x.r + i] = x(i, j);
      return b;
    }
  }
  static M mkm(E* b, const Mod<E>& x) {
    if constexpr (S::kind == 'F') {
      M r; for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) r(i, j) = x(i, j); return r;
    } else if constexpr (S::kind == 'D') {
      M r(x.r, x.c); for (int i = 0; i < x.r; ++i) for (int j = 0; j < x.c; ++j) r(i, j) = x(i, j); return r;
    } else if constexpr (S::r > 0) return M(b);
    else return M(b, x.r, x.c);
  }
  explicit MBox(const Mod<E>& x) : buf(mk(x)), m(mkm(buf.get(), x)) {}
  MBox(const MBox&) = delete;
  M& operator*() { return m; }
  const M& cr() const { return m; }
};

template <class M> Mod<melem_t<M>> shape(Gen& g, int lo = 1, int hi = 5) {
  if constexpr (mspec<M>::r > 0) return Mod<melem_t<M>>(mspec<M>::r, mspec<M>::c);
  else { int r = g.szh(lo, hi, 150), c = g.szh(lo, hi, r > 4 * hi ? 2000 : 150); return Mod<melem_t<M>>(r, c); }
}
template <class E> Mod<E>& fill_exact(Gen& g, Mod<E>& m, int mag = 12) { for (auto& e : m.d) e = fw::exact<E>(g, mag); return m; }
template <class E> Mod<E>& fill_any(Gen& g, Mod<E>& m) { for (auto& e : m.d) e = fw::any_value<E>(g); return m; }
template <class E> Mod<E>& fill_scaled(Gen& g, Mod<E>& m, double mag = 8) { for (auto& e : m.d) e = fw::scaled<E>(g, mag); return m; }

template <class X> auto rdm(const X& m) {
  using E = std::decay_t<decltype(m(0, 0))>;
  Mod<E> r(m.rows(), m.cols());
  for (int i = 0; i < r.r; ++i) for (int j = 0; j < r.c; ++j) r(i, j) = m(i, j);
  return r;
}
template <class X, class E> void expect_mat(const X& m, const Mod<E>& w, const char* what) {
  REQUIRE(m.rows() == w.r && m.cols() == w.c, << what << ": shape " << m.rows() << "x" << m.cols() << " want " << w.r << "x" << w.c);
  for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j) {
    using T = std::common_type_t<E, std::decay_t<decltype(m(i, j))>>;
    REQUIRE(fw::same((T)m(i, j), (T)w(i, j)), << what << ": element (" << i << "," << j << ") of " << show(rdm(m)) << " want " << show(w));
  }
}
template <class X> void expect_mat_near(const X& m, const LM& w, long double tol, const char* what) {
  REQUIRE(m.rows() == w.r && m.cols() == w.c, << what << ": shape " << m.rows() << "x" << m.cols() << " want " << w.r << "x" << w.c);
  for (int i = 0; i < w.r; ++i) for (int j = 0; j < w.c; ++j)
    REQUIRE(fw::near(m(i, j), w(i, j), tol), << what << ": element (" << i << "," << j << ") of " << show(rdm(m)) << " want " << show(w) << " tol " << tol);
}
// nontrivial: at least two distinct elements, one non-zero
template <class E> bool varied(const std::vector<E>& v) {
  for (size_t i = 1; i < v.size(); ++i) if (!(v[i] == v[0])) return true;
  return v.size() == 1 && v[0] != E(0);
}
}  // namespace bx
using namespace bx;
