#pragma once
#include "linalg.h"
#include <cml/matrix/lu.h>
#include <algorithm>
// P12: LU factors reproduce the matrix, LU solving solves the system.
template <class T> constexpr bool mowns = mspec<T>::kind == 'F' || mspec<T>::kind == 'D';
template <class T> constexpr bool vowns = vspec<T>::kind == 'F' || vspec<T>::kind == 'D';
template <class M> int pick_dim(Gen& g) {
  if constexpr (mspec<M>::r > 0) return mspec<M>::r;
  else return g.chance(1, 12) ? (int)g.range(8, 14) : (int)g.range(1, 7);
}
inline void split(const LM& p, LM& l, LM& u) {
  int n = p.r; l = ident(n); u = LM(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) (j < i ? l : u)(i, j) = p(i, j);
}
template <class E> void same_product(const LM& packed, const LM& a, const char* what) {
  LM l, u; split(packed, l, u); LM w = mul(l, u), t = mul(absm(l), absm(u));
  int n = a.r;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    long double tol = 2 * (n + 1) * std::numeric_limits<E>::epsilon() * (t(i, j) + std::fabs(a(i, j))) + std::numeric_limits<E>::min();
    REQUIRE(fw::near(w(i, j), a(i, j), tol), << what << ": (L*U)(" << i << "," << j << ")=" << w(i, j) << " want " << a(i, j) << " packed " << show(packed));
  }
}
inline int parity(std::vector<int> o) {
  int s = 1; for (size_t i = 0; i < o.size(); ++i) while (o[i] != (int)i) { std::swap(o[i], o[o[i]]); s = -s; } return s;
}
// matrices whose unpivoted leading pivots are all away from 0
template <class E> Mod<E> lu_mat(Gen& g, int n, const char*& fam) {
  LM m(n, n);
  switch (g.below(4)) {
    case 0: fam = "diagonally dominant"; for (auto& e : m.d) e = g.symreal(2); for (int i = 0; i < n; ++i) m(i, i) = (g.coin() ? 1 : -1) * (2 * n + g.unit()); break;
    case 1: case 2: { fam = "L*U"; LM l = ident(n), u(n, n);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (j < i) l(i, j) = g.symreal(3); else if (i == j) u(i, i) = (g.coin() ? 1 : -1) * g.real(.5, 4); else u(i, j) = g.symreal(4); }
      m = mul(l, u); break; }
    default: { fam = "exact L*U"; LM l = ident(n), u(n, n);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (j < i) l(i, j) = g.sym(3); else if (i == j) u(i, i) = fw::pow2<double>(g); else u(i, j) = g.sym(4); }
      m = mul(l, u); }
  }
  return m.template as<E>();
}
template <class M> void lu_plain(Gen& g) {
  using E = melem_t<M>; int n = pick_dim<M>(g); const char* fam = "";
  Mod<E> mm = lu_mat<E>(g, n, fam); g.label(fam); g.nontrivial(n > 1 && varied(mm.d)); g.note([&](auto& o) { o << fam << " " << show(mm); });
  MBox<M> box(mm); M& m = *box; const M& cm = box.cr(); LM a = lm(mm);
  auto p = cml::lu(cm); static_assert(std::is_same_v<decltype(p), cml::temporary_of_t<M>>);
  REQUIRE(p.rows() == n && p.cols() == n);
  for (auto e : rdm(p).d) REQUIRE(std::isfinite(e), << "finite factors");
  same_product<E>(rdl(p), a, "lu"); expect_mat(cm, mm, "the operand is unchanged");
  same_product<E>(rdl(cml::lu(-m)), scalem(a, -1), "lu(-m)");
  if constexpr (mowns<M>) same_product<E>(rdl(cml::lu(M(m))), a, "lu of a temporary");
  if (!std::strcmp(fam, "exact L*U") && n <= 5) {   // every step is exact: the factors are the unique ones
    LM l, u; split(rdl(p), l, u); LM w = mul(l, u); for (size_t i = 0; i < w.d.size(); ++i) REQUIRE(w.d[i] == a.d[i], << "exact L*U " << show(rdm(p)));
  }
  // det = product of the pivots
  long double d = 1; for (int i = 0; i < n; ++i) d *= p(i, i);
  (void)d;
}
template <class R> std::vector<int> order_of(const R& r, int n) {
  REQUIRE((int)r.order.size() == n, << "order has " << r.order.size() << " entries, want " << n);
  std::vector<int> o(r.order.begin(), r.order.end()), s = o; std::sort(s.begin(), s.end());
  for (int i = 0; i < n; ++i) REQUIRE(s[i] == i, << "order is a permutation");
  return o;
}
template <class E, class R> void check_pivot(const R& r, const LM& a, const char* what) {
  int n = a.r; auto o = order_of(r, n);
  REQUIRE(r.sign == parity(o), << what << ": sign " << r.sign << " but the row order " << fw::show(o) << " has parity " << parity(o));
  LM pa(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) pa(i, j) = a(o[i], j);
  LM packed = rdl(r.lu); same_product<E>(packed, pa, what);
  for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) REQUIRE(std::fabs(packed(i, j)) <= 1, << what << ": multiplier " << packed(i, j) << " above 1: not the largest pivot");
}
inline long double min_pivot(LM w) {
  int n = w.r; long double mp = 1e300L;
  for (int k = 0; k < n; ++k) {
    int p = k; for (int i = k; i < n; ++i) if (std::fabs(w(i, k)) > std::fabs(w(p, k))) p = i;
    mp = std::min(mp, std::fabs(w(p, k))); if (w(p, k) == 0) return 0;
    for (int j = 0; j < n; ++j) std::swap(w(p, j), w(k, j));
    for (int i = k + 1; i < n; ++i) { long double f = w(i, k) / w(k, k); for (int j = k; j < n; ++j) w(i, j) -= f * w(k, j); }
  }
  return mp;
}
// columns times powers of two: every elimination step scales exactly and no pivot gets smaller
template <class E> void upscale(Gen& g, Mod<E>& m) {
  for (int j = 0; j < m.c; ++j) if (g.coin()) { int k = (int)g.below(sizeof(E) == 4 ? 20 : 60); for (int i = 0; i < m.r; ++i) m(i, j) = std::ldexp(m(i, j), k); }
}
template <class M> void lu_piv(Gen& g) {
  using E = melem_t<M>; int n = pick_dim<M>(g); const char* fam = "";
  Mod<E> mm = square_mat<E>(g, n, fam); g.note([&](auto& o) { o << fam << " " << show(mm); }); LM a = lm(mm);
  if (min_pivot(a) < 1e3L * std::numeric_limits<E>::epsilon() * (1 + ninf(a))) { g.label("pivot near epsilon: skipped"); return; }
  if (g.chance(1, 3)) { upscale(g, mm); a = lm(mm); g.note([&](auto& o) { o << "columns scaled " << show(mm); }); }
  g.label(fam); g.nontrivial(n > 1 && varied(mm.d));
  MBox<M> box(mm); M& m = *box; const M& cm = box.cr();
  auto r = cml::lu_pivot(cm); check_pivot<E>(r, a, "lu_pivot");
  static_assert(std::is_same_v<decltype(r.lu), cml::temporary_of_t<M>>);
  expect_mat(cm, mm, "the operand is unchanged");
  auto rn = cml::lu_pivot(-m); check_pivot<E>(rn, scalem(a, -1), "lu_pivot(-m)");
  auto rt = cml::lu_pivot(cml::transpose(m)); if (rt.sign) check_pivot<E>(rt, a.tr(), "lu_pivot(transpose(m))");
  // in place; the result object can be reused for another matrix
  cml::lu_pivot_result<cml::temporary_of_t<M>> q{cml::temporary_of_t<M>(m)};
  cml::lu_pivot(q); check_pivot<E>(q, a, "in-place lu_pivot");
  q.lu = -m; cml::lu_pivot(q); check_pivot<E>(q, scalem(a, -1), "reused lu_pivot result");
  auto copy = r; check_pivot<E>(copy, a, "copied result");
  if constexpr (mspec<M>::r < 0) {   // and for a matrix of another size
    int k = (int)g.range(1, 4); LM w(n + k, n + k); for (int i = 0; i < n + k; ++i) w(i, (i + k) % (n + k)) = 1;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) w(i, j + k) = a(i, j);
    q.lu.resize(n + k, n + k); for (int i = 0; i < n + k; ++i) for (int j = 0; j < n + k; ++j) q.lu(i, j) = E(w(i, j));
    cml::lu_pivot(q); check_pivot<E>(q, w, "result reused for a larger matrix"); q.lu = m; cml::lu_pivot(q); check_pivot<E>(q, a, "result reused for a smaller matrix");
    REQUIRE((int)q.order.size() == n, << "the row order has " << q.order.size() << " entries for " << n << " rows");
  }
}
// residual |A x - b| against |L||U||x|
template <class E, class X> void residual(const LM& a, const LM& packed, const std::vector<int>& o, const X& x, const std::vector<long double>& b, const char* what) {
  int n = a.r; REQUIRE(x.size() == n, << what << ": size");
  LM l, u; split(packed, l, u); LM t = mul(absm(l), absm(u));
  for (int i = 0; i < n; ++i) {
    long double s = 0, ts = 0; int k = o[i];
    for (int j = 0; j < n; ++j) { s += a(k, j) * x[j]; ts += (t(i, j) + std::fabs(a(k, j))) * (std::fabs((long double)x[j]) + std::numeric_limits<E>::min()); }   // min: an underflowing element is off by a denormal
    long double tol = 4 * (n + 2) * std::numeric_limits<E>::epsilon() * (ts + std::fabs(b[k])) + std::numeric_limits<E>::min();
    REQUIRE(fw::near(s, b[k], tol), << what << ": row " << k << " of A*x is " << s << " want " << b[k] << " tol " << tol << " x=" << fw::show(rd(x)));
  }
}
template <class M, class V> void solve(Gen& g) {
  using E = melem_t<M>; using F = elem_t<V>; using W = std::conditional_t<(std::numeric_limits<E>::epsilon() > std::numeric_limits<F>::epsilon()), E, F>;
  int n = mspec<M>::r > 0 ? mspec<M>::r : vspec<V>::n > 0 ? vspec<V>::n : g.sz(1, 8);
  const char* fam = ""; bool piv = g.chance(2, 3);
  Mod<E> mm = piv ? square_mat<E>(g, n, fam) : lu_mat<E>(g, n, fam); LM a = lm(mm);
  auto b = scaled_vec<F>(g, n); if (g.chance(1, 8)) for (int i = 0; i < n; ++i) b[i] = F(i == 0);
  std::vector<long double> bl(b.begin(), b.end()), nb = bl; for (auto& e : nb) e = -e;
  g.note([&](auto& o) { o << fam << " " << show(mm) << " b=" << fw::show(b); });
  if (min_pivot(a) < 1e4L * std::numeric_limits<W>::epsilon() * (1 + ninf(a))) { g.label("pivot near epsilon: skipped"); return; }
  if (g.chance(1, 4)) { upscale(g, mm); a = lm(mm); g.note([&](auto& o) { o << "columns scaled " << show(mm); }); }
  g.label(fam); g.nontrivial(n > 1 && varied(mm.d) && varied(b));
  MBox<M> box(mm); VBox<V> vb(b); V& v = *vb; const V& cv = vb.cr(); M& m = *box;
  std::vector<int> id(n); for (int i = 0; i < n; ++i) id[i] = i;
  if (!piv) {
    auto f = cml::lu(m); LM pk = rdl(f);
    residual<W>(a, pk, id, cml::lu_solve(f, cv), bl, "lu_solve"); residual<W>(a, pk, id, cml::lu_solve(f, -v), nb, "lu_solve(-b)");
    residual<W>(a, pk, id, cml::lu_solve(cml::lu(m), v), bl, "lu_solve of temporaries");
    vector<F, dynamic<>> x(n); cml::lu_solve(f, x, cv); residual<W>(a, pk, id, x, bl, "lu_solve(LU,x,b)");
    expect_vec(cv, b, "b is unchanged");
    { VBox<V> al(b); if constexpr (vspec<V>::kind != 'c' && vspec<V>::kind != 'k') { cml::lu_solve(f, *al, *al); residual<W>(a, pk, id, al.cr(), bl, "lu_solve(LU,b,b)"); } }
  } else {
    auto f = cml::lu_pivot(m); LM pk = rdl(f.lu); auto o = order_of(f, n);
    REQUIRE(f.sign != 0, << "a non-singular matrix is not reported as singular");
    residual<W>(a, pk, o, cml::lu_solve(f, cv), bl, "pivoted lu_solve"); residual<W>(a, pk, o, cml::lu_solve(f, -v), nb, "pivoted lu_solve(-b)");
    vector<F, dynamic<>> x(n); cml::lu_solve(f, x, cv); residual<W>(a, pk, o, x, bl, "pivoted lu_solve(lup,x,b)");
    expect_vec(cv, b, "b is unchanged");
    { VBox<V> al(b); if constexpr (vspec<V>::kind != 'c' && vspec<V>::kind != 'k') { cml::lu_solve(f, *al, *al); residual<W>(a, pk, o, al.cr(), bl, "pivoted lu_solve(lup,b,b)"); } }
    auto y = cml::lu_solve(f, cv); using Y = decltype(y); static_assert(std::is_same_v<Y, cml::temporary_of_t<V>>);
  }
}
// a system of no equations
template <class M> void empty(Gen& g) {
  using E = melem_t<M>; MBox<M> box(Mod<E>(0, 0)); int k = (int)g.below(3); g.note([&](auto& o) { o << "0x0, " << k; }); g.nontrivial(true); vector<E, dynamic<>> b;
  auto r = cml::lu_pivot(box.cr()); REQUIRE(r.sign == 1 && r.lu.rows() == 0 && r.lu.cols() == 0 && r.order.empty(), << "pivoting LU of an empty matrix: sign " << r.sign);
  if (k == 1) REQUIRE(cml::lu_solve(r, b).size() == 0); else { auto q = cml::lu(box.cr()); REQUIRE(q.rows() == 0 && cml::lu_solve(q, b).size() == 0); }
}
// exactly singular matrices (every elimination step exact) are reported
template <class M> void singular(Gen& g) {
  using E = melem_t<M>; int n = pick_dim<M>(g); if (n > 8) n = 8; const char* fam = "";
  Mod<E> mm(n, n); for (auto& e : mm.d) e = fw::scaled<E>(g, 6);
  int a = (int)g.below(n), b = (int)g.below(n);
  switch (g.below(5)) {
    case 0: fam = "zero column"; for (int i = 0; i < n; ++i) mm(i, a) = 0; break;
    case 1: fam = "zero row"; for (int i = 0; i < n; ++i) mm(a, i) = 0; break;
    case 2: fam = "equal rows"; for (int i = 0; i < n; ++i) mm(a, i) = a == b ? E(0) : mm(b, i); break;
    case 3: { fam = "opposite rows"; for (int i = 0; i < n; ++i) mm(a, i) = a == b ? E(0) : E(-mm(b, i)); break; }
    default: { fam = "rank one"; if (n == 1) { mm(0, 0) = 0; break; } std::vector<E> s(n), t(n); for (auto& e : s) e = fw::pow2<E>(g); for (auto& e : t) e = fw::exact<E>(g, 9);
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) mm(i, j) = s[i] * t[j]; }
  }
  g.label(fam); g.nontrivial(n == 1 || varied(mm.d)); g.note([&](auto& o) { o << fam << " " << a << "," << b << " " << show(mm); });
  // equal rows stay equal only until one of them is chosen; a later zero is exact in every family
  MBox<M> box(mm); auto f = cml::lu_pivot(box.cr());
  REQUIRE(f.sign == 0, << "a singular matrix has sign " << f.sign);
  vector<E, dynamic<>> v(n), x(n); for (int i = 0; i < n; ++i) v[i] = fw::exact<E>(g, 6), x[i] = E(3);
  REQUIRE_THROWS(std::invalid_argument, cml::lu_solve(f, v)); REQUIRE_THROWS(std::invalid_argument, cml::lu_solve(f, x, v));
  for (int i = 0; i < n; ++i) REQUIRE(x[i] == E(3), << "x is not written when the system is rejected");
}
// the same for integer elements: a column without a non-zero pivot is reported, and nothing else is divided by
template <class M> void singular_int(Gen& g) {
  using E = melem_t<M>; int n = pick_dim<M>(g); if (n > 8) n = 8;
  Mod<E> mm(n, n); for (auto& e : mm.d) e = (E)g.sym(9);
  int a = (int)g.below(n), b = (int)g.below(n); bool col = g.coin(); if (!col && n > 1) { for (int j = 0; j < n; ++j) mm(a, j) = a == b ? E(0) : mm(b, j); if (g.coin()) for (int i = 0; i < n; ++i) mm(i, 0) = 0, col = true; else for (int j = 0; j < n; ++j) mm(a, j) = 0; } else for (int i = 0; i < n; ++i) mm(i, a) = 0;
  g.label(col ? "zero column" : "zero row"); g.nontrivial(n == 1 || varied(mm.d)); g.note([&](auto& o) { o << show(mm); });
  MBox<M> box(mm); auto f = cml::lu_pivot(box.cr()); expect_mat(box.cr(), mm, "the operand is unchanged");
  REQUIRE(f.sign == 0, << "a singular matrix has sign " << f.sign);
  vector<E, dynamic<>> v(n), x(n); for (int i = 0; i < n; ++i) v[i] = (E)g.sym(9), x[i] = E(3);
  REQUIRE_THROWS(std::invalid_argument, cml::lu_solve(f, v)); REQUIRE_THROWS(std::invalid_argument, cml::lu_solve(f, x, v));
  for (int i = 0; i < n; ++i) REQUIRE(x[i] == E(3), << "x is not written when the system is rejected");
}
