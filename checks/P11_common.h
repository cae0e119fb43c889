#pragma once
#include "linalg.h"
// P11: determinant, inverse, trace against long-double references.
template <class T> constexpr bool mowns = mspec<T>::kind == 'F' || mspec<T>::kind == 'D';
template <class M> int pick_dim(Gen& g) {
  if constexpr (mspec<M>::r > 0) return mspec<M>::r;
  else return g.chance(1, 40) ? (int)g.range(8, 10) : (int)g.range(1, 7);
}
// smallest pivot partial pivoting meets (the library calls a matrix of order > 4 singular below epsilon)
inline long double min_pivot(LM w) {
  int n = w.r; long double mp = 1e300L;
  for (int k = 0; k < n; ++k) {
    int p = k; for (int i = k; i < n; ++i) if (std::fabs(w(i, k)) > std::fabs(w(p, k))) p = i;
    mp = std::min(mp, std::fabs(w(p, k))); if (w(p, k) == 0) return 0;
    for (int j = 0; j < n; ++j) std::swap(w(p, j), w(k, j));
    for (int i = k + 1; i < n; ++i) { long double f = w(i, k) / w(k, k); for (int j = k; j < n; ++j) w(i, j) -= f * w(k, j); }
  }
  return mp;
}
template <class E> long double det_tol(const LM& a) {
  if (std::is_integral_v<E>) return 0;
  int n = a.r; long double pm = perm_ref(a), t = 8 * pm;
  if (n > 4) {
    // backward error of elimination, through the cofactors
    LM x; long double d = std::fabs(det_ref(a)), cof = 0;
    if (inv_ref(a, x) && d > 0) { for (auto e : x.d) cof += std::fabs(e) * d; } else for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) cof += perm_ref(minor_of(a, i, j));
    t += 4.0L * n * maxabs(a) * cof;
  }
  return t * std::numeric_limits<E>::epsilon() + std::numeric_limits<E>::min();
}

// integers whose every minor fits the element type with room for one product of two of them
template <class E> void small_int_mat(Gen& g, Mod<E>& m) {
  const int n = m.r, b = sizeof(E) < 8 ? (n == 5 ? 4 : n < 8 ? 2 : 1) : n == 5 ? 60 : n == 6 ? 30 : n == 7 ? 12 : n < 10 ? 4 : 3;
  bool sparse = g.chance(1, 3); for (auto& e : m.d) e = sparse && g.chance(2, 3) ? E(0) : E(g.sym(b));
  switch (g.below(8)) {
    case 0: m(0, 0) = 0; break;                                                   // the first pivot needs a swap
    case 1: for (int i = 0; i + 1 < n; ++i) m(i, 0) = 0; break;
    case 2: { int j = (int)g.below(n); for (int i = 0; i < n; ++i) m(i, j) = 0; break; }
    case 3: { int i = (int)g.below(n), k = (int)g.below(n); if (i != k) for (int j = 0; j < n; ++j) m(i, j) = m(k, j); break; }
    case 4: m(1, 0) = m(0, 0); m(1, 1) = m(0, 1); break;                            // the second pivot needs a swap
  }
}
template <class M> void det(Gen& g) {
  using E = melem_t<M>;
  int n = pick_dim<M>(g); const char* fam = "";
  Mod<E> mm = square_mat<E>(g, n, fam), mb = square_mat<E>(g, n, fam);
  if (std::is_integral_v<E> && n > 4) { small_int_mat(g, mm); small_int_mat(g, mb); fam = "small integers"; }
  if (n > 1 && g.chance(1, 8)) { int a = (int)g.below(n), b = (int)g.below(n); for (int j = 0; j < n; ++j) mm(a, j) = a == b ? E(0) : mm(b, j); fam = "singular"; }
  g.label(fam); g.nontrivial(varied(mm.d)); g.note([&](auto& o) { o << fam << " " << show(mm) << " other " << show(mb); });
  LM a = lm(mm), b = lm(mb);
  MBox<M> box(mm), boxb(mb); const M& cm = box.cr(); M& m = *box;
  auto okp = [&](const LM& x) { return n <= 4 || std::is_integral_v<E> || det_ref(x) == 0 || min_pivot(x) > 1e3L * std::numeric_limits<E>::epsilon(); };
  long double d = det_ref(a), tol = det_tol<E>(a);
  if (okp(a)) {
    REQUIRE(fw::near(cml::determinant(cm), d, tol), << "determinant " << +cml::determinant(cm) << " want " << d << " tol " << tol);
    REQUIRE(fw::near(m.determinant(), d, tol), << "member determinant");
    static_assert(std::is_same_v<decltype(cml::determinant(cm)), E>);
    expect_mat(cm, mm, "the operand is unchanged");
    auto tr = cml::determinant(cml::transpose(m));
    if (okp(a.tr())) REQUIRE(fw::near(tr, d, det_tol<E>(a.tr())), << "determinant of the transpose " << +tr << " want " << d);
    long double sg = n % 2 ? -d : d;
    REQUIRE(fw::near((-m).determinant(), sg, tol), << "determinant of -m " << +(-m).determinant() << " want " << sg);
    if constexpr (mowns<M>) REQUIRE(fw::near(cml::determinant(M(m)), d, tol), << "determinant of a temporary");
    if (!std::is_integral_v<E>) {
      long double k = std::ldexp(1.0L, n);
      REQUIRE(fw::near(cml::determinant(m * E(2)), d * k, tol * k), << "determinant of 2m");
    }
    // multiplicative; swapping two rows negates
    LM ab = mul(a, b), pab = mul(absm(a), absm(b));
    if (okp(ab) && !std::is_integral_v<E>) {
      long double t = det_tol<E>(ab) + 4.0L * n * n * std::numeric_limits<E>::epsilon() * perm_ref(pab);
      auto v = cml::determinant(m * *boxb);
      REQUIRE(fw::near(v, d * det_ref(b), t), << "determinant(A*B) " << +v << " want " << d * det_ref(b) << " tol " << t);
    }
    if (n > 1) {
      int p = (int)g.below(n), q = (int)g.below(n); LM s = a; for (int j = 0; j < n; ++j) std::swap(s(p, j), s(q, j));
      MBox<M> sb(s.template as<E>()); long double w = p == q ? d : -d;
      REQUIRE(fw::near(sb.cr().determinant(), w, tol), << "determinant after a row swap " << +sb.cr().determinant() << " want " << w);
    }
  } else g.label("pivot near epsilon: not compared");
  // trace
  long double t = 0, ta = 0; for (int i = 0; i < n; ++i) t += a(i, i), ta += std::fabs(a(i, i));
  long double tt = std::is_integral_v<E> ? 0 : 2 * n * ta * std::numeric_limits<E>::epsilon();
  REQUIRE(fw::near(cml::trace(cm), t, tt), << "trace " << +cml::trace(cm) << " want " << t);
  REQUIRE(fw::near(m.trace(), t, tt)); REQUIRE(cml::trace(cml::transpose(m)) == cml::trace(m)); REQUIRE(fw::near((-m).trace(), -t, tt));
  static_assert(std::is_same_v<decltype(cml::trace(cm)), E>);
  auto tab = cml::trace(m * *boxb), tba = cml::trace(*boxb * m);
  long double w = 0, pw = 0; LM ab = mul(a, b), pab = mul(absm(a), absm(b)); for (int i = 0; i < n; ++i) w += ab(i, i), pw += pab(i, i);
  long double tw = std::is_integral_v<E> ? 0 : 4 * n * pw * std::numeric_limits<E>::epsilon();
  REQUIRE(fw::near(tab, w, tw) && fw::near(tba, w, tw), << "trace(A*B) " << +tab << " trace(B*A) " << +tba << " want " << w);
}
// integer matrices whose minors do not fit the element type, but whose determinant does: a diagonal after row and column additions
template <class M> void det_int(Gen& g) {
  using E = melem_t<M>; int n = mspec<M>::r > 0 ? mspec<M>::r : (int)g.range(5, 9); const int lim = sizeof(E) == 2 ? 150 : sizeof(E) == 4 ? 30000 : 2000000000;
  std::vector<long long> a(n * n, 0); auto A = [&](int i, int j) -> long long& { return a[i * n + j]; }; long long d = 1;
  for (int i = 0; i < n; ++i) d *= A(i, i) = g.chance(1, 12) ? 0 : g.chance(1, 3) ? (g.coin() ? 2 : -3) : g.coin() ? 1 : -1;
  for (int s = (int)g.range(2 * n, 8 * n); s--;) {
    int i = (int)g.below(n), j = (int)g.below(n); long long c = g.sym(5); bool col = g.coin(); if (i == j) continue;
    auto at = [&](int r, int k) -> long long& { return col ? A(k, r) : A(r, k); };
    if (g.chance(1, 6)) { for (int k = 0; k < n; ++k) std::swap(at(i, k), at(j, k)); d = -d; continue; }
    bool ok = true; for (int k = 0; k < n; ++k) ok = ok && std::llabs(at(i, k) + c * at(j, k)) <= lim; if (!ok) continue;
    for (int k = 0; k < n; ++k) at(i, k) += c * at(j, k);
  }
  Mod<E> mm(n, n); for (int i = 0; i < n * n; ++i) mm.d[i] = E(a[i]);
  g.note([&](auto& o) { o << n << "x" << n; for (auto x : a) o << " " << x; o << " determinant " << d; }); g.nontrivial(d != 0);
  MBox<M> box(mm);
  REQUIRE(cml::determinant(box.cr()) == E(d), << "determinant " << +cml::determinant(box.cr()) << " want " << +E(d));
  REQUIRE((*box).determinant() == E(d)); REQUIRE(cml::determinant(cml::transpose(*box)) == E(d));
  expect_mat(box.cr(), mm, "the operand is unchanged");
}
// exact matrices: the determinant is exact up to order 4, the inverse of a scaled permutation always is
template <class M> void exactm(Gen& g) {
  using E = melem_t<M>;
  int n = pick_dim<M>(g); if (n > 4 && mspec<M>::r < 0) n = 1 + n % 4;
  Mod<E> mm(n, n); fill_exact(g, mm, 5); g.nontrivial(varied(mm.d)); g.note([&](auto& o) { o << show(mm); });
  MBox<M> box(mm);
  if (n <= 4) REQUIRE((long double)box.cr().determinant() == det_ref(lm(mm)), << "exact determinant " << +box.cr().determinant() << " want " << det_ref(lm(mm)));
  REQUIRE((long double)box.cr().trace() == [&] { long double t = 0; for (int i = 0; i < n; ++i) t += mm(i, i); return t; }());
  if constexpr (std::is_floating_point_v<E>) {
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; for (int i = n - 1; i > 0; --i) std::swap(p[i], p[g.below(i + 1)]);
    Mod<E> pm(n, n), pi(n, n); long double d = 1;
    for (int i = 0; i < n; ++i) { E s = fw::pow2<E>(g); pm(i, p[i]) = s; pi(p[i], i) = E(1) / s; d *= s; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (p[i] < p[j]) d = -d;
    g.note([&](auto& o) { o << show(pm); });
    MBox<M> pb(pm);
    REQUIRE((long double)pb.cr().determinant() == d, << "determinant of a scaled permutation " << pb.cr().determinant() << " want " << d);
    expect_mat(cml::inverse(pb.cr()), pi, "inverse of a scaled permutation");
    (*pb).inverse(); expect_mat(pb.cr(), pi, "in-place inverse of a scaled permutation");
  }
}
template <class M> void inv(Gen& g) {
  using E = melem_t<M>; const long double eps = std::numeric_limits<E>::epsilon();
  int n = pick_dim<M>(g); const char* fam = "";
  Mod<E> mm = square_mat<E>(g, n, fam); LM a = lm(mm), x;
  g.note([&](auto& o) { o << fam << " " << show(mm); });
  if (!inv_ref(a, x)) { g.label("singular: skipped"); return; }
  // error bounds: cofactor formula (n <= 4) and elimination
  long double D = std::fabs(det_ref(a)), pm = perm_ref(a), nx = maxabs(x), worst = 0;
  LM tol(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    long double t = 4.0L * n * ninf(x) * ninf(a) * nx;
    if (n <= 4) t += 8 * ((n > 1 ? perm_ref(minor_of(a, j, i)) : 1) + std::fabs(x(i, j)) * pm) / D;
    tol(i, j) = t * eps; worst = std::max(worst, tol(i, j));
  }
  if (worst > 0.02L * nx) { g.label("ill-conditioned: skipped"); return; }
  g.label(fam); g.nontrivial(n > 1 || mm.d[0] != E(1));
  auto cmp = [&](const auto& r, const LM& want, const char* what, bool tr = false) {
    REQUIRE(r.rows() == n && r.cols() == n, << what << " shape");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
      REQUIRE(fw::near(r(i, j), want(i, j), tr ? tol(j, i) : tol(i, j)), << what << " element (" << i << "," << j << ") of " << show(rdm(r)) << " want " << show(want) << " tol " << tol(i, j));
  };
  MBox<M> box(mm); M& m = *box; const M& cm = box.cr();
  auto r = cml::inverse(cm); cmp(r, x, "inverse");
  static_assert(std::is_same_v<decltype(r), cml::temporary_of_t<M>>);
  expect_mat(cm, mm, "the operand is unchanged");
  cmp(cml::inverse(m), x, "inverse of an lvalue"); cmp(cml::inverse(-m), scalem(x, -1), "inverse of -m"); cmp(cml::inverse(cml::transpose(m)), x.tr(), "inverse of the transpose", true);
  if constexpr (mowns<M>) { cmp(cml::inverse(M(m)), x, "inverse of a temporary"); cmp(M(m).inverse(), x, "in-place inverse of a temporary"); }
  // both products are the identity
  LM I = ident(n); long double ta = 2 * n * (ninf(a) + ninf(a.tr())) * worst + 4 * n * n * eps * ninf(a) * ninf(x);
  expect_mat_near(r * m, I, ta, "inverse(M)*M"); expect_mat_near(m * r, I, ta, "M*inverse(M)");
  // in place
  M* p = &m.inverse(); REQUIRE(p == &m, << "inverse() returns its object"); cmp(cm, x, "in-place inverse");
  if constexpr (!mowns<M>) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    REQUIRE(box.buf[is_row_major<M> ? i * n + j : j * n + i] == cm(i, j), << "in-place inverse of an external matrix writes its array");
}
// empty and non-square run-time sizes are rejected
template <class M> void reject(Gen& g) {
  using E = melem_t<M>; int r = (int)g.range(0, 5), c = (int)g.range(0, 5); if (g.chance(1, 6)) r = c = 0;
  Mod<E> mm(r, c); for (auto& e : mm.d) e = fw::exact<E>(g); MBox<M> box(mm); M& m = *box; g.nontrivial(r != c); g.note([&](auto& o) { o << r << "x" << c; });
  if (r != c) {
    REQUIRE_THROWS(cml::non_square_matrix_error, m.determinant()); REQUIRE_THROWS(cml::non_square_matrix_error, cml::determinant(m)); REQUIRE_THROWS(cml::non_square_matrix_error, m.trace());
    REQUIRE_THROWS(cml::non_square_matrix_error, cml::trace(-m)); REQUIRE_THROWS(cml::non_square_matrix_error, cml::inverse(m)); REQUIRE_THROWS(cml::non_square_matrix_error, m.inverse());
    expect_mat(m, mm, "unchanged after a rejected in-place inverse");
  } else if (r == 0) {
    REQUIRE_THROWS(cml::minimum_matrix_size_error, m.determinant()); REQUIRE_THROWS(cml::minimum_matrix_size_error, cml::trace(m));
  }
}
