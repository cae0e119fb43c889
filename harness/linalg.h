// Reference linear algebra in long double and structured matrix generators.
#pragma once
#include "boxes.h"
namespace bx {
inline LM ident(int n) { LM m(n, n); for (int i = 0; i < n; ++i) m(i, i) = 1; return m; }
inline LM absm(LM a) { for (auto& e : a.d) e = std::fabs(e); return a; }
inline LM addm(LM a, const LM& b) { for (size_t i = 0; i < a.d.size(); ++i) a.d[i] += b.d[i]; return a; }
inline LM scalem(LM a, long double s) { for (auto& x : a.d) x *= s; return a; }
inline long double ninf(const LM& a) {
  long double r = 0; for (int i = 0; i < a.r; ++i) { long double s = 0; for (int j = 0; j < a.c; ++j) s += std::fabs(a(i, j)); r = std::max(r, s); } return r;
}
inline long double maxabs(const LM& a) { long double r = 0; for (auto e : a.d) r = std::max(r, std::fabs(e)); return r; }
template <class T> LM lm(const Mod<T>& m) { return m.template as<long double>(); }
template <class X> LM rdl(const X& m) { return rdm(m).template as<long double>(); }
// sum over permutations of (signed ? sgn : 1) * products: determinant / permanent by subset DP
inline long double permsum(const LM& a, bool sgn) {
  int n = a.r;
  std::vector<long double> f((size_t)1 << n, 0.0L); f[0] = 1;
  for (unsigned s = 0; s < (1u << n); ++s) {
    if (f[s] == 0) continue;
    int row = __builtin_popcount(s); if (row >= n) continue;
    for (int j = 0; j < n; ++j) if (!(s >> j & 1)) {
      bool odd = sgn && (__builtin_popcount(s >> (j + 1)) & 1);
      f[s | 1u << j] += (odd ? -f[s] : f[s]) * a(row, j);
    }
  }
  return f[((size_t)1 << n) - 1];
}
inline long double det_ref(const LM& a) { return permsum(a, true); }
inline long double perm_ref(const LM& a) { return permsum(absm(a), false); }
inline LM minor_of(const LM& a, int i, int j) {
  LM m(a.r - 1, a.c - 1);
  for (int p = 0, x = 0; p < a.r; ++p) if (p != i) { for (int q = 0, y = 0; q < a.c; ++q) if (q != j) m(x, y++) = a(p, q); ++x; }
  return m;
}
// Gauss-Jordan with partial pivoting plus one Newton step; false if singular
inline bool inv_ref(const LM& a, LM& x) {
  int n = a.r; LM w = a; x = ident(n);
  for (int k = 0; k < n; ++k) {
    int p = k; for (int i = k; i < n; ++i) if (std::fabs(w(i, k)) > std::fabs(w(p, k))) p = i;
    if (w(p, k) == 0) return false;
    for (int j = 0; j < n; ++j) { std::swap(w(p, j), w(k, j)); std::swap(x(p, j), x(k, j)); }
    long double d = w(k, k);
    for (int j = 0; j < n; ++j) { w(k, j) /= d; x(k, j) /= d; }
    for (int i = 0; i < n; ++i) if (i != k) { long double f = w(i, k); for (int j = 0; j < n; ++j) { w(i, j) -= f * w(k, j); x(i, j) -= f * x(k, j); } }
  }
  LM r = mul(a, x); for (auto& e : r.d) e = -e; for (int i = 0; i < n; ++i) r(i, i) += 2;
  x = mul(x, r);
  return true;
}
// random orthogonal matrix (product of Givens rotations and a permutation)
inline LM orth(Gen& g, int n) {
  LM q = ident(n);
  for (int s = 0, m = (int)g.range(1, 2 * n); s < m && n > 1; ++s) {
    int i = (int)g.below(n), j = (int)g.below(n); if (i == j) { for (int k = 0; k < n; ++k) q(i, k) = -q(i, k); continue; }
    long double t = g.symreal(3.2), c = std::cos(t), d = std::sin(t);
    for (int k = 0; k < n; ++k) { auto a = q(i, k), b = q(j, k); q(i, k) = c * a - d * b; q(j, k) = d * a + c * b; }
  }
  return q;
}
// square test matrices; label says which family
template <class E> Mod<E> square_mat(Gen& g, int n, const char*& fam) {
  LM m(n, n);
  auto perm = [&] { std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; for (int i = n - 1; i > 0; --i) std::swap(p[i], p[g.below(i + 1)]); return p; };
  switch (g.below(16)) {
    case 8: case 0: case 1: fam = "random"; for (auto& e : m.d) e = fw::scaled<E>(g, 8); break;
    case 2: { fam = "scaled permutation"; auto p = perm(); for (int i = 0; i < n; ++i) m(i, p[i]) = fw::pow2<E>(g); break; }
    case 3: {
      fam = "unimodular"; LM l = ident(n), u = ident(n);
      for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { l(i, j) = g.sym(2); u(j, i) = g.sym(2); }
      LM a = mul(l, u); auto p = perm(); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(p[i], j) = a(i, j); break;
    }
    case 4: fam = "orthogonal"; m = orth(g, n); break;
    case 5: { fam = "row/column scaled"; for (auto& e : m.d) e = g.symreal(2);
      for (int i = 0; i < n; ++i) { int a = (int)g.sym(5), b = (int)g.sym(5); for (int j = 0; j < n; ++j) { m(i, j) = std::ldexp(m(i, j), a); m(j, i) = std::ldexp(m(j, i), b); } } break; }
    case 6: { fam = "sparse"; auto p = perm(); for (int i = 0; i < n; ++i) { m(i, p[i]) = fw::exact_nonzero<E>(g, 6); for (int j = 0; j < n; ++j) if (g.chance(1, 4)) m(i, j) = fw::exact<E>(g, 6); } break; }
    case 7: { fam = "structured"; int k = (int)g.below(5);   // special shapes a fast path could single out
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
        bool on = k == 0 ? i == j : k == 1 ? j >= i : k == 2 ? j <= i : k == 3 ? std::abs(i - j) <= 1 : i / 2 == j / 2;
        if (on) m(i, j) = i == j ? fw::exact_nonzero<E>(g, 6) : fw::exact<E>(g, 6);
      } break; }
    case 9: { fam = "affine"; bool row = g.coin(); for (auto& e : m.d) e = fw::scaled<E>(g, 4);   // last row or column 0 ... 0 w
      for (int i = 0; i + 1 < n; ++i) (row ? m(n - 1, i) : m(i, n - 1)) = 0; m(n - 1, n - 1) = g.coin() ? E(1) : fw::exact_nonzero<E>(g, 5); break; }
    case 10: { fam = "near identity"; m = ident(n); int k = (int)g.range(3, 20); for (auto& e : m.d) if (g.coin()) e += std::ldexp(g.symreal(1), -k); break; }
    case 11: { fam = "near orthogonal"; m = orth(g, n); long double f = g.coin() ? fw::near_one(g, 20) : g.real(.1, 9); for (auto& e : m.d) e *= f;
      if (g.coin()) { int i = (int)g.below(n), j = (int)g.below(n); m(i, j) += std::ldexp(g.symreal(1), -(int)g.range(2, 16)); } break; }
    case 12: { fam = "symmetric"; int sg = g.coin() ? 1 : -1; for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) { m(i, j) = fw::scaled<E>(g, 6); m(j, i) = i == j ? m(i, j) : sg * m(i, j); }
      if (n > 1 && g.coin()) m(0, n - 1) += std::ldexp(g.symreal(1), -(int)g.range(0, 16)); break; }
    case 13: { fam = "column scaled"; for (auto& e : m.d) e = g.symreal(2); int left = sizeof(E) == 4 ? (n > 4 ? 12 : 26) : (n > 4 ? 60 : 120);   // in all, so that no determinant overflows
      for (int j = 0; j < n; ++j) { int b = (int)g.below(left + 1); if (g.coin()) left -= b; else b = 0; if (b) for (int i = 0; i < n; ++i) m(i, j) = std::ldexp(m(i, j), b); } break; }
    case 14: { fam = "arrow"; for (int i = 0; i < n; ++i) { m(i, i) = fw::exact_nonzero<E>(g, 6); int t = (int)g.below(n); m(t, i) = m(t, i) + fw::exact<E>(g, 3); } break; }
    default: fam = "small grid"; for (auto& e : m.d) e = fw::exact<E>(g, 3);
  }
  if (std::is_integral_v<E>) for (auto& e : m.d) e = std::fmod(std::trunc(e), 32.0L);
  return m.template as<E>();
}
}  // namespace bx
using namespace bx;
