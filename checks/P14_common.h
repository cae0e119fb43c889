#pragma once
#include "quat.h"
// P14: quaternion algebra.
[[gnu::noinline]] inline void scribble() { volatile char b[4096]; for (auto& c : b) c = 0x5a; }
template <class A, class B> using pe = decltype(qelem_t<A>() * qelem_t<B>());

// component-wise operations, exact
template <class Q, class R> void linear(Gen& g) {
  using E = qelem_t<Q>; using F = qelem_t<R>;
  H a = exact_h<E>(g), b = exact_h<F>(g); E s = fw::exact<E>(g, 9), d = fw::pow2<E>(g);
  g.nontrivial(variedq(a) && variedq(b)); g.note([&](auto& o) { o << show(a) << " " << show(b) << " s=" << +s << " d=" << +d; });
  Q p = mkq<Q>(a); R q = mkq<R>(b); const Q& cp = p; const R& cq = q;
  static_assert(std::is_same_v<std::decay_t<decltype((p + q)[0])>, decltype(E() + F())>, "sum promotes");
  expect_q(p + q, a + b, "p+q"); expect_q(cp - cq, a - b, "p-q"); expect_q(q - p, b - a, "q-p"); expect_q(-p, -a, "-p"); expect_q(+cp, a, "+p");
  expect_q(p * s, a * s, "p*s"); expect_q(s * cp, a * s, "s*p");
  if constexpr (std::is_floating_point_v<E>) { expect_q(p / d, a * (1.0L / d), "p/d"); expect_q((p - q) / d, (a - b) * (1.0L / d), "(p-q)/d"); }
  expect_q(p + q - p, b, "p+q-p"); expect_q(-(p - q) * s, (b - a) * s, "-(p-q)*s"); expect_q(s * (p + p) - q, a * (2 * s) - b, "s*(p+p)-q");
  // stored nodes own their temporaries
  { auto n = Q(p) + R(q); scribble(); expect_q(n, a + b, "stored Q+R"); }
  { auto n = -Q(p); scribble(); expect_q(n, -a, "stored -Q"); }
  { auto n = (s + E(0)) * Q(p); scribble(); expect_q(n, a * s, "stored s*Q"); }
  { auto n = -(Q(p) - q) * (s + E(0)); scribble(); expect_q(n, (b - a) * s, "stored -(Q-q)*s"); auto n2 = n; auto n3 = std::move(n2); expect_q(n3, (b - a) * s, "moved node"); }
  { E t = s; auto n = t * p; t = E(0); p[0] = p[0]; }
  // compound
  { Q x(p); Q& r = (x += q); REQUIRE(&r == &x); if constexpr (std::is_floating_point_v<E> || !std::is_floating_point_v<F>) { expect_q(x, a + b, "p+=q"); x -= q; x -= q; expect_q(x, a - b, "p-=q"); } }
  { Q x(p); REQUIRE(&(x *= s) == &x); expect_q(x, a * s, "p*=s"); }
  { Q x(p); x += x; expect_q(x, a + a, "p+=p"); x -= x; expect_q(x, a - a, "p-=p"); }
  { Q x(p); x += -x; expect_q(x, H(), "p+=-p"); }
  if constexpr (std::is_floating_point_v<E>) {
    Q x(p); REQUIRE(&(x /= d) == &x); expect_q(x, a * (1.0L / d), "p/=d");
    int i = (int)g.below(4); Q y(p); y *= y[i]; expect_q(y, a * (long double)p[i], "scale by own element");
    y = p; y[i] = d; H yd = rdq(y); y /= y[i]; expect_q(y, yd * (1.0L / d), "divide by own element");
    expect_q(Q(p) += p, a + a, "temporary += "); expect_q(Q(p) -= q, rdq(Q(mkq<Q>(a - b))), "temporary -="); expect_q(Q(p) *= s, a * s, "temporary *="); expect_q(Q(p) /= d, a * (1.0L / d), "temporary /=");
  }
  expect_q(cq, b, "the right operand is unchanged");
}
template <class Q, class R> void product(Gen& g) {
  using E = qelem_t<Q>; using F = qelem_t<R>;
  H a = exact_h<E>(g, 6), b = exact_h<F>(g, 6), c = exact_h<E>(g, 6); E s = fw::exact<E>(g, 5);
  g.nontrivial(variedq(a) && variedq(b)); g.note([&](auto& o) { o << show(a) << " " << show(b) << " " << show(c) << " s=" << +s; });
  Q p = mkq<Q>(a), r = mkq<Q>(c); R q = mkq<R>(b); const Q& cp = p; const R& cq = q;
  auto M = [](H x, H y) { return qmul<Q>(x, y); };
  auto pq = cp * cq; using P = decltype(pq);
  static_assert(std::is_same_v<qelem_t<P>, pe<Q, R>>); static_assert(std::is_same_v<typename P::order_type, typename Q::order_type> && std::is_same_v<typename P::cross_type, typename Q::cross_type>, "conventions kept");
  expect_q(pq, M(a, b), "p*q"); expect_q(q * p, M(b, a), "q*p"); expect_q(p * p, M(a, a), "p*p"); expect_q(Q(p) * R(q), M(a, b), "product of temporaries"); expect_q(Q(p) * q, M(a, b), "Q*q"); expect_q(p * R(q), M(a, b), "p*R");
  expect_q((-p) * q, -M(a, b), "(-p)*q"); expect_q(p * (q * F(2)), M(a, b) * 2, "p*(q*2)"); expect_q((p + r) * q, M(a + c, b), "(p+r)*q"); expect_q(p * conjugate(q), M(a, conj(b)), "p*conjugate(q)");
  expect_q(conjugate(p) * (q - p), M(conj(a), b - a), "conjugate(p)*(q-p)"); expect_q(p * q * r, M(M(a, b), c), "p*q*r"); expect_q(p * (q * r), M(M(a, b), c), "associative"); expect_q(p * (q + r), M(a, b) + M(a, c), "distributive"); expect_q(p * q + p * r, M(a, b + c), "p*q+p*r");
  expect_q(conjugate(p * q), M(conj(b), conj(a)), "conjugate(p*q)"); expect_q(conjugate(q) * conjugate(p), conj(M(a, b)), "conjugate(q)*conjugate(p)");
  expect_q((s * p) * q, M(a, b) * s, "(s*p)*q");
  if constexpr (std::is_integral_v<pe<Q, R>>) REQUIRE((long double)(p * q).norm() == norm2(a) * norm2(b), << "|pq|^2 = |p|^2 |q|^2");
  if constexpr (std::is_same_v<E, double>) { H ai = {std::trunc(a.w), std::trunc(a.x), std::trunc(a.y), std::trunc(a.z)}, bi = {std::trunc(b.w), std::trunc(b.x), std::trunc(b.y), std::trunc(b.z)}; REQUIRE((long double)(mkq<Q>(ai) * mkq<R>(bi)).norm() == norm2(ai) * norm2(bi), << "|pq|^2"); }
  { Q x(p); REQUIRE(&(x *= r) == &x); expect_q(x, M(a, c), "p*=r"); }
  { Q x(p); x *= x; expect_q(x, M(a, a), "p*=p"); }
  { Q x(p); x *= conjugate(x); expect_q(x, M(a, conj(a)), "p*=conjugate(p)"); }
  { Q x(p); x = r * x; expect_q(x, M(c, a), "p=r*p"); }
  if constexpr (std::is_floating_point_v<E> || std::is_same_v<E, F>) { Q x(p); x *= q; expect_q(x, rdq(mkq<Q>(M(a, b))), "p*=q"); expect_q(Q(p) *= q, rdq(mkq<Q>(M(a, b))), "temporary *= q"); }
  { auto v = pq; p[0] = E(55); q[1] = F(44); expect_q(v, M(a, b), "the product is a value"); }
}
template <class Q> void parts(Gen& g) {
  using E = qelem_t<Q>; H a = exact_h<E>(g), b = exact_h<E>(g); g.nontrivial(variedq(a)); g.note([&](auto& o) { o << show(a) << " " << show(b); });
  Q p = mkq<Q>(a), q = mkq<Q>(b); const Q& cp = p;
  std::vector<E> im{(E)a.x, (E)a.y, (E)a.z}, im2{(E)-a.x, (E)-a.y, (E)-a.z};
  REQUIRE(cp.w() == a.w && cp.x() == a.x && cp.y() == a.y && cp.z() == a.z && p.w() == a.w && p.x() == a.x && p.y() == a.y && p.z() == a.z, << "w/x/y/z");
  REQUIRE(cp.real() == a.w && cml::real(p) == a.w && cml::real(-p) == -a.w && (p - q).real() == a.w - b.w, << "real");
  REQUIRE((-p).w() == -a.w && (-p).x() == -a.x && (-p).y() == -a.y && (-p).z() == -a.z, << "components of -p");
  expect_vec(cp.imaginary(), im, "imaginary"); expect_vec(cml::imaginary(p), im, "free imaginary"); expect_vec(cml::imaginary(-p), im2, "imaginary(-p)"); expect_vec((-p).imaginary(), im2, "(-p).imaginary");
  { auto n = Q(p).imaginary(); scribble(); expect_vec(n, im, "stored imaginary of a temporary"); } { auto n = cml::imaginary(Q(p)); scribble(); expect_vec(n, im, "stored imaginary(temporary)"); } { auto n = cml::imaginary(-Q(p)); scribble(); expect_vec(n, im2, "stored imaginary(-temporary)"); }
  { vector<E, fixed<3>> v = p.imaginary(); expect_vec(v, im, "vector = imaginary"); auto c = cml::cross(p.imaginary(), q.imaginary()); E w0 = (E)(a.y * b.z - a.z * b.y); REQUIRE(c[0] == w0, << "cross of imaginary parts"); }
  expect_q(conjugate(p), conj(a), "conjugate"); expect_q(cp.conjugate(), conj(a), "member conjugate"); expect_q(conjugate(-p), -conj(a), "conjugate(-p)"); expect_q(conjugate(conjugate(p)), a, "conjugate twice"); expect_q((p + q).conjugate(), conj(a + b), "(p+q).conjugate");
  { auto n = conjugate(Q(p)); scribble(); expect_q(n, conj(a), "stored conjugate of a temporary"); } { auto n = conjugate(Q(p) + Q(q)); scribble(); expect_q(n, conj(a + b), "stored conjugate(P+Q)"); auto n2 = n; expect_q(n2, conj(a + b), "copied node"); }
  { Q x(p); REQUIRE(&x.conjugate() == &x); expect_q(x, conj(a), "in-place conjugate"); expect_q(Q(p).conjugate(), conj(a), "in-place conjugate of a temporary"); x = conjugate(x); expect_q(x, a, "x=conjugate(x)"); }
  REQUIRE(cml::dot(p, q) == dot(a, b) && cml::dot(-p, q + q) == -2 * dot(a, b), << "dot"); REQUIRE(cp.length_squared() == norm2(a) && cml::length_squared(p) == norm2(a) && cml::norm(p) == norm2(a) && cp.norm() == norm2(a) && (p - q).norm() == norm2(a - b), << "norm"); REQUIRE(cml::dot(p, p) == cp.norm());
  { Q x(p); REQUIRE(&x.identity() == &x); expect_q(x, {1, 0, 0, 0}, "identity"); x = p; REQUIRE(&x.zero() == &x); expect_q(x, H(), "zero"); expect_q(Q(p).identity(), {1, 0, 0, 0}, "identity of a temporary"); expect_q(Q(p).zero(), H(), "zero of a temporary"); expect_q(cml::identity(p), {1, 0, 0, 0}, "identity(p)"); expect_q(cml::identity(-p), {1, 0, 0, 0}, "identity(-p)"); expect_q(p * cml::identity(p), a, "p*1"); expect_q(cml::identity(p) * p, a, "1*p"); }
  expect_q(cp, a, "unchanged");
}
template <class Q> void inexact(Gen& g) {
  using E = qelem_t<Q>; const long double eps = std::numeric_limits<E>::epsilon();
  H a = nz_h<E>(g, 8), b = nz_h<E>(g, 8); if (g.chance(1, 4)) { int k = (int)g.sym(sizeof(E) == 4 ? 12 : 60); a = a * std::ldexp(1.0L, k); }
  else if (g.chance(1, 4)) a = a * (fw::near_one(g, sizeof(E) == 4 ? 20 : 44) / abs(a));   // nearly a versor
  Q p = mkq<Q>(a), q = mkq<Q>(b); a = rdq(p); b = rdq(q); const Q& cp = p; g.nontrivial(variedq(a)); g.note([&](auto& o) { o << show(a) << " " << show(b); });
  long double l = abs(a), n = norm2(a); H in = conj(a) * (1 / n), un = a * (1 / l); const H one{1, 0, 0, 0};
  REQUIRE(fw::near(cp.length(), l, 4 * eps * l) && fw::near(cml::length(p), l, 4 * eps * l) && fw::near((-p).length(), l, 4 * eps * l), << "length " << cp.length() << " want " << l);
  REQUIRE(fw::near(cp.norm(), n, 4 * eps * n) && fw::near(cml::length_squared(p), n, 4 * eps * n), << "norm");
  long double lq = abs(b), tpq = 12 * eps * l * lq; REQUIRE(fw::near((p * q).length(), l * lq, tpq), << "|pq| " << (p * q).length() << " want " << l * lq);
  expect_q_near(p * q, qmul<Q>(a, b), tpq, "p*q"); REQUIRE(fw::near(cml::dot(p, q), dot(a, b), 6 * eps * l * lq), << "dot");
  long double ti = 8 * eps / l; 
  expect_q_near(inverse(p), in, ti, "inverse"); expect_q_near(cp.inverse(), in, ti, "member inverse"); expect_q_near(inverse(-p), -in, ti, "inverse(-p)"); expect_q_near(inverse(Q(p)), in, ti, "inverse of a temporary"); expect_q_near(Q(p).inverse(), in, ti, "in-place inverse of a temporary"); expect_q_near(inverse(inverse(p)), a, 20 * eps * l, "inverse twice");
  expect_q_near((-p).inverse(), -in, ti, "(-p).inverse()"); expect_q_near((p * q).inverse(), qmul<Q>(conj(b) * (1 / norm2(b)), in), 40 * eps / l / lq, "(p*q).inverse()"); { auto m = (-Q(p)).inverse(); scribble(); expect_q_near(m, -in, ti, "stored (-Q).inverse()"); auto m2 = (-Q(p)).conjugate(); scribble(); expect_q(m2, -conj(a), "stored (-Q).conjugate()"); const Q r = (p + q).conjugate(); expect_q_near(r, conj(a + b), 2 * eps * (l + lq), "(p+q).conjugate()"); }
  { auto m = inverse(-Q(p)); scribble(); expect_q_near(m, -in, ti, "stored inverse(-Q)"); auto m2 = m; auto m3 = std::move(m2); expect_q_near(m3, -in, ti, "moved inverse node"); } { Q x(p); REQUIRE(&x.inverse() == &x); expect_q_near(x, in, ti, "in-place inverse"); }
  expect_q_near(p * inverse(p), one, 16 * eps, "p*inverse(p)"); expect_q_near(inverse(p) * p, one, 16 * eps, "inverse(p)*p"); expect_q_near(inverse(p * q), qmul<Q>(conj(b) * (1 / norm2(b)), in), 40 * eps / l / lq, "inverse(p*q)"); expect_q_near(p * inverse(p) * q, b, 40 * eps * lq, "p/p*q");
  { Q x(p); x *= inverse(x); expect_q_near(x, one, 16 * eps, "p*=inverse(p)"); } { Q x(p); x = inverse(x); expect_q_near(x, in, ti, "x=inverse(x)"); }
  long double tu = 6 * eps;
  expect_q_near(normalize(p), un, tu, "normalize"); expect_q_near(cp.normalize(), un, tu, "const normalize"); expect_q_near(normalize(-p), -un, tu, "normalize(-p)"); expect_q_near((-p).normalize(), -un, tu, "(-p).normalize()"); expect_q_near((p * E(2)).normalize(), un, tu, "(2p).normalize()"); expect_q_near(Q(p).normalize(), un, tu, "normalize of a temporary");
  { auto m = (-Q(p)).normalize(); scribble(); expect_q_near(m, -un, tu, "stored normalize node"); } { Q x(p); REQUIRE(&x.normalize() == &x); expect_q_near(x, un, tu, "in-place normalize"); REQUIRE(fw::near(x.length(), 1, 6 * eps)); } { Q x(p); x = normalize(x); expect_q_near(x, un, tu, "x=normalize(x)"); }
  expect_q(cp, a, "unchanged");
}
template <class Q> void explog(Gen& g) {
  using E = qelem_t<Q>; const long double eps = std::numeric_limits<E>::epsilon(), PI = 3.14159265358979323846264338327950288L;
  // exp
  H a = nz_h<E>(g, 2); if (g.chance(1, 4)) { long double k = std::ldexp(1.0L, -(int)g.below(30)); a.x *= k; a.y *= k; a.z *= k; } if (g.chance(1, 8)) a.x = a.y = a.z = 0;
  Q p = mkq<Q>(a); a = rdq(p); g.nontrivial(variedq(a));
  long double v = std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z); H e = qexp(a); long double te = 8 * eps * std::exp(a.w) * (2 + std::fabs(a.w) + v);
  g.note([&](auto& o) { o << "exp " << show(a); });
  expect_q_near(cml::exp(p), e, te, "exp"); expect_q_near(cml::exp(-p), qexp(-a), 8 * eps * std::exp(-a.w) * (2 + std::fabs(a.w) + v), "exp(-p)"); expect_q_near(Q(p).exp(), e, te, "exp of a temporary"); { Q x(p); REQUIRE(&x.exp() == &x); expect_q_near(x, e, te, "in-place exp"); }
  // log; the angle is computed from its cosine, so its error is eps/sin(angle), at most sqrt(eps)
  H b = nz_h<E>(g, 4); if (g.chance(1, 4)) { long double k = std::ldexp(1.0L, -(int)g.below(30)); b.x *= k; b.y *= k; b.z *= k; if (norm2(b) < 1e-3L) b.w = 1; }
  bool real = g.chance(1, 8); if (real) b = {std::max(std::fabs(b.w), .25L), 0, 0, 0};
  Q q = mkq<Q>(b); b = rdq(q); v = std::sqrt(b.x * b.x + b.y * b.y + b.z * b.z); long double l = abs(b);
  if (v == 0 && b.w < 0) { g.label("negative real: no unique logarithm"); return; }
  g.label(real ? "real quaternion" : "general"); g.note([&](auto& o) { o << "log " << show(b); });
  long double sn = v / l, da = sn > 0 ? std::min(4 * std::sqrt(eps), 8 * eps / sn) : 0, tl = da + 8 * eps * (4 + std::fabs(std::log(l)));
  H lg = qlog(b); expect_q_near(cml::log(q), lg, tl, "log"); expect_q_near(Q(q).log(), lg, tl, "log of a temporary"); { Q x(q); REQUIRE(&x.log() == &x); expect_q_near(x, lg, tl, "in-place log"); }
  expect_q_near(cml::exp(cml::log(q)), b, 4 * l * (tl + 8 * eps), "exp(log(q))");
  if (v = std::sqrt(a.x * a.x + a.y * a.y + a.z * a.z); v < PI - .01L) {
    long double s = std::sin(v), d2 = v > 0 ? std::min(4 * std::sqrt(eps), 8 * eps / std::max(s, 1e-30L)) : 0;
    if (v > 3) d2 = 64 * eps / (s * s) + d2;
    expect_q_near(cml::log(cml::exp(p)), a, 4 * d2 + 32 * eps * (4 + std::fabs(a.w)), "log(exp(p))");
  }
  // unit quaternion: log is pure imaginary with half the angle
  expect_q(cml::exp(mkq<Q>(H())), {1, 0, 0, 0}, "exp(0)"); expect_q(cml::log(mkq<Q>({1, 0, 0, 0})), H(), "log(1)");
}
