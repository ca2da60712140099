#include "geo.hpp"
#include <geometrix/algebra/vector_projection.hpp>
#include <geometrix/arithmetic/vector/bisect.hpp>
#include <geometrix/arithmetic/vector/lerp.hpp>
#include <geometrix/arithmetic/vector/normalize_at_index.hpp>
#include <geometrix/numeric/boost_units_quantity.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/cmath.hpp>
using namespace vt;
using namespace geometrix;
static double val(Rng& r) { switch (r.in(0, 6)) { case 0: return 0; case 1: return r.in(-9, 9); case 2: return r.real(-1, 1); case 3: return r.in(-1000, 1000) * 0.25; case 4: return r.real(-1e5, 1e5); case 5: return std::ldexp(r.real(-1, 1), (int)r.in(-30, 30)); default: return -(double)r.in(1, 3); } }
template <class T, std::size_t N> static T mk(Rng& r) { T t; for (std::size_t i = 0; i < N; ++i) t[i] = val(r); return t; }
static double nz(Rng& r) { double v; do v = val(r); while (std::fabs(v) < 1e-6); return v; }
#define EQ(GOT, WANT, SC, WHAT) do { double g_ = (GOT), w_ = (double)(WANT); REQ(std::fabs(g_ - w_) <= 1e-11 * (SC) + 1e-300, WHAT << ": got " << g_ << " want " << w_); } while (0)
template <std::size_t N> struct W { ld v[N]; ld sc = 0; };   // reference values with an error scale
template <std::size_t N, class T> static void same(const T& got, const W<N>& w, const char* what) { for (std::size_t i = 0; i < N; ++i) EQ(got[i], w.v[i], (double)(w.sc + fabsl(w.v[i])), what << " component " << i); }

template <std::size_t N> static void shapes(vt::Case& c) {
    using V = geometrix::vector<double, N>; using P = geometrix::point<double, N>;
    Rng& r = c.rng; V a = mk<V, N>(r), b = mk<V, N>(r), d = mk<V, N>(r); P p = mk<P, N>(r), q = mk<P, N>(r); double s = val(r), t = nz(r);
    c.in("a", a); c.in("b", b); c.in("d", d); c.in("p", p); c.in("q", q); c.in("s", s); c.in("t", t);
    ld M = 0; for (std::size_t i = 0; i < N; ++i) for (double x : {a[i], b[i], d[i], p[i], q[i]}) M = std::max(M, fabsl((ld)x));
    ld S = (M + 1) * (1 + fabsl((ld)s) + fabsl((ld)t) + 1 / fabsl((ld)t)) * (1 + fabsl((ld)s)) * (1 + fabsl((ld)t));
    auto ref = [&](std::function<ld(std::size_t)> f) { W<N> w; for (std::size_t i = 0; i < N; ++i) w.v[i] = f(i); w.sc = S; return w; };
#define A (ld) a[i]
#define B (ld) b[i]
#define D (ld) d[i]
#define PP (ld) p[i]
#define QQ (ld) q[i]
#define SHAPE(TYPE, EXPR, REF) do { auto w_ = ref([&](std::size_t i) -> ld { return REF; }); \
        TYPE o1_; o1_ <<= EXPR; same<N>(o1_, w_, #EXPR " via <<="); TYPE o2_ = EXPR; same<N>(o2_, w_, #EXPR " via construction"); count("vector expressions evaluated", 2); } while (0)
    SHAPE(V, a + b, A + B); SHAPE(V, a - b, A - B); SHAPE(V, -a, -A); SHAPE(V, s * a, (ld)s * A); SHAPE(V, a * s, (ld)s * A); SHAPE(V, a / t, A / t);
    SHAPE(V, a + b + d, A + B + D); SHAPE(V, a - b - d, A - B - D); SHAPE(V, a - (b - d), A - (B - D)); SHAPE(V, -(a + b), -(A + B)); SHAPE(V, -a - -b, -A + B);
    SHAPE(V, s * (a + b) - d / t, (ld)s * (A + B) - D / t); SHAPE(V, (a - b) * s + (d - a) * t, (A - B) * s + (D - A) * t); SHAPE(V, t * (s * a), (ld)t * s * A);
    SHAPE(V, q - p, QQ - PP); SHAPE(V, (q - p) + (p - q), QQ - PP + PP - QQ); SHAPE(V, (q - p) / t + a, (QQ - PP) / t + A);
    SHAPE(P, p + a, PP + A); SHAPE(P, p - a, PP - A); SHAPE(P, p + s * (q - p), PP + (ld)s * (QQ - PP)); SHAPE(P, p + (a - b) + d, PP + A - B + D); SHAPE(P, p + a / t - s * b, PP + A / t - (ld)s * B);
    
    { auto e1 = a + b; auto e2 = q - p; auto e3 = p + a; V o1; o1 <<= e1; V o2; o2 <<= e2; P o3; o3 <<= e3; same<N>(o1, ref([&](std::size_t i) { return A + B; }), "stored a + b"); same<N>(o2, ref([&](std::size_t i) { return QQ - PP; }), "stored q - p"); same<N>(o3, ref([&](std::size_t i) { return PP + A; }), "stored p + a"); }
    // intermediate results stored in containers give the same
    { V u = a + b; V v = u * s; V w; w <<= v - d / t; same<N>(w, ref([&](std::size_t i) { return (A + B) * s - D / t; }), "stored intermediates"); }
    // in place assignment where the target occurs in the expression
    { V u = a; u <<= u + b; same<N>(u, ref([&](std::size_t i) { return A + B; }), "u <<= u + b"); u = a; u <<= b - u; same<N>(u, ref([&](std::size_t i) { return B - A; }), "u <<= b - u"); u = a; u = s * u + u; same<N>(u, ref([&](std::size_t i) { return (ld)s * A + A; }), "u = s * u + u"); P x = p; x <<= x + a; same<N>(x, ref([&](std::size_t i) { return PP + A; }), "x <<= x + a"); }
    // scalars
    ld dt = 0, ds = 0, m2 = 0, d2 = 0; for (std::size_t i = 0; i < N; ++i) { dt += A * B; ds += fabsl(A * B); m2 += A * A; ld z = QQ - PP; d2 += z * z; }
    EQ(dot_product(a, b), dt, (double)ds, "dot_product"); double o; o <<= a * b; EQ(o, dt, (double)ds, "a * b"); o <<= b * a; EQ(o, dt, (double)ds, "b * a");
    ld dt3 = 0, ds3 = 0; for (std::size_t i = 0; i < N; ++i) { ld z = (A - B) * (D + A); dt3 += z; ds3 += fabsl(z) + fabsl(A * D) + fabsl(B * D) + A * A + fabsl(A * B); }
    o <<= (a - b) * (d + a); EQ(o, dt3, (double)ds3, "(a-b)*(d+a)"); EQ(dot_product(a - b, d + a), dt3, (double)ds3, "dot_product of expressions");
    EQ(magnitude_sqrd(a), m2, (double)m2, "magnitude_sqrd"); EQ(magnitude(a), std::sqrt(m2), (double)std::sqrt(m2), "magnitude"); EQ(magnitude(q - p), std::sqrt(d2), (double)(std::sqrt(d2) + M), "magnitude(q-p)"); EQ(magnitude_sqrd(q - p), d2, (double)(d2 + 1e-3L * M * M), "magnitude_sqrd(q-p)");
    o <<= mag(a); EQ(o, std::sqrt(m2), (double)std::sqrt(m2), "mag(a)");
    if (m2 > 1e-12L) { V n = normalize(a); ld m = std::sqrt(m2); same<N>(n, [&] { W<N> w; for (std::size_t i = 0; i < N; ++i) w.v[i] = A / m; w.sc = 1; return w; }(), "normalize"); V n2 = norm(a); for (std::size_t i = 0; i < N; ++i) EQ(n2[i], n[i], 1, "norm(a)"); V n3 = norm(a) * s; for (std::size_t i = 0; i < N; ++i) EQ(n3[i], A / m * s, (double)fabsl(s), "norm(a)*s");
        EQ(normal_at_index<0>(a), (ld)a[0] / m, 1, "normal_at_index<0>"); EQ(normal_at_index<N - 1>(a), (ld)a[N - 1] / m, 1, "normal_at_index<N-1>");
        EQ(scalar_projection(b, n), dt / m, (double)(ds / m), "scalar_projection");
        V pr = vector_projection(b, a); for (std::size_t i = 0; i < N; ++i) EQ(pr[i], dt / m2 * A, (double)(ds / m2 * m), "vector_projection component " << i); }
    bool nzall = true; for (std::size_t i = 0; i < N; ++i) nzall = nzall && std::fabs(a[i]) > 1e-6;
    if (nzall) SHAPE(V, rec(a), 1 / A);
    // points read as vectors
    { V u = as_vector(p); for (std::size_t i = 0; i < N; ++i) REQ(u[i] == p[i], "as_vector component " << i); P x = as_point(a); for (std::size_t i = 0; i < N; ++i) REQ(x[i] == a[i], "as_point component " << i); V z; z <<= as_vector(p) + as_vector(q); same<N>(z, ref([&](std::size_t i) { return PP + QQ; }), "as_vector(p)+as_vector(q)"); }
}
GROUP(dim2, 12000, 400000) { shapes<2>(c); }
GROUP(dim3, 12000, 400000) { shapes<3>(c); }
GROUP(dim4, 6000, 200000) { shapes<4>(c); }
GROUP(dim5, 4000, 100000) { shapes<5>(c); }
GROUP(dim7, 3000, 100000) { shapes<7>(c); }
GROUP(planar, 20000, 600000) {
    V2 a = mk<V2, 2>(c.rng), b = mk<V2, 2>(c.rng); P2 p = mk<P2, 2>(c.rng), q = mk<P2, 2>(c.rng); c.in("a", a); c.in("b", b); c.in("p", p); c.in("q", q);
    ld cr = (ld)a[0] * b[1] - (ld)a[1] * b[0], cs = fabsl((ld)a[0] * b[1]) + fabsl((ld)a[1] * b[0]);
    EQ(exterior_product_area(a, b), cr, (double)cs, "exterior_product_area"); EQ(exterior_product_area(b, a), -cr, (double)cs, "exterior_product_area swapped");
    V2 l = left_normal(a), rn = right_normal(a), pe = perp(a), ol = oriented_normal<oriented_left>(a), orr = oriented_normal<oriented_right>(a);
    for (auto& v : {l, pe, ol}) REQ(v[0] == -a[1] && v[1] == a[0], "left normal of " << str(a) << " is " << str(v)); for (auto& v : {rn, orr}) REQ(v[0] == a[1] && v[1] == -a[0], "right normal of " << str(a) << " is " << str(v));
    V2 le = left_normal<V2>(q - p); EQ(le[0], -((ld)q[1] - p[1]), std::fabs(q[1]) + std::fabs(p[1]), "left_normal(q-p)"); EQ(le[1], (ld)q[0] - p[0], std::fabs(q[0]) + std::fabs(p[0]), "left_normal(q-p)");
    // unit direction interpolation and bisector of counter-clockwise angles
    ld na = std::hypot((ld)a[0], (ld)a[1]), nb = std::hypot((ld)b[0], (ld)b[1]);
    if (na > 1e-3L && nb > 1e-3L && fabsl(cr) > 1e-6L * na * nb) {
        V2 ua(a[0] / na, a[1] / na), ub(b[0] / nb, b[1] / nb); double t = c.rng.in(0, 4) * 0.25; V2 li = lerp(ua, ub, t); ld x = ua[0] + t * (ub[0] - ua[0]), y = ua[1] + t * (ub[1] - ua[1]), n = std::hypot(x, y);
        if (n > 1e-4L) { EQ(li[0], x / n, 1e3, "lerp x"); EQ(li[1], y / n, 1e3, "lerp y"); }
        ld lo = std::atan2((ld)ua[1], (ld)ua[0]), hi = std::atan2((ld)ub[1], (ld)ub[0]); while (hi < lo) hi += 2 * acosl(-1.0L); ld mid = (lo + hi) / 2;
        V2 la(c.rng.real(0.1, 10) * ua[0], 0), lb; { double f = c.rng.real(0.1, 10), g = c.rng.p(0.5) ? f : c.rng.real(0.1, 10); la = V2(f * ua[0], f * ua[1]); lb = V2(g * ub[0], g * ub[1]); }
        { V2 bi = bisect(ua, ub), bl = bisect(la, lb); for (V2 x : {bi, bl}) REQ(close(x[0], std::cos(mid), 0, 1e-7) && close(x[1], std::sin(mid), 0, 1e-7), "bisector of counter-clockwise angle from " << str(la) << " to " << str(lb) << " is " << str(bi) << ", scaled " << str(bl)); count("bisectors"); }
        if (std::hypot((ld)ua[0] + ub[0], (ld)ua[1] + ub[1]) > 1e-3L) for (V2 x : {V2(bisect_not_antiparallel(ua, ub)), V2(bisect_not_antiparallel(la, lb))}) REQ(close(x[0], std::cos(mid), 0, 1e-9) && close(x[1], std::sin(mid), 0, 1e-9), "bisector of counter-clockwise angle from " << str(la) << " to " << str(lb) << " is " << str(x));
        REQ(!is_antiparallel(a, V2(-b[0], -b[1]), abs_cmp(1e-13)), "is_antiparallel for non-parallel vectors");
    }
    if (na > 1e-3L && na < 1e6) { double k = c.rng.pick(std::vector<double>{1, 2, 0.5, 8}); V2 o(-k * a[0], -k * a[1]), w(k * a[0], k * a[1]), h = bisect(a, o), f = bisect(a, w); REQ(close(h[0], -a[1] / na, 0, 1e-9) && close(h[1], a[0] / na, 0, 1e-9), "bisector of the half turn from " << str(a) << " is " << str(h)); REQ(close(f[0], -a[0] / na, 0, 1e-9) && close(f[1], -a[1] / na, 0, 1e-9), "bisector of the full turn from " << str(a) << " is " << str(f)); }
    if (na > 1e-3L && na < 1e6) { double k = c.rng.real(0.1, 10); V2 m(-k * a[0], -k * a[1]), s(k * a[0], k * a[1]); REQ(is_antiparallel(a, m, abs_cmp(1e-9)), "opposite vectors not antiparallel"); REQ(!is_antiparallel(a, s, abs_cmp(1e-9)), "same direction called antiparallel"); }
}
GROUP(spatial, 20000, 600000) {
    V3 a = mk<V3, 3>(c.rng), b = mk<V3, 3>(c.rng), d = mk<V3, 3>(c.rng); c.in("a", a); c.in("b", b); c.in("d", d);
    auto cc = [](const V3& u, const V3& v, int i) { int j = (i + 1) % 3, k = (i + 2) % 3; return (ld)u[j] * v[k] - (ld)u[k] * v[j]; }; auto mag1 = [](const V3& u) { return std::fabs(u[0]) + std::fabs(u[1]) + std::fabs(u[2]); };
    double S = mag1(a) * mag1(b); V3 x = a ^ b, y; y <<= a ^ b; V3 z = b ^ a;
    for (int i = 0; i < 3; ++i) { EQ(x[i], cc(a, b, i), S, "cross product component " << i); EQ(y[i], cc(a, b, i), S, "cross product <<= " << i); EQ(z[i], -cc(a, b, i), S, "cross product swapped " << i); }
    ld vol = 0; for (int i = 0; i < 3; ++i) vol += cc(a, b, i) * d[i]; EQ(exterior_product_volume(a, b, d), vol, S * mag1(d), "exterior_product_volume"); double v2; v2 <<= (a ^ b) * d; EQ(v2, vol, S * mag1(d), "(a^b)*d"); double v3; v3 <<= d * (a ^ b); EQ(v3, vol, S * mag1(d), "d*(a^b)");
    V3 w; w <<= (a - d) ^ (b + d); for (int i = 0; i < 3; ++i) { V3 u1(a[0] - d[0], a[1] - d[1], a[2] - d[2]), u2(b[0] + d[0], b[1] + d[1], b[2] + d[2]); EQ(w[i], cc(u1, u2, i), (mag1(a) + mag1(d)) * (mag1(b) + mag1(d)), "(a-d)^(b+d) component " << i); }
    V3 tri; tri <<= (a ^ b) ^ d; V3 ab((double)cc(a, b, 0), (double)cc(a, b, 1), (double)cc(a, b, 2)); for (int i = 0; i < 3; ++i) EQ(tri[i], cc(ab, d, i), S * mag1(d), "(a^b)^d component " << i);
}
namespace bu = boost::units; using len = bu::quantity<bu::si::length, double>; using area = bu::quantity<bu::si::area, double>;
GROUP(units, 10000, 300000) {
    using PQ = geometrix::point<len, 2>; using VQ = geometrix::vector<len, 2>; auto m = bu::si::meters; Rng& r = c.rng;
    double x[8]; for (auto& e : x) e = val(r); c.in("x", std::array<double, 8>{{x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]}}); double s = val(r); c.in("s", s);
    PQ p(x[0] * m, x[1] * m), q(x[2] * m, x[3] * m); VQ a(x[4] * m, x[5] * m), b(x[6] * m, x[7] * m);
    VQ v = q - p; EQ(v[0].value(), (ld)x[2] - x[0], std::fabs(x[2]) + std::fabs(x[0]), "q-p"); EQ(v[1].value(), (ld)x[3] - x[1], std::fabs(x[3]) + std::fabs(x[1]), "q-p");
    PQ u = p + s * a; EQ(u[0].value(), x[0] + (ld)s * x[4], std::fabs(x[0]) + std::fabs(s * x[4]), "p+s*a"); EQ(u[1].value(), x[1] + (ld)s * x[5], std::fabs(x[1]) + std::fabs(s * x[5]), "p+s*a");
    VQ w = a - b; EQ(w[0].value(), (ld)x[4] - x[6], std::fabs(x[4]) + std::fabs(x[6]), "a-b"); EQ(w[1].value(), (ld)x[5] - x[7], std::fabs(x[5]) + std::fabs(x[7]), "a-b");
    area dt = dot_product(a, b); EQ(dt.value(), (ld)x[4] * x[6] + (ld)x[5] * x[7], std::fabs(x[4] * x[6]) + std::fabs(x[5] * x[7]), "dot"); area ex = exterior_product_area(a, b); EQ(ex.value(), (ld)x[4] * x[7] - (ld)x[5] * x[6], std::fabs(x[4] * x[7]) + std::fabs(x[5] * x[6]), "exterior");
    len mg = magnitude(a); EQ(mg.value(), std::hypot((ld)x[4], (ld)x[5]), std::hypot(x[4], x[5]), "magnitude");
    if (mg.value() > 1e-6) { geometrix::vector<double, 2> n = normalize(a); EQ(n[0], x[4] / std::hypot((ld)x[4], (ld)x[5]), 1, "normalize units"); EQ(n[1], x[5] / std::hypot((ld)x[4], (ld)x[5]), 1, "normalize units"); VQ bk = mg * n; EQ(bk[0].value(), x[4], std::fabs(mg.value()), "mg*n"); EQ(bk[1].value(), x[5], std::fabs(mg.value()), "mg*n"); }
}
