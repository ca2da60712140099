#include "geo.hpp"
#include <geometrix/tensor/homogeneous_adaptor.hpp>
#include <geometrix/tensor/identity_matrix.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/numeric/boost_units_quantity.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/cmath.hpp>
using namespace vt;
using geometrix::matrix;
namespace vt { template <std::size_t R> void vt_put(Case& c, const matrix<double, R, R>& m) { for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < R; ++j) { vt_put(c, (double)m[i][j]); if (c.describe) c.d << (j + 1 < R ? " " : " | "); } } }
using len = boost::units::quantity<boost::units::si::length, double>;
using M2 = matrix<double, 2, 2>; using M3 = matrix<double, 3, 3>; using M4 = matrix<double, 4, 4>;
static double val(Rng& r) { switch (r.in(0, 3)) { case 0: return r.in(-9, 9); case 1: return r.real(-1, 1); case 2: return r.real(-100, 100); default: return r.in(-40, 40) * 0.25; } }
template <std::size_t N> static matrix<double, N, N> affine(Rng& r) {   // last row 0..0 1
    matrix<double, N, N> m; int k = (int)r.in(0, 3);
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) m[i][j] = i == N - 1 ? (j == N - 1) : j == N - 1 ? (k == 1 ? 0 : val(r)) : k == 0 ? (i == j) : val(r);
    if (k == 2) { double a = r.real(-7, 7); std::size_t p = r.in(0, N - 2), q = (p + 1) % (N - 1); for (std::size_t i = 0; i < N - 1; ++i) for (std::size_t j = 0; j < N - 1; ++j) m[i][j] = i == j; m[p][p] = m[q][q] = std::cos(a); m[p][q] = -std::sin(a); m[q][p] = std::sin(a); }
    return m;
}
#define NEAR(G, W, WHAT) do { double g_ = (G), w_ = (double)(W); REQ(vt::close(g_, w_, 1e-10, 1e-9), WHAT << ": got " << g_ << " want " << w_); } while (0)
template <std::size_t N, class E> static void eqv(const E& e, const std::array<ld, N>& w, const char* what) { geometrix::vector<double, N> g; (void)g; }
template <class P, std::size_t N, bool Pt> struct Hom { };
template <std::size_t N> static std::array<ld, N> apply(const matrix<double, N + 1, N + 1>& m, const std::array<ld, N>& v, ld w) { std::array<ld, N> o; for (std::size_t i = 0; i < N; ++i) { o[i] = m[i][N] * w; for (std::size_t j = 0; j < N; ++j) o[i] += (ld)m[i][j] * v[j]; } return o; }
GROUP(homogeneous_2d, 30000, 1000000) {
    Rng& r = c.rng; P2 p(val(r), val(r)); V2 v{val(r), val(r)}; M3 m = affine<3>(r), n = affine<3>(r); c.in("p", p); c.in("v", v); c.in("m", m); c.in("n", n);
    auto hp = geometrix::as_positional_homogeneous<double>(p); auto hv = geometrix::as_vectoral_homogeneous<double>(v);
    REQ(geometrix::get<0>(hp) == p[0] && geometrix::get<1>(hp) == p[1] && geometrix::get<2>(hp) == 1, "positional homogeneous coordinates"); REQ(geometrix::get<0>(hv) == v[0] && geometrix::get<1>(hv) == v[1] && geometrix::get<2>(hv) == 0, "vectorial homogeneous coordinates");
    std::array<ld, 2> a{p[0], p[1]}, b{v[0], v[1]}; auto w = apply<2>(m, a, 1); auto res = m * hp; NEAR(geometrix::get<0>(res), w[0], "m * point, x"); NEAR(geometrix::get<1>(res), w[1], "m * point, y"); NEAR(geometrix::get<2>(res), 1, "m * point, w");
    auto wv = apply<2>(m, b, 0); auto rv = m * hv; NEAR(geometrix::get<0>(rv), wv[0], "m * vector, x (vectors must not be translated)"); NEAR(geometrix::get<1>(rv), wv[1], "m * vector, y"); NEAR(geometrix::get<2>(rv), 0, "m * vector, w");
    P2 q = m * hp; NEAR(q[0], w[0], "point from m * point"); NEAR(q[1], w[1], "point from m * point");
    auto w2 = apply<2>(m, apply<2>(n, a, 1), 1); P2 q2 = (m * n) * hp; ld sc = 1 + fabsl(w2[0]) + fabsl(w2[1]); P2 t = n * hp; auto ht = geometrix::as_positional_homogeneous<double>(t); P2 q3 = m * ht;
    ld big = 1; for (auto& x : {&m, &n}) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) big = std::max(big, fabsl((ld)(*x)[i][j])); big = big * big * 200;
    for (int i = 0; i < 2; ++i) { REQ(fabsl(q2[i] - w2[i]) <= 1e-12L * big * (1 + fabsl(a[0]) + fabsl(a[1])), "(m*n)*p component " << i << " got " << q2[i] << " want " << (double)w2[i]); REQ(fabsl(q3[i] - w2[i]) <= 1e-12L * big * (1 + fabsl(a[0]) + fabsl(a[1])), "m*(n*p) component " << i << " got " << q3[i] << " want " << (double)w2[i]); }
    (void)sc; count("2D homogeneous transforms");
    using PU = geometrix::point<len, 2>; PU pu(p[0] * boost::units::si::meters, p[1] * boost::units::si::meters); auto hu = geometrix::as_positional_homogeneous<len>(pu); auto ru = m * hu; NEAR(geometrix::get<0>(ru).value(), w[0], "m * point with units"); NEAR(geometrix::get<1>(ru).value(), w[1], "m * point with units");
}
GROUP(homogeneous_3d, 20000, 500000) {
    Rng& r = c.rng; P3 p(val(r), val(r), val(r)); V3 v{val(r), val(r), val(r)}; M4 m = affine<4>(r), n = affine<4>(r); c.in("p", p); c.in("v", v); c.in("m", m); c.in("n", n);
    auto hp = geometrix::as_positional_homogeneous<double>(p); auto hv = geometrix::as_vectoral_homogeneous<double>(v); REQ(geometrix::get<3>(hp) == 1 && geometrix::get<3>(hv) == 0 && geometrix::get<2>(hp) == p[2] && geometrix::get<2>(hv) == v[2], "homogeneous coordinates in 3D");
    std::array<ld, 3> a{p[0], p[1], p[2]}, b{v[0], v[1], v[2]}; auto w = apply<3>(m, a, 1); P3 q = m * hp; for (int i = 0; i < 3; ++i) NEAR(q[i], w[i], "m * point 3D component " << i);
    auto wv = apply<3>(m, b, 0); auto rv = m * hv; NEAR(geometrix::get<0>(rv), wv[0], "m * vector 3D"); NEAR(geometrix::get<1>(rv), wv[1], "m * vector 3D"); NEAR(geometrix::get<2>(rv), wv[2], "m * vector 3D"); NEAR(geometrix::get<3>(rv), 0, "m * vector 3D w");
    auto w2 = apply<3>(m, apply<3>(n, a, 1), 1); P3 q2 = (m * n) * hp; ld big = 1; for (auto& x : {&m, &n}) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) big = std::max(big, fabsl((ld)(*x)[i][j])); big = big * big * 400 * (1 + fabsl(a[0]) + fabsl(a[1]) + fabsl(a[2]));
    for (int i = 0; i < 3; ++i) REQ(fabsl(q2[i] - w2[i]) <= 1e-12L * big, "(m*n)*p 3D component " << i << " got " << q2[i] << " want " << (double)w2[i]); count("3D homogeneous transforms");
}
static V2 unit(Rng& r) { static const double Q[][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {0.6, 0.8}, {-0.6, 0.8}, {0.8, -0.6}, {-0.8, -0.6}}; if (r.p(0.4)) { auto& q = Q[r.in(0, 7)]; return V2{q[0], q[1]}; } double a = r.real(-7, 7); return V2{std::cos(a), std::sin(a)}; }
GROUP(rotation, 40000, 1500000) {
    Rng& r = c.rng; V2 a = unit(r), b = r.p(0.1) ? a : unit(r); if (r.p(0.05)) { b = V2{-a[0], -a[1]}; } P2 p(val(r), val(r)), o(val(r), val(r)); V2 v{val(r), val(r)}, tr{val(r), val(r)}; c.in("from", a); c.in("to", b); c.in("p", p); c.in("origin", o); c.in("v", v); c.in("translation", tr);
    ld cs = (ld)a[0] * b[0] + (ld)a[1] * b[1], sn = (ld)a[0] * b[1] - (ld)a[1] * b[0]; auto m = geometrix::make_rotation_matrix(a, b);
    NEAR(m[0][0], cs, "rotation matrix 00"); NEAR(m[0][1], -sn, "rotation matrix 01"); NEAR(m[1][0], sn, "rotation matrix 10"); NEAR(m[1][1], cs, "rotation matrix 11");
    V2 ra = geometrix::rotate_vector(a, m); NEAR(ra[0], b[0], "rotation does not map the first vector on the second"); NEAR(ra[1], b[1], "rotation does not map the first vector on the second");
    auto rot = [&](ld x, ld y) { return std::array<ld, 2>{cs * x - sn * y, sn * x + cs * y}; };
    V2 rv = geometrix::rotate_vector(v, a, b); auto wv = rot(v[0], v[1]); NEAR(rv[0], wv[0], "rotate_vector x"); NEAR(rv[1], wv[1], "rotate_vector y");
    for (int k = 0; k < 2; ++k) { P2 q = k ? geometrix::rotate_point(p, a, b, o) : geometrix::rotate_point(p, m, o); auto w = rot((ld)p[0] - o[0], (ld)p[1] - o[1]); NEAR(q[0], w[0] + o[0], "rotate_point x"); NEAR(q[1], w[1] + o[1], "rotate_point y"); NEAR(dist(q, o), dist(p, o), "rotation changes the distance to its origin"); }
    std::vector<P2> ps; int n = (int)r.in(1, 7); for (int i = 0; i < n; ++i) ps.push_back(P2(val(r), val(r))); c.in("points", ps);
    auto rp = geometrix::rotate_points(PL(ps.begin(), ps.end()), a, b, o); auto rt = geometrix::rotate_translate_points(PL(ps.begin(), ps.end()), a, b, tr, o); auto rt2 = geometrix::rotate_translate_points(PL(ps.begin(), ps.end()), m, tr, o); REQ((int)rp.size() == n && (int)rt.size() == n && (int)rt2.size() == n, "rotating a sequence changes its size");
    for (int i = 0; i < n; ++i) { auto w = rot((ld)ps[i][0] - o[0], (ld)ps[i][1] - o[1]); for (int k = 0; k < 2; ++k) { NEAR(rp[i][k], w[k] + o[k], "rotate_points point " << i); NEAR(rt[i][k], w[k] + o[k] + tr[k], "rotate_translate_points point " << i); NEAR(rt2[i][k], w[k] + o[k] + tr[k], "rotate_translate_points(matrix) point " << i); } }
    count("rotations");
}
template <std::size_t N> static void ident() { geometrix::identity_matrix<double, N, N> m; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { REQ(m[i][j] == (i == j), "identity element " << i << "," << j); REQ(m.get((int)i, (int)j) == (i == j), "identity get " << i << "," << j); } }
GROUP(identity, 8, 8) { c.in("i", (int)c.index); ident<2>(); ident<3>(); ident<4>(); ident<6>(); }
