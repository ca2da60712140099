#include "vt.hpp"
#include <geometrix/utility/tagged_quantity.hpp>
#include <geometrix/numeric/boost_units_quantity.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/systems/si/prefixes.hpp>
#include <boost/units/physical_dimensions.hpp>
#include <boost/units/dimensionless_quantity.hpp>
#include <boost/units/pow.hpp>
#include <boost/units/limits.hpp>
#include <geometrix/arithmetic/boost_units_arithmetic.hpp>
#include "geo.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/grid_2d.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
using namespace vt;
namespace bu = boost::units;
// ---------------------------------------------------------------- tagged quantities
GEOMETRIX_STRONG_TYPEDEF(double, TA) GEOMETRIX_STRONG_TYPEDEF(double, TB) GEOMETRIX_STRONG_TYPEDEF(int, IA) GEOMETRIX_STRONG_TYPEDEF(int, IB) GEOMETRIX_STRONG_TYPEDEF_TPL(TT)
template <class A, class B> static bool same(A a, B b) { static_assert(std::is_same<A, B>::value, "value types differ"); return (a != a && b != b) || (a == b && (a != 0 || std::signbit((long double)a) == std::signbit((long double)b))); }
#define EQ(e, raw) do { auto x_ = (e).value(); auto y_ = (raw); REQ(same(x_, y_), #e << " is " << x_ << ", " #raw " is " << y_); count("operations"); } while (0)
#define EB(e, raw) do { bool x_ = bool(e), y_ = bool(raw); REQ(x_ == y_, #e << " is " << x_ << ", " #raw " is " << y_); count("operations"); } while (0)
static double val(Rng& r) { switch (r.in(0, 9)) { case 0: { static const double S[] = {0, -0., 1, -1, .5, 2, 1e-310, 1e308, -1e308, INFINITY, -INFINITY, NAN, 3.5, -2.5, 1e-16}; return S[r.in(0, 14)]; } case 1: case 2: return (double)r.in(-5, 5); case 3: return r.real(-1, 1); case 4: return std::ldexp(r.real(-1, 1), (int)r.in(-1000, 1000)); default: return r.real(-20, 20); } }
template <class L, class R, class A, class B> static void rel(L l, R m, A a, B b) { EB(l == m, a == b); EB(l != m, a != b); EB(l < m, a < b); EB(l <= m, a <= b); EB(l > m, a > b); EB(l >= m, a >= b); }
template <class L, class R, class A, class B> static void arith(L l, R m, A a, B b, bool div = true) { EQ(l + m, a + b); EQ(l - m, a - b); EQ(l * m, a * b); if (div) EQ(l / m, a / b); }
template <class T, class S, class A, class B> static void assign(T l, S m, A a, B b, bool div) { T t(l); A x(a); REQ(same((t += m).value(), x += b), "+="); t = l; x = a; REQ(same((t -= m).value(), x -= b), "-="); t = l; x = a; REQ(same((t *= m).value(), x *= b), "*="); if (div) { t = l; x = a; REQ(same((t /= m).value(), x /= b), "/="); REQ(same(t.value(), x), "value after /="); } count("operations", 4); }
GROUP(tagged, 60000, 3000000) {
    Rng& r = c.rng; double a = val(r), b = r.p(0.15) ? a : val(r); int i = (int)r.in(-40, 40), j = r.p(0.15) ? i : (int)r.in(-40, 40); c.in("a", a); c.in("b", b); c.in("i", i); c.in("j", j);
    TA ta(a), ta2(b); TB tb(b); IA ia(i), ia2(j); IB ib(j); TT<double> xd(a); TT<int> xi(j);
    arith(ta, ta2, a, b); arith(ta, tb, a, b); arith(ta, b, a, b); arith(a, tb, a, b); arith(ta, ib, a, j); arith(ia, tb, i, b); arith(ta, j, a, j); arith(i, tb, i, b); arith(xd, xi, a, j); arith(ia, ia2, i, j, j != 0); arith(ia, ib, i, j, j != 0); arith(ia, j, i, j, j != 0); arith(i, ib, i, j, j != 0); arith(ia, b, i, b);
    static_assert(std::is_same<decltype(ta + ta2), TA>::value && std::is_same<decltype(ta * 2.0), TA>::value && std::is_same<decltype(2.0 / ta), TA>::value && std::is_same<decltype(-ta), TA>::value && !std::is_same<decltype(ta + tb), TA>::value && !std::is_convertible<double, TA>::value && !std::is_convertible<TB, TA>::value && !std::is_convertible<TA, double>::value, "tags");
    rel(ta, ta2, a, b); rel(ta, b, a, b); rel(a, ta2, a, b); rel(xd, xi, a, j); rel(ia, ia2, i, j); rel(ia, j, i, j); rel(i, ia2, i, j);
    EQ(+ta, +a); EQ(-ta, -a); EQ(-ia, -i); EB(ta, a); EB(ia, i); EB(!ta, !a);
    if (std::fabs(a) < 1e4 && std::fabs(b) < 1e4) { TT<int> ni(i); TT<double> xb(b), xs(a); TT<float> nf((float)a); assign(ni, xb, i, b, b != 0 && std::fabs(i / b) < 1e9); assign(ni, xs, i, a, a != 0 && std::fabs(i / a) < 1e9); assign(nf, xb, (float)a, b, true); assign(xs, nf, a, (float)a, true); TT<double> half(r.in(-20, 20) * 0.25 + 0.125); assign(ni, half, i, half.value(), true); TT<int> got(half); EQ(got, (int)half.value()); got = ni; EQ(got, i); got = half.value(); EQ(got, (int)half.value()); } assign(ta, ta2, a, b, true); assign(ta, b, a, b, true); assign(xd, xi, a, j, true); assign(ia, ia2, i, j, j != 0); assign(ia, j, i, j, j != 0);
    { TA t(ta); t += t; EQ(t, a + a); t = ta; t *= t; EQ(t, a * a); t = ta; t -= t; EQ(t, a - a); t = ta; t /= t; EQ(t, a / a); t = ta; t = t; EQ(t, a); }
    { TT<double> y(xi); EQ(y, (double)j); y = xd; EQ(y, a); y = xi; EQ(y, (double)j); y = b; EQ(y, b); y = i; EQ(y, (double)i); TA z; z = b; EQ(z, b); TA cp(z); z = a; EQ(cp, b); TA mv(std::move(cp)); EQ(mv, b); EQ(TA(), 0.0); EQ(TA{}, 0.0); EQ(geometrix::construct<TA>(b), b); }
    { TT<double> x(a), y(b); x.swap(y); EQ(x, b); EQ(y, a); double q = 7; x.swap(q); EQ(x, 7.0); REQ(same(q, b), "swapped out " << q); TA p(a), s(b); using std::swap; swap(p, s); EQ(p, b); EQ(s, a); IA m(i), n(j); m.swap(n); EQ(m, j); EQ(n, i); }
}
GROUP(functions, 60000, 3000000) {
    Rng& r = c.rng; double a = val(r), b = val(r); int i = (int)r.in(-40, 40); c.in("a", a); c.in("b", b); c.in("i", i); TA ta(a); TB tb(b); IA ia(i); TT<float> tf((float)a); float f = (float)a;
    EQ(abs(ta), std::abs(a)); EQ(sqrt(ta), std::sqrt(a)); EQ(sin(ta), std::sin(a)); EQ(asin(ta), std::asin(a)); EQ(cos(ta), std::cos(a)); EQ(acos(ta), std::acos(a)); EQ(tan(ta), std::tan(a)); EQ(atan(ta), std::atan(a)); EQ(floor(ta), std::floor(a)); EQ(ceil(ta), std::ceil(a)); EQ(exp(ta), std::exp(a)); EQ(log(ta), std::log(a)); EQ(log10(ta), std::log10(a));
    EQ(pow(ta, tb), std::pow(a, b)); EQ(pow(ta, b), std::pow(a, b)); EQ(pow(a, tb), std::pow(a, b)); EQ(pow(ta, i), std::pow(a, i)); EQ(pow(ta, ia), std::pow(a, i)); EQ(atan2(ta, tb), std::atan2(a, b)); EQ(atan2(ta, b), std::atan2(a, b)); EQ(atan2(a, tb), std::atan2(a, b));
    EQ(abs(ia), std::abs(i)); EQ(abs(tf), std::abs(f)); EQ(floor(tf), std::floor(f)); EQ(geometrix::abs(ta), std::abs(a)); EQ(geometrix::atan2(ta, tb), std::atan2(a, b));
    EQ(sqrt(ta * ta + tb * tb), std::sqrt(a * a + b * b)); EQ(ta + (tb - ta) / pow(1.0 + tb * exp(-ta), tb), a + (b - a) / std::pow(1.0 + b * std::exp(-a), b));
}
// ---------------------------------------------------------------- quantities with units
typedef bu::quantity<bu::si::dimensionless, double> dim_t; typedef bu::quantity<bu::si::length, double> len_t; typedef decltype(len_t() * len_t()) area_t; typedef bu::quantity<bu::si::plane_angle, double> ang_t; typedef bu::quantity<bu::si::time, double> time_t_; typedef bu::quantity<bu::si::velocity, double> speed_t;
typedef geometrix::point<len_t, 2> UP; typedef geometrix::vector<len_t, 2> UV; typedef geometrix::vector<dim_t, 2> DV; typedef geometrix::vector<speed_t, 2> VV; typedef geometrix::segment<UP> US; typedef geometrix::polygon<UP> UG; typedef geometrix::polyline<UP> UL; typedef geometrix::axis_aligned_bounding_box<UP> UB; typedef geometrix::oriented_bounding_box<UP, DV> UO; typedef geometrix::sphere<2, UP> UC;
typedef geometrix::axis_aligned_bounding_box<P2> RB; typedef geometrix::oriented_bounding_box<P2, V2> RO; typedef geometrix::sphere<2, P2> RC;
GEOMETRIX_DEFINE_POINT_TRAITS(UP, (len_t), 2, dim_t, len_t, neutral_reference_frame_2d, index_operator_vector_access_policy<UP>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(DV, (dim_t), 2, dim_t, dim_t, neutral_reference_frame_2d, index_operator_vector_access_policy<DV>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(VV, (speed_t), 2, dim_t, speed_t, neutral_reference_frame_2d, index_operator_vector_access_policy<VV>);
GEOMETRIX_DEFINE_SPHERE_TRAITS(2, UP, UC); GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(UC);

using namespace geometrix;
typedef mapped_tolerance_comparison_policy<abs_cmp, boost::fusion::pair<ang_t, relative_tolerance_comparison_policy<double>>> ucmp;
static ucmp mk(double t) { return ucmp{abs_cmp(t), boost::fusion::make_pair<ang_t>(relative_tolerance_comparison_policy<double>(1e-6))}; }
static len_t m(double v) { return v * bu::si::meters; }
static UP up(const P2& p) { return UP{m(p[0]), m(p[1])}; } static UV uv(const V2& p) { return UV{m(p[0]), m(p[1])}; } static DV dv(const V2& p) { return DV{dim_t(p[0]), dim_t(p[1])}; } static US us(const S2& s) { return US{up(s.get_start()), up(s.get_end())}; }
static UG ug(const PG& g) { UG o; for (auto& p : g) o.push_back(up(p)); return o; } static UL ul(const PL& g) { UL o; for (auto& p : g) o.push_back(up(p)); return o; }
// distances whose square is computed by a subtraction: compared by their squares, which is where the rounding is
#define ED(q, raw, T) do { auto x_ = (q); static_assert(std::is_same<decltype(x_), T>::value, "unit of " #q); double y_ = (raw); REQ(x_.value() >= 0 && close(x_.value() * x_.value(), y_ * y_, 1e-11, 1e-13 * sc * sc), #q " is " << x_.value() << ", raw " << y_); count("results"); } while (0)
#define EV(q, raw, T) do { auto x_ = (q); static_assert(std::is_same<decltype(x_), T>::value, "unit of " #q); double y_ = (raw); REQ(close(x_.value(), y_, 1e-12, 1e-13 * sc * sc), #q " is " << x_.value() << ", raw " << y_); count("results"); } while (0)
template <class Q> static bool samep(const Q& q, const P2& p, double sc) { return close(get<0>(q).value(), p[0], 1e-12, 1e-13 * sc) && close(get<1>(q).value(), p[1], 1e-12, 1e-13 * sc); }
#define EP(q, p) do { auto const& q_ = (q); P2 p_((p)); REQ(samep(q_, p_, sc), #q " is (" << get<0>(q_).value() << "," << get<1>(q_).value() << "), raw " << str(p_)); count("results"); } while (0)
static P2 rp(Rng& r, double s, bool lat) { return lat ? P2((double)r.in(-6, 6), (double)r.in(-6, 6)) : P2(r.real(-s, s), r.real(-s, s)); }
GROUP(units_vectors, 20000, 800000) {
    Rng& r = c.rng; bool lat = r.p(0.4); double s = lat ? 6 : r.p(0.7) ? 10 : r.p(0.5) ? 0.01 : 1e4, sc = s; P2 a = rp(r, s, lat), b = rp(r, s, lat); V2 v = V2(rp(r, s, lat)[0], rp(r, s, lat)[1]), w(rp(r, s, lat)[0], rp(r, s, lat)[1]), x(rp(r, s, lat)[0], rp(r, s, lat)[1]); double k = r.real(-3, 3); c.in("a", a); c.in("b", b); c.in("v", v); c.in("w", w); c.in("x", x); c.in("k", k);
    UP A = up(a), B = up(b); UV V = uv(v), W = uv(w), X = uv(x); ucmp cm = mk(1e-10); abs_cmp cr(1e-10);
    EV(dot_product(V, W), dot_product(v, w), area_t); EV(exterior_product_area(V, W), exterior_product_area(v, w), area_t); EV(magnitude(V), magnitude(v), len_t); EV(magnitude_sqrd(V), magnitude_sqrd(v), area_t); EV(point_point_distance(A, B), point_point_distance(a, b), len_t); EV(point_point_distance_sqrd(A, B), point_point_distance_sqrd(a, b), area_t);
    if (magnitude(v) > 1e-6 * s) { auto n = normalize(V); static_assert(std::is_same<decltype(n), DV>::value, "unit vectors carry no unit"); V2 q = normalize(v); EP(n, P2(q[0], q[1])); EV(magnitude(n), 1.0, dim_t); UV back = n * magnitude(V); EP(back, P2(v[0], v[1])); }
    { UP p = A + V; EP(p, P2(a + v)); p = A - V; EP(p, P2(a - v)); UV d = A - B; EP(d, P2(a[0] - b[0], a[1] - b[1])); UV t = V + W; EP(t, P2(v[0] + w[0], v[1] + w[1])); t = V - W; EP(t, P2(v[0] - w[0], v[1] - w[1])); t = k * V; EP(t, P2(k * v[0], k * v[1])); t = V * k; EP(t, P2(k * v[0], k * v[1])); t = -V; EP(t, P2(-v[0], -v[1])); if (std::abs(k) > 1e-3) { t = V / k; EP(t, P2(v[0] / k, v[1] / k)); } p = A + k * V; EP(p, P2(a[0] + k * v[0], a[1] + k * v[1]));
      VV ve = V / (2.0 * bu::si::seconds); EP(ve, P2(v[0] / 2, v[1] / 2)); p = A + (2.0 * bu::si::seconds) * ve; EP(p, P2(a + v)); DV dd = V / (4.0 * bu::si::meters); EP(dd, P2(v[0] / 4, v[1] / 4)); t = V; t = t + W; EP(t, P2(v[0] + w[0], v[1] + w[1])); }
    REQ(numeric_sequence_equals(A, B, cm) == numeric_sequence_equals(a, b, cr), "point comparison"); EV(angle_from_a_to_b(A, B), angle_from_a_to_b(a, b), ang_t);
    if (magnitude(v) > 1e-3 * s && magnitude(w) > 1e-3 * s && magnitude(x) > 1e-3 * s && std::abs(exterior_product_area(v, w)) > 1e-6 * s * s && std::abs(exterior_product_area(x, w)) > 1e-6 * s * s && std::abs(exterior_product_area(v, x)) > 1e-6 * s * s) { bool q1 = is_vector_between(V, W, X, true, cm), q2 = is_vector_between(v, w, x, true, cr); REQ(q1 == q2, "vector between " << q1 << ", raw " << q2); count(q1 ? "between" : "not between"); }
    EB(cm.equals(get<0>(A), get<0>(B)), cr.equals(a[0], b[0])); EB(cm.less_than(get<0>(A), get<0>(B)), cr.less_than(a[0], b[0])); EB(cm.greater_than(get<0>(A), get<0>(B)), cr.greater_than(a[0], b[0])); EB(cm.less_than_or_equal(get<0>(A), get<0>(B)), cr.less_than_or_equal(a[0], b[0])); EB(cm.greater_than_or_equal(get<0>(A), get<0>(B)), cr.greater_than_or_equal(a[0], b[0]));
    dim_t D(k), E(v[0]); EV(D + 2.0, k + 2.0, dim_t); EV(2.0 + D, 2.0 + k, dim_t); EV(D - 2.0, k - 2.0, dim_t); EV(2.0 - D, 2.0 - k, dim_t); EV(D + 2, k + 2, dim_t); EV(3 - D, 3 - k, dim_t); EV(D - E, k - v[0], dim_t);
    { double pw = std::pow(std::abs(k), 1.5); dim_t K(std::abs(k)); REQ(close((double)geometrix::pow(K, 1.5), pw, 1e-13, 0) && close((double)geometrix::pow(K, dim_t(1.5)), pw, 1e-13, 0), "pow of a dimensionless quantity"); REQ(close((double)geometrix::pow(2.0, D), std::pow(2.0, k), 1e-13, 0), "pow with a dimensionless exponent"); }
}
GROUP(units_geometry, 12000, 500000) {
    Rng& r = c.rng; bool lat = r.p(0.4); double s = lat ? 6 : r.p(0.8) ? 10 : 500, sc = s; P2 a = rp(r, s, lat), b = rp(r, s, lat), d = rp(r, s, lat), e = rp(r, s, lat), q = rp(r, s, lat); c.in("a", a); c.in("b", b); c.in("d", d); c.in("e", e); c.in("q", q); if (a[0] == b[0] && a[1] == b[1]) { c.trivial(); return; } if (d[0] == e[0] && d[1] == e[1]) { c.trivial(); return; }
    ucmp cm = mk(1e-10); abs_cmp cr(1e-10); S2 s1(a, b), s2(d, e); US S(us(s1)), T(us(s2)); UP Q = up(q);
    ED(point_segment_distance(Q, S), point_segment_distance(q, s1), len_t); EV(point_segment_distance_sqrd(Q, S), point_segment_distance_sqrd(q, s1), area_t); ED(segment_segment_distance(S, T, cm), segment_segment_distance(s1, s2, cr), len_t); EV(segment_segment_distance_sqrd(S, T, cm), segment_segment_distance_sqrd(s1, s2, cr), area_t); EP(segment_mid_point(S), segment_mid_point(s1));
    { UP o[2]; P2 p[2]; auto i1 = segment_segment_intersection(S, T, o, cm); auto i2 = segment_segment_intersection(s1, s2, p, cr); REQ(i1 == i2, "segment intersection kind " << i1 << ", raw " << i2); int n = i1 == e_overlapping ? 2 : (i1 == e_crossing || i1 == e_endpoint) ? 1 : 0; for (int k = 0; k < n; ++k) EP(o[k], p[k]); count(n ? "segments meet" : "segments apart"); }
    { V2 dir(0, 0); dir = normalize(b - a); DV D = dv(dir); len_t t1; double t2 = 0; t1 = m(0); UP o[2]; P2 p[2]; auto i1 = ray_segment_intersection(up(q), D, T, t1, o, cm); auto i2 = ray_segment_intersection(q, dir, s2, t2, p, cr); REQ(i1 == i2, "ray-segment kind " << i1 << ", raw " << i2); if (i2 == e_crossing) { REQ(close(t1.value(), t2, 1e-12, 1e-12 * s), "ray parameter " << t1.value() << ", raw " << t2); EP(o[0], p[0]); } }
    P2 lo(std::min(a[0], b[0]), std::min(a[1], b[1])), hi(std::max(a[0], b[0]), std::max(a[1], b[1])); RB rb(lo, hi); UB ub(up(lo), up(hi));
    EV(point_aabb_distance(Q, ub), point_aabb_distance(q, rb), len_t); EV(point_aabb_distance_sqrd(Q, ub), point_aabb_distance_sqrd(q, rb), area_t);
    if (lo[0] < hi[0] && lo[1] < hi[1]) { V2 dir = normalize(e - d); DV D = dv(dir); len_t t1 = m(0); double t2 = 0; UP o; P2 p; bool h1 = ray_aabb_intersection(Q, D, ub, t1, o, cm), h2 = ray_aabb_intersection(q, dir, rb, t2, p, cr); REQ(h1 == h2, "ray hits the box " << h1 << ", raw " << h2); if (h1) { REQ(close(t1.value(), t2, 1e-12, 1e-12 * s), "distance to the box " << t1.value() << ", raw " << t2); EP(o, p); count("ray hits box"); }
        double R = r.real(0.05, 0.3) * s; V2 vel(r.real(-2, 2), r.real(-2, 2)); c.in("radius", R); c.in("velocity", vel); UC uc(Q, m(R)); RC rc(q, R); VV ve{vel[0] * bu::si::meters_per_second, vel[1] * bu::si::meters_per_second}; time_t_ tt; double tr = 0; UP xo; P2 xp; bool g1 = moving_sphere_aabb_intersection(uc, ve, ub, tt, xo, cm), g2 = moving_sphere_aabb_intersection(rc, vel, rb, tr, xp, cr); REQ(g1 == g2, "moving circle hits the box " << g1 << ", raw " << g2); if (g1) { REQ(close(tt.value(), tr, 1e-11, 1e-11 * s), "time of contact " << tt.value() << ", raw " << tr); REQ(samep(xo, xp, 100 * s), "contact point"); count("circle hits box"); } }
    { V2 u = normalize(b - a), v(-u[1], u[0]); double h1 = r.real(0.1, 1) * s, h2 = r.real(0.1, 1) * s; RO ro(d, u, v, h1, h2); UO uo(up(d), dv(u), dv(v), m(h1), m(h2)); ED(point_obb_distance(Q, uo), point_obb_distance(q, ro), len_t); EV(point_obb_distance_sqrd(Q, uo), point_obb_distance_sqrd(q, ro), area_t); ED(segment_obb_distance(T, uo, cm), segment_obb_distance(s2, ro, cr), len_t); EV(segment_obb_distance_sqrd(T, uo, cm), segment_obb_distance_sqrd(s2, ro, cr), area_t); }
}
GROUP(units_shapes, 8000, 300000) {
    Rng& r = c.rng; IPoly P = any_poly(r, 12); double k = r.pick(std::vector<double>{1, 0.5, 2, 0.125}); PG g = tpg(P, k); c.in("polygon", P); double sc = 0; for (auto& p : g) sc = std::max({sc, std::abs(p[0]), std::abs(p[1])}); I2 qi = r.p(0.3) ? r.pick(P) : I2{r.in((long)(-sc / k) - 1, (long)(sc / k) + 1), r.in((long)(-sc / k) - 1, (long)(sc / k) + 1)}; P2 q = tp(qi, k); c.in("point", qi); c.in("scale", k); ucmp cm = mk(1e-10); abs_cmp cr(1e-10); UG G = ug(g); UP Q = up(q);
    bool i1 = point_in_polygon(Q, G), i2 = point_in_polygon(q, g); int ex = in_poly(P, qi); REQ(i1 == i2, "point in polygon " << i1 << ", raw " << i2); if (ex) { REQ(i1 == (ex > 0), "point in polygon " << i1); count(ex > 0 ? "inside" : "outside"); }
    EP(point_polygon_closest_point(Q, G), point_polygon_closest_point(q, g)); EV(get_signed_area(G), get_signed_area(g), area_t);
    PL l(g.begin(), g.end()); UL L = ul(l); EP(point_polyline_closest_point(Q, L), point_polyline_closest_point(q, l));
}
GROUP(units_grids, 2500, 100000) {
    Rng& r = c.rng; double cs = r.pick(std::vector<double>{1, 0.5, 0.25, 2}), x0 = (double)r.in(-5, 5), y0 = (double)r.in(-5, 5), W = cs * (double)r.in(2, 24), H = cs * (double)r.in(2, 24), sc = 30; c.in("cell", cs); c.in("x0", x0); c.in("y0", y0); c.in("W", W); c.in("H", H);
    grid_traits<double> tr(x0, x0 + W, y0, y0 + H, cs); grid_traits<len_t> tu(m(x0), m(x0 + W), m(y0), m(y0 + H), m(cs)); REQ(tr.get_width() == tu.get_width() && tr.get_height() == tu.get_height(), "cells " << tu.get_width() << "x" << tu.get_height()); ucmp cm = mk(1e-10); abs_cmp cr(1e-10);
    for (int i = 0; i < 6; ++i) { P2 p(x0 + r.real(0, W), y0 + r.real(0, H)); c.in("p", p); REQ(tr.get_x_index(p[0]) == tu.get_x_index(m(p[0])) && tr.get_y_index(p[1]) == tu.get_y_index(m(p[1])), "cell of the point"); REQ((long)tu.get_x_index(m(p[0])) == (long)std::floor((p[0] - x0) / cs) && (long)tu.get_y_index(m(p[1])) == (long)std::floor((p[1] - y0) / cs), "cell index of the point"); auto i1 = tu.get_x_index(m(p[0])), j1 = tu.get_y_index(m(p[1])); EP(tu.get_cell_centroid(i1, j1), P2(x0 + cs * (i1 + .5), y0 + cs * (j1 + .5))); }
    P2 a(x0 + r.real(0.01, .99) * W, y0 + r.real(0.01, .99) * H), b(x0 + r.real(0.01, .99) * W, y0 + r.real(0.01, .99) * H); c.in("a", a); c.in("b", b); std::vector<std::pair<unsigned, unsigned>> c1, c2; fast_voxel_grid_traversal(tu, US(up(a), up(b)), [&](std::uint32_t i, std::uint32_t j) { c1.push_back({i, j}); }, cm); fast_voxel_grid_traversal(tr, S2(a, b), [&](std::uint32_t i, std::uint32_t j) { c2.push_back({i, j}); }, cr); REQ(c1 == c2, "cells along the segment: " << c1.size() << ", raw " << c2.size()); count("cells", (long)c1.size());
}
