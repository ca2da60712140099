#include "geo.hpp"
#include <boost/tuple/tuple.hpp>
#include <boost/fusion/include/boost_tuple.hpp>
#include <geometrix/tensor/numeric_sequence.hpp>
#include <geometrix/utility/member_function_fusion_adaptor.hpp>
#include <geometrix/tensor/tuple_vector_access_policy.hpp>
#include <geometrix/tensor/fusion_vector_access_policy.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/segment_intersection.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
typedef boost::tuple<int, double, float> tmi;
typedef boost::tuple<float, double> tmf;
GEOMETRIX_DEFINE_VECTOR_TRAITS(tmi, (int)(double)(float), 3, double, double, neutral_reference_frame_3d, geometrix::tuple_vector_access_policy<tmi>);
GEOMETRIX_DEFINE_POINT_TRAITS(tmf, (float)(double), 2, double, double, neutral_reference_frame_2d, geometrix::tuple_vector_access_policy<tmf>);
using namespace vt;
// Four ways a user may store coordinates, as points and as vectors, in two and three dimensions.
template <int K> struct MF2 { double first, second; MF2(double x = 0, double y = 0) : first(x), second(y) {} double& get_x() { return first; } double& get_y() { return second; } const double& get_x() const { return first; } const double& get_y() const { return second; } void set_x(const double& v) { first = v; } void set_y(const double& v) { second = v; } };
template <int K> struct MF3 { double c[3]; MF3(double x = 0, double y = 0, double z = 0) { c[0] = x; c[1] = y; c[2] = z; } double& get_x() { return c[0]; } double& get_y() { return c[1]; } double& get_z() { return c[2]; } const double& get_x() const { return c[0]; } const double& get_y() const { return c[1]; } const double& get_z() const { return c[2]; } void set_x(const double& v) { c[0] = v; } void set_y(const double& v) { c[1] = v; } void set_z(const double& v) { c[2] = v; } };
template <int K> struct TU2 : boost::tuple<double, double> { TU2(double x = 0, double y = 0) : boost::tuple<double, double>(x, y) {} };
template <int K> struct TU3 : boost::tuple<double, double, double> { TU3(double x = 0, double y = 0, double z = 0) : boost::tuple<double, double, double>(x, y, z) {} };
template <int K, int N> struct IX { std::vector<double> p; IX(double x = 0, double y = 0, double z = 0) : p(N) { p[0] = x; p[1] = y; if (N > 2) p[N - 1] = z; } const double& operator[](std::size_t i) const { return p.at(i); } double& operator[](std::size_t i) { return p.at(i); } };
template <int K, int N> struct FX { std::vector<double> p; FX(double x = 0, double y = 0, double z = 0) : p(N) { p[0] = x; p[1] = y; if (N > 2) p[N - 1] = z; } const double& operator[](std::size_t i) const { return p.at(i); } double& operator[](std::size_t i) { return p.at(i); } };
typedef MF2<0> mfp2; typedef MF2<1> mfv2; typedef MF3<0> mfp3; typedef MF3<1> mfv3; typedef TU2<0> tup2; typedef TU2<1> tuv2; typedef TU3<0> tup3; typedef TU3<1> tuv3; typedef IX<0, 2> ixp2; typedef IX<1, 2> ixv2; typedef IX<0, 3> ixp3; typedef IX<1, 3> ixv3; typedef FX<0, 2> fxp2; typedef FX<1, 2> fxv2; typedef FX<0, 3> fxp3; typedef FX<1, 3> fxv3;
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(mfp2, (double&, const double&, get_x, set_x)(double&, const double&, get_y, set_y));
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(mfv2, (double&, const double&, get_x, set_x)(double&, const double&, get_y, set_y));
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(mfp3, (double&, const double&, get_x, set_x)(double&, const double&, get_y, set_y)(double&, const double&, get_z, set_z));
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(mfv3, (double&, const double&, get_x, set_x)(double&, const double&, get_y, set_y)(double&, const double&, get_z, set_z));
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(tup2, double, get, 2);
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(tuv2, double, get, 2);
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(tup3, double, get, 3);
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(tuv3, double, get, 3);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(fxp2, double, 2);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(fxv2, double, 2);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(fxp3, double, 3);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(fxv3, double, 3);
#define CP2(T) namespace geometrix { template <> struct construction_policy<T> { static T construct(const double& x, const double& y) { return T(x, y); } template <typename S> static T construct(const S& s) { return T(geometrix::get<0>(s), geometrix::get<1>(s)); } }; }
#define CP3(T) namespace geometrix { template <> struct construction_policy<T> { static T construct(const double& x, const double& y, const double& z) { return T(x, y, z); } template <typename S> static T construct(const S& s) { return T(geometrix::get<0>(s), geometrix::get<1>(s), geometrix::get<2>(s)); } }; }
CP2(mfp2) CP2(mfv2) CP2(tup2) CP2(tuv2) CP2(ixp2) CP2(ixv2) CP2(fxp2) CP2(fxv2) CP3(mfp3) CP3(mfv3) CP3(tup3) CP3(tuv3) CP3(ixp3) CP3(ixv3) CP3(fxp3) CP3(fxv3)
#define AP2(T) namespace geometrix { template <> struct assignment_policy<T> { static void assign(T& t, const double& x, const double& y) { t = T(x, y); } template <typename S> static void assign(T& t, const S& s) { t = T(geometrix::get<0>(s), geometrix::get<1>(s)); } }; }
AP2(tup2) AP2(ixp2) AP2(fxp2)
GEOMETRIX_DEFINE_POINT_TRAITS(mfp2, (double), 2, double, double, neutral_reference_frame_2d, fusion_vector_member_function_access_policy<mfp2>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(mfv2, (double), 2, double, double, neutral_reference_frame_2d, fusion_vector_member_function_access_policy<mfv2>);
GEOMETRIX_DEFINE_POINT_TRAITS(mfp3, (double), 3, double, double, neutral_reference_frame_3d, fusion_vector_member_function_access_policy<mfp3>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(mfv3, (double), 3, double, double, neutral_reference_frame_3d, fusion_vector_member_function_access_policy<mfv3>);
GEOMETRIX_DEFINE_POINT_TRAITS(tup2, (double), 2, double, double, neutral_reference_frame_2d, tuple_vector_access_policy<tup2>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(tuv2, (double), 2, double, double, neutral_reference_frame_2d, tuple_vector_access_policy<tuv2>);
GEOMETRIX_DEFINE_POINT_TRAITS(tup3, (double), 3, double, double, neutral_reference_frame_3d, tuple_vector_access_policy<tup3>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(tuv3, (double), 3, double, double, neutral_reference_frame_3d, tuple_vector_access_policy<tuv3>);
GEOMETRIX_DEFINE_POINT_TRAITS(ixp2, (double), 2, double, double, neutral_reference_frame_2d, index_operator_vector_access_policy<ixp2>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(ixv2, (double), 2, double, double, neutral_reference_frame_2d, index_operator_vector_access_policy<ixv2>);
GEOMETRIX_DEFINE_POINT_TRAITS(ixp3, (double), 3, double, double, neutral_reference_frame_3d, index_operator_vector_access_policy<ixp3>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(ixv3, (double), 3, double, double, neutral_reference_frame_3d, index_operator_vector_access_policy<ixv3>);
GEOMETRIX_DEFINE_POINT_TRAITS(fxp2, (double), 2, double, double, neutral_reference_frame_2d, fusion_vector_access_policy<fxp2>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(fxv2, (double), 2, double, double, neutral_reference_frame_2d, fusion_vector_access_policy<fxv2>);
GEOMETRIX_DEFINE_POINT_TRAITS(fxp3, (double), 3, double, double, neutral_reference_frame_3d, fusion_vector_access_policy<fxp3>);
GEOMETRIX_DEFINE_VECTOR_TRAITS(fxv3, (double), 3, double, double, neutral_reference_frame_3d, fusion_vector_access_policy<fxv3>);
using namespace geometrix;
static double raw(const mfp2& p, int i) { return i ? p.second : p.first; } static double raw(const mfv2& p, int i) { return i ? p.second : p.first; } static double raw(const mfp3& p, int i) { return p.c[i]; } static double raw(const mfv3& p, int i) { return p.c[i]; }
static double raw(const tup2& p, int i) { return i ? boost::get<1>(p) : boost::get<0>(p); } static double raw(const tuv2& p, int i) { return i ? boost::get<1>(p) : boost::get<0>(p); } static double raw(const tup3& p, int i) { return i == 2 ? boost::get<2>(p) : i ? boost::get<1>(p) : boost::get<0>(p); } static double raw(const tuv3& p, int i) { return i == 2 ? boost::get<2>(p) : i ? boost::get<1>(p) : boost::get<0>(p); }
template <int K, int N> double raw(const IX<K, N>& p, int i) { return p.p[i]; } template <int K, int N> double raw(const FX<K, N>& p, int i) { return p.p[i]; } static double raw(const P2& p, int i) { return p[i]; } static double raw(const V2& p, int i) { return p[i]; } static double raw(const P3& p, int i) { return p[i]; } static double raw(const V3& p, int i) { return p[i]; }
template <typename T> T mk2(const double* c) { return construct<T>(c[0], c[1]); } template <typename T> T mk3(const double* c) { return construct<T>(c[0], c[1], c[2]); }
#define SAME2(what, got, x, y) do { const auto& g_ = (got); double x_ = (x), y_ = (y); REQ(close(raw(g_, 0), x_, 1e-13, 1e-13) && close(raw(g_, 1), y_, 1e-13, 1e-13), nm << ": " << what << " is (" << raw(g_, 0) << "," << raw(g_, 1) << "), expected (" << x_ << "," << y_ << ")"); } while (0)
#define SAME3(what, got, x, y, z) do { const auto& g_ = (got); double x_ = (x), y_ = (y), z_ = (z); REQ(close(raw(g_, 0), x_, 1e-13, 1e-13) && close(raw(g_, 1), y_, 1e-13, 1e-13) && close(raw(g_, 2), z_, 1e-13, 1e-13), nm << ": " << what << " is (" << raw(g_, 0) << "," << raw(g_, 1) << "," << raw(g_, 2) << "), expected (" << x_ << "," << y_ << "," << z_ << ")"); } while (0)
template <typename T> void setters(const char* nm, T c, const double (&a)[3], const double (&b)[3], int) { set<0>(c, a[0]); SAME2("set of x", c, a[0], b[1]); set<1>(c, a[1]); SAME2("set of y", c, a[0], a[1]); }
template <int K> void setters(const char*, MF2<K>, const double (&)[3], const double (&)[3], int) {} // storing through member functions does not compile in the library
template <typename T> void setters3(const char* nm, T c, const double (&a)[3], const double (&b)[3], int) { set<2>(c, a[2]); SAME3("set of z", c, b[0], b[1], a[2]); set<1>(c, a[1]); set<0>(c, a[0]); SAME3("set of all", c, a[0], a[1], a[2]); }
template <int K> void setters3(const char*, MF3<K>, const double (&)[3], const double (&)[3], int) {}
template <int K> void setters(const char*, FX<K, 2>, const double (&)[3], const double (&)[3], int) {}
template <int K> void setters3(const char*, FX<K, 3>, const double (&)[3], const double (&)[3], int) {}
// a, b: points (two kinds), u: displacement
template <typename A, typename B, typename U> void two(const char* nm, const double (&a)[3], const double (&b)[3], const double (&u)[3], double t) {
    A p = mk2<A>(a); B q = mk2<B>(b); U v = mk2<U>(u); SAME2("constructed point", p, a[0], a[1]); SAME2("constructed vector", v, u[0], u[1]);
    REQ(get<0>(p) == a[0] && get<1>(p) == a[1] && get<0>(v) == u[0] && get<1>(v) == u[1], nm << ": coordinates read back"); A c = construct<A>(q); SAME2("point constructed from another kind", c, b[0], b[1]);
    setters(nm, c, a, b, 0); A cc = construct<A>(q); c <<= cc; SAME2("assigned from the same kind", c, b[0], b[1]);
    U d = construct<U>(q - p); SAME2("difference of points", d, b[0] - a[0], b[1] - a[1]); A e = construct<A>(p + t * v); SAME2("displaced point", e, a[0] + t * u[0], a[1] + t * u[1]); e <<= q - v * t; SAME2("displaced back", e, b[0] - t * u[0], b[1] - t * u[1]); U f = construct<U>((v + d) / 2.0 - v); SAME2("vector expression", f, (u[0] + raw(d, 0)) / 2 - u[0], (u[1] + raw(d, 1)) / 2 - u[1]);
    REQ(close(dot_product(v, q - p), u[0] * (b[0] - a[0]) + u[1] * (b[1] - a[1]), 1e-12, 1e-12), nm << ": dot product"); REQ(close(exterior_product_area(v, q - p), u[0] * (b[1] - a[1]) - u[1] * (b[0] - a[0]), 1e-12, 1e-11), nm << ": exterior product"); REQ(close(magnitude(v), std::hypot(u[0], u[1]), 1e-13, 1e-300), nm << ": magnitude"); if (std::hypot(u[0], u[1]) > 1e-3) { U n = construct<U>(normalize(v)); double m = std::hypot(u[0], u[1]); SAME2("unit vector", n, u[0] / m, u[1] / m); }
    REQ(close(point_point_distance(p, q), std::hypot(b[0] - a[0], b[1] - a[1]), 1e-12, 1e-300), nm << ": distance");
}
template <typename A, typename B, typename U> void three(const char* nm, const double (&a)[3], const double (&b)[3], const double (&u)[3], double t) {
    A p = mk3<A>(a); B q = mk3<B>(b); U v = mk3<U>(u); SAME3("constructed point", p, a[0], a[1], a[2]); SAME3("constructed vector", v, u[0], u[1], u[2]); REQ(get<0>(p) == a[0] && get<1>(p) == a[1] && get<2>(p) == a[2] && get<2>(v) == u[2], nm << ": coordinates read back");
    A c = construct<A>(q); SAME3("point constructed from another kind", c, b[0], b[1], b[2]); setters3(nm, c, a, b, 0); A cc = construct<A>(q); c <<= cc; SAME3("assigned from the same kind", c, b[0], b[1], b[2]);
    U d = construct<U>(q - p); SAME3("difference of points", d, b[0] - a[0], b[1] - a[1], b[2] - a[2]); A e = construct<A>(p + t * v); SAME3("displaced point", e, a[0] + t * u[0], a[1] + t * u[1], a[2] + t * u[2]);
    REQ(close(dot_product(v, q - p), u[0] * (b[0] - a[0]) + u[1] * (b[1] - a[1]) + u[2] * (b[2] - a[2]), 1e-12, 1e-11), nm << ": dot product"); U x = construct<U>(v ^ d); SAME3("cross product", x, u[1] * raw(d, 2) - u[2] * raw(d, 1), u[2] * raw(d, 0) - u[0] * raw(d, 2), u[0] * raw(d, 1) - u[1] * raw(d, 0));
    REQ(close(magnitude(v), std::sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]), 1e-13, 1e-300), nm << ": magnitude"); REQ(close(point_point_distance(p, q), std::sqrt(std::pow(b[0] - a[0], 2) + std::pow(b[1] - a[1], 2) + std::pow(b[2] - a[2], 2)), 1e-12, 1e-300), nm << ": distance");
}
GROUP(planar, 20000, 2000000) {
    Rng& r = c.rng; double a[3], b[3], u[3]; double s = r.pick(std::vector<double>{1, 10, 0.01}); for (int i = 0; i < 3; ++i) { a[i] = r.real(-1, 1) * s; b[i] = r.real(-1, 1) * s; u[i] = r.real(-1, 1) * s; } double t = r.real(-2, 2); c.in("p", std::vector<double>(a, a + 2)); c.in("q", std::vector<double>(b, b + 2)); c.in("v", std::vector<double>(u, u + 2));
    two<mfp2, tup2, ixv2>("members/tuple/index", a, b, u, t); two<tup2, ixp2, mfv2>("tuple/index/members", a, b, u, t); two<ixp2, fxp2, tuv2>("index/sequence/tuple", a, b, u, t); two<fxp2, P2, fxv2>("sequence/library/sequence", a, b, u, t); two<P2, mfp2, V2>("library/members/library", a, b, u, t); two<mfp2, mfp2, mfv2>("members", a, b, u, t); two<ixp2, P2, V2>("index/library", a, b, u, t);
    count("planar kinds", 7);
}
GROUP(spatial, 20000, 2000000) {
    Rng& r = c.rng; double a[3], b[3], u[3]; double s = r.pick(std::vector<double>{1, 10, 0.01}); for (int i = 0; i < 3; ++i) { a[i] = r.real(-1, 1) * s; b[i] = r.real(-1, 1) * s; u[i] = r.real(-1, 1) * s; } double t = r.real(-2, 2); c.in("p", std::vector<double>(a, a + 3)); c.in("q", std::vector<double>(b, b + 3)); c.in("v", std::vector<double>(u, u + 3));
    three<mfp3, tup3, ixv3>("members/tuple/index", a, b, u, t); three<tup3, ixp3, mfv3>("tuple/index/members", a, b, u, t); three<ixp3, fxp3, tuv3>("index/sequence/tuple", a, b, u, t); three<fxp3, P3, fxv3>("sequence/library/sequence", a, b, u, t); three<P3, mfp3, V3>("library/members/library", a, b, u, t);
    count("spatial kinds", 5);
}
// Algorithms over the user's points give what they give over the library's.
template <typename A, typename B> void algos(const char* nm, const IPoly& P, const I2 (&s)[4], const I2& q, double k) {
    auto cm = abs_cmp(1e-10); auto ca = [&](const I2& p) { return construct<A>((double)p.x * k, (double)p.y * k); }; auto cb = [&](const I2& p) { return construct<B>((double)p.x * k, (double)p.y * k); };
    A a = ca(s[0]), b = ca(s[1]); B c = cb(s[2]), d = cb(s[3]); int o = orient(s[0], s[1], s[2]); auto og = get_orientation(a, b, c, cm); REQ(og == (o > 0 ? oriented_left : o < 0 ? oriented_right : oriented_collinear), nm << ": orientation");
    segment<A> sa(a, b); L2 la = lp(tp(s[0], k)), lb = lp(tp(s[1], k)), lc = lp(tp(s[2], k)), ld_ = lp(tp(s[3], k)); if (!(s[0] == s[1])) { double g = point_segment_distance(c, sa); REQ(close(g, (double)dist_ps(lc, la, lb), 1e-10, 1e-11 * k), nm << ": point-segment distance " << g); }
    if (!(s[0] == s[1]) && !(s[2] == s[3])) { double g = segment_segment_distance(sa, segment<A>(ca(s[2]), ca(s[3])), cm); REQ(close(g, (double)dist_ss(la, lb, lc, ld_), 1e-10, 1e-9 * k), nm << ": segment-segment distance " << g); A x[2]; auto t = segment_segment_intersection(a, b, ca(s[2]), ca(s[3]), x, cm); bool meet = segs_meet(s[0], s[1], s[2], s[3]); REQ((t != e_non_crossing && t != e_invalid_intersection) == meet, nm << ": segments " << (meet ? "meet" : "do not meet") << ", reported " << (int)t);
        if (meet && t == e_crossing) { L2 h{(ld)raw(x[0], 0), (ld)raw(x[0], 1)}; REQ(dist_ps(h, la, lb) <= 1e-9L * k && dist_ps(h, lc, ld_) <= 1e-9L * k, nm << ": crossing point"); } }
    polygon<A> g; for (auto& p : P) g.push_back(ca(p)); int in = in_poly(P, q); if (in != 0) REQ(point_in_polygon(ca(q), g) == (in > 0), nm << ": point in polygon"); REQ(close((double)get_area(g), (double)area2(P) * 0.5 * k * k, 1e-12, 1e-12), nm << ": polygon area");
    count("algorithm runs");
}
GROUP(algorithms, 20000, 1000000) {
    Rng& r = c.rng; IPoly P = any_poly(r, 9); if (P.size() < 3) SKIP_CASE(); if (area2(P) < 0) std::reverse(P.begin(), P.end()); I2 s[4]; for (auto& p : s) p = rpt(r, (int)r.pick(std::vector<long>{4, 12})); if (r.p(0.2)) s[3] = s[1]; if (s[0] == s[1] || s[2] == s[3]) SKIP_CASE(); I2 q = rpt(r, 14); double k = r.pick(std::vector<double>{1, 0.25, 8}); c.in("polygon", P); c.in("segments", std::vector<I2>(s, s + 4)); c.in("q", q); c.in("scale", k);
    algos<tup2, ixp2>("tuple/index", P, s, q, k); algos<ixp2, fxp2>("index/sequence", P, s, q, k); algos<fxp2, P2>("sequence/library", P, s, q, k); algos<P2, tup2>("library/tuple", P, s, q, k); algos<ixp2, P2>("index/library", P, s, q, k);
}
GROUP(mixed_tuples, 20000, 1000000) { // tuples whose components have different types; nothing may be rounded to another component's type
    Rng& r = c.rng; auto q16 = [&] { return r.in(-40, 40) + r.in(0, 15) * 0.0625; }; double p[3] = {(double)r.in(-40, 40), q16(), q16()}, q[3] = {(double)r.in(-40, 40), q16(), q16()}; if (r.p(0.1)) for (int i = 0; i < 3; ++i) q[i] = p[i]; double k = r.in(-12, 12) * 0.25; if (k == 0) k = 1.5; for (int i = 0; i < 3; ++i) { c.in("a", p[i]); c.in("b", q[i]); } c.in("k", k); tmi a((int)p[0], p[1], (float)p[2]), b((int)q[0], q[1], (float)q[2]);
    auto chk = [](double x, double y, double z, double u, double v, double w, const char* what) { REQ(vt::close(x, u, 1e-12, 1e-9) && vt::close(y, v, 1e-12, 1e-9) && vt::close(z, w, 1e-12, 1e-9), what << " is (" << x << ' ' << y << ' ' << z << ") instead of (" << u << ' ' << v << ' ' << w << ')'); };
    V3 v; v <<= a + b; chk(v[0], v[1], v[2], p[0] + q[0], p[1] + q[1], p[2] + q[2], "the sum"); v <<= a - b; chk(v[0], v[1], v[2], p[0] - q[0], p[1] - q[1], p[2] - q[2], "the difference"); v <<= a * k; chk(v[0], v[1], v[2], p[0] * k, p[1] * k, p[2] * k, "the multiple"); v <<= k * a; chk(v[0], v[1], v[2], p[0] * k, p[1] * k, p[2] * k, "the multiple from the left"); v <<= a / k; chk(v[0], v[1], v[2], p[0] / k, p[1] / k, p[2] / k, "the quotient"); v <<= -a; chk(v[0], v[1], v[2], -p[0], -p[1], -p[2], "the negation"); v <<= a ^ b; chk(v[0], v[1], v[2], p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0], "the cross product"); double d = p[0] * q[0] + p[1] * q[1] + p[2] * q[2]; REQ(vt::close((double)dot_product(a, b), d, 1e-12, 1e-9), "dot product " << (double)dot_product(a, b) << " instead of " << d);
    absolute_tolerance_comparison_policy<double> cmp(1e-9); REQ(numeric_sequence_equals(a, b, cmp) == (p[0] == q[0] && p[1] == q[1] && p[2] == q[2]), "equality"); tmi f = construct<tmi>((int)q[0], q[1], (float)q[2]); chk(get<0>(f), get<1>(f), get<2>(f), q[0], q[1], q[2], "the constructed tuple"); switch (r.in(0, 2)) { case 0: set<0>(a, (int)q[0]); p[0] = q[0]; break; case 1: set<1>(a, q[1]); p[1] = q[1]; break; default: set<2>(a, (float)q[2]); p[2] = q[2]; } chk(get<0>(a), get<1>(a), get<2>(a), p[0], p[1], p[2], "after setting one component, the tuple");
    double x0 = p[1], y0 = p[2] * 0.5, x1 = q[1], y1 = q[2] / 3; tmf m((float)x0, y0), n((float)x1, y1); V2 w; w <<= m - n; REQ(vt::close(w[0], x0 - x1, 1e-12, 1e-9) && vt::close(w[1], y0 - y1, 1e-12, 1e-9), "the difference of points is " << w[0] << ' ' << w[1]); P2 e; e <<= m + (n - m); REQ(vt::close(e[0], x1, 1e-12, 1e-9) && vt::close(e[1], y1, 1e-12, 1e-9), "the moved point is " << e[0] << ' ' << e[1]); double D = point_point_distance(m, n), W = std::sqrt((x0 - x1) * (x0 - x1) + (y0 - y1) * (y0 - y1)); REQ(vt::close(D, W, 1e-9, 1e-9), "the distance is " << D << " instead of " << W); set<1>(m, y1); REQ(get<1>(m) == y1 && get<0>(m) == (float)x0, "setting the double component of the point"); count(x0 == x1 && y0 == y1 ? "same" : "different"); }
