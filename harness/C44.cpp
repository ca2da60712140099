#include "geo.hpp"
#include <geometrix/tensor/homogeneous_adaptor.hpp>
#include <geometrix/tensor/fusion_matrix.hpp>
#include <geometrix/tensor/fusion_vector.hpp>
#include <geometrix/tensor/identity_matrix.hpp>
#include <geometrix/arithmetic/tensor_function.hpp>
#include <geometrix/numeric/fixed_point.hpp>
#include <geometrix/numeric/boost_units_quantity.hpp>
#include <geometrix/numeric/boost_units_quantity_fixed_point.hpp>
#include <boost/units/systems/si.hpp>
#include <boost/units/cmath.hpp>
// Structures whose components have different types (plain structs registered by the library's macros) against scalar arithmetic on the components.
using namespace geometrix;
using len = boost::units::quantity<boost::units::si::length, double>;
using area_q = boost::units::quantity<boost::units::si::area, double>;
GEOMETRIX_FUSION_POD_VECTOR(mix3, (double)(float)(int), double, geometrix::neutral_reference_frame_3d)
GEOMETRIX_FUSION_POD_VECTOR(mixi, (int)(double)(float), double, geometrix::neutral_reference_frame_3d)
GEOMETRIX_FUSION_POD_VECTOR(mixf, (float)(int)(double), double, geometrix::neutral_reference_frame_3d)
GEOMETRIX_FUSION_POD_MATRIX(mi22, ((int, double))((float, double)), 2, 2)
GEOMETRIX_FUSION_POD_VECTOR(len3, (len)(len)(len), double, geometrix::neutral_reference_frame_3d)
GEOMETRIX_FUSION_POD_VECTOR(area3, (area_q)(area_q)(area_q), double, geometrix::neutral_reference_frame_3d)
GEOMETRIX_FUSION_POD_MATRIX(m23, ((double, int, float))((long, double, double)), 2, 3)
GEOMETRIX_FUSION_POD_MATRIX(m32, ((double, int))((long, double))((float, double)), 3, 2)
GEOMETRIX_FUSION_POD_MATRIX(m33, ((double, int, long))((long, double, float))((float, double, int)), 3, 3)
GEOMETRIX_FUSION_POD_MATRIX(fun22, ((geometrix::tensor_functions::abs, geometrix::tensor_functions::sin))((geometrix::tensor_functions::cos, geometrix::tensor_functions::floor)), 2, 2)
GEOMETRIX_FUSION_POD_MATRIX(fun22b, ((geometrix::tensor_functions::ceil, geometrix::tensor_functions::atan))((geometrix::tensor_functions::tan, geometrix::tensor_functions::abs)), 2, 2)
using namespace vt;
typedef std::array<ld, 3> A3;
static A3 num(Rng& r) { A3 a; for (auto& x : a) x = r.p(0.15) ? 0 : (ld)r.in(-40, 40); if (r.p(0.6)) { a[0] += r.in(-3, 3) * 0.25L; a[1] += r.in(-3, 3) * 0.5L; } return a; }
static mix3 mk(const A3& a) { mix3 m = {(double)a[0], (float)a[1], (int)a[2]}; return m; }
static A3 of(const mix3& m) { return A3{{(ld)get<0>(m), (ld)get<1>(m), (ld)get<2>(m)}}; }
static A3 of(const V3& m) { return A3{{m[0], m[1], m[2]}}; }
static std::string str3(const A3& a) { std::ostringstream o; o << '(' << (double)a[0] << ' ' << (double)a[1] << ' ' << (double)a[2] << ')'; return o.str(); }
static bool near3(const A3& a, const A3& b, ld t) { for (int i = 0; i < 3; ++i) if (!(std::fabs((double)(a[i] - b[i])) <= t * (1 + std::fabs((double)b[i])))) return false; return true; }
template <class F> static A3 each(const A3& a, const A3& b, F f) { return A3{{f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])}}; }
#define SAME3(G, W, WHAT) do { A3 g_ = (G), w_ = (W); REQ(near3(g_, w_, 1e-12L), WHAT << " is " << str3(g_) << " instead of " << str3(w_)); } while (0)
GROUP(vectors, 30000, 1500000) {
    Rng& r = c.rng; A3 p = num(r), q = num(r); if (r.p(0.1)) q = p; else if (r.p(0.1)) for (int i = 0; i < 3; ++i) q[i] = 2 * p[i]; if (r.p(0.05)) { q = p; q[r.in(0, 2)] += 1; } mix3 a = mk(p), b = mk(q); double k = r.in(-12, 12) * 0.25; if (k == 0) k = 1.5; c.in("a", str3(p)); c.in("b", str3(q)); c.in("k", k); SAME3(of(a), p, "the structure"); if (p == A3{{0, 0, 0}}) c.trivial();
    auto pl = [](ld x, ld y) { return x + y; }; auto mi = [](ld x, ld y) { return x - y; }; V3 v; v <<= a + b; SAME3(of(v), each(p, q, pl), "the sum"); v <<= a - b; SAME3(of(v), each(p, q, mi), "the difference"); mix3 z = mk(q); z <<= a + b; SAME3(of(z), each(p, q, pl), "the sum stored in the structure"); z <<= a - b; SAME3(of(z), each(p, q, mi), "the difference stored in the structure");
    v <<= a * k; SAME3(of(v), (each(p, q, [k](ld x, ld) { return x * k; })), "the multiple"); v <<= k * a; SAME3(of(v), (each(p, q, [k](ld x, ld) { return x * k; })), "the multiple from the left"); v <<= a / k; SAME3(of(v), (each(p, q, [k](ld x, ld) { return x / k; })), "the quotient"); v <<= -a; SAME3(of(v), (each(p, q, [](ld x, ld) { return -x; })), "the negation"); v <<= (a + b) * k - a / 2.0; SAME3(of(v), (each(p, q, [k](ld x, ld y) { return (x + y) * k - x / 2; })), "a compound expression");
    ld d = p[0] * q[0] + p[1] * q[1] + p[2] * q[2]; REQ(vt::close((double)dot_product(a, b), (double)d, 1e-12, 1e-9), "dot product " << (double)dot_product(a, b) << " instead of " << (double)d); double s = 0; s <<= a * b; REQ(vt::close(s, (double)d, 1e-12, 1e-9), "assigned dot product " << s); A3 x{{p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]}}; v <<= a ^ b; SAME3(of(v), x, "the cross product"); REQ(vt::close((double)magnitude(a), std::sqrt((double)(p[0] * p[0] + p[1] * p[1] + p[2] * p[2])), 1e-6, 1e-9), "magnitude " << (double)magnitude(a));
    V3 w((double)q[0], (double)q[1], (double)q[2]); v <<= a + w; SAME3(of(v), each(p, q, pl), "the sum with a library vector"); v <<= w - a; SAME3(of(v), each(q, p, mi), "the difference from a library vector"); REQ(vt::close((double)dot_product(w, a), (double)d, 1e-12, 1e-9), "mixed dot product"); v <<= w ^ a; SAME3(of(v), (each(x, x, [](ld t, ld) { return -t; })), "the mixed cross product");
    absolute_tolerance_comparison_policy<double> cmp(1e-9); REQ(numeric_sequence_equals(a, b, cmp) == (p == q), "equality with " << str3(q)); REQ(numeric_sequence_equals(a, mk(p), cmp), "a structure differs from its copy"); mix3 f = construct<mix3>((double)q[0], (float)q[1], (int)q[2]); SAME3(of(f), q, "the constructed structure");
    A3 u = p; switch (r.in(0, 2)) { case 0: set<0>(a, (double)q[0]); u[0] = q[0]; break; case 1: set<1>(a, (float)q[1]); u[1] = q[1]; break; default: set<2>(a, (int)q[2]); u[2] = q[2]; } SAME3(of(a), u, "after setting one component, the structure"); count(p == q ? "equal" : "different"); if (x == A3{{0, 0, 0}}) count("parallel");
    a = mk(p); using boost::units::si::meters; len3 l = {(double)p[0] * meters, (double)p[1] * meters, (double)p[2] * meters}, m = {(double)q[0] * meters, (double)q[1] * meters, (double)q[2] * meters}; auto raw = [](const len3& t) { return A3{{get<0>(t).value(), get<1>(t).value(), get<2>(t).value()}}; }; len3 t; t <<= l + m; SAME3(raw(t), each(p, q, pl), "the sum of lengths"); t <<= l - m; SAME3(raw(t), each(p, q, mi), "the difference of lengths"); t <<= l * k; SAME3(raw(t), (each(p, q, [k](ld x, ld) { return x * k; })), "the multiple of lengths"); area_q dd = dot_product(l, m); REQ(vt::close(dd.value(), (double)d, 1e-12, 1e-9), "the dot product of lengths is " << dd.value()); area3 cr; cr <<= l ^ m; SAME3((A3{{get<0>(cr).value(), get<1>(cr).value(), get<2>(cr).value()}}), x, "the cross product of lengths"); len mg = magnitude(l); REQ(vt::close(mg.value(), std::sqrt((double)(p[0] * p[0] + p[1] * p[1] + p[2] * p[2])), 1e-12, 1e-9), "the magnitude of lengths is " << mg.value()); }
template <class M, class A, class B, class C> static void whole_first(Case& c, int ip) { // component ip is an int; nothing may be rounded to another component's type
    Rng& r = c.rng; auto gen = [&] { A3 a; for (int i = 0; i < 3; ++i) a[i] = i == ip ? (ld)r.in(-40, 40) : (ld)r.in(-40, 40) + r.in(0, 15) * 0.0625L; return a; }; A3 p = gen(), q = gen(); if (r.p(0.1)) q = p; double k = r.in(-12, 12) * 0.25; if (k == 0) k = 1.5; c.in("a", str3(p)); c.in("b", str3(q)); c.in("k", k); auto mkm = [](const A3& a) { M m = {(A)a[0], (B)a[1], (C)a[2]}; return m; }; auto ofm = [](const M& m) { return A3{{(ld)get<0>(m), (ld)get<1>(m), (ld)get<2>(m)}}; }; M a = mkm(p), b = mkm(q); SAME3(ofm(a), p, "the structure"); V3 v;
    auto pl = [](ld x, ld y) { return x + y; }; auto mi = [](ld x, ld y) { return x - y; }; v <<= a + b; SAME3(of(v), each(p, q, pl), "the sum"); v <<= a - b; SAME3(of(v), each(p, q, mi), "the difference"); M z = mkm(q); z <<= a + b; SAME3(ofm(z), each(p, q, pl), "the sum stored in the structure"); z <<= a - b; SAME3(ofm(z), each(p, q, mi), "the difference stored in the structure"); v <<= a * k; SAME3(of(v), (each(p, q, [k](ld x, ld) { return x * k; })), "the multiple"); v <<= k * a; SAME3(of(v), (each(p, q, [k](ld x, ld) { return x * k; })), "the multiple from the left"); v <<= a / k; SAME3(of(v), (each(p, q, [k](ld x, ld) { return x / k; })), "the quotient"); v <<= -a; SAME3(of(v), (each(p, q, [](ld x, ld) { return -x; })), "the negation");
    ld d = p[0] * q[0] + p[1] * q[1] + p[2] * q[2]; REQ(vt::close((double)dot_product(a, b), (double)d, 1e-12, 1e-9), "dot product " << (double)dot_product(a, b) << " instead of " << (double)d); v <<= a ^ b; SAME3(of(v), (A3{{p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]}}), "the cross product");
    M f = construct<M>((A)q[0], (B)q[1], (C)q[2]); SAME3(ofm(f), q, "the constructed structure"); A3 u = p; switch (r.in(0, 2)) { case 0: set<0>(a, (A)q[0]); u[0] = q[0]; break; case 1: set<1>(a, (B)q[1]); u[1] = q[1]; break; default: set<2>(a, (C)q[2]); u[2] = q[2]; } SAME3(ofm(a), u, "after setting one component, the structure"); absolute_tolerance_comparison_policy<double> cmp(1e-9); REQ(numeric_sequence_equals(b, mkm(q), cmp), "a structure differs from its copy"); REQ(numeric_sequence_equals(mkm(p), b, cmp) == (p == q), "equality"); }
GROUP(whole_first, 20000, 800000) { if (c.index % 2) { count("int first"); whole_first<mixi, int, double, float>(c, 0); } else { count("int second"); whole_first<mixf, float, int, double>(c, 1); } }
GROUP(whole_first_matrix, 10000, 400000) { Rng& r = c.rng; ld e[2][2]; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) e[i][j] = r.in(-20, 20) + (i + j ? r.in(0, 15) * 0.0625L : 0); mi22 m = {{(int)e[0][0], (double)e[0][1]}, {(float)e[1][0], (double)e[1][1]}}; double n = r.in(-30, 30) + r.in(0, 15) * 0.0625; int at = (int)r.in(0, 3); c.in("element", at); c.in("value", n); for (auto& x : e) for (ld y : x) c.in("entry", (double)y); switch (at) { case 0: set<0, 0>(m, (int)std::floor(n)); e[0][0] = std::floor(n); break; case 1: set<0, 1>(m, n); e[0][1] = n; break; case 2: set<1, 0>(m, (float)n); e[1][0] = n; break; default: set<1, 1>(m, n); e[1][1] = n; } REQ((get<0, 0>(m) == e[0][0] && get<0, 1>(m) == e[0][1] && get<1, 0>(m) == e[1][0] && get<1, 1>(m) == e[1][1]), "after setting element " << at << ", some element is wrong");
    matrix<double, 2, 2> q; q <<= m * m; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) REQ(vt::close(q[i][j], (double)(e[i][0] * e[0][j] + e[i][1] * e[1][j]), 1e-12, 1e-9), "the square at " << i << ',' << j << " is " << q[i][j]); V2 v{n, 1 - n}, w; w <<= m * v; for (int i = 0; i < 2; ++i) REQ(vt::close(w[i], (double)(e[i][0] * n + e[i][1] * (1 - n)), 1e-12, 1e-9), "the image at " << i << " is " << w[i]); row<mi22, 0> ro(m); column<mi22, 1> co(m); REQ(get<0>(ro) == e[0][0] && get<1>(ro) == e[0][1] && get<0>(co) == e[0][1] && get<1>(co) == e[1][1], "the row or column"); }
struct Mx { int R, C; ld v[3][3]; };
static Mx mul(const Mx& a, const Mx& b) { Mx o{a.R, b.C, {}}; for (int i = 0; i < a.R; ++i) for (int j = 0; j < b.C; ++j) for (int k = 0; k < a.C; ++k) o.v[i][j] += a.v[i][k] * b.v[k][j]; return o; }
static std::string strm(const Mx& a) { std::ostringstream o; for (int i = 0; i < a.R; ++i) { o << (i ? ";" : "["); for (int j = 0; j < a.C; ++j) o << ' ' << (double)a.v[i][j]; } o << " ]"; return o.str(); }
template <std::size_t R, std::size_t C> static Mx of(const matrix<double, R, C>& m) { Mx o{R, C, {}}; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) o.v[i][j] = m[i][j]; return o; }
static Mx of(const m23& m) { Mx o{2, 3, {}}; o.v[0][0] = get<0, 0>(m); o.v[0][1] = get<0, 1>(m); o.v[0][2] = get<0, 2>(m); o.v[1][0] = get<1, 0>(m); o.v[1][1] = get<1, 1>(m); o.v[1][2] = get<1, 2>(m); return o; }
static bool nearm(const Mx& a, const Mx& b, ld t) { if (a.R != b.R || a.C != b.C) return false; for (int i = 0; i < a.R; ++i) for (int j = 0; j < a.C; ++j) if (!(std::fabs((double)(a.v[i][j] - b.v[i][j])) <= t * (1 + std::fabs((double)b.v[i][j])))) return false; return true; }
static Mx rnd(Rng& r, int R, int C) { Mx m{R, C, {}}; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) m.v[i][j] = r.p(0.15) ? 0 : (ld)r.in(-20, 20); return m; }
#define SAMEM(G, W, WHAT) do { Mx g_ = (G), w_ = (W); REQ(nearm(g_, w_, 1e-11L), WHAT << " is " << strm(g_) << " instead of " << strm(w_)); } while (0)
GROUP(matrices, 20000, 1000000) {
    Rng& r = c.rng; Mx A = rnd(r, 2, 3), B = rnd(r, 3, 2), S = rnd(r, 3, 3), D = rnd(r, 2, 3); A.v[0][0] += 0.25L * r.in(0, 3); B.v[1][1] += 0.5L * r.in(0, 1); c.in("A", strm(A)); c.in("B", strm(B)); c.in("S", strm(S)); c.in("D", strm(D));
    m23 a = {{(double)A.v[0][0], (int)A.v[0][1], (float)A.v[0][2]}, {(long)A.v[1][0], (double)A.v[1][1], (double)A.v[1][2]}}, d = {{(double)D.v[0][0], (int)D.v[0][1], (float)D.v[0][2]}, {(long)D.v[1][0], (double)D.v[1][1], (double)D.v[1][2]}}; m32 b = {{(double)B.v[0][0], (int)B.v[0][1]}, {(long)B.v[1][0], (double)B.v[1][1]}, {(float)B.v[2][0], (double)B.v[2][1]}}; m33 s = {{(double)S.v[0][0], (int)S.v[0][1], (long)S.v[0][2]}, {(long)S.v[1][0], (double)S.v[1][1], (float)S.v[1][2]}, {(float)S.v[2][0], (double)S.v[2][1], (int)S.v[2][2]}}; SAMEM(of(a), A, "the structure");
    matrix<double, 2, 2> p; p <<= a * b; SAMEM(of(p), mul(A, B), "the product"); matrix<double, 3, 3> q; q <<= b * a; SAMEM(of(q), mul(B, A), "the outer product"); q <<= s * s; SAMEM(of(q), mul(S, S), "the square"); matrix<double, 2, 3> t; t <<= a * s; SAMEM(of(t), mul(A, S), "the product with a square one"); t <<= a + d; Mx W = A; for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) W.v[i][j] += D.v[i][j]; SAMEM(of(t), W, "the sum"); t <<= a - d; for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) W.v[i][j] = A.v[i][j] - D.v[i][j]; SAMEM(of(t), W, "the difference"); matrix<double, 3, 2> u; u <<= transpose(a); Mx T{3, 2, {}}; for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) T.v[j][i] = A.v[i][j]; SAMEM(of(u), T, "the transpose");
    A3 x = num(r); V3 v((double)x[0], (double)x[1], (double)x[2]); c.in("x", str3(x)); V2 w; w <<= a * v; for (int i = 0; i < 2; ++i) { ld e = A.v[i][0] * x[0] + A.v[i][1] * x[1] + A.v[i][2] * x[2]; REQ(vt::close(w[i], (double)e, 1e-12, 1e-9), "component " << i << " of the image is " << w[i] << " instead of " << (double)e); } mix3 mx = mk(x); w <<= a * mx; for (int i = 0; i < 2; ++i) { ld e = A.v[i][0] * x[0] + A.v[i][1] * x[1] + A.v[i][2] * x[2]; REQ(vt::close(w[i], (double)e, 1e-12, 1e-9), "component " << i << " of the image of a structure is " << w[i] << " instead of " << (double)e); } V3 y; y <<= s * v; for (int i = 0; i < 3; ++i) { ld e = S.v[i][0] * x[0] + S.v[i][1] * x[1] + S.v[i][2] * x[2]; REQ(vt::close(y[i], (double)e, 1e-12, 1e-9), "component " << i << " of the square image is " << y[i] << " instead of " << (double)e); }
    ld det = S.v[0][0] * (S.v[1][1] * S.v[2][2] - S.v[1][2] * S.v[2][1]) - S.v[0][1] * (S.v[1][0] * S.v[2][2] - S.v[1][2] * S.v[2][0]) + S.v[0][2] * (S.v[1][0] * S.v[2][1] - S.v[1][1] * S.v[2][0]); double dd = determinant(s); REQ(vt::close(dd, (double)det, 1e-10, 1e-7), "the determinant is " << dd << " instead of " << (double)det); REQ(trace(s) == (double)(S.v[0][0] + S.v[1][1] + S.v[2][2]), "the trace is " << trace(s)); if (std::fabs((double)det) > 50) { q <<= inverse(s); Mx I = mul(of(q), S); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) REQ(std::fabs((double)(I.v[i][j] - (i == j))) < 1e-7, "the inverse times the matrix is " << strm(I)); count("inverted"); }
    row<m23, 1> ro(a); column<m23, 2> co(a); REQ(get<0>(ro) == A.v[1][0] && get<1>(ro) == A.v[1][1] && get<2>(ro) == A.v[1][2], "the second row"); REQ(get<0>(co) == A.v[0][2] && get<1>(co) == A.v[1][2], "the third column"); Mx E = A; long nv = r.in(-50, 50); if (r.p(0.5)) { set<1, 0>(a, nv); E.v[1][0] = nv; } else { set<0, 1>(a, (int)nv); E.v[0][1] = nv; } SAMEM(of(a), E, "after setting one element, the structure"); }
GROUP(functions, 10000, 300000) {
    Rng& r = c.rng; double x = r.p(0.3) ? r.in(-9, 9) : r.real(-60, 60), y = r.p(0.3) ? r.in(-9, 9) : r.real(-60, 60); c.in("x", x); c.in("y", y); if (std::fabs(std::cos(x)) < 1e-3) SKIP_CASE(); fun22 f; fun22b g; V2 v{x, y}, w; w <<= f * v; REQ(vt::close(w[0], std::fabs(x) + std::sin(y), 1e-12, 1e-12) && vt::close(w[1], std::cos(x) + std::floor(y), 1e-12, 1e-12), "abs, sin; cos, floor give " << w[0] << ' ' << w[1]); w <<= g * v; REQ(vt::close(w[0], std::ceil(x) + std::atan(y), 1e-12, 1e-12) && vt::close(w[1], std::tan(x) + std::fabs(y), 1e-12, 1e-12), "ceil, atan; tan, abs give " << w[0] << ' ' << w[1]); w = v; w <<= f * w; REQ(vt::close(w[0], std::fabs(x) + std::sin(y), 1e-12, 1e-12) && vt::close(w[1], std::cos(x) + std::floor(y), 1e-12, 1e-12), "assigned onto its own argument gives " << w[0] << ' ' << w[1]); }
typedef fixed_point<fixed_point_traits<long long, generic_compile_time_scale_policy<10, 4>, round_half_to_even>> fx;
typedef boost::units::quantity<boost::units::si::length, fx> flen;
GROUP(quantities, 20000, 1000000) { // quantities whose value is a fixed-point number, with built-in numbers on either side
    Rng& r = c.rng; long m = r.p(0.3) ? r.in(-30, 30) * 10000 : r.in(-2000000, 2000000), n = r.in(-3000000, 3000000); int k = (int)r.in(-40, 40); if (k == 0) k = 7; c.in("count", m); c.in("other count", n); c.in("integer", k); flen l = flen::from_value(fx::from_format_value(m, generic_compile_time_scale_policy<10, 4>())), o = flen::from_value(fx::from_format_value(n, generic_compile_time_scale_policy<10, 4>())); auto cnt = [](const flen& q) { return (long)q.value().get_scaled_value(); }; const long U = 10000;
    REQ(cnt(l * k) == m * k && cnt(k * l) == m * k, "multiple by an integer has count " << cnt(l * k) << ", " << cnt(k * l)); REQ(cnt(l + k) == m + k * U && cnt(k + l) == m + k * U, "sum with an integer has count " << cnt(l + k) << ", " << cnt(k + l)); REQ(cnt(l - k) == m - k * U, "difference has count " << cnt(l - k)); REQ(cnt(k - l) == k * U - m, "difference from an integer has count " << cnt(k - l)); long q = cnt(l / k); REQ(std::labs(q * k - m) < std::labs(k), "quotient by an integer has count " << q); REQ(cnt(l + o) == m + n && cnt(l - o) == m - n, "sum or difference of quantities"); REQ((l < o) == (m < n) && (l == o) == (m == n), "comparison of quantities"); double d = k * 0.5; REQ(cnt(l * d) * 2 == m * k || std::labs(cnt(l * d) * 2 - m * k) <= 2, "multiple by a real has count " << cnt(l * d)); REQ(cnt(l + d) == m + k * U / 2 && cnt(d - l) == k * U / 2 - m, "sum with a real has count " << cnt(l + d));
    if (m != 0) { auto inv = k / l; ld e = (ld)k * U * U / m; REQ(std::fabs((double)((ld)inv.value().get_scaled_value() - e)) <= 1, "an integer divided by the quantity has count " << (long)inv.value().get_scaled_value() << " instead of about " << (double)e); } }
