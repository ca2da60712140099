#include "geo.hpp"
#include <geometrix/utility/vector_angle_compare.hpp>
#include <geometrix/arithmetic/vector/is_antiparallel.hpp>
using namespace vt;
using namespace geometrix;
static const double PI = 3.14159265358979323846;
static V2 tv(const I2& a, double s) { return V2{a.x * s, a.y * s}; }
static I2 near(Rng& r, const I2& a, const I2& b, long m) {   // a third point biased to degenerate positions
    switch (r.in(0, 6)) { case 0: return a; case 1: return b; case 2: { I2 d = b - a; long k = r.in(-3, 4); return {a.x + k * d.x, a.y + k * d.y}; } case 3: { I2 d = b - a; if (d.x % 2 == 0 && d.y % 2 == 0) return {a.x + d.x / 2, a.y + d.y / 2}; return {a.x - d.y, a.y + d.x}; } case 4: return {a.x, r.in(-m, m)}; default: return rpt(r, m); }
}
template <class Cmp> static void three(const I2& a, const I2& b, const I2& p, double s, const Cmp& cmp) {
    P2 A = tp(a, s), B = tp(b, s), C = tp(p, s); int o = orient(a, b, p);
    REQ((int)get_orientation(A, B, C, cmp) == o, "orientation of three points is " << (int)get_orientation(A, B, C, cmp) << " want " << o);
    REQ((int)get_orientation(B, A, C, cmp) == -o && (int)get_orientation(A, C, B, cmp) == -o && (int)get_orientation(B, C, A, cmp) == o, "orientation does not flip/rotate with its arguments");
    REQ((int)get_orientation(tv(b - a, s), tv(p - a, s), cmp) == o, "orientation of two vectors"); REQ((int)opposite_orientation(get_orientation(A, B, C, cmp)) == -o, "opposite orientation");
    REQ(is_collinear(A, B, C, cmp) == (o == 0), "is_collinear");
    bool inc = on_seg(p, a, b), exc = inc && p != a && p != b; 
    if (a != b) REQ(is_between(A, B, C, true, cmp) == inc, "is_between with bounds is " << !inc << " want " << inc); if (a != b) REQ(is_between(A, B, C, false, cmp) == exc, "is_between without bounds is " << !exc << " want " << exc);
    if (o == 0 && a != b) { REQ(is_collinear_point_between(A, B, C, true, cmp) == inc && is_collinear_point_between(A, B, C, false, cmp) == exc, "is_collinear_point_between"); }
    REQ(is_vertical(A, B, cmp) == (a.x == b.x) && is_horizontal(A, B, cmp) == (a.y == b.y) && is_vertical(S2(A, B), cmp) == (a.x == b.x) && is_horizontal(S2(A, B), cmp) == (a.y == b.y), "vertical/horizontal");
    count(o == 0 ? (a == b ? "coincident" : exc ? "strictly between" : inc ? "at an end" : "collinear outside") : o > 0 ? "left" : "right");
}
GROUP(orientation, 120000, 5000000) {
    Rng& r = c.rng; long m = rrange(r); double s = rscale(r); I2 a = rpt(r, m), b = r.p(0.2) ? I2{r.in(-m, m), a.y} : r.p(0.2) ? I2{a.x, r.in(-m, m)} : r.p(0.05) ? a : rpt(r, m), p = near(r, a, b, m); c.in("a", a); c.in("b", b); c.in("p", p); c.in("scale", s);
    three(a, b, p, s, direct()); three(a, b, p, s, abs_cmp(1e-10));
}
static int half(const I2& ref, const I2& v) { i128 cr = crossi(ref, v); return cr > 0 || (cr == 0 && doti(ref, v) > 0) ? 0 : 1; }
static int angcmp(const I2& ref, const I2& u, const I2& v) { int hu = half(ref, u), hv = half(ref, v); if (hu != hv) return hu < hv ? -1 : 1; i128 cr = crossi(u, v); return cr > 0 ? -1 : cr < 0 ? 1 : 0; }
static bool nul(const I2& a) { return a.x == 0 && a.y == 0; }
static I2 dir(Rng& r, long m) { I2 d; do d = r.p(0.3) ? I2{r.in(-1, 1), r.in(-1, 1)} : rpt(r, m); while (nul(d)); return d; }
GROUP(vector_between, 120000, 4000000) {
    Rng& r = c.rng; long m = std::min(rrange(r), 1000L); double s = rscale(r); I2 a = dir(r, m), b = dir(r, m), v = dir(r, m); auto tie = [&](I2& x) { long k = r.in(1, 3); switch (r.in(0, 7)) { case 0: x = {a.x * k, a.y * k}; break; case 1: x = {-a.x * k, -a.y * k}; break; case 2: x = {b.x * k, b.y * k}; break; case 3: x = {-b.x * k, -b.y * k}; break; default: break; } }; if (r.p(0.3)) tie(b); tie(v);
    c.in("a", a); c.in("b", b); c.in("v", v); c.in("scale", s);
    bool bound = angcmp(a, v, a) == 0 || angcmp(a, v, b) == 0; bool inside = !bound && angcmp(a, v, b) < 0;
    for (int k = 0; k < 2; ++k) { bool ib = k; bool got = is_vector_between(tv(a, s), tv(b, s), tv(v, s), ib, direct()), got2 = is_vector_between(tv(a, s), tv(b, s), tv(v, s), ib, abs_cmp(1e-10)); bool w = bound ? ib : inside; REQ(got == w && got2 == w, "is_vector_between(include bounds " << ib << ") got " << got << "/" << got2 << " want " << w); }
    count(bound ? "on a bound" : inside ? "inside the angle" : "outside the angle");
    auto sg = [](int x) { return x < 0; }; double pa = pseudo_angle(tv(a, s)), pv = pseudo_angle(tv(v, s)); REQ(pa >= 0 && pa < 4.0000001, "pseudo_angle range " << pa); int w = angcmp({1, 0}, a, v); if (w < 0) REQ(pa < pv + 1e-12, "pseudo_angle not monotonic: " << pa << " " << pv); if (w > 0) REQ(pv < pa + 1e-12, "pseudo_angle not monotonic: " << pa << " " << pv); if (w != 0 && m <= 16) REQ(sg(w) == (pa < pv), "pseudo_angle order " << pa << " " << pv); if (w == 0) REQ(std::fabs(pa - pv) < 1e-12, "pseudo_angle differs on one direction");
}
GROUP(angles, 80000, 3000000) {
    Rng& r = c.rng; double a; switch (r.in(0, 5)) { case 0: a = r.in(-40, 40) * PI / 4; break; case 1: a = r.real(-7, 7); break; case 2: a = r.real(-1e3, 1e3); break; case 3: a = r.real(-1e6, 1e6); break; case 4: a = std::nextafter(r.in(-8, 8) * PI, r.p(0.5) ? 1e9 : -1e9); break; default: a = r.real(-1e-12, 1e-12); } c.in("angle", a);
    double x = a; normalize_angle_0_2pi(x); double y = normalize_angle_0_2pi_copy(a); REQ(x == y, "in place and copy normalisation differ"); REQ(x >= 0 && x <= 2 * PI, "normalised angle " << x << " outside [0, 2 pi]"); double tolr = 1e-14 * (1 + std::fabs(a)); auto eqa = [&](double u) { ld d = remainderl((ld)u - a, 2 * acosl(-1.0L)); return fabsl(d) <= tolr + 3e-16L * fabsl(a); }; REQ(eqa(x), "normalised angle " << x << " is not equivalent to " << a);
    double z = a; normalize_angle_minus_pi_to_pi(z); REQ(z == normalize_angle_minus_pi_to_pi_copy(a), "in place and copy normalisation differ"); REQ(z >= -PI && z <= PI, "normalised angle " << z << " outside [-pi, pi]"); REQ(eqa(z), "normalised angle " << z << " is not equivalent to " << a); count(a < 0 ? "negative angles" : a > 2 * PI ? "beyond a turn" : "within a turn");
    if (a >= 0 && a <= 2 * PI) REQ(x == a, "an angle already within the turn is changed to " << x);
    long m = rrange(r); I2 p = rpt(r, m), q = rpt(r, m); if (p == q) q.x += 1; c.in("p", p); c.in("q", q); ld w = atan2l((ld)q.y - p.y, (ld)q.x - p.x); REQ(std::fabs(angle_from_a_to_b(tp(p), tp(q)) - (double)w) <= 1e-14, "angle from point to point"); REQ(std::fabs(vector_angle(tv(q - p, 1)) - (double)w) <= 1e-14, "angle of a vector");
    if (p.x != q.x) { REQ(vt::close(get_slope(tp(p), tp(q)), (double)((ld)(q.y - p.y) / (q.x - p.x)), 1e-14, 1e-15), "slope"); double t = r.real(-m, m), sl; ld k = (ld)(q.y - p.y) / (q.x - p.x), wy = p.y + k * (t - p.x); REQ(vt::close(y_of_x(tp(p), tp(q), t, sl), (double)wy, 1e-12, 1e-12 * (double)(m * (1 + fabsl(k)) * 4)), "y_of_x"); REQ(vt::close(sl, (double)k, 1e-13, 1e-15), "slope out of y_of_x");
      if (p.y != q.y) { ld wx = p.x + (t - p.y) / k; REQ(vt::close(x_of_y(tp(p), tp(q), t), (double)wx, 1e-12, 1e-12 * (double)(m * (1 + 1 / fabsl(k)) * 4)), "x_of_y"); } }
}
GROUP(oriented, 60000, 2000000) {
    Rng& r = c.rng; long m = rrange(r); double s = rscale(r); I2 p[4]; for (auto& q : p) q = rpt(r, m); c.in("p1", p[0]); c.in("p2", p[1]); c.in("p3", p[2]); c.in("p4", p[3]);
    for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) for (int k = j + 1; k < 4; ++k) if (!orient(p[i], p[j], p[k])) { c.trivial(); return; }   // contract judged in general position
    bool x = seg_rel(p[0], p[1], p[2], p[3]) == CROSS; auto w = !x ? e_non_crossing : orient(p[2], p[3], p[0]) > 0 ? e_intersect_left_right : e_intersect_right_left; auto g = oriented_intersection(tp(p[0], s), tp(p[1], s), tp(p[2], s), tp(p[3], s), direct()); REQ(g == w, "oriented intersection " << g << " want " << w); count(x ? "crossing left-right or right-left" : "not crossing");
}
GROUP(oriented_degenerate, 40000, 1500000) { // collinear segments, segments sharing an end, segments apart whose lines pass through the other's ends
    Rng& r = c.rng; long m = rrange(r); double s = rscale(r); I2 p[4]; int kind = (int)r.in(0, 2); if (kind == 0) { I2 o = rpt(r, m), d = rpt(r, 5); if (d == I2{0, 0}) d = I2{1, 0}; for (auto& q : p) { long k = r.in(-4, 4); q = I2{o.x + k * d.x, o.y + k * d.y}; } } else if (kind == 1) { for (auto& q : p) q = rpt(r, m); p[r.in(0, 1)] = p[r.in(2, 3)]; } else { I2 o = rpt(r, m), d = rpt(r, 4), e = rpt(r, 4); p[0] = o + d; p[1] = o + d + e; p[2] = o; p[3] = I2{o.x - d.x, o.y - d.y}; if (r.p(0.5)) std::swap(p[0], p[1]); if (r.p(0.5)) std::swap(p[2], p[3]); if (r.p(0.5)) { std::swap(p[0], p[2]); std::swap(p[1], p[3]); } } c.in("p1", p[0]); c.in("p2", p[1]); c.in("p3", p[2]); c.in("p4", p[3]); if (p[0] == p[1] || p[2] == p[3]) { c.trivial(); return; }
    auto sr = seg_rel(p[0], p[1], p[2], p[3]); bool share = p[0] == p[2] || p[0] == p[3] || p[1] == p[2] || p[1] == p[3], meet = segs_meet(p[0], p[1], p[2], p[3]); bool col = !orient(p[0], p[1], p[2]) && !orient(p[0], p[1], p[3]); intersection_type w; if (!meet) w = e_non_crossing; else if (sr == CROSS) { c.trivial(); return; } else if (col) { I2 d = p[1] - p[0]; long L = doti(d, d), a = doti(d, p[2] - p[0]), b = doti(d, p[3] - p[0]); if (a > b) std::swap(a, b); w = std::max(0L, a) < std::min(L, b) ? e_overlapping : e_endpoint; } else if (share) w = e_endpoint; else { count("an end inside the other segment (not judged)"); c.trivial(); return; }
    auto go = [&](auto const& cmp) { auto g = oriented_intersection(tp(p[0], s), tp(p[1], s), tp(p[2], s), tp(p[3], s), cmp); REQ(g == w, "oriented intersection " << g << " want " << w); }; go(direct()); if (s >= 1e-2) go(abs_cmp(1e-10)); count(w == e_overlapping ? "overlapping" : w == e_endpoint ? "sharing an end" : "apart"); }
