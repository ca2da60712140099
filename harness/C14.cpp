#include "geo.hpp"
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_capsule_intersection.hpp>
using namespace vt;
using namespace geometrix;
template <int D> struct T; template <> struct T<2> { typedef P2 P; typedef V2 V; static P mk(L3 a) { return P((double)a.x, (double)a.y); } static L3 of(const P& p) { return {p[0], p[1], 0}; } static V vec(L3 a) { return V((double)a.x, (double)a.y); } };
template <> struct T<3> { typedef P3 P; typedef V3 V; static P mk(L3 a) { return P((double)a.x, (double)a.y, (double)a.z); } static L3 of(const P& p) { return {p[0], p[1], p[2]}; } static V vec(L3 a) { return V((double)a.x, (double)a.y, (double)a.z); } };
template <int D> static typename T<D>::P rp(Rng& r, double m, bool grid) { auto f = [&] { return grid ? (double)r.in(-8, 8) : r.real(-m, m); }; L3 a{f(), f(), f()}; return T<D>::mk(a); }
template <class P> static bool finite(const P& p, int D) { for (int i = 0; i < D; ++i) if (!std::isfinite(p[i])) return false; return true; }
// entry/exit parameters of the line a + t d on a ball; false if it misses
static bool ball(L3 a, L3 d, L3 c, ld r, ld& t0, ld& t1, ld& gap) { ld A = dot(d, d); L3 f = a - c; ld tm = -dot(f, d) / A; gap = norm(f + tm * d) - r; if (gap > 0) return false; ld h = std::sqrt(std::max<ld>(0, (r * r - dot(f + tm * d, f + tm * d)) / A)); t0 = tm - h; t1 = tm + h; return true; }
template <int D> static void lines(Case& c) {
    typedef typename T<D>::P P; Rng& r = c.rng; bool grid = r.p(0.4); double m = grid ? 8 : r.pick(std::vector<double>{1, 10, 100}); P o = rp<D>(r, m, grid), a = rp<D>(r, m, grid), b = rp<D>(r, m, grid); double R = grid ? (double)r.in(1, 8) : r.real(0.02, 1.2) * m;
    L3 O = T<D>::of(o), A = T<D>::of(a), B = T<D>::of(b); if (r.p(0.2)) { L3 q = O + (R * r.real(0, 0.95) / (norm(A - O) + 1e-9)) * (A - O); a = T<D>::mk(q); A = T<D>::of(a); count("segment starts inside"); } if (r.p(0.15)) { b = T<D>::mk(O + (R * r.real(0, 0.95) / (norm(B - O) + 1e-9)) * (B - O)); B = T<D>::of(b); }
    if (r.p(0.2) && norm(B - O) > 1e-3 * m) { ld s = R * r.real(1.02, 3); b = T<D>::mk(O + (s / norm(B - O)) * (B - O)); B = T<D>::of(b); a = T<D>::mk(B + r.real(0.05, 2) * (O - B)); A = T<D>::of(a); }
    c.in("center", o); c.in("radius", R); c.in("a", a); c.in("b", b); ld L = norm(B - A); if (L < 1e-2 * m || R < 0.01 * m) SKIP_CASE();
    ld t0 = 0, t1 = 0, gap; bool line = ball(A, B - A, O, R, t0, t1, gap); ld eps = 1e-6; if (std::abs(gap) < 1e-6 * m) SKIP_CASE(); if (line) for (ld t : {t0, t1}) if (std::abs(t) * L < eps * m || std::abs(t - 1) * L < eps * m) SKIP_CASE();
    sphere<D, P> s(o, R); for (int k = 0; k < 2; ++k) {
        double t[2] = {-7, -7}; P q[2]; auto res = k ? segment_sphere_intersection(a, b, s, t, q, direct()) : segment_sphere_intersection(a, b, s, t, q, abs_cmp(1e-10)); bool h0 = line && t0 >= 0 && t0 <= 1, h1 = line && t1 >= 0 && t1 <= 1;
        REQ(res.is_t0_intersecting() == h0 && res.is_t1_intersecting() == h1 && (bool)res == (h0 || h1) && (std::uint32_t)res == (std::uint32_t)(h0 + h1), "segment meets the sphere's surface at flags " << res.is_t0_intersecting() << res.is_t1_intersecting() << " but expected " << h0 << h1 << " (t " << (double)t0 << "," << (double)t1 << ")");
        if (line) { REQ(t[0] <= t[1] && close(t[0], (double)t0, 1e-6, 1e-6) && close(t[1], (double)t1, 1e-6, 1e-6), "parameters " << t[0] << "," << t[1] << " should be " << (double)t0 << "," << (double)t1); for (int i = 0; i < 2; ++i) { L3 Q = T<D>::of(q[i]); REQ(std::abs(norm(Q - O) - R) <= 1e-6 * m && norm(Q - (A + (ld)t[i] * (B - A))) <= 1e-6 * m * (1 + std::abs(t[i])), "hit point " << i << " is not on both shapes " << str(q[i])); } }
        count(!line ? "line misses" : h0 && h1 ? "two hits" : h0 ? "entry only" : h1 ? "exit only" : t0 < 0 && t1 > 1 ? "segment inside the sphere" : "line hits outside the segment");
    }
    // first hit of the solid ball
    bool hit = line && t1 >= 0 && t0 <= 1; ld ft = t0 < 0 ? 0 : t0; bool rayhit = line && t1 >= 0; typename T<D>::V d = T<D>::vec((1 / L) * (B - A)), dv = T<D>::vec(B - A);
    for (int k = 0; k < 2; ++k) { double t = -7; P q; bool h = k ? segment_sphere_intersection(a, dv, (double)L, s, t, q, direct()) : segment_sphere_intersection(a, dv, (double)L, s, t, q, abs_cmp(1e-10)); REQ(h == hit, "segment against ball is " << h << " but t " << (double)t0 << "," << (double)t1); if (hit) REQ(close(t, (double)ft, 1e-6, 1e-6) && norm(T<D>::of(q) - (A + ft * (B - A))) <= 1e-5 * m, "first hit at t " << t << " " << str(q) << " should be at " << (double)ft);
        t = -7; h = k ? ray_sphere_intersection(a, d, s, t, q, direct()) : ray_sphere_intersection(a, d, s, t, q, abs_cmp(1e-10)); REQ(h == rayhit, "ray against ball is " << h << " but t " << (double)t0 << "," << (double)t1); if (rayhit) { REQ(close(t, (double)(ft * L), 1e-6, 1e-6 * m) && norm(T<D>::of(q) - (A + ft * (B - A))) <= 1e-5 * m, "ray hits at distance " << t << " " << str(q) << " should be at " << (double)(ft * L)); } }
    count(rayhit ? "ray hits" : "ray misses");
}
GROUP(lines2, 60000, 3000000) { lines<2>(c); }
GROUP(lines3, 60000, 3000000) { lines<3>(c); }
GROUP(segments2d, 20000, 1000000) {   // point pair and segment forms of the first-hit test (2D)
    Rng& r = c.rng; bool grid = r.p(0.4); double m = 8; P2 o = rp<2>(r, m, grid), a = rp<2>(r, m, grid), b = rp<2>(r, m, grid); double R = grid ? (double)r.in(1, 8) : r.real(0.02, 1.2) * m; c.in("center", o); c.in("radius", R); c.in("a", a); c.in("b", b); L3 A = T<2>::of(a), B = T<2>::of(b), O = T<2>::of(o); ld L = norm(B - A), t0 = 0, t1 = 0, gap; if (L < 0.01) SKIP_CASE(); bool line = ball(A, B - A, O, R, t0, t1, gap); if (std::abs(gap) < 1e-5) SKIP_CASE(); if (line) for (ld t : {t0, t1}) if (std::abs(t) * L < 1e-5 || std::abs(t - 1) * L < 1e-5) SKIP_CASE();
    bool hit = line && t1 >= 0 && t0 <= 1; ld ft = t0 < 0 ? 0 : t0; sphere<2, P2> s(o, R); for (int k = 0; k < 2; ++k) { double t = -7; P2 q; bool h = k ? segment_sphere_intersection(a, b, s, t, q, abs_cmp(1e-10)) : segment_sphere_intersection(S2(a, b), s, t, q, abs_cmp(1e-10)); REQ(h == hit, "segment against ball is " << h); if (hit) REQ(close(t, (double)ft, 1e-6, 1e-6) && norm(T<2>::of(q) - (A + ft * (B - A))) <= 1e-5, "first hit at t " << t << " " << str(q)); } count(hit ? "hit" : "miss");
}
static const int PY[6][3] = {{3, 4, 5}, {5, 12, 13}, {8, 15, 17}, {7, 24, 25}, {1, 0, 1}, {0, 1, 1}};
GROUP(tangent, 20000, 500000) {     // exact tangency on a Pythagorean grid
    Rng& r = c.rng; const int* t = PY[r.in(0, 5)]; int x = t[0] * (r.p(0.5) ? 1 : -1), y = t[1] * (r.p(0.5) ? 1 : -1); if (r.p(0.5)) std::swap(x, y); I2 o = rpt(r, 20), n{x, y}, e{-y, x}; long R = t[2]; long i = r.in(-2, 2), j = r.in(-2, 2); if (i == j) ++j; I2 tp_ = o + n, a{tp_.x + i * e.x, tp_.y + i * e.y}, b{tp_.x + j * e.x, tp_.y + j * e.y}; c.in("center", o); c.in("radius", R); c.in("a", a); c.in("b", b);
    bool in = std::min(i, j) <= 0 && std::max(i, j) >= 0; double tt = -(double)i / (j - i); sphere<2, P2> s(tp(o), (double)R); double tv[2]; P2 q[2]; auto res = segment_sphere_intersection(tp(a), tp(b), s, tv, q, direct()); if (i && j) { REQ(res.is_t0_intersecting() == in && res.is_t1_intersecting() == in, "tangent segment reported " << res.is_t0_intersecting() << res.is_t1_intersecting()); REQ(close(tv[0], tt, 1e-12, 1e-12) && close(tv[1], tt, 1e-12, 1e-12) && dist(q[0], tp(tp_)) < 1e-9, "tangent point " << str(q[0]) << " t " << tv[0]); }
    double t1 = -7; P2 q1; bool h = segment_sphere_intersection(tp(a), tp(b), s, t1, q1, abs_cmp(1e-10)); if (in) REQ(h && std::isfinite(t1) && finite(q1, 2) && dist(q1, tp(tp_)) < 1e-4, "tangent first hit is " << h << " " << str(q1) << " t " << t1); else REQ(!h, "segment apart from its tangent point is reported as hit");
    V2 d = V2((b.x - a.x) / (double)(R * std::abs(j - i)), (b.y - a.y) / (double)(R * std::abs(j - i))); bool fw = in || (i < 0 && j > i) || (i > 0 && j < i); h = ray_sphere_intersection(tp(a), d, s, t1, q1, abs_cmp(1e-10)); if (fw) REQ(h && std::isfinite(t1) && finite(q1, 2) && dist(q1, tp(tp_)) < 1e-4, "tangent ray is " << h << " " << str(q1)); else REQ(!h, "ray pointing away from its tangent point is reported as hit"); count(fw ? "tangent ahead" : "tangent behind");
    // two circles touching from outside and from inside
    long R2 = r.in(1, 30); for (int inside = 0; inside < 2; ++inside) { if (inside && R2 == R) continue; double k = inside ? (double)(R - R2) / R : (double)(R + R2) / R; P2 o2(o.x + n.x * k, o.y + n.y * k); sphere<2, P2> u(o2, (double)R2); for (int sw = 0; sw < 2; ++sw) { auto z = sw ? circle_circle_intersection(u, s, abs_cmp(1e-10)) : circle_circle_intersection(s, u, abs_cmp(1e-10)); auto w = sw ? sphere_sphere_intersection(u, s, abs_cmp(1e-10)) : sphere_sphere_intersection(s, u, abs_cmp(1e-10));
        for (int k2 = 0; k2 < 2; ++k2) { auto p0 = k2 ? w.IntersectionPoint0 : z.IntersectionPoint0; auto p1 = k2 ? w.IntersectionPoint1 : z.IntersectionPoint1; int st = k2 ? (int)w.State : (int)z.State; REQ(st == (int)circle_intersection_state::one_intersection || st == (int)circle_intersection_state::two_intersections, "touching circles (" << str(o2) << " r " << R2 << ", inside " << inside << ") reported state " << st); REQ(p0 && finite(*p0, 2) && dist(*p0, tp(tp_)) < 1e-4 && (!p1 || (finite(*p1, 2) && dist(*p1, tp(tp_)) < 1e-4)), "touching point of circles (" << str(o2) << " r " << R2 << ", inside " << inside << ", swapped " << sw << ") is " << (p0 ? str(*p0) : std::string("missing"))); REQ((bool)p1 == (st == (int)circle_intersection_state::two_intersections), "second point present without saying so"); } } }
}
GROUP(circles, 60000, 3000000) {
    Rng& r = c.rng; bool grid = r.p(0.4); double m = r.pick(std::vector<double>{1, 10, 100}); P2 o = rp<2>(r, m, grid), u = rp<2>(r, m, grid); double R = grid ? (double)r.in(1, 8) : r.real(0.02, 1.2) * m, S = grid ? (double)r.in(1, 8) : r.real(0.02, 1.2) * m; if (r.p(0.1)) { u = o; if (r.p(0.5)) S = R; } c.in("o", o); c.in("R", R); c.in("u", u); c.in("S", S);
    ld d = dist(o, u); if (d && (std::abs(d - (R + S)) < 1e-6 * m || std::abs(d - std::abs(R - S)) < 1e-6 * m || d < 1e-6 * m)) SKIP_CASE(); auto want = d == 0 && R == S ? circle_intersection_state::coincident : d > R + S ? circle_intersection_state::non_intersecting : d < std::abs(R - S) ? circle_intersection_state::circumscribed : circle_intersection_state::two_intersections; sphere<2, P2> a(o, R), b(u, S); if (d == 0 && R != S && std::abs(R - S) < 1e-6 * m) SKIP_CASE();
    static const char* N[] = {"disjoint", "circumscribed", "one", "two points", "coincident"}; count(N[(int)want]); std::vector<P2> got[4]; int k = 0; for (auto z : {circle_circle_intersection(a, b, abs_cmp(1e-10)), circle_circle_intersection(b, a, abs_cmp(1e-10)), circle_circle_intersection(a, b, direct())}) { REQ(z.State == want, "circles reported " << N[(int)z.State] << " but are " << N[(int)want]); REQ((bool)z.IntersectionPoint0 == (want == circle_intersection_state::two_intersections) && (bool)z.IntersectionPoint1 == (bool)z.IntersectionPoint0, "points do not match the state"); if (z.IntersectionPoint0) { got[k] = {*z.IntersectionPoint0, *z.IntersectionPoint1}; for (auto& p : got[k]) REQ(std::abs(dist(p, o) - R) < 1e-5 * m && std::abs(dist(p, u) - S) < 1e-5 * m, "reported point " << str(p) << " is not on both circles"); REQ(dist(got[k][0], got[k][1]) > 1e-6 * m, "both points coincide " << str(got[k][0])); } ++k; }
    if (want == circle_intersection_state::two_intersections) REQ(std::min(dist(got[0][0], got[1][0]), dist(got[0][0], got[1][1])) < 1e-4 * m && std::min(dist(got[0][1], got[1][0]), dist(got[0][1], got[1][1])) < 1e-4 * m, "swapping the circles gives other points");
    k = 0; for (auto z : {sphere_sphere_intersection(a, b, abs_cmp(1e-10)), sphere_sphere_intersection(b, a, direct())}) { REQ((int)z.State == (int)want, "spheres reported " << N[(int)z.State] << " but are " << N[(int)want]); REQ((bool)z.IntersectionPoint0 == (want == circle_intersection_state::two_intersections) && (bool)z.IntersectionPoint1 == (bool)z.IntersectionPoint0, "points do not match the state"); if (z.IntersectionPoint0) for (auto& p : {*z.IntersectionPoint0, *z.IntersectionPoint1}) REQ(std::abs(dist(p, o) - R) < 1e-5 * m && std::abs(dist(p, u) - S) < 1e-5 * m, "reported point " << str(p) << " is not on both spheres"); if (z.IntersectionPoint0) REQ(dist(*z.IntersectionPoint0, *z.IntersectionPoint1) > 1e-6 * m, "both points of the spheres coincide " << str(*z.IntersectionPoint0)); ++k; }
}
template <int D> static void boxes(Case& c) {
    typedef typename T<D>::P P; Rng& r = c.rng; bool grid = r.p(0.5); double m = 10; P lo = rp<D>(r, m, grid), hi = rp<D>(r, m, grid), o = rp<D>(r, m, grid); for (int i = 0; i < D; ++i) if (lo[i] > hi[i]) { double x = lo[i]; lo[i] = hi[i]; hi[i] = x; } double R = grid ? (double)r.in(1, 8) : r.real(0.02, 1.2) * m; c.in("low", lo); c.in("high", hi); c.in("center", o); c.in("radius", R); ld d2 = 0; P cl = o; for (int i = 0; i < D; ++i) { if (o[i] < lo[i]) cl[i] = lo[i]; if (o[i] > hi[i]) cl[i] = hi[i]; d2 += ((ld)cl[i] - o[i]) * ((ld)cl[i] - o[i]); } if (!grid && std::abs(std::sqrt(d2) - R) < 1e-6) SKIP_CASE(); bool hit = d2 <= (ld)R * R; sphere<D, P> s(o, R); axis_aligned_bounding_box<P> b(lo, hi); REQ(sphere_aabb_intersection(s, b) == hit, "ball against box is " << !hit); P q; REQ(sphere_aabb_intersection(s, b, q) == hit, "ball against box (with point) is " << !hit); for (int i = 0; i < D; ++i) REQ(q[i] == cl[i], "nearest box point is " << str(q)); count(hit ? "ball meets box" : "ball apart from box");
}
GROUP(boxes2, 20000, 1000000) { boxes<2>(c); }
GROUP(boxes3, 20000, 1000000) { boxes<3>(c); }
GROUP(capsules, 80000, 3000000) {
    Rng& r = c.rng; bool grid = r.p(0.5); double m = 8; P2 p = rp<2>(r, m, grid), q = rp<2>(r, m, grid), a = rp<2>(r, m, grid), b = rp<2>(r, m, grid); double R = grid ? (double)r.in(1, 5) : r.real(0.02, 0.8) * m; if (r.p(0.25)) { double k = r.p(0.5) ? (double)r.in(-2, 2) : r.real(-2, 2); b = P2(a[0] + k * (q[0] - p[0]), a[1] + k * (q[1] - p[1])); if (grid && k == std::floor(k)) count("parallel segment"); } if (r.p(0.15)) { double k = r.real(0.05, 0.95), h = R * r.real(-0.9, 0.9); ld l = dist(p, q) + 1e-12; a = P2((double)(p[0] + k * (q[0] - p[0]) - h * (q[1] - p[1]) / l), (double)(p[1] + k * (q[1] - p[1]) + h * (q[0] - p[0]) / l)); }
    c.in("a", a); c.in("b", b); c.in("p", p); c.in("q", q); c.in("radius", R); L2 A = lp(a), B = lp(b), Pp = lp(p), Q = lp(q); if (norm(B - A) < 0.05 || norm(Q - Pp) < 0.05) SKIP_CASE();
    { ld par = std::abs(cross(B - A, Q - Pp)) / norm(B - A) / norm(Q - Pp); if (par > 0 && par < 1e-3) SKIP_CASE(); }
    auto f = [&](ld t) { return dist_ps(A + t * (B - A), Pp, Q); }; ld mn = dist_ss(A, B, Pp, Q); if (std::abs(mn - R) < 1e-5 || std::abs(f(0) - R) < 1e-5 || std::abs(f(1) - R) < 1e-5) SKIP_CASE(); bool hit = mn < R; ld t = 0; if (hit && f(0) > R) { ld lo = 0, hi = 1; for (int i = 0; i < 200; ++i) { ld x = lo + (hi - lo) / 3, y = hi - (hi - lo) / 3; if (f(x) <= f(y)) hi = y; else lo = x; } ld e = lo; if (f(e) > R) SKIP_CASE(); lo = 0; hi = e; for (int i = 0; i < 100; ++i) { ld x = (lo + hi) / 2; (f(x) > R ? lo : hi) = x; } t = hi; }
    double tt = -7; P2 x; bool h = segment_capsule_intersection(a, b, p, q, R, tt, x, abs_cmp(1e-10)); count(!hit ? "capsule apart" : f(0) < R ? "starts inside the capsule" : "enters the capsule"); REQ(h == hit, "segment against capsule is " << h << " but the distance of the axes is " << (double)mn); if (hit) REQ(close(tt, (double)t, 1e-5, 1e-5) && norm(lp(x) - (A + t * (B - A))) < 1e-4, "capsule entered at t " << tt << " " << str(x) << " should be " << (double)t);
    for (int k = 0; k < 1; ++k) { h = segment_capsule_intersection(a, b, q, p, R, tt, x, abs_cmp(1e-10)); REQ(h == hit && (!hit || close(tt, (double)t, 1e-5, 1e-5)), "reversing the capsule's axis changes the answer: " << h << " t " << tt); }
}
