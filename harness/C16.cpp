#include "conv.hpp"
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp>
using namespace vt;
using namespace geometrix;
typedef sphere<2, P2> C2_; typedef sphere<3, P3> C3_;
static V2 rv(Rng& r, double m, bool grid) { for (;;) { V2 v = grid ? V2((double)r.in(-4, 4), (double)r.in(-4, 4)) : V2(r.real(-m, m), r.real(-m, m)); if (r.p(0.15)) v[r.in(0, 1)] = 0; if (std::hypot(v[0], v[1]) > 0.05 * m) return v; } }
static P2 rp(Rng& r, double m, bool grid) { return grid ? P2((double)r.in(-8, 8), (double)r.in(-8, 8)) : P2(r.real(-m, m), r.real(-m, m)); }
// first contact of a convex gap function on [0, T]: returns 1 hit, 0 miss, -1 too close to call
template <class F> static int first(F f, ld T, ld mar, ld& t) { if (std::abs(f(0)) < mar) return -1; t = 0; if (f(0) < 0) return 1; ld lo = 0, hi = T; for (int i = 0; i < 160; ++i) { ld x = lo + (hi - lo) / 3, y = hi - (hi - lo) / 3; if (f(x) <= f(y)) hi = y; else lo = x; } ld e = (lo + hi) / 2; if (f(T) < f(e)) e = T; if (std::abs(f(e)) < mar) return -1; if (f(e) > 0) return 0; lo = 0; hi = e; for (int i = 0; i < 110; ++i) { ld x = (lo + hi) / 2; (f(x) > 0 ? lo : hi) = x; } t = hi; return 1; }
GROUP(sphere_sphere, 60000, 2500000) {
    Rng& r = c.rng; bool grid = r.p(0.4); double m = 8; P2 a = rp(r, m, grid), b = rp(r, m, grid); double R = grid ? (double)r.in(1, 3) : r.real(0.05, 3), S = grid ? (double)r.in(1, 3) : r.real(0.05, 3); V2 u = rv(r, 4, grid), w = r.p(0.15) ? u : r.p(0.2) ? V2(0, 0) : rv(r, 4, grid); if (r.p(0.3)) { double k = r.real(0.2, 2); L2 d = lp(a) - lp(b); w = V2((double)(u[0] + k * d.x + r.real(-0.5, 0.5)), (double)(u[1] + k * d.y + r.real(-0.5, 0.5))); } c.in("c0", a); c.in("r0", R); c.in("v0", u); c.in("c1", b); c.in("r1", S); c.in("v1", w);
    L2 s = lp(b) - lp(a), v{(ld)w[0] - u[0], (ld)w[1] - u[1]}; ld sp = norm(v); if (sp && sp < 0.05) SKIP_CASE(); ld T = sp ? 2 * norm(s) / sp + 1 : 1, t; auto f = [&](ld x) { return norm(s + x * v) - (R + S); }; int k = first(f, T, 1e-6, t); if (k < 0) SKIP_CASE(); count(!k ? "spheres never touch" : t == 0 ? "spheres overlap at start" : "spheres collide");
    C2_ A(a, R), B(b, S); double tt = -1; P2 q(99, 99); bool h = moving_sphere_sphere_intersection(A, B, u, w, tt, q, abs_cmp(1e-10)), h2 = moving_sphere_sphere_intersection(A, B, u, w, abs_cmp(1e-10)), h3 = moving_sphere_sphere_intersection(B, A, w, u, abs_cmp(1e-10)); REQ(h == (bool)k && h2 == h && h3 == h, "spheres reported " << h << h2 << h3 << " expected " << k); if (k) { REQ(close(tt, (double)t, 1e-6, 1e-5), "contact time " << tt << " should be " << (double)t); if (t > 0) { L2 n0 = lp(a) + t * L2{u[0], u[1]}, n1 = lp(b) + t * L2{w[0], w[1]}; REQ(std::abs(norm(lp(q) - n0) - R) < 1e-4 && std::abs(norm(lp(q) - n1) - S) < 1e-4, "contact point " << str(q) << " is not on both spheres"); } }
}
GROUP(sphere_sphere3, 30000, 1000000) {
    Rng& r = c.rng; auto g = [&] { return r.real(-6, 6); }; P3 a(g(), g(), g()), b(g(), g(), g()); double R = r.real(0.1, 3), S = r.real(0.1, 3); V3 u(g(), g(), g()), w(u[0] + r.real(0.1, 1) * (a[0] - b[0]) + 0.2 * g(), u[1] + r.real(0.1, 1) * (a[1] - b[1]) + 0.2 * g(), u[2] + r.real(0.1, 1) * (a[2] - b[2])); c.in("c0", a); c.in("r0", R); c.in("v0", u); c.in("c1", b); c.in("r1", S); c.in("v1", w); L3 s = lp(b) - lp(a), v{(ld)w[0] - u[0], (ld)w[1] - u[1], (ld)w[2] - u[2]}; ld sp = norm(v); if (sp < 0.05) SKIP_CASE(); ld t; int k = first([&](ld x) { return norm(s + x * v) - (R + S); }, 2 * norm(s) / sp + 1, 1e-6, t); if (k < 0) SKIP_CASE();
    C3_ A(a, R), B(b, S); double tt = -1; P3 q; bool h = moving_sphere_sphere_intersection(A, B, u, w, tt, q, abs_cmp(1e-10)); REQ(h == (bool)k, "3D spheres reported " << h); if (k) REQ(close(tt, (double)t, 1e-6, 1e-5), "contact time " << tt << " should be " << (double)t); count(k ? "3D spheres collide" : "3D spheres miss");
}
GROUP(sphere_line, 60000, 2500000) {   // 2D circle against a line
    Rng& r = c.rng; bool grid = r.p(0.4); double m = 8; P2 a = rp(r, m, grid), b = rp(r, m, grid), o = rp(r, m, grid); double R = grid ? (double)r.in(1, 4) : r.real(0.05, 4); V2 v = rv(r, 4, grid); if (r.p(0.15)) v = V2(b[0] - a[0], b[1] - a[1]); c.in("a", a); c.in("b", b); c.in("center", o); c.in("radius", R); c.in("velocity", v); L2 d = lp(b) - lp(a); if (norm(d) < 0.3 || std::hypot(v[0], v[1]) < 0.1) SKIP_CASE(); L2 n{-d.y / norm(d), d.x / norm(d)}; ld h = dot(n, lp(o) - lp(a)), hv = dot(n, L2{v[0], v[1]}); if (std::abs(hv) < 1e-3 && std::abs(hv) > 1e-13) SKIP_CASE(); bool par = std::abs(hv) < 1e-12; if (std::abs(std::abs(h) - R) < 1e-6 && std::abs(std::abs(h) - R) > 1e-13) SKIP_CASE(); if (std::abs(h) < 1e-6) SKIP_CASE();
    bool over = std::abs(h) < R + 1e-12, away = par || h * hv > 0; bool hit = over || !away; ld t = over ? 0 : away ? 0 : (std::abs(h) - R) / std::abs(hv); line<P2> l(a, b); double tt = -1; P2 q; auto res = moving_sphere_plane_intersection(C2_(o, R), v, l, tt, q, abs_cmp(1e-10)); REQ(res.is_intersecting() == hit && (bool)res == hit, "circle against line is " << res.is_intersecting() << " expected " << hit); REQ(res.is_moving_away() == away, "moving away flag is " << res.is_moving_away()); if (!hit) REQ(!res.is_penetrating() && !res.is_touching(), "a circle that never reaches the line is said to penetrate or touch it"); if (hit) { REQ(close(tt, (double)t, 1e-7, 1e-7), "contact time " << tt << " should be " << (double)t); L2 ct = lp(o) + t * L2{v[0], v[1]}; L2 foot = ct - dot(n, ct - lp(a)) * n; REQ(norm(lp(q) - foot) < 1e-6 * (1 + norm(foot)), "contact point " << str(q) << " is not the foot of the center on the line"); if (over) REQ(res.is_penetrating() == (std::abs(h) < R - 1e-9) && res.is_touching() == !res.is_penetrating(), "penetrating flag at distance " << (double)h); } count(over ? "circle overlaps line" : hit ? "circle reaches line" : "circle never reaches line");
}
struct MyPlane { V3 n; double d; const V3& get_normal_vector() const { return n; } double get_distance_to_origin() const { return d; } };
GROUP(sphere_plane3, 30000, 1000000) {
    Rng& r = c.rng; auto g = [&] { return r.p(0.3) ? (double)r.in(-5, 5) : r.real(-5, 5); }; P3 a(g(), g(), g()), o(g(), g(), g()); V3 u(g(), g(), g()), w(g(), g(), g()), v(g(), g(), g()); double R = r.real(0.1, 4); c.in("a", a); c.in("u", u); c.in("w", w); c.in("center", o); c.in("radius", R); c.in("velocity", v); L3 n = crs(L3{u[0], u[1], u[2]}, L3{w[0], w[1], w[2]}); if (norm(n) < 1) SKIP_CASE(); n = (1 / norm(n)) * n; ld h = dot(n, lp(o) - lp(a)), hv = dot(n, L3{v[0], v[1], v[2]}); if (std::abs(hv) < 1e-3 || std::abs(std::abs(h) - R) < 1e-6 || std::abs(h) < 1e-6) SKIP_CASE(); bool over = std::abs(h) < R, away = h * hv > 0, hit = over || !away; ld t = over ? 0 : (std::abs(h) - R) / std::abs(hv);
    MyPlane p{V3((double)n.x, (double)n.y, (double)n.z), (double)dot(n, lp(a))}; double tt = -1; P3 q; auto res = moving_sphere_plane_intersection(C3_(o, R), v, p, tt, q, abs_cmp(1e-10)); REQ(res.is_intersecting() == hit && res.is_moving_away() == away, "sphere against plane is " << res.is_intersecting() << " expected " << hit); if (!hit) REQ(!res.is_penetrating() && !res.is_touching(), "a sphere that never reaches the plane is said to penetrate or touch it"); else if (over && std::abs(std::abs(h) - R) > 1e-6) REQ(res.is_penetrating() && !res.is_touching(), "a cut plane is not penetrated"); if (hit) { REQ(close(tt, (double)t, 1e-7, 1e-7), "contact time " << tt << " should be " << (double)t); L3 ct = lp(o) + t * L3{v[0], v[1], v[2]}; L3 foot = ct - dot(n, ct - lp(a)) * n; REQ(norm(lp(q) - foot) < 1e-5 * (1 + norm(foot)), "contact point " << str(q)); } count(over ? "sphere overlaps plane" : hit ? "sphere reaches plane" : "sphere never reaches plane");
}
GROUP(sphere_segment, 80000, 3000000) {
    Rng& r = c.rng; bool grid = r.p(0.4); double m = 8; P2 a = rp(r, m, grid), b = rp(r, m, grid), o = rp(r, m, grid); double R = grid ? (double)r.in(1, 4) : r.real(0.05, 4); V2 v = rv(r, 4, grid); if (r.p(0.15)) { double k = r.p(0.5) ? 1 : -1; v = V2(k * (b[0] - a[0]), k * (b[1] - a[1])); } else if (r.p(0.4)) { double k = r.real(0, 1); P2 z(a[0] + k * (b[0] - a[0]), a[1] + k * (b[1] - a[1])); v = V2(z[0] - o[0], z[1] - o[1]); } c.in("a", a); c.in("b", b); c.in("center", o); c.in("radius", R); c.in("velocity", v); L2 A = lp(a), B = lp(b), V{v[0], v[1]}; if (norm(B - A) < 0.3 || norm(V) < 0.2) SKIP_CASE();
    L2 d = B - A; L2 n{-d.y / norm(d), d.x / norm(d)}; ld h = dot(n, lp(o) - A), hv = dot(n, V); if (std::abs(std::abs(h) - R) < 1e-5 || (std::abs(hv) < 1e-3 * norm(V) && std::abs(hv) > 1e-13)) SKIP_CASE(); bool line = std::abs(h) < R || h * hv < -1e-9; if (line) { ld t = std::abs(h) < R ? 0 : (std::abs(h) - R) / std::abs(hv); ld u = dot(lp(o) + t * V - A, d) / dot(d, d); if (std::abs(u) < 1e-5 || std::abs(u - 1) < 1e-5) SKIP_CASE(); }
    ld t; int k = first([&](ld x) { return dist_ps(lp(o) + x * V, A, B) - R; }, 2 * (norm(lp(o) - A) + norm(d)) / norm(V) + 1, 1e-5, t); if (k < 0) SKIP_CASE(); for (int f = 0; f < 2; ++f) { double tt = -1; P2 q; auto res = moving_sphere_segment_intersection(C2_(o, R), v, f ? S2(b, a) : S2(a, b), tt, q, abs_cmp(1e-10)); REQ(res.is_intersecting() == (bool)k && (bool)res == (bool)k, "circle against segment is " << res.is_intersecting() << " expected " << k); if (k) { REQ(close(tt, (double)t, 1e-6, 1e-5), "contact time " << tt << " should be " << (double)t); ld u; L2 ct = lp(o) + t * V; dist_ps(ct, A, B, &u); if (t > 0) { REQ(norm(lp(q) - (A + u * d)) < 1e-3, "contact point " << str(q) << " should be at parameter " << (double)u); REQ(res.is_endpoint() == (u == 0 || u == 1), "end point flag is " << res.is_endpoint() << " at parameter " << (double)u); } } }
    count(!k ? "circle misses segment" : t == 0 ? "circle overlaps segment" : "circle reaches segment");
}
template <class F> static void solid(Case& c, const CP& k, P2 o, double R, V2 v, F call) {
    L2 V{v[0], v[1]}; ld ext = 0; for (auto& x : k) ext = std::max(ext, norm(x - lp(o))); ld t; int h = first([&](ld x) { L2 p = lp(o) + x * V; ld bd = border_dist(k, p); return convex_in(k, p) ? -bd - R : bd - R; }, 2 * ext / norm(V) + 1, 1e-5, t); if (h < 0) SKIP_CASE();
    double tt = -1; P2 q; bool res = call(tt, q); count(!h ? "misses box" : t == 0 ? "overlaps box at start" : "reaches box"); REQ(res == (bool)h, "circle against box is " << res << " expected " << h << " (t " << (double)t << ")"); if (h) { REQ(close(tt, (double)t, 1e-6, 1e-5), "contact time " << tt << " should be " << (double)t); if (t > 0) { L2 at, ct = lp(o) + t * V; border_dist(k, ct, &at); REQ(norm(lp(q) - at) < 1e-3, "contact point " << str(q) << " should be (" << (double)at.x << "," << (double)at.y << ")"); } }
}
static V2 aim(Rng& r, const CP& k, P2 o, bool grid) { V2 v = rv(r, 4, grid); if (r.p(0.6)) { L2 z = (k[r.in(0, 3)] + k[r.in(0, 3)]); z = 0.5L * z; L2 d = z - lp(o); if (norm(d) > 0.3) v = V2((double)d.x + r.real(-1, 1), (double)d.y + r.real(-1, 1)); } return v; }
GROUP(sphere_aabb, 80000, 3000000) {
    Rng& r = c.rng; bool grid = r.p(0.4); P2 lo = rp(r, 6, grid), hi; hi = P2(lo[0] + (grid ? (double)r.in(1, 6) : r.real(0.2, 8)), lo[1] + (grid ? (double)r.in(1, 6) : r.real(0.2, 8))); P2 o = rp(r, 10, grid); double R = grid ? (double)r.in(1, 3) : r.real(0.05, 3); CP k{{lo[0], lo[1]}, {hi[0], lo[1]}, {hi[0], hi[1]}, {lo[0], hi[1]}}; V2 v = aim(r, k, o, grid); c.in("low", lo); c.in("high", hi); c.in("center", o); c.in("radius", R); c.in("velocity", v); if (std::hypot(v[0], v[1]) < 0.2) SKIP_CASE(); for (int i = 0; i < 2; ++i) if (std::abs(v[i]) < 1e-3 && v[i] != 0) SKIP_CASE();
    axis_aligned_bounding_box<P2> b(lo, hi); solid(c, k, o, R, v, [&](double& t, P2& q) { return moving_sphere_aabb_intersection(C2_(o, R), v, b, t, q, abs_cmp(1e-10)); });
}
static obb_double_2d robb(Rng& r, P2 ctr, double& hu, double& hv) { double a = r.p(0.3) ? std::atan2((double)r.in(-3, 3), (double)r.in(-3, 3)) : r.real(-3.2, 3.2); hu = r.p(0.4) ? (double)r.in(1, 3) : r.real(0.1, 4); hv = r.p(0.4) ? (double)r.in(1, 3) : r.real(0.1, 4); return obb_double_2d(ctr, V2(std::cos(a), std::sin(a)), V2(-std::sin(a), std::cos(a)), hu, hv); }
static CP corners(const obb_double_2d& b) { L2 C = lp(b.get_center()), U{b.get_axis(0)[0], b.get_axis(0)[1]}, W{b.get_axis(1)[0], b.get_axis(1)[1]}; U = (ld)b.get_halfwidth(0) * U; W = (ld)b.get_halfwidth(1) * W; return {C - U - W, C + U - W, C + U + W, C - U + W}; }
GROUP(sphere_obb, 80000, 3000000) {
    Rng& r = c.rng; bool grid = r.p(0.4); double hu, hv; obb_double_2d b = robb(r, rp(r, 6, grid), hu, hv); CP k = corners(b); P2 o = rp(r, 10, grid); double R = grid ? (double)r.in(1, 3) : r.real(0.05, 3); V2 v = aim(r, k, o, grid); c.in("box center", b.get_center()); c.in("u", b.get_axis(0)); c.in("hu", hu); c.in("hv", hv); c.in("center", o); c.in("radius", R); c.in("velocity", v); if (std::hypot(v[0], v[1]) < 0.2) SKIP_CASE(); for (int i = 0; i < 2; ++i) { ld x = std::abs(v[0] * b.get_axis(i)[0] + v[1] * b.get_axis(i)[1]); if (x < 1e-3 && x > 1e-12) SKIP_CASE(); }
    solid(c, k, o, R, v, [&](double& t, P2& q) { return (bool)moving_sphere_obb_intersection(C2_(o, R), v, b, t, q, abs_cmp(1e-10)); });
}
GROUP(obb_obb, 60000, 2500000) {
    Rng& r = c.rng; bool grid = r.p(0.3); double m = 10, hu, hv, gu, gv; obb_double_2d a = robb(r, rp(r, m, grid), hu, hv), b = robb(r, rp(r, m, grid), gu, gv); V2 u = rv(r, 4, grid), w = r.p(0.1) ? u : r.p(0.2) ? V2(0, 0) : rv(r, 4, grid); if (r.p(0.5)) { L2 d = lp(a.get_center()) - lp(b.get_center()); double s = r.real(0.1, 1); w = V2(u[0] + s * (double)d.x + r.real(-0.4, 0.4), u[1] + s * (double)d.y + r.real(-0.4, 0.4)); }
    if (r.p(0.2)) b = obb_double_2d(b.get_center(), a.get_axis(0), a.get_axis(1), gu, gv);
    c.in("a center", a.get_center()); c.in("a u", a.get_axis(0)); c.in("a hu", hu); c.in("a hv", hv); c.in("b center", b.get_center()); c.in("b u", b.get_axis(0)); c.in("b hu", gu); c.in("b hv", gv); c.in("va", u); c.in("vb", w); L2 v{(ld)w[0] - u[0], (ld)w[1] - u[1]}; ld sp = norm(v); if (sp && sp < 0.1) SKIP_CASE(); CP A = corners(a), B = corners(b); auto f = [&](ld t) { CP Z = B; for (auto& x : Z) x = x + t * v; return sep_gap(A, Z); }; ld big = sp ? 2 * (norm(lp(a.get_center()) - lp(b.get_center())) + 12) / sp : 1; for (auto* q : {&a, &b}) for (int i = 0; i < 2; ++i) { ld x = std::abs(dot(v, L2{q->get_axis(i)[0], q->get_axis(i)[1]})); if (x < 1e-4 && sp) { if (x > 1e-13) SKIP_CASE(); SKIP_CASE(); } }
    ld t; int k = first(f, big, 1e-5, t); if (k < 0) SKIP_CASE(); double tmax = r.p(0.4) ? std::numeric_limits<double>::infinity() : k && t > 0 ? (double)(t * r.pick(std::vector<double>{0.5, 0.99, 1.01, 2})) : r.real(0.1, 5); c.in("tmax", tmax); bool hit = k && t <= tmax; double tf = -1, tl = -1; bool h = moving_obb_obb_intersection(a, u, b, w, tmax, tf, tl); count(!k ? "boxes never touch" : !hit ? "boxes touch too late" : t == 0 ? "boxes overlap at start" : "boxes collide"); REQ(h == hit, "moving boxes reported " << h << " expected " << hit << " (first contact " << (double)t << ")");
    if (hit) { REQ(close(tf, (double)t, 1e-6, 1e-5), "first contact " << tf << " should be " << (double)t); if (sp) { ld lo = t, hi = big; ld l2 = t, h2 = big; for (int i = 0; i < 160; ++i) { ld x = l2 + (h2 - l2) / 3, y = h2 - (h2 - l2) / 3; if (f(x) <= f(y)) h2 = y; else l2 = x; } lo = l2; if (f(lo) > 0) lo = t; for (int i = 0; i < 110; ++i) { ld x = (lo + hi) / 2; (f(x) > 0 ? hi : lo) = x; } REQ(close(tl, (double)lo, 1e-5, 1e-4), "last contact " << tl << " should be " << (double)lo); } else REQ(std::isinf(tl), "boxes at rest relative to each other separate at " << tl); }
    double tf2, tl2; REQ(moving_obb_obb_intersection(b, w, a, u, tmax, tf2, tl2) == hit && (!hit || close(tf2, (double)t, 1e-6, 1e-5)), "swapping the boxes changes the answer");
}
