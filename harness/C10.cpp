#include "geo.hpp"
#include <geometrix/primitive/line.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
using namespace vt;
using namespace geometrix;
static const char* kind(int k) { return k == e_non_crossing ? "none" : k == e_crossing ? "crossing" : k == e_overlapping ? "overlap" : k == e_endpoint ? "endpoint" : "?"; }
typedef long double ld_;
// Rays start at a grid point and head along an integer direction.  Axis directions give exact unit vectors (direct policy judged),
// all directions are judged with the tolerance policy.
static bool toward(const I2& o, const I2& d, const I2& p) { return crossi(d, p - o) == 0 && doti(d, p - o) >= 0; }
static ld off_ray(const P2& x, const I2& o, const I2& d, double s) { L2 O{(ld)o.x * s, (ld)o.y * s}, D{(ld)d.x, (ld)d.y}; L2 w = lp(x) - O; ld t = dot(w, D) / dot(D, D); if (t < 0) t = 0; return norm(w - t * D); }
static I2 gdir(Rng& r, long m) { I2 d; do d = r.p(0.5) ? I2{r.in(-1, 1), r.in(-1, 1)} : rpt(r, m); while (d.x == 0 && d.y == 0); return d; }
template <class Cmp> static void ray(Case& c, const I2& o, const I2& d, const I2& a, const I2& b, double s, long m, const V2& v, const Cmp& cmp) {
    i128 den = crossi(d, b - a); int w; bool T = false; // 0 none, 1 crossing, 2 overlap, 3 endpoint
    bool overlapPoint = false;
    if (den == 0) { if (orient(a, b, o) != 0) w = 0; else { bool ta = toward(o, d, a), tb = toward(o, d, b); w = ta || tb ? 2 : 0; overlapPoint = (ta != tb) && (o == a || o == b); } }
    else { i128 t = crossi(a - o, b - a), u = crossi(a - o, d); if (den < 0) { t = -t; u = -u; den = -den; } w = t < 0 || u < 0 || u > den ? 0 : (u == 0 || u == den) ? 3 : 1; T = t == 0; }
    double tol = 1e-9 * s * m, t = -7, t2 = -7; P2 X[2] = {P2(9e99, 0), P2(9e99, 0)}, Y[2] = {P2(9e99, 0), P2(9e99, 0)}; auto g = ray_segment_intersection(tp(o, s), v, tp(a, s), tp(b, s), t, X, cmp); auto g2 = ray_segment_intersection(tp(o, s), v, ts(a, b, s), t2, Y, cmp);
    REQ(g == g2 && (g == e_non_crossing || t == t2), "segment and point forms disagree"); auto h = ray_segment_intersection(tp(o, s), v, tp(a, s), tp(b, s), cmp), h2 = ray_segment_intersection(tp(o, s), v, ts(a, b, s), cmp);
    auto want = w == 0 ? e_non_crossing : w == 1 ? e_crossing : w == 2 ? e_overlapping : e_endpoint; REQ(g == want, "ray-segment is " << kind(g) << " want " << kind(want)); REQ(h == want && h2 == want, "ray-segment test without outputs is " << kind(h) << "/" << kind(h2) << " want " << kind(want));
    count(w == 0 ? "ray misses" : w == 1 ? (T ? "starts on the segment" : "ray crosses") : w == 2 ? (overlapPoint ? "collinear, origin at its end" : "ray overlaps") : "ray hits an end"); if (!w) return;
    auto ons = [&](const P2& x) { return (double)dist_ps(lp(x), lp(tp(a, s)), lp(tp(b, s))) <= tol && (double)off_ray(x, o, d, s) <= tol; };
    REQ(ons(X[0]), "hit point " << str(X[0]) << " is not on ray and segment"); REQ(std::fabs(dist(tp(o, s), X[0]) - t) <= tol, "distance " << t << " is not that of the hit point " << str(X[0]));
    if (w == 2) { REQ(ons(X[1]), "overlap end " << str(X[1])); I2 lo = a, hi = b; if (doti(d, b - o) < doti(d, a - o)) std::swap(lo, hi); if (doti(d, lo - o) < 0) lo = o; REQ(dist(X[0], tp(lo, s)) <= tol && dist(X[1], tp(hi, s)) <= tol, "overlap is " << str(X[0]) << str(X[1]) << " want " << str(tp(lo, s)) << str(tp(hi, s))); }
    double t3 = -7; auto g3 = ray_segment_intersection(tp(o, s), v, tp(b, s), tp(a, s), t3, (P2*)nullptr, cmp); REQ(g3 == want && std::fabs(t3 - t) <= tol, "answer depends on the direction of the segment");
}
static void gen(Rng& r, long m, I2& o, I2& d, I2& a, I2& b) {
    o = rpt(r, m); d = gdir(r, std::min(m, 9L)); a = rpt(r, m); b = r.p(0.2) ? I2{a.x, r.in(-m, m)} : r.p(0.2) ? I2{r.in(-m, m), a.y} : rpt(r, m);
    switch (r.in(0, 7)) { case 0: { long k = r.in(-3, 3), l = r.in(-3, 3); a = {o.x + k * d.x, o.y + k * d.y}; b = {o.x + l * d.x, o.y + l * d.y}; break; } case 1: { long k = r.in(-3, 3); b = {a.x + k * d.x, a.y + k * d.y}; break; } case 2: { long k = r.in(-2, 3); a = {o.x + k * d.x, o.y + k * d.y}; break; } case 3: { I2 w = gdir(r, 3); a = o + w; b = o - w; break; } default: break; }
    if (a == b) b.x += 1; if (r.p(0.5)) std::swap(a, b);
}
GROUP(ray_axis_direct, 80000, 4000000) { Rng& r = c.rng; long m = rrange(r); double s = rscale(r); I2 o, d, a, b; gen(r, m, o, d, a, b); static const I2 D[4] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}}; if (d.x && d.y) { d = D[r.in(0, 3)]; } else { long k = std::labs(d.x + d.y); d = {d.x / k, d.y / k}; } c.in("origin", o); c.in("direction", d); c.in("segment", IS{a, b}); c.in("scale", s); ray(c, o, d, a, b, s, m, V2{(double)d.x, (double)d.y}, direct()); ray(c, o, d, a, b, s, m, V2{(double)d.x, (double)d.y}, abs_cmp(1e-10)); }
GROUP(ray_tolerance, 80000, 4000000) { Rng& r = c.rng; long m = std::min(rrange(r), 200L); I2 o, d, a, b; gen(r, m, o, d, a, b); c.in("origin", o); c.in("direction", d); c.in("segment", IS{a, b}); V2 v = normalize(V2{(double)d.x, (double)d.y}); ray(c, o, d, a, b, 1, m, v, abs_cmp(1e-9)); }
template <class Cmp> static void rayline(const I2& o, const I2& d, const I2& a, const I2& e, double s, long m, const V2& v, const line<P2>& l, const Cmp& cmp) {
    i128 den = crossi(d, e); int w; if (den == 0) w = crossi(e, o - a) == 0 ? 2 : 0; else { i128 t = crossi(a - o, e); if (den < 0) t = -t; w = t >= 0; }
    double t = -7; P2 X(9e99, 0); auto g = ray_line_intersection(tp(o, s), v, l, t, X, cmp); REQ(g.is_intersecting() == (w != 0), "ray and line: " << (g.is_intersecting() ? "hit" : "no hit") << " reported"); REQ(g.is_overlapping() == (w == 2), "ray and line: overlap " << g.is_overlapping()); REQ((g == true) == (w != 0) && (g == false) == (w == 0), "comparison with bool");
    if (w == 1) { double tol = 1e-9 * s * m * m; L2 E{(ld)e.x, (ld)e.y}; REQ(off_ray(X, o, d, s) <= tol && std::fabs(cross(E, lp(X) - lp(tp(a, s)))) / norm(E) <= tol, "hit point " << str(X)); REQ(std::fabs(dist(X, tp(o, s)) - t) <= tol, "distance of the hit"); } count(w == 0 ? "ray misses the line" : w == 1 ? "ray hits the line" : "ray on the line");
}
GROUP(ray_line, 60000, 3000000) { Rng& r = c.rng; long m = std::min(rrange(r), 100L); I2 o, d, a, b; gen(r, m, o, d, a, b); I2 e = b - a; c.in("origin", o); c.in("direction", d); c.in("line point", a); c.in("line direction", e); V2 v = normalize(V2{(double)d.x, (double)d.y}); rayline(o, d, a, e, 1, m, v, line<P2>(tp(a), V2{(double)e.x, (double)e.y}), abs_cmp(1e-9)); rayline(o, d, a, e, 1, m, v, line<P2>(tp(a), tp(b)), abs_cmp(1e-9)); rayline(o, d, a, e, 1, m, v, line<P2>(ts(a, b)), abs_cmp(1e-9)); }
template <class Cmp> static void lines(const I2& a, const I2& b, const I2& p, const I2& q, double s, long m, const Cmp& cmp) {
    i128 den = crossi(b - a, q - p); auto want = den ? e_crossing : orient(a, b, p) == 0 ? e_overlapping : e_non_crossing; P2 A = tp(a, s), B = tp(b, s), C = tp(p, s), D = tp(q, s), X(9e99, 0), Y(9e99, 0); double u = 7, t = 7; auto g = line_line_intersect(A, B, C, D, X, u, t, cmp), h = line_line_intersect(A, B, C, D, Y, cmp); REQ(g == want && h == want, "line-line is " << kind(g) << "/" << kind(h) << " want " << kind(want));
    if (den) { ld U = (ld)crossi(p - a, q - p) / (ld)den, T = (ld)crossi(p - a, b - a) / (ld)den; REQ(vt::close(u, (double)U, 1e-12, 1e-13) && vt::close(t, (double)T, 1e-12, 1e-13), "line parameters " << u << "," << t << " want " << (double)U << "," << (double)T); L2 W{((ld)a.x + U * (b.x - a.x)) * s, ((ld)a.y + U * (b.y - a.y)) * s}; double tol = 1e-12 * s * m * (double)(1 + std::fabs(U) + std::fabs(T)); REQ(norm(lp(X) - W) <= tol && norm(lp(Y) - W) <= tol, "line-line point " << str(X) << str(Y)); }
    auto k = line_segment_intersect(A, B, C, D, X, cmp), k2 = line_segment_intersect(A, B, S2(C, D), Y, cmp); int o1 = orient(a, b, p), o2 = orient(a, b, q); auto ws = o1 == 0 && o2 == 0 ? e_overlapping : o1 == 0 || o2 == 0 ? e_endpoint : o1 != o2 ? e_crossing : e_non_crossing; REQ(k == ws && k2 == ws, "line-segment is " << kind(k) << " want " << kind(ws));
    if (ws == e_endpoint || ws == e_crossing) { double tol = 1e-10 * s * m; L2 E = lp(B) - lp(A); REQ(dist_ps(lp(X), lp(C), lp(D)) <= tol && std::fabs(cross(E, lp(X) - lp(A))) / norm(E) <= tol && X[0] == Y[0] && X[1] == Y[1], "line-segment point " << str(X)); } count(ws == e_overlapping ? "line holds the segment" : ws == e_endpoint ? "line meets an end" : ws == e_crossing ? "line crosses the segment" : den ? "line passes by" : "line parallel");
}
GROUP(line_pairs, 80000, 4000000) {
    Rng& r = c.rng; long m = std::min(rrange(r), 1000L); double s = rscale(r); I2 a = rpt(r, m), b, p, q; do b = r.p(0.3) ? I2{a.x, r.in(-m, m)} : r.p(0.3) ? I2{r.in(-m, m), a.y} : rpt(r, m); while (a == b); do { p = rpt(r, m); q = rpt(r, m); I2 d = b - a; long k = r.in(-2, 3); if (r.p(0.3)) p = {a.x + k * d.x, a.y + k * d.y}; if (r.p(0.3)) q = {p.x + (k - 1) * d.x, p.y + (k - 1) * d.y}; if (r.p(0.3)) std::swap(p, q); } while (p == q);
    c.in("line", IS{a, b}); c.in("other", IS{p, q}); c.in("scale", s); lines(a, b, p, q, s, m, direct()); lines(a, b, p, q, s, m, abs_cmp(1e-10));
}
