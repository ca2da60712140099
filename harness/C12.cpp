#include "geo.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/polygon_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_aabb_intersection.hpp>
using namespace vt;
using namespace geometrix;
typedef axis_aligned_bounding_box<P2> B2; typedef axis_aligned_bounding_box<P3> B3;
template <int D> using J = std::array<long, D>;
template <int D> struct TP; template <> struct TP<2> { typedef P2 P; static P2 mk(const J<2>& a, double s) { return P2(a[0] * s, a[1] * s); } }; template <> struct TP<3> { typedef P3 P; static P3 mk(const J<3>& a, double s) { return P3(a[0] * s, a[1] * s, a[2] * s); } };
template <int D> static J<D> rj(Rng& r, long m) { J<D> a; for (auto& x : a) x = r.in(-m, m); return a; }
template <int D> static void rbox(Rng& r, long m, J<D>& lo, J<D>& hi) { for (int k = 0; k < D; ++k) { lo[k] = r.in(-m, m); hi[k] = r.p(0.1) ? lo[k] : r.in(-m, m); if (hi[k] < lo[k]) std::swap(lo[k], hi[k]); } }
static std::tuple<double, double, double, double> tup(const J<2>& l, const J<2>& h, double s) { return std::make_tuple(l[0] * s, h[0] * s, l[1] * s, h[1] * s); }
static std::tuple<double, double, double, double, double, double> tup(const J<3>& l, const J<3>& h, double s) { return std::make_tuple(l[0] * s, h[0] * s, l[1] * s, h[1] * s, l[2] * s, h[2] * s); }
template <int D, class B> static bool is(const B& b, const J<D>& lo, const J<D>& hi, double s) { for (int k = 0; k < D; ++k) if (b.get_lower_bound()[k] != lo[k] * s || b.get_upper_bound()[k] != hi[k] * s) return false; return true; }
static void corners(const axis_aligned_bounding_box<P2>& b, const J<2>& lo, const J<2>& hi, double s) { long w[4][2] = {{lo[0], lo[1]}, {hi[0], lo[1]}, {hi[0], hi[1]}, {lo[0], hi[1]}}; REQ(b.size() == 4, "a box has " << b.size() << " corners"); for (int i = 0; i < 4; ++i) { P2 p = b[i]; REQ(p[0] == w[i][0] * s && p[1] == w[i][1] * s, "corner " << i << " of the box is " << str(p)); } count("boxes with corners listed"); }
static void corners(const axis_aligned_bounding_box<P3>&, const J<3>&, const J<3>&, double) {}
template <int D> static void bounds(Case& c) {
    typedef typename TP<D>::P P; typedef axis_aligned_bounding_box<P> B; Rng& r = c.rng; long m = rrange(r); double s = rscale(r); int n = (int)r.in(1, 14); J<D> o = rj<D>(r, r.p(0.5) ? 0 : 4 * m); std::vector<J<D>> v; std::vector<P> pts; for (int i = 0; i < n; ++i) { auto q = rj<D>(r, m); for (int k = 0; k < D; ++k) q[k] += o[k]; if (i && r.p(0.2)) q[r.in(0, D - 1)] = v[i - 1][0]; v.push_back(q); pts.push_back(TP<D>::mk(q, s)); } c.in("points", v); c.in("scale", s);
    auto box = [&](std::size_t a, std::size_t b, J<D>& lo, J<D>& hi) { lo = hi = v[a]; for (std::size_t i = a; i <= b; ++i) for (int k = 0; k < D; ++k) lo[k] = std::min(lo[k], v[i][k]), hi[k] = std::max(hi[k], v[i][k]); }; J<D> lo, hi; box(0, n - 1, lo, hi);
    B b = make_aabb<P>(pts), b2 = make_aabb<P>(pts, abs_cmp(1e-10)); REQ(is<D>(b, lo, hi, s) && is<D>(b2, lo, hi, s), "box of points is " << str(b.get_lower_bound()) << str(b.get_upper_bound())); REQ(b.to_tuple() == tup(lo, hi, s), "to_tuple"); corners(b, lo, hi, s); REQ(is<D>(B(b.to_tuple()), lo, hi, s), "box from its tuple"); REQ(is<D>(make_aabb<P>(get_bounds(pts, direct())), lo, hi, s), "box from get_bounds"); for (auto& p : pts) REQ(b.intersects(p) && b.intersects(p, direct()), "box does not hold its own point");
    std::size_t x = r.in(0, n - 1), y = r.in(x, n - 1); J<D> sl, sh; box(x, y, sl, sh); B sb = make_aabb<P>(pts, std::make_tuple(x, y)); REQ(is<D>(sb, sl, sh, s), "box of the sub-range " << x << ".." << y << " is " << str(sb.get_lower_bound()) << str(sb.get_upper_bound())); REQ(b.contains(sb) && b.contains(sb, direct()) && b.intersects(sb), "box of a sub-range is not contained");
    { J<D> e = v[x], f = v[y], l, h; for (int k = 0; k < D; ++k) l[k] = std::min(e[k], f[k]), h[k] = std::max(e[k], f[k]); REQ(is<D>(make_aabb<P>(segment<P>(pts[x], pts[y])), l, h, s), "box of a segment"); }
    J<D> l2, h2; rbox<D>(r, m, l2, h2); c.in("other low", l2); c.in("other high", h2); B e = b; e.expand(B(TP<D>::mk(l2, s), TP<D>::mk(h2, s))); B e2 = b; e2.expand(tup(l2, h2, s)); J<D> el, eh; for (int k = 0; k < D; ++k) el[k] = std::min(lo[k], l2[k]), eh[k] = std::max(hi[k], h2[k]); REQ(is<D>(e, el, eh, s) && is<D>(e2, el, eh, s), "expanded box is " << str(e.get_lower_bound()) << str(e.get_upper_bound())); B as = b; as = tup(l2, h2, s); REQ(is<D>(as, l2, h2, s), "assigned box"); count("boxes built");
    // containment and overlap are the closed interval tests per axis
    bool in = true, ov = true; for (int k = 0; k < D; ++k) { in = in && lo[k] <= l2[k] && h2[k] <= hi[k]; ov = ov && l2[k] <= hi[k] && lo[k] <= h2[k]; } B o2(TP<D>::mk(l2, s), TP<D>::mk(h2, s)); REQ(b.contains(o2) == in && b.contains(o2, abs_cmp(1e-10)) == in, "contains is " << !in); REQ(b.intersects(o2) == ov && o2.intersects(b, direct()) == ov && aabb_aabb_intersection(b, o2, abs_cmp(1e-10)) == ov && aabb_aabb_intersection(o2, b, direct()) == ov, "box overlap is " << !ov); count(in ? "contained" : ov ? "overlapping" : "apart");
    J<D> q = rj<D>(r, m); for (int k = 0; k < D; ++k) { if (r.p(0.3)) q[k] = r.p(0.5) ? lo[k] : hi[k]; else if (r.p(0.5)) q[k] = r.in(lo[k], hi[k]); } bool pin = true; for (int k = 0; k < D; ++k) pin = pin && lo[k] <= q[k] && q[k] <= hi[k]; REQ(b.intersects(TP<D>::mk(q, s)) == pin && b.intersects(TP<D>::mk(q, s), abs_cmp(1e-10)) == pin, "point in box is " << !pin);
}
GROUP(bounds2, 40000, 2000000) { bounds<2>(c); }
GROUP(bounds3, 40000, 2000000) { bounds<3>(c); }
struct Frac { i128 n, d; }; static bool lt(const Frac& a, const Frac& b) { return a.n * b.d < b.n * a.d; }
template <int D> static bool seg_box(const J<D>& a, const J<D>& b, const J<D>& lo, const J<D>& hi, Frac& t0, Frac& t1, bool ray = false) {
    t0 = {0, 1}; t1 = {1, ray ? 0 : 1}; for (int k = 0; k < D; ++k) { long d = b[k] - a[k]; if (d == 0) { if (a[k] < lo[k] || a[k] > hi[k]) return false; continue; } Frac u{lo[k] - a[k], d}, w{hi[k] - a[k], d}; if (d < 0) { u = {-u.n, -u.d}; w = {-w.n, -w.d}; std::swap(u, w); } if (lt(t0, u)) t0 = u; if (lt(w, t1)) t1 = w; } return !lt(t1, t0);
}
template <int D> static void segbox(Case& c) {
    typedef typename TP<D>::P P; Rng& r = c.rng; long m = r.pick(std::vector<long>{2, 3, 6, 40, 1000}); double s = rscale(r); J<D> lo, hi; rbox<D>(r, m, lo, hi); J<D> a = rj<D>(r, m + m / 2 + 1), b = r.p(0.1) ? a : rj<D>(r, m + m / 2 + 1); for (int k = 0; k < D; ++k) { if (r.p(0.2)) b[k] = a[k]; if (r.p(0.2)) a[k] = r.p(0.5) ? lo[k] : hi[k]; if (r.p(0.1)) b[k] = r.p(0.5) ? lo[k] : hi[k]; } if (r.p(0.2)) { /* aim through a box corner */ J<D> q; for (int k = 0; k < D; ++k) q[k] = r.p(0.5) ? lo[k] : hi[k]; long j = r.in(1, 3); for (int k = 0; k < D; ++k) b[k] = q[k] + j * (q[k] - a[k]); }
    c.in("low", lo); c.in("high", hi); c.in("a", a); c.in("b", b); c.in("scale", s); axis_aligned_bounding_box<P> B(TP<D>::mk(lo, s), TP<D>::mk(hi, s)); Frac x, y; bool w = seg_box<D>(a, b, lo, hi, x, y); bool g = segment_aabb_intersection(TP<D>::mk(a, s), TP<D>::mk(b, s), B), g2 = segment_aabb_intersection(TP<D>::mk(b, s), TP<D>::mk(a, s), B); REQ(g == w && g2 == w, "segment-box is " << g << "/" << g2 << " want " << w); count(w ? (lt(x, y) ? "segment enters the box" : "segment touches the box") : "segment misses the box");
}
GROUP(segment2, 80000, 4000000) { segbox<2>(c); }
GROUP(segment3, 80000, 4000000) { segbox<3>(c); }
static void raybox(Case& c, const J<2>& o, const J<2>& d, const J<2>& lo, const J<2>& hi, double s, long m, bool exact) {
    J<2> e{o[0] + d[0], o[1] + d[1]}; Frac t0, t1; bool w = seg_box<2>(o, e, lo, hi, t0, t1, true); ld L = std::sqrt((ld)(d[0] * d[0] + d[1] * d[1])); if (!exact) { // stay clear of corner grazing: shrink and grow the box
        J<2> o4{o[0] * 64, o[1] * 64}, e4{o4[0] + d[0], o4[1] + d[1]}, a{lo[0] * 64 - 1, lo[1] * 64 - 1}, b{hi[0] * 64 + 1, hi[1] * 64 + 1}, a2{lo[0] * 64 + 1, lo[1] * 64 + 1}, b2{hi[0] * 64 - 1, hi[1] * 64 - 1}; Frac x, y; bool big = seg_box<2>(o4, e4, a, b, x, y, true), small = a2[0] <= b2[0] && a2[1] <= b2[1] && seg_box<2>(o4, e4, a2, b2, x, y, true); if (big != small) { count("grazing (not judged)"); return; } }
    V2 v{(double)(d[0] / L), (double)(d[1] / L)}; B2 B(TP<2>::mk(lo, s), TP<2>::mk(hi, s)); P2 O = TP<2>::mk(o, s), q(9e99, 0), q0(9e99, 0), q1(9e99, 0); double t = -7, a = -7, b = -7; bool inside = lo[0] <= o[0] && o[0] <= hi[0] && lo[1] <= o[1] && o[1] <= hi[1];
    auto go = [&](auto const& cmp) { auto g = ray_aabb_intersection(O, v, B, t, q, cmp); auto h = ray_aabb_intersection(O, v, B, a, q0, b, q1, cmp); REQ(g.is_intersecting() == w && h.is_intersecting() == w && (g == w) && !(g == !w), "ray-box is " << g.is_intersecting() << "/" << h.is_intersecting() << " want " << w); if (!w) { REQ(!g.is_origin_inside(), "origin inside reported without a hit"); return; } REQ(g.is_origin_inside() == inside && h.is_origin_inside() == inside, "origin inside is " << !inside);
        ld w0 = (ld)t0.n / (ld)t0.d * L * s, w1 = (ld)t1.n / (ld)t1.d * L * s; double tol = 1e-11 * s * m * (exact ? 1 : 100); REQ(std::fabs(a - w0) <= tol && std::fabs(b - w1) <= tol, "entry/exit " << a << "," << b << " want " << (double)w0 << "," << (double)w1); auto at = [&](ld k) { return L2{O[0] + k * d[0] / L, O[1] + k * d[1] / L}; }; REQ(norm(lp(q0) - at(w0)) <= tol && norm(lp(q1) - at(w1)) <= tol, "entry/exit points " << str(q0) << str(q1)); REQ(norm(lp(q) - at(inside ? w1 : w0)) <= tol, "hit point " << str(q) << (inside ? " (origin inside: want the exit)" : "")); if (!inside) REQ(std::fabs(t - w0) <= tol, "hit distance " << t << " want " << (double)w0); };
    go(direct()); go(abs_cmp(1e-10)); count(!w ? "ray misses the box" : inside ? "ray starts in the box" : lt(t0, t1) ? "ray passes the box" : "ray touches the box");
}
GROUP(ray_axis, 60000, 3000000) { Rng& r = c.rng; long m = r.pick(std::vector<long>{2, 4, 12, 200}); double s = rscale(r); J<2> lo, hi, o = rj<2>(r, m + 2), d{0, 0}; rbox<2>(r, m, lo, hi); for (int k = 0; k < 2; ++k) if (r.p(0.4)) o[k] = r.p(0.5) ? lo[k] : hi[k]; d[r.in(0, 1)] = r.p(0.5) ? 1 : -1; c.in("low", lo); c.in("high", hi); c.in("origin", o); c.in("direction", d); c.in("scale", s); raybox(c, o, d, lo, hi, s, m, true); }
GROUP(ray_general, 80000, 4000000) { Rng& r = c.rng; long m = r.pick(std::vector<long>{2, 4, 12, 100}); J<2> lo, hi, o = rj<2>(r, m + 2), d; rbox<2>(r, m, lo, hi); if (lo[0] == hi[0] || lo[1] == hi[1]) { hi[0]++; hi[1]++; } do d = r.p(0.4) ? J<2>{r.in(-3, 3), r.in(-3, 3)} : rj<2>(r, 20); while (d[0] == 0 && d[1] == 0); c.in("low", lo); c.in("high", hi); c.in("origin", o); c.in("direction", d); raybox(c, o, d, lo, hi, 1, m, false); }
GROUP(polygons, 30000, 1500000) {
    Rng& r = c.rng; IPoly v = any_poly(r, r.p(0.1) ? 60 : 16); double s = rscale(r); if (r.p(0.4)) std::reverse(v.begin(), v.end()); long lx = v[0].x, hx = lx, ly = v[0].y, hy = ly; for (auto& p : v) { lx = std::min(lx, p.x); hx = std::max(hx, p.x); ly = std::min(ly, p.y); hy = std::max(hy, p.y); } c.in("points", v); c.in("scale", s); PG g = tpg(v, s); PL l = tpl(v, s); std::size_t n = v.size();
    for (int k = 0; k < 6; ++k) { J<2> lo, hi; long w = std::max(1L, (hx - lx) / r.in(1, 12)), h = std::max(1L, (hy - ly) / r.in(1, 12)); lo = {r.in(lx - w - 1, hx + 1), r.in(ly - h - 1, hy + 1)}; hi = {lo[0] + r.in(0, w), lo[1] + r.in(0, h)}; if (r.p(0.1)) { lo = {lx - 1, ly - 1}; hi = {hx + 1, hy + 1}; } c.in("low", lo); c.in("high", hi); B2 B(TP<2>::mk(lo, s), TP<2>::mk(hi, s)); bool le = false, pe; Frac x, y; for (std::size_t i = 0; i + 1 < n; ++i) le = le || seg_box<2>({v[i].x, v[i].y}, {v[i + 1].x, v[i + 1].y}, lo, hi, x, y); pe = le || seg_box<2>({v[n - 1].x, v[n - 1].y}, {v[0].x, v[0].y}, lo, hi, x, y); bool cin = in_poly(v, I2{lo[0], lo[1]}) >= 0; bool wp = pe || cin;
        REQ(polyline_aabb_intersection(l, B) == le, "polyline-box is " << !le); REQ(polygon_aabb_intersection(g, B) == wp, "polygon-box is " << !wp); count(le ? "border meets the box" : pe ? "closing edge meets the box" : cin ? "box inside the polygon" : "apart from the box"); }
}
