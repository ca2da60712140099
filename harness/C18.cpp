#include "conv.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/distance/eberly_segment_segment_distance.hpp>
using namespace vt;
using namespace geometrix;
// Rounding of a clamped parameter moves a closest point along a segment by about eps/sin^2(angle); inputs keep the angle away from
// zero unless exactly parallel, so 1e-9 of the extent is far above rounding and far below any grid distance.
static const abs_cmp CMP(1e-10);
static ld extent(const std::vector<P2>& v) { ld m = 0; for (auto& p : v) m = std::max(m, std::max(std::fabs((ld)p[0] - v[0][0]), std::fabs((ld)p[1] - v[0][1]))); return m; }
static bool sqok(ld got, ld want, ld ext) { return std::isfinite((double)got) && got >= -1e-300L && std::fabs(std::sqrt(std::max<ld>(got, 0)) - want) <= 1e-9L * ext + 1e-300L; }
template <int D> struct T; template <> struct T<2> { typedef P2 P; static L3 of(const P2& p) { return {p[0], p[1], 0}; } }; template <> struct T<3> { typedef P3 P; static L3 of(const P3& p) { return {p[0], p[1], p[2]}; } };
static P2 gp(Rng& r, bool grid, long m, double s) { return grid ? P2(r.in(-m, m) * s, r.in(-m, m) * s) : P2(r.real(-m, m) * s, r.real(-m, m) * s); }
static bool slanted(const P2& a, const P2& b, const P2& c, const P2& d) { L2 u = lp(b) - lp(a), v = lp(d) - lp(c); ld x = std::fabs(cross(u, v)); return x == 0 || x > 1e-4L * norm(u) * norm(v); }
static const char* kindof(const P2& a, const P2& b, const P2& c, const P2& d) { L2 u = lp(b) - lp(a), v = lp(d) - lp(c); if (norm(u) == 0 || norm(v) == 0) return "point segment"; if (cross(u, v) == 0) return cross(u, lp(c) - lp(a)) == 0 ? "collinear pair" : "parallel pair"; return dist_ss(lp(a), lp(b), lp(c), lp(d)) == 0 ? "meeting pair" : "apart pair"; }
GROUP(segments, 60000, 2000000) {
    Rng& r = c.rng; bool grid = r.p(0.6); double s = rscale(r); long m = r.p(0.5) ? 4 : 12; P2 q[4]; for (auto& x : q) x = gp(r, grid, m, s);
    if (r.p(0.1)) q[1] = q[0]; if (r.p(0.1)) q[3] = q[2]; if (r.p(0.15)) { double k = r.in(-2, 2); q[3] = P2(q[2][0] + k * (q[1][0] - q[0][0]), q[2][1] + k * (q[1][1] - q[0][1])); } if (r.p(0.1)) { q[2] = P2(2 * q[1][0] - q[0][0], 2 * q[1][1] - q[0][1]); if (r.p(0.5)) q[3] = P2(3 * q[1][0] - 2 * q[0][0], 3 * q[1][1] - 2 * q[0][1]); } if (r.p(0.1)) q[2] = q[r.in(0, 1)];
    if (!slanted(q[0], q[1], q[2], q[3])) SKIP_CASE(); for (int i = 0; i < 4; i += 2) { ld l = dist(q[i], q[i + 1]); if (l > 0 && l < 1e-3 * s) SKIP_CASE(); } c.in("a", q[0]); c.in("b", q[1]); c.in("c", q[2]); c.in("d", q[3]); if (s < 1e-2) SKIP_CASE();
    std::vector<P2> all(q, q + 4); ld ext = extent(all); ld want = dist_ss(lp(q[0]), lp(q[1]), lp(q[2]), lp(q[3])); count(kindof(q[0], q[1], q[2], q[3]));
    for (int f = 0; f < 8; ++f) { P2 a = q[0], b = q[1], e = q[2], g = q[3]; if (f & 1) std::swap(a, b); if (f & 2) std::swap(e, g); if (f & 4) { std::swap(a, e); std::swap(b, g); }
        double t = 7, u = 7; P2 c1(99, 99), c2(-99, 99); double d2 = segment_segment_closest_point(a, b, e, g, t, u, c1, c2, CMP);
        REQ(sqok(d2, want, ext), "closest-point form gives squared distance " << d2 << " for distance " << (double)want); REQ(t >= 0 && t <= 1 && u >= 0 && u <= 1, "parameters " << t << ", " << u << " leave the segments");
        REQ(norm(lp(c1) - (lp(a) + (ld)t * (lp(b) - lp(a)))) <= 1e-12L * (ext + norm(lp(a))) && norm(lp(c2) - (lp(e) + (ld)u * (lp(g) - lp(e)))) <= 1e-12L * (ext + norm(lp(e))), "closest points " << str(c1) << " " << str(c2) << " are not at their parameters"); REQ(sqok(dist(c1, c2) * dist(c1, c2), want, ext), "closest points are " << (double)dist(c1, c2) << " apart, segments " << (double)want);
        double x[6] = {segment_segment_distance_sqrd(a, b, e, g, CMP), segment_segment_distance_sqrd(S2(a, b), S2(e, g), CMP), eberly_segment_segment_distance_sqrd(S2(a, b), S2(e, g)), 0, 0, 0}; x[3] = segment_segment_distance(a, b, e, g, CMP); x[4] = segment_segment_distance(S2(a, b), S2(e, g), CMP);
        for (int k = 0; k < 3; ++k) REQ(sqok(x[k], want, ext), "squared distance form " << k << " gives " << x[k] << " for distance " << (double)want); for (int k = 3; k < 5; ++k) REQ(sqok((ld)x[k] * x[k], want, ext) && x[k] >= 0, "distance form " << k << " gives " << x[k] << " for " << (double)want); }
}
GROUP(segments3, 20000, 500000) {
    Rng& r = c.rng; double s = rscale(r); P3 q[4]; for (auto& x : q) x = P3(r.in(-6, 6) * s, r.in(-6, 6) * s, r.in(-6, 6) * s); if (r.p(0.1)) q[1] = q[0]; if (r.p(0.1)) q[3] = q[2]; if (r.p(0.2)) { double k = r.in(-2, 2); for (int i = 0; i < 3; ++i) q[3][i] = q[2][i] + k * (q[1][i] - q[0][i]); } if (r.p(0.1)) q[2] = q[1]; for (int i = 0; i < 4; ++i) c.in("p", q[i]);
    ld want = dist_ss(lp(q[0]), lp(q[1]), lp(q[2]), lp(q[3])); ld ext = 20 * s; for (int f = 0; f < 8; ++f) { P3 a = q[0], b = q[1], e = q[2], g = q[3]; if (f & 1) std::swap(a, b); if (f & 2) std::swap(e, g); if (f & 4) { std::swap(a, e); std::swap(b, g); } double x = eberly_segment_segment_distance_sqrd(S3(a, b), S3(e, g)); REQ(sqok(x, want, ext), "squared distance in space " << x << " for distance " << (double)want); } count(want == 0 ? "meeting in space" : "apart in space");
}
static std::vector<P2> chain(Rng& r, bool grid, double s, int lo, int hi, bool closed) {
    int n = (int)r.in(lo, big(r, hi)); std::vector<P2> v; P2 o(r.in(-25, 25) * s, r.in(-25, 25) * s); int k = (int)r.in(0, 3); if (closed && r.p(0.5)) { IPoly q = any_poly(r, std::max(4, n)); if (r.p(0.5)) std::reverse(q.begin(), q.end()); long mx = 1; for (auto& x : q) mx = std::max(mx, std::max(std::labs(x.x), std::labs(x.y))); if (mx < 300) { for (auto& x : q) v.push_back(P2(x.x * s + o[0], x.y * s + o[1])); if ((int)v.size() >= lo) return v; } v.clear(); }
    double x = 0, y = 0, ph = r.real(0, 6.3); for (int i = 0; i < n; ++i) { P2 p; if (k == 0) { x += r.in(-4, 4); y += r.in(-4, 4); p = P2(x * s, y * s); } else if (k == 1) p = gp(r, grid, 12, s); else if (k == 2) { double a = ph + 6.2831853 * i / n; p = P2(10 * s * std::cos(a), 10 * s * std::sin(a)); if (grid) p = P2(std::round(p[0] / s) * s, std::round(p[1] / s) * s); } else { x += r.in(1, 4); p = P2(x * s, r.in(-6, 6) * s); } p = P2(p[0] + o[0], p[1] + o[1]); if (!v.empty() && dist(v.back(), p) < 1e-3 * s) continue; v.push_back(p); } if (closed && v.size() > 2 && dist(v.back(), v.front()) < 1e-3 * s) v.pop_back(); if ((int)v.size() < 2 + closed) SKIP_CASE(); return v; }
struct Best { ld d = 1e300L; int i = -1, j = -1; };
static Best all_pairs(const std::vector<P2>& a, bool ca, const std::vector<P2>& b, bool cb) { Best z; for (std::size_t i = 0; i + 1 < a.size() + ca; ++i) for (std::size_t j = 0; j + 1 < b.size() + cb; ++j) { ld d = dist_ss(lp(a[i]), lp(a[(i + 1) % a.size()]), lp(b[j]), lp(b[(j + 1) % b.size()])); if (d < z.d) z.d = d, z.i = i, z.j = j; if (!slanted(a[i], a[(i + 1) % a.size()], b[j], b[(j + 1) % b.size()])) SKIP_CASE(); } return z; }
static ld ext2(const std::vector<P2>& a, const std::vector<P2>& b) { std::vector<P2> v(a); v.insert(v.end(), b.begin(), b.end()); return extent(v); }
static void realise(const char* what, const std::vector<P2>& a, const std::vector<P2>& b, std::size_t i, std::size_t j, bool ca, bool cb, double t, double u, P2 c1, P2 c2, double d2, ld want, ld ext) {
    REQ(sqok(d2, want, ext), what << " gives squared distance " << d2 << " for distance " << (double)want); REQ(i < a.size() - !ca && j < b.size() - !cb, what << " names edges " << i << "," << j << " of " << a.size() << " and " << b.size() << " vertices"); REQ(t >= 0 && t <= 1 && u >= 0 && u <= 1, what << " gives parameters " << t << "," << u);
    L2 x = lp(a[i]) + (ld)t * (lp(a[(i + 1) % a.size()]) - lp(a[i])), y = lp(b[j]) + (ld)u * (lp(b[(j + 1) % b.size()]) - lp(b[j])); ld mag = ext + norm(lp(a[0])) + norm(lp(b[0])); REQ(norm(lp(c1) - x) <= 1e-11L * mag && norm(lp(c2) - y) <= 1e-11L * mag, what << " closest points " << str(c1) << str(c2) << " are not on edges " << i << "," << j << " at " << t << "," << u); REQ(std::fabs(dist(c1, c2) - want) <= 1e-9L * ext, what << " closest points are " << (double)dist(c1, c2) << " apart instead of " << (double)want); }
GROUP(segment_chain, 25000, 800000) {
    Rng& r = c.rng; bool grid = r.p(0.7); double s = r.pick(std::vector<double>{1, 0.5, 4}); bool closed = r.p(0.5); std::vector<P2> v = chain(r, grid, s, 2 + closed, r.p(0.3) ? 30 : 7, closed), a{gp(r, grid, 30, s), gp(r, grid, 30, s)}; if (r.p(0.1)) a[1] = a[0]; if (dist(a[0], a[1]) < 1e-3 * s) a[1] = a[0]; c.in("segment", a); c.in("chain", v); c.in("closed", closed); Best w = all_pairs(a, false, v, closed); ld ext = ext2(a, v); double t = 9, u = 9; std::size_t j = 999; P2 c1(77, 77), c2(78, 78); S2 sg(a[0], a[1]); count(w.d == 0 ? "segment meets chain" : w.j == (int)v.size() - 1 ? "closing edge nearest" : "segment apart from chain");
    if (closed) { PG g(v.begin(), v.end()); REQ(sqok(segment_polygon_distance_sqrd(sg, g, CMP), w.d, ext) && sqok(segment_polygon_distance_sqrd(a[0], a[1], g, CMP), w.d, ext), "segment-polygon squared distance " << segment_polygon_distance_sqrd(sg, g, CMP) << " for " << (double)w.d); double x = segment_polygon_distance(sg, g, CMP), y = segment_polygon_distance(a[0], a[1], g, CMP); REQ(std::fabs(x - w.d) <= 1e-9L * ext && std::fabs(y - w.d) <= 1e-9L * ext, "segment-polygon distance " << x << " for " << (double)w.d); double d2 = segment_polygon_closest_point(a[0], a[1], g, j, t, u, c1, c2, CMP); realise("segment-polygon", a, v, 0, j, false, true, t, u, c1, c2, d2, w.d, ext); d2 = segment_polygon_closest_point(sg, g, j, t, u, c1, c2, CMP); realise("segment-polygon", a, v, 0, j, false, true, t, u, c1, c2, d2, w.d, ext); }
    else { PL g(v.begin(), v.end()); REQ(sqok(segment_polyline_distance_sqrd(sg, g, CMP), w.d, ext) && sqok(segment_polyline_distance_sqrd(a[0], a[1], g, CMP), w.d, ext), "segment-polyline squared distance " << segment_polyline_distance_sqrd(sg, g, CMP) << " for " << (double)w.d); double x = segment_polyline_distance(sg, g, CMP), y = segment_polyline_distance(a[0], a[1], g, CMP); REQ(std::fabs(x - w.d) <= 1e-9L * ext && std::fabs(y - w.d) <= 1e-9L * ext, "segment-polyline distance " << x << " for " << (double)w.d); double d2 = segment_polyline_closest_point(a[0], a[1], g, j, t, u, c1, c2, CMP); realise("segment-polyline", a, v, 0, j, false, false, t, u, c1, c2, d2, w.d, ext); d2 = segment_polyline_closest_point(sg, g, j, t, u, c1, c2, CMP); realise("segment-polyline", a, v, 0, j, false, false, t, u, c1, c2, d2, w.d, ext); }
}
template <class G, class D2, class D, class CPt> static void pair_case(Case& c, bool closed, const char* what, D2 d2f, D df, CPt cpf) {
    Rng& r = c.rng; bool grid = r.p(0.7); double s = r.pick(std::vector<double>{1, 0.5, 4}); int kind = (int)r.in(0, 3); int lo = 2 + closed; std::vector<P2> a = chain(r, grid, s, kind ? 6 : lo, kind == 3 ? 60 : kind == 2 ? 24 : kind == 1 ? 9 : 5, closed), b = chain(r, grid, s, kind && r.p(0.9) ? 6 : lo, kind == 3 ? 60 : kind == 2 ? 24 : 9, closed);
    if (r.p(0.3)) { double x = 0; for (auto& p : a) x = std::max(x, p[0]); double y = 1e300; for (auto& p : b) y = std::min(y, p[0]); double dx = std::round((x - y) / s + r.in(0, 4)) * s; for (auto& p : b) p = P2(p[0] + dx, p[1]); } if (r.p(0.15)) { std::size_t i = r.p(0.5) ? 0 : r.in(0, a.size() - 1), j = r.p(0.5) ? 0 : r.in(0, b.size() - 1); V2 d(a[i][0] - b[j][0], a[i][1] - b[j][1]); for (auto& p : b) p = P2(p[0] + d[0], p[1] + d[1]); } if (r.p(0.2)) std::reverse(a.begin(), a.end()); c.in("first", a); c.in("second", b);
    Best w = all_pairs(a, closed, b, closed); ld ext = ext2(a, b); count(a.size() >= 6 && b.size() >= 6 ? "indexed search" : "pairwise search"); count(w.d == 0 ? "pair meets" : "pair apart"); if (closed && (w.i == (int)a.size() - 1 || w.j == (int)b.size() - 1)) count("closing edge nearest pair"); if (w.d > 0 && std::fabs(dist(a[0], b[0]) - w.d) < 1e-12L) count("first vertices nearest");
    for (int f = 0; f < 2; ++f) { const std::vector<P2>&x = f ? b : a, &y = f ? a : b; G p(x.begin(), x.end()), q(y.begin(), y.end()); double e = d2f(p, q), g = df(p, q); REQ(sqok(e, w.d, ext) && std::fabs(g - w.d) <= 1e-9L * ext, what << " distance " << g << " squared " << e << " for distance " << (double)w.d << " at edges " << w.i << "," << w.j); std::size_t i = 9999, j = 9999; double t = 9, u = 9; P2 c1(1e6, 1), c2(-1e6, 1); double z = cpf(p, q, i, j, t, u, c1, c2); realise(what, x, y, i, j, closed, closed, t, u, c1, c2, z, w.d, ext); }
}
GROUP(polylines, 20000, 500000) { pair_case<PL>(c, false, "polyline-polyline", [](const PL& a, const PL& b) { return polyline_polyline_distance_sqrd(a, b, CMP); }, [](const PL& a, const PL& b) { return polyline_polyline_distance(a, b, CMP); }, [](const PL& a, const PL& b, std::size_t& i, std::size_t& j, double& t, double& u, P2& c1, P2& c2) { return polyline_polyline_closest_point(a, b, i, j, t, u, c1, c2, CMP); }); }
GROUP(polygons, 20000, 500000) { pair_case<PG>(c, true, "polygon-polygon", [](const PG& a, const PG& b) { return polygon_polygon_distance_sqrd(a, b, CMP); }, [](const PG& a, const PG& b) { return polygon_polygon_distance(a, b, CMP); }, [](const PG& a, const PG& b, std::size_t& i, std::size_t& j, double& t, double& u, P2& c1, P2& c2) { return polygon_polygon_closest_point(a, b, i, j, t, u, c1, c2, CMP); }); }
template <int D> static void boxes(Case& c) {
    typedef typename T<D>::P P; Rng& r = c.rng; double s = rscale(r); P l[2], h[2]; ld q = 0; for (int i = 0; i < D; ++i) { for (int k = 0; k < 2; ++k) { l[k][i] = r.in(-9, 9) * s; h[k][i] = l[k][i] + r.in(0, 9) * s; } if (r.p(0.1)) l[1][i] = h[0][i], h[1][i] = l[1][i] + r.in(0, 3) * s; ld g = std::max<ld>(0, std::max((ld)l[1][i] - h[0][i], (ld)l[0][i] - h[1][i])); q += g * g; } c.in("low1", l[0]); c.in("high1", h[0]); c.in("low2", l[1]); c.in("high2", h[1]); axis_aligned_bounding_box<P> a(l[0], h[0]), b(l[1], h[1]); REQ(close(aabb_aabb_distance_sqrd(a, b), (double)q, 1e-13, 0) && close(aabb_aabb_distance_sqrd(b, a), (double)q, 1e-13, 0) && close(aabb_aabb_distance(a, b), (double)std::sqrt(q), 1e-13, 0) && close(aabb_aabb_distance(b, a), (double)std::sqrt(q), 1e-13, 0), "box distance squared " << aabb_aabb_distance_sqrd(a, b) << "/" << aabb_aabb_distance_sqrd(b, a) << " should be " << (double)q); count(q == 0 ? "boxes meet" : "boxes apart"); }
GROUP(boxes2, 20000, 500000) { boxes<2>(c); }
GROUP(boxes3, 20000, 500000) { boxes<3>(c); }
typedef std::tuple<std::size_t, std::size_t> RG;
template <class G> struct Pt;
#define PARTS(G, n) template <> struct Pt<G> { \
    static double seg(int f, const S2& s, RG r, const G& g, std::size_t& j, double& t, double& u, P2& c1, P2& c2) { return f ? segment_##n##_closest_point(s, r, g, j, t, u, c1, c2, CMP) : segment_##n##_closest_point(s.get_start(), s.get_end(), r, g, j, t, u, c1, c2, CMP); } \
    static double segd(const P2& a, const P2& b, RG r, const G& g) { return segment_sub##n##_distance_sqrd(a, b, r, g, CMP); } \
    static double pair(RG r, const G& g, RG q, const G& h) { return sub##n##_sub##n##_distance_sqrd_brute(r, g, q, h, CMP); } \
    static double pairc(RG r, const G& g, RG q, const G& h, std::size_t& i, std::size_t& j, double& t, double& u, P2& c1, P2& c2) { return n##_##n##_closest_point_brute(r, g, q, h, i, j, t, u, c1, c2, CMP); } };
PARTS(PG, polygon) PARTS(PL, polyline)
template <class G> static void parts_case(Case& c, bool closed) {
    Rng& r = c.rng; std::vector<P2> v = chain(r, r.p(0.7), 1, 3, r.p(0.3) ? 24 : 8, closed), z = chain(r, r.p(0.7), 1, 3, r.p(0.3) ? 24 : 8, closed), a{gp(r, true, 30, 1), gp(r, true, 30, 1)}; if (dist(a[0], a[1]) == 0 && r.p(0.5)) SKIP_CASE(); std::size_t i0 = r.in(0, (long)v.size() - 2), i1 = r.in((long)i0 + 1, (long)v.size() - 1), k0 = r.in(0, (long)z.size() - 2), k1 = r.in((long)k0 + 1, (long)z.size() - 1); c.in("segment", a); c.in("chain", v); c.in("from", (long)i0); c.in("to", (long)i1); c.in("other", z); c.in("other_from", (long)k0); c.in("other_to", (long)k1);
    std::vector<P2> p(v.begin() + i0, v.begin() + i1 + 1), q(z.begin() + k0, z.begin() + k1 + 1); ld ext = ext2(a, v) + ext2(v, z); Best w = all_pairs(a, false, p, false), m = all_pairs(p, false, q, false); auto R1 = std::make_tuple(i0, i1), R2 = std::make_tuple(k0, k1); G g(v.begin(), v.end()), h(z.begin(), z.end()); S2 sg(a[0], a[1]); count(i1 - i0 == 1 ? "single edge part" : i0 == 0 && i1 == v.size() - 1 ? "whole chain part" : "inner part");
    for (int f = 0; f < 2; ++f) { std::size_t j = 999; double t = 9, u = 9; P2 c1(77, 77), c2(78, 78); double d2 = Pt<G>::seg(f, sg, R1, g, j, t, u, c1, c2); REQ(j >= i0 && j < i1, "nearest edge " << j << " outside the part " << i0 << ".." << i1); realise("segment-part", a, p, 0, j - i0, false, false, t, u, c1, c2, d2, w.d, ext); }
    double d2 = Pt<G>::segd(a[0], a[1], R1, g); REQ(sqok(d2, w.d, ext), "segment to part squared " << d2 << " for " << (double)w.d); d2 = Pt<G>::pair(R1, g, R2, h); REQ(sqok(d2, m.d, ext), "part to part squared " << d2 << " for " << (double)m.d);
    std::size_t i = 999, j = 999; double t = 9, u = 9; P2 c1(77, 77), c2(78, 78); d2 = Pt<G>::pairc(R1, g, R2, h, i, j, t, u, c1, c2); REQ(i >= i0 && i < i1 && j >= k0 && j < k1, "nearest edges " << i << "," << j << " outside the parts"); realise("part-part", p, q, i - i0, j - k0, false, false, t, u, c1, c2, d2, m.d, ext); }
GROUP(polygon_parts, 10000, 300000) { parts_case<PG>(c, true); }
GROUP(polyline_parts, 10000, 300000) { parts_case<PL>(c, false); }
