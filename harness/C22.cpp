#include "grid.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include <geometrix/algorithm/floodfill_grid_traversal.hpp>
using namespace vt;
using namespace geometrix;
typedef grid_traits<double> GT;
typedef std::map<std::pair<long, long>, int> Visits;
// largest over the edge normals of both shapes of the signed separation of convex a (CCW) and convex b (CCW), by sign: 1 gap, 0 touch, -1 interiors meet
static int rel(const IPoly& a, const IPoly& b) { int best = -1; for (int k = 0; k < 2; ++k) { const IPoly &p = k ? b : a, &q = k ? a : b; for (std::size_t i = 0; i < p.size(); ++i) { I2 u = p[i], d = p[(i + 1) % p.size()] - u; int m = 1; for (auto& v : q) { int s = -sgn(crossi(d, v - u)); m = std::min(m, s); } best = std::max(best, m); } } return best; }
static IPoly box(long x, long y, long w) { return {{x, y}, {x + w, y}, {x + w, y + w}, {x, y + w}}; }
// is cell q within convex h: 1 in the open interior, 0 in the closed set, -1 not
static int within(const IPoly& q, const IPoly& h) { int s = 1; for (auto& p : q) s = std::min(s, in_poly(h, p)); return s; }
static IPoly make_hole(Rng& r, const IPoly& outer, long W, long R) {
    for (int t = 0; t < 30; ++t) { int i = (int)r.in(0, (long)outer.size() - 1); I2 cx; { i128 a = 0, b = 0; long k = 0; for (auto& p : outer) { long w = r.in(0, 4); a += p.x * w; b += p.y * w; k += w; } if (!k) continue; cx = {(long)(a / k), (long)(b / k)}; } (void)i; IPoly h; int z = (int)r.in(0, 3);
        if (z == 0) { long w = r.in(1, 4) * W, e = r.in(1, 4) * W; cx.x = cx.x / W * W; cx.y = cx.y / W * W; h = {cx, {cx.x + w, cx.y}, {cx.x + w, cx.y + e}, {cx.x, cx.y + e}}; }
        else if (z == 1) { long k = r.in(W, 8 * W), d = r.in(1, 2 * W); h = r.p(0.5) ? IPoly{cx, {cx.x + k, cx.y + 3 * k}, {cx.x + k - d, cx.y + 3 * k + 1}} : IPoly{cx, {cx.x + 1, cx.y + d}, {cx.x - k, cx.y + 3 * k}}; if (area2(h) < 0) std::reverse(h.begin(), h.end()); }
        else { h = convex_poly(r, (int)r.in(3, 9), std::max<long>(2, r.in(W / 2, std::max<long>(W, R / 2)))); for (auto& p : h) p = p + cx; }
        if (!is_simple(h)) continue; bool ok = true; for (auto& p : h) ok = ok && in_poly(outer, p) > 0; if (ok) return h; }
    return {};
}
GROUP(exact, 16000, 600000) {
    Rng& r = c.rng; long W = r.pick(std::vector<long>{1, 2, 4, 8, 8}); int cells = (int)r.in(1, r.p(0.004) ? 110 : r.p(0.3) ? 40 : 16); long R = std::max<long>(2, cells * W / 2); IPoly outer = r.p(0.15) ? box(-R, -R, 2 * R) : convex_poly(r, (int)r.in(3, 14), R); if (r.p(0.5)) std::reverse(outer.begin(), outer.end()); IPoly ccw = outer; if (area2(ccw) < 0) std::reverse(ccw.begin(), ccw.end());
    long ox = r.in(-50, 50), oy = r.in(-50, 50); long x0 = ox - R - r.in(0, 2 * W), y0 = oy - R - r.in(0, 2 * W), x1 = ox + R + r.in(0, 2 * W), y1 = oy + R + r.in(0, 2 * W); for (auto v : {&outer, &ccw}) for (auto& p : *v) p = p + I2{ox, oy}; double s = r.pick(std::vector<double>{1, 0.5, 0.125, 4});
    std::vector<IPoly> holes; int nh = r.p(0.3) ? 0 : (int)r.in(1, 7); for (int k = 0; k < nh; ++k) { IPoly h = make_hole(r, ccw, W, R); if (h.empty()) continue; bool ok = true; for (auto& g : holes) ok = ok && rel(g, h) == 1; if (ok) holes.push_back(h); }
    c.in("W", W); c.in("s", s); c.in("x0", x0); c.in("y0", y0); c.in("x1", x1); c.in("y1", y1); c.in("outer", outer); c.in("holes", holes); count(holes.empty() ? "no hole" : "holes"); GT g(x0 * s, x1 * s, y0 * s, y1 * s, W * s); int nx = g.get_width(), ny = g.get_height(); Visits v; auto vis = [&](std::uint32_t i, std::uint32_t j) { ++v[{i, j}]; }; abs_cmp cmp(1e-10);
    if (holes.empty() && r.p(0.7)) floodfill_grid_traversal(g, tpg(outer, s), vis, cmp); else { polygon_with_holes<P2> pw(dense(tpg(outer, s), r.p(0.1) ? 8 : 1)); for (auto h : holes) { if (r.p(0.5)) std::reverse(h.begin(), h.end()); pw.add_hole(dense(tpg(h, s), r.p(0.1) ? 16 : 1)); } floodfill_grid_traversal(g, pw, vis, cmp); }
    for (auto& e : v) { REQ(e.first.first < nx && e.first.second < ny, "cell (" << e.first.first << "," << e.first.second << ") is outside the grid"); REQ(e.second == 1, "cell (" << e.first.first << "," << e.first.second << ") is visited " << e.second << " times"); }
    long must = 0, never = 0; for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) { IPoly q = box(x0 + i * W, y0 + j * W, W); int o = rel(ccw, q); int in = -1; for (auto& h : holes) in = std::max(in, within(q, h)); bool got = v.count({i, j}) > 0;
        if (o == -1 && in < 0) { ++must; REQ(got, "cell (" << i << "," << j << ") overlaps the region but is not visited"); } if (o == 1) REQ(!got, "cell (" << i << "," << j << ") is off the polygon but is visited"); if (in == 1) { ++never; REQ(!got, "cell (" << i << "," << j << ") lies inside a hole but is visited"); } }
    if (must == 0 && never == 0) c.trivial(); if (never) count("cells inside holes");
}
// arbitrary cell sizes, with a hair of slack
GROUP(rounded, 6000, 200000) {
    Rng& r = c.rng; double w = r.pick(std::vector<double>{0.1, 0.3, 1. / 3, 0.7, 12.7}); int cells = (int)r.in(1, 24); ld R = cells * w / 2 + w; std::vector<L2> p; { int n = (int)r.in(3, 12); std::vector<double> a; for (int k = 0; k < n; ++k) a.push_back(r.real(0, 6.283185307179586)); std::sort(a.begin(), a.end()); double e = r.p(0.4) ? r.real(0.2, 1) : 1; for (double t : a) p.push_back({R * std::cos(t), R * e * std::sin(t)}); for (int k = 0; k < n; ++k) if (norm(p[k] - p[(k + 1) % n]) < 0.05 * R) SKIP_CASE(); }
    double ox = r.real(-20, 20), oy = r.real(-20, 20); double x0 = (double)(ox - R - r.real(0, 2) * w), y0 = (double)(oy - R - r.real(0, 2) * w), x1 = (double)(ox + R + r.real(0.01, 2) * w), y1 = (double)(oy + R + r.real(0.01, 2) * w); PG pg; for (auto& q : p) pg.push_back(P2((double)(ox + q.x), (double)(oy + q.y))); c.in("w", w); c.in("x0", x0); c.in("y0", y0); c.in("x1", x1); c.in("y1", y1); for (auto& q : pg) c.in("p", q);
    GT g(x0, x1, y0, y1, w); int nx = g.get_width(), ny = g.get_height(); Visits v; floodfill_grid_traversal(g, pg, [&](std::uint32_t i, std::uint32_t j) { ++v[{i, j}]; }, abs_cmp(1e-10)); ld h = 1e-8L * w; std::vector<L2> q; for (auto& a : pg) q.push_back(lp(a));
    for (auto& e : v) { REQ(e.first.first < nx && e.first.second < ny, "cell outside the grid"); REQ(e.second == 1, "cell (" << e.first.first << "," << e.first.second << ") is visited " << e.second << " times"); }
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) { ld xa = x0 + (ld)i * w, ya = y0 + (ld)j * w; CP b{{xa, ya}, {xa + w, ya}, {xa + w, ya + w}, {xa, ya + w}}; CP cq(q.begin(), q.end()); ld gap = sep_gap(cq, b); bool got = v.count({i, j}) > 0; if (gap < -h) REQ(got, "cell (" << i << "," << j << ") overlaps the polygon but is not visited"); if (gap > h) REQ(!got, "cell (" << i << "," << j << ") is off the polygon but is visited"); }
}
// the seeded fill: from a cell, exactly the connected cells that no boundary walk marked
GROUP(seeded, 3000, 200000) {
    Rng& r = c.rng; long W = r.pick(std::vector<long>{1, 2, 4}); IPoly p = any_poly(r, 16); long lx = 1e9, ly = 1e9, hx = -1e9, hy = -1e9; for (auto& a : p) { lx = std::min(lx, a.x); hx = std::max(hx, a.x); ly = std::min(ly, a.y); hy = std::max(hy, a.y); } if (hx - lx > 60 || hy - ly > 60) { long k = std::max(hx - lx, hy - ly) / 40 + 1; W = k; } long x0 = lx - r.in(0, 3) * W, y0 = ly - r.in(0, 3) * W, x1 = hx + r.in(0, 3) * W, y1 = hy + r.in(0, 3) * W; c.in("W", W); c.in("x0", x0); c.in("y0", y0); c.in("x1", x1); c.in("y1", y1); c.in("poly", p);
    GT g(x0, x1, y0, y1, W); int nx = g.get_width(), ny = g.get_height(); floodfill_grid_traversal_helper<GT> ff(g); Visits v; auto vis = [&](std::uint32_t i, std::uint32_t j) { ++v[{i, j}]; }; abs_cmp cmp(1e-10); ff.mark_boundary(tpg(p), vis, cmp); Visits wall = v; for (auto& e : v) REQ(e.second == 1, "boundary cell visited twice"); for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) { bool on = false; for (std::size_t k = 0; k < p.size() && !on; ++k) on = seg_box(p[k], p[(k + 1) % p.size()], x0 + i * W, x0 + i * W + W, y0 + j * W, y0 + j * W + W, true); if (on) REQ(wall.count({i, j}), "cell (" << i << "," << j << ") is crossed by the boundary but not marked"); }
    std::set<std::pair<long, long>> done; int fills = nx * ny > 900 ? 4 : r.p(0.005) ? 300 : r.p(0.04) ? 40 : 4; c.in("fills", fills); for (int k = 0; k < fills; ++k) { long i = r.in(0, nx - 1), j = r.in(0, ny - 1); Visits before = v; c.in("seed", I2{i, j}); bool ok = r.p(0.5) ? ff.traversal((unsigned)i, (unsigned)j, vis) : ff.traversal(P2(std::min<double>(x1, x0 + i * W + W * 0.5), std::min<double>(y1, y0 + j * W + W * 0.5)), vis); REQ(ok == !wall.count({i, j}), "fill from " << (ok ? "a boundary" : "a free") << " cell returns " << ok); if (ok) { count("fills"); std::vector<std::pair<long, long>> st{{i, j}}; std::set<std::pair<long, long>> comp{{i, j}}; while (!st.empty()) { auto q = st.back(); st.pop_back(); for (int d = 0; d < 4; ++d) { std::pair<long, long> n{q.first + (d == 0) - (d == 1), q.second + (d == 2) - (d == 3)}; if (n.first < 0 || n.second < 0 || n.first >= nx || n.second >= ny || wall.count(n)) continue; if (comp.insert(n).second) st.push_back(n); } } for (auto& q : comp) if (!before.count(q)) REQ(v.count(q), "cell (" << q.first << "," << q.second << ") is connected to the seed but not visited"); for (auto& e : v) if (!before.count(e.first)) REQ(comp.count(e.first), "cell (" << e.first.first << "," << e.first.second << ") is visited but not connected to the seed"); }
        for (auto& e : v) REQ(e.second == 1, "cell (" << e.first.first << "," << e.first.second << ") is visited " << e.second << " times"); }
    (void)done;
}
