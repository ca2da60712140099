#include "geo.hpp"
#include <geometrix/algorithm/point_in_polygon.hpp>
using namespace vt;
using namespace geometrix;
// A query point with half-grid precision biased to vertices, edges, rays through vertices, and the neighbourhood of edges.
static I2 query(Rng& r, const IPoly& v) {   // in units of 1/4 of the (pre-scaled by 4) grid; v is scaled by 4 already
    std::size_t n = v.size(); const I2 &a = v[r.in(0, n - 1)], &b = v[(std::size_t)r.in(0, n - 1)]; std::size_t i = r.in(0, n - 1); const I2 &u = v[i], &w = v[(i + 1) % n];
    switch (r.in(0, 8)) { case 0: return a; case 1: { long k = r.in(0, 4); return {u.x + (w.x - u.x) / 4 * k, u.y + (w.y - u.y) / 4 * k}; } case 2: return {a.x + r.in(-40, 40), a.y}; case 3: return {a.x, b.y}; case 4: { long k = r.in(-2, 6); return {u.x + (w.x - u.x) / 4 * k, u.y + (w.y - u.y) / 4 * k}; } case 5: { long k = r.in(0, 4); return {u.x + (w.x - u.x) / 4 * k + r.in(-1, 1), u.y + (w.y - u.y) / 4 * k + r.in(-1, 1)}; } case 6: return {(a.x + b.x) / 2, (a.y + b.y) / 2}; default: { long lx = v[0].x, hx = lx, ly = v[0].y, hy = ly; for (auto& p : v) { lx = std::min(lx, p.x); hx = std::max(hx, p.x); ly = std::min(ly, p.y); hy = std::max(hy, p.y); } return {r.in(lx - 3, hx + 3), r.in(ly - 3, hy + 3)}; } }
}
static IPoly x4(IPoly v) { for (auto& p : v) p = {p.x * 4, p.y * 4}; return v; }
static const char* cls(polygon_containment k) { return k == polygon_containment::exterior ? "exterior" : k == polygon_containment::interior ? "interior" : k == polygon_containment::border ? "border" : "vertex"; }
GROUP(general, 60000, 4000000) {
    Rng& r = c.rng; IPoly v; if (r.p(0.3)) v = insert_collinear(r, any_poly(r, 16)); else v = x4(any_poly(r, r.p(0.1) ? 80 : 20)); if (r.p(0.5)) std::reverse(v.begin(), v.end()); double s = rscale(r); c.in("polygon", v); c.in("scale", s); PG g = tpg(v, s); std::vector<P2> sv(g.begin(), g.end()); long big = 0; for (auto& p : v) big = std::max({big, std::labs(p.x), std::labs(p.y)});
    for (int k = 0; k < 12; ++k) {
        I2 q = query(r, v); c.in("q", q); int w = in_poly(v, q); bool vert = std::find(v.begin(), v.end(), q) != v.end(); P2 Q = tp(q, s);
        bool g1 = point_in_polygon(Q, g), g2 = point_in_polygon(Q, sv); REQ(g1 == g2, "polygon and vector forms disagree"); if (w) REQ(g1 == (w > 0), "point_in_polygon says " << g1 << " for a point strictly " << (w > 0 ? "inside" : "outside"));
        auto b = point_polygon_containment_or_on_border(Q, g, direct()); if (w) REQ(b == (w > 0 ? polygon_containment::interior : polygon_containment::exterior), "border aware test says " << cls(b) << " for a point strictly " << (w > 0 ? "inside" : "outside")); if (vert) REQ(b == polygon_containment::vertex, "border aware test says " << cls(b) << " for a vertex");
        if (big * s < 3000 && s >= 0.25) { auto t = point_polygon_containment_or_on_border(Q, g, abs_cmp(1e-9)); auto want = vert ? polygon_containment::vertex : w == 0 ? polygon_containment::border : w > 0 ? polygon_containment::interior : polygon_containment::exterior; REQ(t == want, "border aware test (tolerance) says " << cls(t) << " want " << cls(want)); count("border classification judged"); }
        count(w > 0 ? "inside" : w < 0 ? "outside" : vert ? "on a vertex" : "on an edge");
    }
}
template <class Cmp> static void convexq(const PG& g, const IPoly& v, const I2& q, double s, const Cmp& cmp) {
    int w = in_poly(v, q); P2 Q = tp(q, s); REQ(point_in_convex_polygon(Q, g, cmp) == (w >= 0), "point_in_convex_polygon is " << (w < 0) << " for a point " << (w > 0 ? "inside" : w < 0 ? "outside" : "on the border"));
    if (v.size() == 4) { REQ(point_in_convex_quadrilateral(Q, g, cmp) == (w >= 0), "point_in_convex_quadrilateral is " << (w < 0) << " for a point " << (w > 0 ? "inside" : w < 0 ? "outside" : "on the border")); count("quadrilateral queries"); }
    if (v.size() == 3) { for (int k = 0; k < 3; ++k) REQ(point_in_triangle(Q, g[k], g[(k + 1) % 3], g[(k + 2) % 3], cmp) == (w >= 0), "point_in_triangle is " << (w < 0) << " for a point " << (w > 0 ? "inside" : w < 0 ? "outside" : "on the border")); count("triangle queries"); }
    if (w) REQ(point_in_polygon(Q, g) == (w > 0), "general test disagrees on a convex polygon"); count(w > 0 ? "inside convex" : w < 0 ? "outside convex" : "on convex border");
}
GROUP(convex, 60000, 4000000) {
    Rng& r = c.rng; IPoly v = x4(r.p(0.3) ? convex_poly(r, 3, rrange(r)) : convex_poly(r, (int)r.in(4, 30), std::max(4L, rrange(r)))); if (r.p(0.2)) { long w = r.in(1, 9), h = r.in(1, 9); v = x4({{0, 0}, {w, 0}, {w, h}, {0, h}}); std::rotate(v.begin(), v.begin() + r.in(0, 3), v.end()); } else if (r.p(0.2)) { long m = r.in(2, 12); for (int t = 0; t < 20; ++t) { IPoly q = hull({rpt(r, m), rpt(r, m), rpt(r, m), rpt(r, m)}); if (q.size() == 4) { v = x4(q); std::rotate(v.begin(), v.begin() + r.in(0, 3), v.end()); break; } } }
    double s = rscale(r); c.in("polygon", v); c.in("scale", s); PG g = tpg(v, s); for (int k = 0; k < 12; ++k) { I2 q = query(r, v); c.in("q", q); convexq(g, v, q, s, direct()); convexq(g, v, q, s, abs_cmp(1e-10)); }
}
GROUP(grid_tiling, 3000, 100000) {   // every grid point strictly inside a polygon's box, all at once
    Rng& r = c.rng; IPoly v = any_poly(r, 14); long lx = v[0].x, hx = lx, ly = v[0].y, hy = ly; for (auto& p : v) { lx = std::min(lx, p.x); hx = std::max(hx, p.x); ly = std::min(ly, p.y); hy = std::max(hy, p.y); } if ((hx - lx) * (hy - ly) > 1200) { c.trivial(); return; } c.in("polygon", v); PG g = tpg(v); if (r.p(0.5)) { g = tpg(IPoly(v.rbegin(), v.rend())); }
    i128 inn = 0, bor = 0; for (long y = ly - 1; y <= hy + 1; ++y) for (long x = lx - 1; x <= hx + 1; ++x) { auto b = point_polygon_containment_or_on_border(P2(x, y), g, abs_cmp(1e-9)); int w = in_poly(v, I2{x, y}); REQ((b == polygon_containment::interior) == (w > 0) && (b == polygon_containment::exterior) == (w < 0), "point (" << x << "," << y << ") is " << cls(b)); if (w) REQ(point_in_polygon(P2(x, y), g) == (w > 0), "point (" << x << "," << y << ") is misplaced by point_in_polygon"); inn += b == polygon_containment::interior; bor += b == polygon_containment::border || b == polygon_containment::vertex; }
    i128 a2 = area2(v); REQ(2 * inn + bor - 2 == (a2 < 0 ? -a2 : a2), "Pick's theorem: interior " << (long)inn << " border " << (long)bor << " twice area " << (long)a2); count("polygons checked with Pick's theorem");
}
