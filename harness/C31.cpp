#include "geo.hpp"
#include <geometrix/primitive/point_sequence_utilities.hpp>
using namespace vt;
using namespace geometrix;
static bool eq(const P2& a, const P2& b) { return a[0] == b[0] && a[1] == b[1]; }
static bool eq(const PG& a, const PG& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!eq(a[i], b[i])) return false; return true; }
static ld X(const I2& p, double k) { return (ld)p.x * k; }
template <class S> static void measures(const S& g, const IPoly& p, double k, long ox, long oy) {
    std::size_t n = p.size(); i128 A = area2(p); ld a = (ld)A / 2 * k * k; ld ext = 0; for (auto& q : p) ext = std::max({ext, std::fabs((ld)q.x), std::fabs((ld)q.y)}); ld rt = 4e-15L * n * (ext * ext * k * k);
    auto sa = get_signed_area(g); REQ(std::fabs((ld)sa - a) <= rt, "signed area " << sa << " instead of " << a); REQ(std::fabs((ld)get_area(g) - std::fabs(a)) <= rt, "area " << get_area(g) << " instead of " << std::fabs(a));
    i128 mx = 0, my = 0; for (std::size_t i = 0; i < n; ++i) { I2 u = p[i], v = p[(i + 1) % n]; i128 w = crossi(u, v); mx += w * (u.x + v.x); my += w * (u.y + v.y); } if (A != 0) { ld cx = (ld)mx / (3 * (ld)A) * k, cy = (ld)my / (3 * (ld)A) * k; ld ct = 2e-14L * n * ext * ext * ext / std::fabs((ld)A) * k + 1e-14L * ext * k; auto cc = get_centroid(g); REQ(std::fabs((ld)cc[0] - cx) <= ct && std::fabs((ld)cc[1] - cy) <= ct, "centroid " << str(cc) << " instead of (" << cx << "," << cy << ")"); count(A > 0 ? "counter-clockwise" : "clockwise"); }
    long x0 = p[0].x, x1 = x0, y0 = p[0].y, y1 = y0; for (auto& q : p) { x0 = std::min(x0, q.x); x1 = std::max(x1, q.x); y0 = std::min(y0, q.y); y1 = std::max(y1, q.y); } auto b = get_bounds(g, direct()); REQ(std::get<e_xmin>(b) == x0 * k && std::get<e_xmax>(b) == x1 * k && std::get<e_ymin>(b) == y0 * k && std::get<e_ymax>(b) == y1 * k, "bounds x " << std::get<e_xmin>(b) << ".." << std::get<e_xmax>(b) << " y " << std::get<e_ymin>(b) << ".." << std::get<e_ymax>(b)); auto b2 = get_bounds(g, abs_cmp(0)); REQ(b == b2, "bounds depend on the comparison policy"); }
GROUP(polygon, 12000, 700000) {
    Rng& r = c.rng; IPoly p = any_poly(r, 24); if (p.size() < 3) SKIP_CASE(); if (r.p(0.3)) p = insert_collinear(r, p); if (r.p(0.5)) std::reverse(p.begin(), p.end()); std::rotate(p.begin(), p.begin() + r.in(0, (long)p.size() - 1), p.end()); I2 o{0, 0}; if (r.p(0.4)) o = rpt(r, r.pick(std::vector<long>{10, 1000, 100000})); for (auto& q : p) q = q + o; double k = rscale(r); c.in("polygon", p); c.in("scale", k); PG g = tpg(p, k); std::size_t n = p.size(); measures(g, p, k, o.x, o.y); { std::vector<P2> v(g.begin(), g.end()); measures(v, p, k, o.x, o.y); }
    bool ccw = area2(p) > 0; for (std::size_t i = 0; i < n; ++i) { REQ(next_index(g, i) == (i + 1) % n && prev_index(g, i) == (i + n - 1) % n, "neighbour indices of " << i); if (ccw) { bool w = orient(p[(i + n - 1) % n], p[i], p[(i + 1) % n]) <= 0; bool got = is_point_concave(g, i); REQ(got == w, "vertex " << i << p[i] << " is called " << (got ? "concave" : "convex")); count(w ? "concave or straight" : "convex"); } }
    auto sr = polygon_as_segment_range<S2>(g); REQ(sr.size() == n, sr.size() << " border segments instead of " << n); for (std::size_t i = 0; i < n; ++i) REQ(eq(sr[i].get_start(), g[i]) && eq(sr[i].get_end(), g[(i + 1) % n]), "border segment " << i << " is " << str(sr[i].get_start()) << "->" << str(sr[i].get_end())); PL l = tpl(p, k); auto lr = polyline_as_segment_range<S2>(l); REQ(lr.size() == n - 1, lr.size() << " segments instead of " << n - 1); for (std::size_t i = 0; i + 1 < n; ++i) REQ(eq(lr[i].get_start(), g[i]) && eq(lr[i].get_end(), g[i + 1]), "segment " << i);
    PG rv = geometrix::reverse(g); REQ(rv.size() == n, "reversal changes the size"); for (std::size_t i = 0; i < n; ++i) REQ(eq(rv[i], g[n - 1 - i]), "vertex " << i << " of the reversed polygon"); REQ(eq(g, tpg(p, k)), "reversal changed its argument"); IPoly q(p.rbegin(), p.rend()); measures(rv, q, k, o.x, o.y);
    // equality up to the start vertex
    std::size_t off = r.in(0, (long)n - 1); IPoly t = p; std::rotate(t.begin(), t.begin() + off, t.end()); PG h = tpg(t, k); abs_cmp cmp(0.25 * k); REQ(polygon_polygon_offset(g, h, cmp) == (n - off) % n, "offset of the polygon started at vertex " << off << " is " << polygon_polygon_offset(g, h, cmp)); REQ(polygons_equal(g, h, (n - off) % n, cmp), "the rotated polygon is not equal at its offset"); REQ(point_sequences_equal(g, h, cmp) == (off == 0), "equality of point sequences started at vertex " << off); std::size_t ch = r.in(0, (long)n - 1); IPoly u = p; u[ch].x += r.p(0.5) ? 1 : 0; if (u[ch] == p[ch]) u[ch].y -= 1; PG z = tpg(u, k); REQ(!point_sequences_equal(g, z, cmp) && !polygons_equal(g, z, 0, cmp), "polygons that differ in vertex " << ch << " are called equal"); u.push_back(u[0]); REQ(!point_sequences_equal(g, tpg(u, k), cmp), "polygons of different size are called equal"); IPoly far = p; for (auto& x : far) x.x += 1000000; REQ(polygon_polygon_offset(g, tpg(far, k), cmp) == std::size_t(-1), "an offset is found although the first vertex is missing");
    // bounds of a part, merged bounds
    std::size_t i0 = r.in(0, (long)n - 1), i1 = r.in((long)i0, (long)n - 1); auto sb = get_bounds(g, std::make_tuple(i0, i1), direct()); long x0 = p[i0].x, x1 = x0, y0 = p[i0].y, y1 = y0; for (std::size_t i = i0; i <= i1; ++i) { x0 = std::min(x0, p[i].x); x1 = std::max(x1, p[i].x); y0 = std::min(y0, p[i].y); y1 = std::max(y1, p[i].y); } REQ(sb == std::make_tuple(x0 * k, x1 * k, y0 * k, y1 * k), "bounds of vertices " << i0 << ".." << i1); if (i1 + 1 < n) { auto s2 = get_bounds(g, std::make_tuple(i1 + 1, n - 1), direct()); auto w = i0 ? update_bound(get_bounds(g, std::make_tuple(std::size_t(0), i0 - 1), direct()), update_bound(sb, s2)) : update_bound(sb, s2); REQ(w == get_bounds(g, direct()), "merged bounds"); count("merged bounds"); } }
GROUP(space, 6000, 300000) {
    Rng& r = c.rng; int n = (int)r.in(1, big(r, 12)); long m = r.pick(std::vector<long>{1, 5, 1000}); double k = rscale(r); std::vector<std::array<long, 3>> v; std::vector<P3> g; for (int i = 0; i < n; ++i) { v.push_back({r.in(-m, m) + 3 * m * (long)r.in(-1, 1), r.in(-m, m), r.in(-m, m) - 5 * m}); g.push_back(P3(v[i][0] * k, v[i][1] * k, v[i][2] * k)); } c.in("points", g); auto ex = [&](int a, int b) { std::array<double, 6> e; for (int d = 0; d < 3; ++d) { long lo = v[a][d], hi = lo; for (int i = a; i <= b; ++i) { lo = std::min(lo, v[i][d]); hi = std::max(hi, v[i][d]); } e[2 * d] = lo * k; e[2 * d + 1] = hi * k; } return std::make_tuple(e[0], e[1], e[2], e[3], e[4], e[5]); };
    REQ(get_bounds(g, direct()) == ex(0, n - 1), "bounds of points in space"); std::size_t i0 = r.in(0, n - 1), i1 = r.in((long)i0, n - 1); REQ(get_bounds(g, std::make_tuple(i0, i1), direct()) == ex((int)i0, (int)i1), "bounds of points " << i0 << ".." << i1); if (n > 1) { std::size_t s = r.in(1, n - 1); REQ(update_bound(ex(0, (int)s - 1), ex((int)s, n - 1)) == ex(0, n - 1), "merged bounds in space"); } }
