#include "geo.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/algorithm/point_sequence/is_congruent.hpp>
using namespace vt;
using namespace geometrix;
static bool clean(const IPoly& p, bool closed) { std::size_t n = p.size(); for (std::size_t i = 0; i < n; ++i) { if (!closed && i + 1 == n) break; I2 a = p[i], b = p[(i + 1) % n]; if (a == b) return false; if (!closed && i + 2 >= n) continue; I2 d = p[(i + 2) % n]; if (orient(a, b, d) == 0 && doti(b - a, d - b) <= 0) return false; } return true; }
static bool simple_by_definition(const IPoly& p) { std::size_t n = p.size(); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = i + 1; j < n; ++j) { if (j == i + 1 || (i == 0 && j == n - 1)) continue; if (segs_meet(p[i], p[(i + 1) % n], p[j], p[(j + 1) % n])) return false; } return true; }
// does the segment a-b stay in the closed polygon g (exact: pieces between border hits judged by their middle)
static bool inside(const I2& a, const I2& b, const IPoly& g) {
    struct Q { i128 n, d; bool operator<(const Q& o) const { return n * o.d < o.n * d; } }; std::vector<Q> t{{0, 1}, {1, 1}}; I2 e = b - a; for (std::size_t i = 0, n = g.size(); i < n; ++i) { I2 u = g[i], v = g[(i + 1) % n]; i128 den = crossi(e, v - u); auto add = [&](i128 x, i128 y) { if (y < 0) { x = -x; y = -y; } if (x > 0 && x < y) t.push_back({x, y}); }; if (den != 0) { i128 s = crossi(u - a, e), x = crossi(u - a, v - u); (void)s; add(x, den); } else if (crossi(e, u - a) == 0) { i128 q = doti(e, e); add(doti(u - a, e), q); add(doti(v - a, e), q); } }
    std::sort(t.begin(), t.end()); if (in_poly(g, a) < 0 || in_poly(g, b) < 0) return false; for (std::size_t i = 0; i + 1 < t.size(); ++i) { if (!(t[i] < t[i + 1])) continue; i128 n = t[i].n * t[i + 1].d + t[i + 1].n * t[i].d, d = 2 * t[i].d * t[i + 1].d; if (in_poly(g, a.x * d + e.x * n, a.y * d + e.y * n, d) < 0) return false; } return true; }
GROUP(simple, 16000, 900000) {
    Rng& r = c.rng; IPoly p; long m = r.pick(std::vector<long>{2, 3, 5, 10, 40}); int n = (int)r.in(3, big(r, r.p(0.2) ? 16 : 7)); switch (r.in(0, 3)) { case 0: for (int i = 0; i < n; ++i) p.push_back(rpt(r, m)); break; case 1: p = any_poly(r, 16); break; case 2: p = any_poly(r, 16); if (p.size() > 4) { std::size_t i = r.in(0, (long)p.size() - 1), j = r.in(0, (long)p.size() - 1); std::swap(p[i], p[j]); } break; default: p = any_poly(r, 12); if (p.size() > 3) { std::size_t i = r.in(0, (long)p.size() - 1), j = r.in(0, (long)p.size() - 1); switch (r.in(0, 2)) { case 0: p[i] = p[j]; break; case 1: { I2 a = p[j], b = p[(j + 1) % p.size()]; for (auto& q : p) q = I2{q.x * 2, q.y * 2}; p[i] = a + b; break; } default: p[i] = I2{p[i].x + r.in(-1, 1), p[i].y + r.in(-1, 1)}; } } } if (p.size() < 3 || !clean(p, true)) SKIP_CASE(); if (r.p(0.3)) std::reverse(p.begin(), p.end()); std::rotate(p.begin(), p.begin() + r.in(0, (long)p.size() - 1), p.end()); double k = r.pick(std::vector<double>{1, 0.5, 0.25, 4}); c.in("polygon", p); c.in("scale", k); bool want = simple_by_definition(p); count(want ? "simple" : "not simple"); PG g = tpg(p, k); for (bool got : {is_polygon_simple(g, direct()), is_polygon_simple(g, abs_cmp(1e-10)), is_polygon_simple_memoized(g, abs_cmp(1e-10))}) REQ(got == want, "the polygon is called " << (got ? "simple" : "not simple"));
    // self-intersections of the same vertices taken as a polyline
    IPoly l = p; if (r.p(0.4)) l.push_back(l[0]); if (r.p(0.2)) { I2 a = l.back(), b = l[l.size() - 2]; I2 q{a.x + (b.x - a.x) * 2, a.y + (b.y - a.y) * 2}; l.push_back(r.p(0.5) ? q : b); } c.in("polyline", l); std::map<std::pair<std::size_t, std::size_t>, int> got, ex; bool any = polyline_self_intersection(tpl(l, k), [&](std::size_t i, std::size_t j, intersection_type t, const P2& x0, const P2& x1) { got[{i, j}] = t; if (t != e_crossing && t != e_endpoint && t != e_overlapping) return; auto lies = [&](const P2& x) { return dist_ps(lp(x), lp(tp(l[i], k)), lp(tp(l[i + 1], k))) < 1e-8 * (1 + k) && dist_ps(lp(x), lp(tp(l[j], k)), lp(tp(l[j + 1], k))) < 1e-8 * (1 + k); }; REQ(lies(x0), "the meeting point " << str(x0) << " of edges " << i << "," << j << " is not on both"); if (t == e_overlapping) { REQ(lies(x1), "the overlap end " << str(x1) << " of edges " << i << "," << j << " is not on both"); REQ(seg_rel(l[i], l[i + 1], l[j], l[j + 1]) != OVERLAP || dist(x0, x1) > 0, "an overlap of no length is reported"); count("overlap ends"); } }, abs_cmp(1e-10)); for (std::size_t i = 0; i + 1 < l.size(); ++i) for (std::size_t j = i + 1; j + 1 < l.size(); ++j) { SegRel w = seg_rel(l[i], l[i + 1], l[j], l[j + 1]); if (w == DISJOINT || (j == i + 1 && w != OVERLAP)) continue; bool par = crossi(l[i + 1] - l[i], l[j + 1] - l[j]) == 0; ex[{i, j}] = w == CROSS ? e_crossing : w == OVERLAP ? e_overlapping : par ? -7 : e_endpoint; } REQ(any == !ex.empty(), "the search says " << any); for (auto& x : ex) { auto it = got.find(x.first); REQ(it != got.end(), "the meeting edges " << x.first.first << "," << x.first.second << " are not reported"); REQ(x.second == -7 || it->second == x.second, "edges " << x.first.first << "," << x.first.second << " are reported as kind " << it->second << " instead of " << x.second); } for (auto& x : got) REQ(ex.count(x.first), "edges " << x.first.first << "," << x.first.second << " are reported although they do not meet"); count("self intersections", (long)ex.size()); }
GROUP(holes, 5000, 300000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{4, 8, 20}); IPoly o = star_poly(r, (int)r.in(3, 9), m); if (o.size() < 3 || !clean(o, true)) SKIP_CASE(); std::vector<IPoly> hs; int n = (int)r.in(0, 3); for (int i = 0; i < n; ++i) { IPoly h = star_poly(r, (int)r.in(3, 6), r.in(1, m / 2)); if (h.size() < 3 || !clean(h, true)) continue; I2 d = rpt(r, m / 2); for (auto& q : h) q = q + d; if (r.p(0.2)) h[0] = o[r.in(0, (long)o.size() - 1)]; if (r.p(0.1) && h.size() > 3) std::swap(h[0], h[2]); if (!clean(h, true)) continue; std::reverse(h.begin(), h.end()); hs.push_back(h); } if (r.p(0.02)) { long g = r.in(5, r.p(0.2) ? 9 : 7); o = IPoly{{0, 0}, {g * 6, 0}, {g * 6, g * 6}, {0, g * 6}}; hs.clear(); for (long x = 0; x < g; ++x) for (long y = 0; y < g; ++y) { IPoly h{{2, 2}, {3, 4}, {4, 2}}; for (auto& q : h) q = q + I2{x * 6, y * 6}; hs.push_back(h); } r.shuffle(hs.begin(), hs.end()); if (r.p(0.6)) { IPoly h{{4, 3}, {6, 4}, {9, 3}}; I2 d{r.in(0, g - 1) * 6, r.in(0, g - 1) * 6}; for (auto& q : h) q = q + d; hs.push_back(h); std::swap(hs.back(), hs[r.in(0, (long)hs.size() - 1)]); } count("many holes"); } c.in("outer", o); c.in("holes", hs); bool want = simple_by_definition(o); for (auto& h : hs) want = want && simple_by_definition(h); std::vector<IPoly> all{o}; for (auto& h : hs) all.push_back(h); for (std::size_t a = 0; a < all.size(); ++a) for (std::size_t b = a + 1; b < all.size(); ++b) for (std::size_t i = 0; i < all[a].size(); ++i) for (std::size_t j = 0; j < all[b].size(); ++j) if (segs_meet(all[a][i], all[a][(i + 1) % all[a].size()], all[b][j], all[b][(j + 1) % all[b].size()])) want = false; polygon_with_holes<P2> g(tpg(o)); for (auto& h : hs) g.add_hole(tpg(h)); bool got = is_polygon_with_holes_simple(g, abs_cmp(1e-10)); count(want ? "simple with holes" : "not simple with holes"); REQ(got == want, "the polygon with holes is called " << (got ? "simple" : "not simple")); }
GROUP(contain, 16000, 900000) {
    Rng& r = c.rng; IPoly o = r.p(0.5) ? any_poly(r, 12) : r.p(0.5) ? rectilinear_poly(r, (int)r.in(2, 5), 4) : opt_poly(r, (int)r.in(4, 9), 5); if (o.size() < 3 || !is_simple(o)) SKIP_CASE(); long ext = 0; for (auto& q : o) ext = std::max({ext, std::labs(q.x), std::labs(q.y)}); if (ext > 60) SKIP_CASE(); if (r.p(0.3)) o = insert_collinear(r, o); else for (auto& q : o) q = I2{q.x * 4, q.y * 4}; std::vector<I2> pool; for (std::size_t i = 0; i < o.size(); ++i) { I2 a = o[i], b = o[(i + 1) % o.size()]; pool.push_back(a); pool.push_back(I2{(a.x + b.x) / 2, (a.y + b.y) / 2}); pool.push_back(I2{(a.x * 3 + b.x) / 4, (a.y * 3 + b.y) / 4}); } for (int i = 0, g = 0; i < 12 && g < 200; ++g) { I2 q = rpt(r, 4 * ext); if (in_poly(o, q) > 0 || r.p(0.04)) { pool.push_back(q); ++i; } }
    for (auto& q : pool) if (in_poly(o, q) == 0 && false) break; IPoly in; int n = (int)r.in(3, r.p(0.2) ? 9 : 5); switch (r.in(0, 4)) { case 0: in = o; if (r.p(0.5) && in.size() > 3) in.erase(in.begin() + r.in(0, (long)in.size() - 1)); break; case 1: { I2 a = r.pick(pool); long s = r.in(1, 6); in = IPoly{a, I2{a.x + s, a.y}, I2{a.x + s, a.y + s}, I2{a.x, a.y + s}}; break; } default: for (int i = 0; i < n; ++i) in.push_back(r.pick(pool)); } double k = r.pick(std::vector<double>{1, 0.5, 0.25, 2}); if (r.p(0.3)) std::reverse(o.begin(), o.end()); abs_cmp cmp(1e-8); int di = r.p(0.05) ? r.p(0.5) ? 8 : 16 : 1, dout = r.p(0.05) ? 8 : 1; c.in("vertices per inner edge", di); c.in("vertices per outer edge", dout); PG O = dense(tpg(o, k), dout);
    IPoly line = in; if (r.p(0.5)) { while (line.size() > 2 && r.p(0.5)) line.pop_back(); } bool okl = line.size() > 1; for (std::size_t i = 0; i + 1 < line.size(); ++i) if (line[i] == line[i + 1]) okl = false; c.in("outer", o); c.in("scale", k); if (okl) { bool want = true; for (std::size_t i = 0; i + 1 < line.size() && want; ++i) want = inside(line[i], line[i + 1], o); c.in("polyline", line); bool got = polygon_polyline_containment(dense(tpl(line, k), di, false), O, cmp); count(want ? "polyline inside" : "polyline not inside"); REQ(got == want, "the polyline is called " << (got ? "contained" : "not contained")); }
    if (in.size() >= 3 && is_simple(in) && clean(in, true)) { bool want = true; for (std::size_t i = 0; i < in.size() && want; ++i) want = inside(in[i], in[(i + 1) % in.size()], o); c.in("inner", in); bool got = polygon_polygon_containment(dense(tpg(in, k), di), O, cmp); count(want ? "polygon inside" : "polygon not inside"); REQ(got == want, "the polygon is called " << (got ? "contained" : "not contained")); if (c.thorough || r.p(0.3)) { bool w2 = true; for (std::size_t i = 0; i < o.size() && w2; ++i) w2 = inside(o[i], o[(i + 1) % o.size()], in); bool g2 = polygon_polygon_containment(O, dense(tpg(in, k), di), cmp); REQ(g2 == w2, "the outer polygon is called " << (g2 ? "contained" : "not contained") << " in the inner one"); } }
    { I2 a = r.p(0.7) ? r.pick(pool) : rpt(r, 5 * ext), b = r.p(0.5) ? r.pick(pool) : rpt(r, 5 * ext); if (!(a == b)) { bool meets = false; for (std::size_t i = 0; i < o.size(); ++i) meets = meets || segs_meet(a, b, o[i], o[(i + 1) % o.size()]); bool want = meets && !inside(a, b, o); c.in("segment", IS{a, b}); bool got = segment_projects_outside_polygon(S2(tp(a, k), tp(b, k)), O, cmp); REQ(got == want, "a segment that " << (meets ? "meets the border" : "misses the border") << " is said " << (got ? "" : "not ") << "to reach outside the polygon"); count(want ? "segment reaches outside" : meets ? "segment stays inside, touching" : "segment misses the border"); } } }
GROUP(congruent, 10000, 600000) { // same shape under a rigid motion (start vertex kept)
    Rng& r = c.rng; bool loop = r.p(0.5); IPoly p; if (loop) { p = r.p(0.01) ? many_convex(r, (int)r.in(20, 90)) : any_poly(r, 12); if (p.size() < 3) SKIP_CASE(); } else { int n = (int)r.in(2, big(r, 9)); for (int i = 0; i < n; ++i) p.push_back(rpt(r, 20)); } long ext = 1; for (auto& q : p) ext = std::max({ext, std::labs(q.x), std::labs(q.y)}); if (ext > 100) SKIP_CASE(); double a = r.p(0.4) ? r.in(0, 3) * std::acos(-1.0) / 2 : r.real(0, 6.3), tx = r.real(-50, 50), ty = r.real(-50, 50); bool mirror = r.p(0.2), bend = r.p(0.4), size = r.p(0.1); IPoly q = p; if (bend) { std::size_t i = r.in(0, (long)q.size() - 1); q[i] = I2{q[i].x + r.in(-2, 2), q[i].y + r.in(-2, 2)}; } if (size && q.size() > (loop ? 3u : 2u)) q.pop_back(); c.in("first", p); c.in("second before motion", q); c.in("angle", a); c.in("mirror", mirror);
    // exact congruence of the integer chains: all pairwise products of consecutive edges agree
    bool want = p.size() == q.size(); std::size_t n = p.size(); if (want) for (std::size_t i = 0; i < n; ++i) { if (!loop && i + 1 >= n) break; I2 e = p[(i + 1) % n] - p[i], f = q[(i + 1) % n] - q[i]; if (doti(e, e) != doti(f, f)) want = false; if (i && want) { I2 e0 = p[i] - p[i - 1], f0 = q[i] - q[i - 1]; if (doti(e0, e) != doti(f0, f) || crossi(e0, e) != (mirror ? -crossi(f0, f) : crossi(f0, f))) want = false; } }
    auto mv = [&](const I2& x) { double u = mirror ? -x.x : x.x, v = x.y; return P2(u * std::cos(a) - v * std::sin(a) + tx, u * std::sin(a) + v * std::cos(a) + ty); }; std::vector<P2> A, B; for (auto& x : p) A.push_back(tp(x)); for (auto& x : q) B.push_back(mv(x)); abs_cmp cmp(1e-6); bool got = loop ? are_polygons_congruent(PG(A.begin(), A.end()), PG(B.begin(), B.end()), cmp) : are_polylines_congruent(PL(A.begin(), A.end()), PL(B.begin(), B.end()), cmp); count(want ? "congruent" : "not congruent"); REQ(got == want, "the two are called " << (got ? "congruent" : "not congruent")); }
