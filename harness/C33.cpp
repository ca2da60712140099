#include "geo.hpp"
#include "conv.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_polygon_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp>
using namespace vt;
using namespace geometrix;
struct Hit { std::size_t a, b, i, j; intersection_type t; P2 x1, x2; };
struct Want { SegRel r; bool par; std::vector<L2> pts; };
static Want want(const I2& a, const I2& b, const I2& u, const I2& v) { Want w; w.r = seg_rel(a, b, u, v); w.par = crossi(b - a, v - u) == 0; if (w.r == CROSS) { ld d = (ld)crossi(b - a, v - u), n = (ld)crossi(u - a, v - u); w.pts.push_back(L2{(ld)a.x + n / d * (ld)(b.x - a.x), (ld)a.y + n / d * (ld)(b.y - a.y)}); } else if (w.r != DISJOINT) { std::vector<I2> s; auto add = [&](const I2& q) { for (auto& x : s) if (x == q) return; s.push_back(q); }; for (auto& q : {a, b}) if (on_seg(q, u, v)) add(q); for (auto& q : {u, v}) if (on_seg(q, a, b)) add(q); for (auto& q : s) w.pts.push_back(L2{(ld)q.x, (ld)q.y}); } return w; }
static void judge(const Hit& h, const Want& w, double k) {
    REQ(w.r != DISJOINT, "edges " << h.a << " and " << h.i << " are visited although they do not meet"); bool ok = w.r == CROSS ? h.t == e_crossing : w.r == OVERLAP ? h.t == e_overlapping : (h.t == e_endpoint || (w.par && h.t == e_overlapping)); REQ(ok, "edges " << h.a << " and " << h.i << " are visited as kind " << h.t);
    auto near = [&](const P2& p, const L2& q) { return std::fabs(p[0] - (double)q.x * k) <= 1e-7 * k && std::fabs(p[1] - (double)q.y * k) <= 1e-7 * k; }; if (w.r == OVERLAP) { REQ(w.pts.size() == 2 && ((near(h.x1, w.pts[0]) && near(h.x2, w.pts[1])) || (near(h.x1, w.pts[1]) && near(h.x2, w.pts[0]))), "the common stretch of edges " << h.a << " and " << h.i << " is wrong: " << h.x1[0] << ' ' << h.x1[1] << " to " << h.x2[0] << ' ' << h.x2[1]); } else REQ(near(h.x1, w.pts[0]), "the meeting point of edges " << h.a << " and " << h.i << " is wrong: " << h.x1[0] << ' ' << h.x1[1]); }
static IPoly chain(Rng& r, long m) { IPoly p; int n = (int)r.in(2, big(r, r.p(0.2) ? 12 : 6)); for (int g = 0; (int)p.size() < n && g < 100; ++g) { I2 q = rpt(r, m); if (!p.empty() && r.p(0.2)) { I2 b = p.back(); q = r.p(0.5) ? I2{q.x, b.y} : I2{b.x, q.y}; } if (p.empty() || !(p.back() == q)) p.push_back(q); } return p; }
GROUP(border, 30000, 1500000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{2, 4, 8, 30, 1000}); IPoly A = chain(r, m), B = chain(r, m); if (A.size() < 2 || B.size() < 3) SKIP_CASE(); if (r.p(0.4)) { std::size_t i = r.in(0, (long)A.size() - 1), j = r.in(0, (long)B.size() - 1); I2 keep = B[j]; B[j] = A[i]; bool bad = (j && B[j - 1] == B[j]) || (j + 1 < B.size() && B[j + 1] == B[j]); if (bad) B[j] = keep; } if (B[0] == B.back()) SKIP_CASE(); double k = r.pick(std::vector<double>{1, 0.5, 4, 0.0625}); abs_cmp cmp(1e-9 * k); c.in("first", A); c.in("second", B); c.in("scale", k); PL a = tpl(A, k), b = tpl(B, k); PG g = tpg(B, k); int what = (int)r.in(0, 4); c.in("what", what); bool closed = what >= 3; std::size_t ne = closed ? B.size() : B.size() - 1, na = (what == 2) ? A.size() - 1 : 1; long stop = r.p(0.35) ? r.in(1, 4) : -1; c.in("stop after", stop);
    std::vector<Hit> got; auto v4 = [&](intersection_type t, std::size_t i, std::size_t j, const P2& x, const P2& y) -> bool { got.push_back(Hit{0, 1, i, j, t, x, y}); return (long)got.size() == stop; }; auto v6 = [&](intersection_type t, std::size_t i1, std::size_t j1, std::size_t i, std::size_t j, const P2& x, const P2& y) -> bool { got.push_back(Hit{i1, j1, i, j, t, x, y}); return (long)got.size() == stop; }; bool any = false; switch (what) { case 0: any = segment_polyline_intersect(a[0], a[1], b, v4, cmp); break; case 1: any = segment_polyline_intersect(S2(a[0], a[1]), b, v4, cmp); break; case 2: any = polyline_polyline_intersect(a, b, v6, cmp); break; case 3: any = segment_polygon_border_intersect(a[0], a[1], g, v4, cmp); break; default: any = segment_polygon_border_intersect(S2(a[0], a[1]), g, v4, cmp); }
    std::map<std::pair<std::size_t, std::size_t>, Want> ex; for (std::size_t i = 0; i < na; ++i) for (std::size_t j = 0; j < ne; ++j) { Want w = want(A[i], A[i + 1], B[j], B[(j + 1) % B.size()]); if (w.r != DISJOINT) ex[{i, j}] = w; } count("meeting edge pairs", (long)ex.size()); REQ(any == !ex.empty(), "the answer is " << any << " with " << ex.size() << " meeting edge pairs"); std::set<std::pair<std::size_t, std::size_t>> seen; for (auto& h : got) { REQ(h.b == h.a + 1 && h.j == (h.i + 1) % B.size() && h.a < na && h.i < ne, "the visited pair is not a pair of edges: " << h.a << ',' << h.b << ',' << h.i << ',' << h.j); auto it = ex.find({h.a, h.i}); REQ(it != ex.end(), "edges " << h.a << " and " << h.i << " are visited although they do not meet"); REQ(seen.insert({h.a, h.i}).second, "an edge pair is visited twice"); judge(h, it->second, k); } std::size_t full = stop < 0 ? ex.size() : std::min<std::size_t>(stop, ex.size()); REQ(got.size() == full, got.size() << " pairs were visited instead of " << full); if (stop > 0 && (std::size_t)stop < ex.size()) count("stopped early"); }
GROUP(pieces, 20000, 1000000) {
    Rng& r = c.rng; IPoly o; switch (r.in(0, 4)) { case 0: o = rectilinear_poly(r, (int)r.in(2, 6), 5); break; case 1: o = comb_poly(r, (int)r.in(2, 4), 6); break; default: o = any_poly(r, 12); } if (o.size() < 3 || !is_simple(o)) SKIP_CASE(); if (r.p(0.3)) o = insert_collinear(r, o); else for (auto& q : o) q = I2{q.x * 4, q.y * 4}; if (r.p(0.3)) std::reverse(o.begin(), o.end()); std::rotate(o.begin(), o.begin() + r.in(0, (long)o.size() - 1), o.end()); long ext = 0; for (auto& q : o) ext = std::max({ext, std::labs(q.x), std::labs(q.y)}); if (ext > 250) SKIP_CASE(); auto pt = [&]() { switch (r.in(0, 4)) { case 0: return r.pick(o); case 1: { std::size_t i = r.in(0, (long)o.size() - 1); I2 a = o[i], b = o[(i + 1) % o.size()]; return I2{(a.x + b.x) / 2, (a.y + b.y) / 2}; } default: return rpt(r, ext + 2); } }; I2 s = pt(), e = pt(); if (r.p(0.3)) { std::size_t i = r.in(0, (long)o.size() - 1); I2 a = o[i], b = o[(i + 1) % o.size()]; long f = r.in(-1, 3), h = r.in(-1, 3); I2 d = b - a; s = I2{a.x + d.x / 2 * f, a.y + d.y / 2 * f}; e = I2{a.x + d.x / 2 * h, a.y + d.y / 2 * h}; } if (s == e) SKIP_CASE(); double k = r.pick(std::vector<double>{1, 0.5, 0.25, 2}); c.in("polygon", o); c.in("from", s); c.in("to", e); c.in("scale", k);
    struct Q { i128 n, d; bool operator<(const Q& q) const { return n * q.d < q.n * d; } }; std::vector<Q> t{{0, 1}, {1, 1}}; I2 D = e - s; bool meets = in_poly(o, s) >= 0 || in_poly(o, e) >= 0; for (std::size_t i = 0, n = o.size(); i < n; ++i) { I2 u = o[i], v = o[(i + 1) % n]; if (segs_meet(s, e, u, v)) meets = true; i128 den = crossi(D, v - u); auto add = [&](i128 x, i128 y) { if (y < 0) { x = -x; y = -y; } if (x > 0 && x < y) t.push_back({x, y}); }; if (den != 0) add(crossi(u - s, v - u), den); else if (crossi(D, u - s) == 0) { i128 q = doti(D, D); add(doti(u - s, D), q); add(doti(v - s, D), q); } } std::sort(t.begin(), t.end());
    std::vector<std::pair<ld, ld>> ex; for (std::size_t i = 0; i + 1 < t.size(); ++i) { if (!(t[i] < t[i + 1])) continue; i128 n = t[i].n * t[i + 1].d + t[i + 1].n * t[i].d, d = 2 * t[i].d * t[i + 1].d; if (in_poly(o, s.x * d + D.x * n, s.y * d + D.y * n, d) < 0) continue; ld a = (ld)t[i].n / (ld)t[i].d, b = (ld)t[i + 1].n / (ld)t[i + 1].d; if (!ex.empty() && std::fabs((double)(ex.back().second - a)) < 1e-14) ex.back().second = b; else ex.push_back({a, b}); }
    std::vector<std::pair<ld, ld>> got; L2 S{(ld)s.x * k, (ld)s.y * k}, E{(ld)D.x * k, (ld)D.y * k}; abs_cmp cmp(1e-8); bool any = segment_polygon_intersection(ts(s, e, k), dense(tpg(o, k), r.p(0.03) ? 16 : 1), [&](const S2& x) { ld p[2]; for (int q = 0; q < 2; ++q) { P2 z = q ? x.get_end() : x.get_start(); L2 w{(ld)z[0] - S.x, (ld)z[1] - S.y}; p[q] = dot(w, E) / dot(E, E); REQ(norm(w - p[q] * E) < 1e-6, "a piece leaves the segment"); } got.push_back({std::min(p[0], p[1]), std::max(p[0], p[1])}); }, cmp); REQ(any == meets, "the segment is said to " << (any ? "meet" : "miss") << " the polygon"); std::sort(got.begin(), got.end()); std::vector<std::pair<ld, ld>> mg; ld tol = 1e-6L / norm(E); for (auto& x : got) { if (!mg.empty()) REQ(x.first >= mg.back().second - tol, "two reported pieces overlap"); if (!mg.empty() && x.first <= mg.back().second + tol) mg.back().second = x.second; else mg.push_back(x); } count("pieces", (long)ex.size()); REQ(mg.size() == ex.size(), mg.size() << " pieces are reported instead of " << ex.size()); for (std::size_t i = 0; i < ex.size(); ++i) REQ(std::fabs((double)(mg[i].first - ex[i].first)) <= tol && std::fabs((double)(mg[i].second - ex[i].second)) <= tol, "piece " << i << " runs from " << (double)mg[i].first << " to " << (double)mg[i].second << " instead of from " << (double)ex[i].first << " to " << (double)ex[i].second); }
static CP clip(const CP& p, const CP& q) { CP s = p; for (std::size_t i = 0, n = q.size(); i < n && !s.empty(); ++i) { L2 a = q[i], d = q[(i + 1) % n] - q[i]; CP o; for (std::size_t j = 0, m = s.size(); j < m; ++j) { L2 x = s[j], y = s[(j + 1) % m]; ld f = cross(d, x - a), g = cross(d, y - a); if (f >= 0) o.push_back(x); if ((f > 0 && g < 0) || (f < 0 && g > 0)) o.push_back(x + (f / (f - g)) * (y - x)); } s = o; } return s; }
static CP tocp(const IPoly& p, double k) { CP o; for (auto& q : p) o.push_back(L2{(ld)q.x * k, (ld)q.y * k}); return o; }
GROUP(convex, 24000, 1200000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{5, 20, 100, 1000}); IPoly p = convex_poly(r, (int)r.in(3, 9), m), q = convex_poly(r, (int)r.in(3, 9), m); if (r.p(0.06)) { p = many_convex(r, (int)r.in(20, 70)); if (r.p(0.6)) q = many_convex(r, (int)r.in(8, 70)); m = 1; for (auto v : {&p, &q}) for (auto& z : *v) m = std::max({m, std::labs(z.x), std::labs(z.y)}); } if (p.size() < 3 || q.size() < 3 || area2(p) <= 0 || area2(q) <= 0) SKIP_CASE(); if (r.p(0.4)) for (auto& z : q) z = I2{z.x * 3, z.y * 3}; I2 d = rpt(r, r.p(0.5) ? m : 2 * m); for (auto& z : q) z = z + d; if (r.p(0.3)) { IPoly pool = p; q.clear(); if (r.p(0.6)) for (auto& z : p) z = I2{z.x * 2, z.y * 2}; pool = p; if (p[0].x % 2 == 0 && r.p(0.8)) for (std::size_t i = 0; i < p.size(); ++i) { I2 s = p[i] + p[(i + 1) % p.size()]; if (s.x % 2 == 0 && s.y % 2 == 0) pool.push_back(I2{s.x / 2, s.y / 2}); } int nq = (int)r.in(3, 8); for (int i = 0; i < nq; ++i) q.push_back(r.p(0.8) ? r.pick(pool) : r.pick(pool) + rpt(r, 3)); if (r.p(0.1)) q = p; q = hull(q); if (q.size() < 3 || area2(q) <= 0) SKIP_CASE(); } std::rotate(p.begin(), p.begin() + r.in(0, (long)p.size() - 1), p.end()); bool swap = r.p(0.5); if (swap) std::swap(p, q); bool gp = true; for (std::size_t i = 0; i < p.size(); ++i) for (std::size_t j = 0; j < q.size(); ++j) { if (on_seg(p[i], q[j], q[(j + 1) % q.size()]) || on_seg(q[j], p[i], p[(i + 1) % p.size()])) gp = false; } double k = r.pick(std::vector<double>{1, 0.5, 2}); c.in("first", p); c.in("second", q); c.in("scale", k); c.in("general position", gp); CP P = tocp(p, k), Q = tocp(q, k), ex = clip(P, Q); auto apart = [](const IPoly& a, const IPoly& b) { for (std::size_t i = 0, n = a.size(); i < n; ++i) { bool sep = true; for (auto& z : b) if (orient(a[i], a[(i + 1) % n], z) > 0) { sep = false; break; } if (sep) return true; } return false; }; bool overlap = !apart(p, q) && !apart(q, p); ld area = ex.size() < 3 || !overlap ? 0 : std::fabs((double)area2l(ex)); std::vector<P2> v; if (!gp) count(overlap ? "overlapping, touching" : "only touching"); polygon_intersection_type t = convex_polygon_polygon_intersection(tpg(p, k), tpg(q, k), [&](const P2& x) { v.push_back(x); }, abs_cmp(1e-10)); count(overlap ? "overlapping" : "apart"); if (gp || overlap) REQ(t == (overlap ? polygon_intersection_type::overlapping : polygon_intersection_type::none), "the polygons are said to be of relation " << (int)t << " with a common area of " << (double)area / 2); if (!overlap && gp) { REQ(v.empty(), "points are visited for polygons that are apart"); return; } CP g; for (auto& x : v) g.push_back(L2{(ld)x[0], (ld)x[1]}); ld tol = 1e-8L * m * k; for (auto& x : g) REQ(solid_dist(P, x) <= tol && solid_dist(Q, x) <= tol, "a visited point is outside of a polygon: " << (double)x.x << ' ' << (double)x.y); if (!overlap) return; for (auto& x : ex) { ld b = border_dist(g, x); REQ(b <= tol * 10, "the corner " << (double)x.x << ' ' << (double)x.y << " of the common region is not visited"); } ld ga = g.size() < 3 ? 0 : area2l(g); REQ(std::fabs((double)(ga - area)) <= 1e-6 * m * m * k * k, "the visited points span twice the area " << (double)ga << " instead of " << (double)area); }
