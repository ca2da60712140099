#include "mesh.hpp"
#include <geometrix/algorithm/mesh_2d.hpp>
#include <geometrix/algorithm/visible_vertices_mesh_search.hpp>
using namespace vt;
using namespace geometrix;
typedef mesh_2d<double> M;
typedef visible_vertices_mesh_search<visible_vertices_mesh_search_traits<double, M, abs_cmp>> VS;
struct Counted { VS& s; long left; typedef VS::edge_item edge_item; edge_item get_start() { return s.get_start(); } bool visit(const edge_item& e) { REQ(--left > 0, "the search does not come to an end"); return s.visit(e); } boost::optional<edge_item> prepare_adjacent_traversal(std::size_t n, const edge_item& e) { return s.prepare_adjacent_traversal(n, e); } };
static TM refine(Rng& r, TM m, int times) { for (int i = 0; i < times; ++i) { // add interior vertices (coordinates are multiples of 3 per step)
        std::size_t t = r.in(0, (long)m.tris.size() - 1); auto T = m.tris[t]; I2 a = m.pts[T[0]], b = m.pts[T[1]], d = m.pts[T[2]]; I2 s = a + b + d; if (s.x % 3 || s.y % 3) continue; I2 q{s.x / 3, s.y / 3}; if (orient(a, b, q) <= 0 || orient(b, d, q) <= 0 || orient(d, a, q) <= 0) continue; int h = (int)m.pts.size(); m.pts.push_back(q); m.tris[t] = {T[0], T[1], h}; m.tris.push_back({T[1], T[2], h}); m.tris.push_back({T[2], T[0], h}); } return m; }
GROUP(visible, 6000, 250000) {
    Rng& r = c.rng; TM tm = any_mesh(r, r.p(0.5) ? 1 : 2); if (tm.tris.empty()) SKIP_CASE(); const long F = 126; for (auto& p : tm.pts) { p.x *= F; p.y *= F; } if (r.p(0.5)) tm = refine(r, tm, (int)r.in(1, 6)); r.shuffle(tm.tris.begin(), tm.tris.end()); int n = (int)tm.tris.size();
    I2 o; int st = -1; for (int g = 0; g < 60 && st < 0; ++g) { int t = (int)r.in(0, n - 1); I2 a = tm.pts[tm.tris[t][0]], b = tm.pts[tm.tris[t][1]], d = tm.pts[tm.tris[t][2]]; long u = r.in(1, 125), v = r.in(1, 125); if (u + v >= 126) continue; o = I2{(a.x * (126 - u - v) + b.x * u + d.x * v) / 126, (a.y * (126 - u - v) + b.y * u + d.y * v) / 126}; if (orient(a, b, o) <= 0 || orient(b, d, o) <= 0 || orient(d, a, o) <= 0) continue; bool gp = true; for (std::size_t i = 0; i < tm.pts.size() && gp; ++i) for (std::size_t j = 0; j < i && gp; ++j) { I2 x = tm.pts[i] - o, y = tm.pts[j] - o; if (crossi(x, y) == 0 && doti(x, y) > 0) gp = false; } if (gp) st = t; } if (st < 0) SKIP_CASE();
    double k = r.pick(std::vector<double>{0.25, 1.0 / 64, 0.125}); while (true) { double ext = 0; for (auto& p : tm.pts) ext = std::max({ext, std::fabs(p.x * k), std::fabs(p.y * k)}); if (ext < 40) break; k /= 2; }
    c.in("mesh", tm); c.in("viewpoint", o); c.in("start", st); c.in("scale", k); std::vector<P2> pts; for (auto& p : tm.pts) pts.push_back(tp(p, k)); std::vector<std::size_t> idx; for (auto& t : tm.tris) { int q = (int)r.in(0, 2); bool cw = r.p(0.3); std::array<int, 3> u{t[q], t[(q + 1) % 3], t[(q + 2) % 3]}; if (cw) std::swap(u[1], u[2]); for (int x : u) idx.push_back(x); }
    abs_cmp cmp(1e-10); M mesh(pts, idx, cmp); auto f = mesh.find_triangle(tp(o, k), cmp); REQ(f && (int)*f == st, "the viewpoint is located in another triangle");
    std::map<std::pair<int, int>, int> edge; for (auto& t : tm.tris) for (int e = 0; e < 3; ++e) edge[{t[e], t[(e + 1) % 3]}]++; std::vector<std::pair<int, int>> border; for (auto& e : edge) if (!edge.count({e.first.second, e.first.first})) border.push_back(e.first);
    std::set<std::size_t> want; for (std::size_t v = 0; v < tm.pts.size(); ++v) { bool cut = false; for (auto& e : border) { if (e.first == (int)v || e.second == (int)v) continue; I2 a = tm.pts[e.first], b = tm.pts[e.second]; if (segs_meet(o, tm.pts[v], a, b)) { cut = true; break; } } 
        // the sight line must also arrive at v through the mesh: some triangle at v holds the direction back to the viewpoint
        bool in = false; for (auto& t : tm.tris) for (int e = 0; e < 3; ++e) if (t[e] == (int)v) { I2 d = o - tm.pts[v]; if (crossi(tm.pts[t[(e + 1) % 3]] - tm.pts[v], d) > 0 && crossi(d, tm.pts[t[(e + 2) % 3]] - tm.pts[v]) > 0) in = true; else if (crossi(tm.pts[t[(e + 1) % 3]] - tm.pts[v], d) == 0 && doti(tm.pts[t[(e + 1) % 3]] - tm.pts[v], d) > 0) in = true; }
        if (!cut && in) want.insert(v); }
    VS s(tp(o, k), st, mesh); Counted w{s, 200000}; mesh.search(w); auto const& g = s.get_vertices(); std::set<std::size_t> got(g.begin(), g.end()); std::ostringstream e; for (auto v : want) if (!got.count(v)) e << " misses visible vertex " << v << tm.pts[v]; for (auto v : got) if (!want.count(v)) e << " reports hidden vertex " << v << tm.pts[v]; REQ(got == want, "the search" << e.str()); count("visible", (long)want.size()); count("hidden", (long)(tm.pts.size() - want.size())); REQ(g.size() == got.size(), "a visible vertex is reported " << g.size() - got.size() << " times too often"); }
// the segment test the search is built on: does a segment meet the closed cone between two rays (less than half a turn)
GROUP(cone, 20000, 1000000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{2, 4, 9, 50}); I2 o = rpt(r, m), lo, hi; do { lo = rpt(r, m); hi = rpt(r, m); } while (crossi(lo, hi) <= 0); I2 a = rpt(r, m), b = rpt(r, m); if (r.p(0.2)) { long q = r.in(1, 3); a = I2{o.x + lo.x * q, o.y + lo.y * q}; } if (r.p(0.2)) { long q = r.in(1, 3); b = I2{o.x + hi.x * q, o.y + hi.y * q}; } if (r.p(0.1)) { long q = r.in(1, 3); b = I2{o.x + lo.x * q, o.y + lo.y * q}; } if (a == b || on_seg(o, a, b)) SKIP_CASE(); if (r.p(0.5)) std::swap(a, b); c.in("origin", o); c.in("lo", lo); c.in("hi", hi); c.in("a", a); c.in("b", b); double k = r.pick(std::vector<double>{1, 0.5, 4});
    auto in = [&](I2 p) { I2 d = p - o; return crossi(lo, d) >= 0 && crossi(hi, d) <= 0; }; auto ray = [&](I2 d) { i128 s = crossi(d, a - o), t = crossi(d, b - o); if (s == 0 && t == 0) return doti(d, a - o) >= 0 || doti(d, b - o) >= 0; if ((s > 0 && t > 0) || (s < 0 && t < 0)) return false; I2 e = b - a; i128 num = crossi(a - o, e), den = crossi(d, e); return den > 0 ? num >= 0 : num <= 0; };
    bool want = in(a) || in(b) || ray(lo) || ray(hi); bool got = is_segment_in_range_2d(ts(a, b, k), V2(lo.x, lo.y), V2(hi.x, hi.y), tp(o, k)); count(want ? "in range" : "out of range"); REQ(got == want, "the segment is called " << (got ? "in" : "out of") << " range"); }
// the form that also returns the ends of the common part (no end point on a cone line)
GROUP(conepart, 10000, 500000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{2, 4, 9, 50}); I2 o = rpt(r, m), lo, hi; do { lo = rpt(r, m); hi = rpt(r, m); } while (crossi(lo, hi) <= 0); I2 a = rpt(r, m), b = rpt(r, m); if (a == b || on_seg(o, a, b)) SKIP_CASE(); for (I2 p : {a, b}) for (I2 d : {lo, hi}) if (crossi(d, p - o) == 0) SKIP_CASE(); c.in("origin", o); c.in("lo", lo); c.in("hi", hi); c.in("a", a); c.in("b", b); double k = r.pick(std::vector<double>{1, 0.5, 4}); if (orient(a, b, o) == 0 && false) SKIP_CASE();
    L2 A{(ld)(a - o).x, (ld)(a - o).y}, B{(ld)(b - o).x, (ld)(b - o).y}, l{(ld)lo.x, (ld)lo.y}, h{(ld)hi.x, (ld)hi.y}; ld t0 = 0, t1 = 1; for (int q = 0; q < 2; ++q) { ld s = q ? -cross(h, A) : cross(l, A), e = q ? -cross(h, B) : cross(l, B); if (s < 0 && e < 0) t1 = -1; else if (s < 0) t0 = std::max(t0, s / (s - e)); else if (e < 0) t1 = std::min(t1, s / (s - e)); } if (std::fabs(t1 - t0) < 1e-9L) SKIP_CASE(); bool want = t1 > t0;
    P2 x[2]; bool got = is_segment_in_range_2d(ts(a, b, k), V2(lo.x, lo.y), V2(hi.x, hi.y), tp(o, k), x, abs_cmp(1e-10)); count(want ? "in range" : "out of range"); REQ(got == want, "the segment is called " << (got ? "in" : "out of") << " range"); if (!want) return; L2 w0 = lp(tp(o, k)) + (ld)k * (A + t0 * (B - A)), w1 = lp(tp(o, k)) + (ld)k * (A + t1 * (B - A)); ld d1 = norm(lp(x[0]) - w0) + norm(lp(x[1]) - w1), d2 = norm(lp(x[0]) - w1) + norm(lp(x[1]) - w0); REQ(std::min(d1, d2) < 1e-8L * (m * k), "the common part is given as " << str(x[0]) << str(x[1]) << " instead of (" << w0.x << "," << w0.y << ")(" << w1.x << "," << w1.y << ")"); }
