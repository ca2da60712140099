#include "geo.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
using namespace vt;
using namespace geometrix;
static std::vector<I2> walk(Rng& r, int n, long m, bool dup) { std::vector<I2> v; int style = (int)r.in(0, 4); I2 p = rpt(r, m); for (int i = 0; i < n; ++i) { switch (style) { case 0: p = rpt(r, m); break; case 1: p = I2{p.x + r.in(0, m), r.in(-m, m)}; break; case 2: p = I2{p.x + r.in(-m, m), p.y + r.in(-m, m)}; break; case 3: p = I2{p.x + r.in(1, m), r.p(0.7) ? p.y : p.y + r.in(-1, 1)}; break; default: p = (r.p(0.5) ? I2{p.x + r.in(-m, m), p.y} : I2{p.x, p.y + r.in(-m, m)}); } if (i && p == v.back() && !dup) { p.x += 1; } v.push_back(p); if (dup) while (r.p(0.3)) v.push_back(p); } return v; }
static ld sd(const I2& p, const I2& a, const I2& b) { return dist_ps(L2{(ld)p.x, (ld)p.y}, L2{(ld)a.x, (ld)a.y}, L2{(ld)b.x, (ld)b.y}); }
static std::vector<I2> back(const PL& g, double k) { std::vector<I2> o; for (auto const& p : g) { I2 q{std::lround(p[0] / k), std::lround(p[1] / k)}; REQ(q.x * k == p[0] && q.y * k == p[1], "the vertex " << str(p) << " is not a vertex of the input"); o.push_back(q); } return o; }
// can the output be read as a subsequence (ends kept) whose dropped vertices lie within eps of the edge replacing them?
static bool fits(const std::vector<I2>& in, const std::vector<I2>& out, ld eps) { std::size_t n = in.size(), m = out.size(); if (m < 2 || !(in[0] == out[0]) || !(in[n - 1] == out[m - 1])) return false; std::vector<char> cur(n, 0); cur[0] = 1; for (std::size_t q = 1; q < m; ++q) { std::vector<char> nx(n, 0); for (std::size_t i = 0; i < n; ++i) if (cur[i]) for (std::size_t j = i + 1; j < n; ++j) if (!nx[j] && in[j] == out[q]) { bool ok = true; for (std::size_t x = i + 1; x < j && ok; ++x) ok = sd(in[x], in[i], in[j]) <= eps; if (ok) nx[j] = 1; } cur = nx; } return cur[n - 1]; }
GROUP(simplify, 16000, 900000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{1, 3, 8, 40, 500}); auto v = walk(r, (int)r.in(2, r.p(0.2) ? 40 : 9), m, r.p(0.2)); if (r.p(0.25)) v.push_back(v.front()); double k = r.pick(std::vector<double>{1, 1, 0.5, 0.25, 4}); double e = r.pick(std::vector<double>{0, 0.1, 0.5, 1, (double)m / 2, (double)m * 3, (double)m * r.u()}); if (r.p(0.2)) e = (double)sd(v[r.in(0, (long)v.size() - 1)], v.front(), v.back()); c.in("polyline", v); c.in("tolerance", e); c.in("scale", k); bool closed = v.front() == v.back(); if (closed) count("closed polylines");
    PL g = ramer_douglas_peucker_algorithm(tpl(v, k), e * k); auto o = back(g, k); c.in("simplified", o); REQ(fits(v, o, e * (1 + 1e-9L) + 1e-9L * m), "the simplified polyline drops a vertex that is farther than the tolerance from what replaces it (or is no subsequence with the same ends)"); count("dropped", (long)(v.size() - o.size())); count("kept", (long)o.size());
    ld far = 0; for (auto& p : v) far = std::max(far, sd(p, v.front(), v.back())); if (far < e * (1 - 1e-9L) - 1e-9L) { REQ(o.size() == 2, "a polyline within the tolerance of its chord keeps " << o.size() << " vertices"); count("one chord"); } }
// collinear and repeated points; true corners are never lost, the border stays the same point set
static bool corner(const I2& a, const I2& b, const I2& d) { return orient(a, b, d) != 0; }
static std::vector<I2> corners(std::vector<I2> v, bool closed) { for (bool ch = true; ch;) { ch = false; std::size_t n = v.size(); for (std::size_t i = 0; i < n && n > 2; ++i) { if (!closed && (i == 0 || i + 1 == n)) { if (i + 1 < n && v[i] == v[i + 1]) { v.erase(v.begin() + i + (i == 0 ? 1 : 0)); ch = true; break; } continue; } I2 a = v[(i + n - 1) % n], b = v[i], d = v[(i + 1) % n]; if (!corner(a, b, d)) { v.erase(v.begin() + i); ch = true; break; } } } return v; }
static std::vector<I2> turn(std::vector<I2> v) { std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end()); return v; }
static bool subseq(const std::vector<I2>& out, const std::vector<I2>& in) { std::size_t i = 0; for (auto& p : out) { while (i < in.size() && !(in[i] == p)) ++i; if (i == in.size()) return false; ++i; } return true; }
static bool cyclic_ok(const std::vector<I2>& out, const std::vector<I2>& in) { std::vector<I2> t = in; for (std::size_t i = 0; i < in.size(); ++i) { if (subseq(out, t)) return true; std::rotate(t.begin(), t.begin() + 1, t.end()); } return false; }
GROUP(polygon, 9000, 500000) {
    Rng& r = c.rng; IPoly p = any_poly(r, r.p(0.01) ? 80 : 14); if (p.size() < 3) SKIP_CASE(); p = insert_collinear(r, p, r.pick(std::vector<double>{0.1, 0.4, 0.8})); if (r.p(0.5)) std::reverse(p.begin(), p.end()); std::rotate(p.begin(), p.begin() + r.in(0, (long)p.size() - 1), p.end()); double k = r.pick(std::vector<double>{1, 0.5, 0.25, 2}); abs_cmp cmp(1e-8); auto want = corners(p, true);
    { c.in("polygon", p); c.in("scale", k); PG g = remove_collinear_points_polygon(tpg(p, k), cmp); auto o = back(PL(g.begin(), g.end()), k); c.in("cleaned", o); REQ(o.size() >= 3 && subseq(o, p), "the cleaned polygon is no subsequence of the vertices"); REQ(turn(corners(o, true)) == turn(want), "the cleaned polygon has another shape"); REQ(area2(o) == area2(p), "the area changed"); for (std::size_t i = 1; i + 1 < o.size() && p.size() > 3; ++i) REQ(corner(o[i - 1], o[i], o[i + 1]), "the collinear vertex " << o[i] << " is kept"); count("vertices removed", (long)(p.size() - o.size()));
        auto ix = identify_collinear_points_polygon(tpg(p, k), cmp); std::vector<I2> rest; for (std::size_t i = 0; i < p.size(); ++i) if (!ix.count(i)) rest.push_back(p[i]); for (auto i : ix) REQ(i < p.size(), "index " << i); REQ(turn(corners(rest, true)) == turn(want) && rest.size() == o.size(), "dropping the vertices identified as collinear leaves " << rest.size() << " vertices and another shape than the polygon"); }
    // repeated points
    std::vector<I2> d; for (auto& q : p) { d.push_back(q); while (r.p(0.25)) d.push_back(q); } if (r.p(0.3)) d.push_back(d.front()); c.in("with repeats", d); PG g = coalesce_adjacent_points_polygon(tpg(d, k), cmp); auto o = back(PL(g.begin(), g.end()), k); if (d.size() > 3) { REQ(o == p, "after joining repeated points the polygon has " << o.size() << " instead of " << p.size() << " vertices"); auto ix = identify_adjacent_points_polygon(tpg(d, k), cmp); std::vector<I2> rest; for (std::size_t i = 0; i < d.size(); ++i) if (!ix.count(i)) rest.push_back(d[i]); REQ(rest == p, "dropping the vertices identified as repeated leaves another polygon"); PG cl = clean_polygon(tpg(d, k), cmp); auto q = back(PL(cl.begin(), cl.end()), k); c.in("cleaned", q); REQ(turn(corners(q, true)) == turn(want) && cyclic_ok(q, p), "the cleaned polygon has another shape"); count("repeats joined", (long)(d.size() - p.size())); } }
GROUP(polyline, 9000, 500000) {
    Rng& r = c.rng; std::vector<I2> v = walk(r, (int)r.in(2, big(r, 10)), r.pick(std::vector<long>{1, 3, 10, 80}), false); for (std::size_t i = 0; i + 2 < v.size();) { if (!corner(v[i], v[i + 1], v[i + 2]) && doti(v[i + 1] - v[i], v[i + 2] - v[i + 1]) <= 0) v.erase(v.begin() + i + 1); else ++i; if (i + 1 < v.size() && v[i] == v[i + 1]) v.erase(v.begin() + i); } for (std::size_t i = 0; i + 1 < v.size();) if (v[i] == v[i + 1]) v.erase(v.begin() + i); else ++i; for (std::size_t i = 0; i + 2 < v.size(); ++i) if (!corner(v[i], v[i + 1], v[i + 2]) && doti(v[i + 1] - v[i], v[i + 2] - v[i + 1]) <= 0) SKIP_CASE(); if (v.size() < 2) SKIP_CASE(); std::vector<I2> p; for (std::size_t i = 0; i < v.size(); ++i) { I2 a{v[i].x * 4, v[i].y * 4}; p.push_back(a); if (i + 1 < v.size()) for (int q = 1; q < 4; ++q) if (r.p(0.3)) p.push_back(I2{a.x + (v[i + 1].x - v[i].x) * q, a.y + (v[i + 1].y - v[i].y) * q}); } double k = r.pick(std::vector<double>{1, 0.5, 0.25, 2}); abs_cmp cmp(1e-8); auto want = corners(p, false); c.in("polyline", p); c.in("scale", k);
    PL g = remove_collinear_points_polyline(tpl(p, k), cmp); auto o = back(g, k); c.in("cleaned", o); REQ(o == want, "the cleaned polyline has " << o.size() << " vertices instead of the " << want.size() << " ends and corners"); count("vertices removed", (long)(p.size() - o.size()));
    std::vector<I2> d; for (auto& q : p) { d.push_back(q); while (r.p(0.25)) d.push_back(q); } c.in("with repeats", d); o = back(coalesce_adjacent_points_polyline(tpl(d, k), cmp), k); if (d.size() > 2) REQ(o == p, "after joining repeated points the polyline has " << o.size() << " instead of " << p.size() << " vertices"); if (d.size() > 2) { o = back(clean_polyline(tpl(d, k), cmp), k); c.in("cleaned", o); REQ(o == want, "the cleaned polyline has " << o.size() << " vertices instead of the " << want.size() << " ends and corners"); } count("repeats joined", (long)(d.size() - p.size())); }
