#include "geo.hpp"
#include "conv.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp>
using namespace vt;
using namespace geometrix;
template <class F> static int first(F f, ld T, ld mar, ld& t, ld& last) { // convex gap function f over time: first and last contact
    if (std::abs(f(0)) < mar) return -1; ld lo = 0, hi = T; for (int i = 0; i < 160; ++i) { ld x = lo + (hi - lo) / 3, y = hi - (hi - lo) / 3; if (f(x) <= f(y)) hi = y; else lo = x; } ld e = (lo + hi) / 2; if (f(T) < f(e)) e = T; if (f(0) < f(e)) e = 0; if (std::abs(f(e)) < mar) return -1; if (f(e) > 0) return 0; t = 0; if (f(0) > 0) { lo = 0; hi = e; for (int i = 0; i < 110; ++i) { ld x = (lo + hi) / 2; (f(x) > 0 ? lo : hi) = x; } t = hi; } last = -1; if (f(T) > 0) { lo = e; hi = T; for (int i = 0; i < 110; ++i) { ld x = (lo + hi) / 2; (f(x) > 0 ? hi : lo) = x; } last = hi; } return 1; }
struct Pol { PG g; CP l; };
static Pol gen(Rng& r, double size, bool& flat) { // convex, counterclockwise, uneven vertex spacing
    Pol p; std::vector<L2> v; int n = (int)r.in(3, big(r, r.p(0.3) ? 24 : 8)); flat = false; if (r.p(0.02)) { IPoly q = many_convex(r, (int)r.in(20, r.p(0.3) ? 100 : 60)); long e = 1; for (auto& x : q) e = std::max({e, std::labs(x.x), std::labs(x.y)}); for (auto& x : q) v.push_back(L2{(double)x.x * size / e, (double)x.y * size / e}); if (area2l(v) < 0.02 * size * size) return p; for (std::size_t i = 0, m = v.size(); i < m; ++i) { L2 a = v[(i + 1) % m] - v[i], b = v[(i + 2) % m] - v[(i + 1) % m]; if (norm(a) < 1e-3 * size || cross(a, b) / norm(a) / norm(b) < 1e-3) return p; } count("many corners"); p.l = v; return p; } if (r.p(0.35)) { IPoly q = convex_poly(r, n, r.pick(std::vector<long>{3, 8, 40})); if (q.size() < 3 || area2(q) <= 0) return p; double s = size / 10; for (auto& x : q) v.push_back(L2{(double)x.x * s, (double)x.y * s}); } else { std::vector<double> a; double span = r.p(0.5) ? 6.2831853 : r.real(1, 6.2), off = r.real(0, 6.28); for (int i = 0; i < n; ++i) a.push_back(off + span * (r.p(0.5) ? r.u() : r.u() * r.u() * r.u())); std::sort(a.begin(), a.end()); double ax = r.real(0.2, 1) * size, ay = r.real(0.2, 1) * size; for (double t : a) v.push_back(L2{ax * std::cos(t), ay * std::sin(t)}); } if (r.p(0.15)) { std::size_t i = r.in(0, (long)v.size() - 1); L2 x = v[i], y = v[(i + 1) % v.size()]; v.insert(v.begin() + i + 1, L2{(x.x + y.x) / 2, (x.y + y.y) / 2}); flat = true; }
    std::rotate(v.begin(), v.begin() + r.in(0, (long)v.size() - 1), v.end()); std::size_t m = v.size(); ld best = 1e300L; for (std::size_t i = 0; i < m; ++i) { L2 e = v[(i + 1) % m] - v[i], f = v[(i + 2) % m] - v[(i + 1) % m]; if (norm(e) < 0.02 * size || norm(f) < 0.02 * size) return p; ld s = cross(e, f) / norm(e) / norm(f); if (!flat) best = std::min(best, s); } if (!flat && best < 1e-3) return p; if (area2l(v) < 0.02 * size * size) return p; p.l = v; return p; }
static void place(Pol& p, L2 d, double k) { for (auto& q : p.l) q = L2{(double)((q.x + d.x) * k), (double)((q.y + d.y) * k)}; std::vector<P2> v; for (auto& q : p.l) v.push_back(P2((double)q.x, (double)q.y)); p.g = PG(v.begin(), v.end()); }
GROUP(fixed, 40000, 2000000) {
    Rng& r = c.rng; bool f1, f2; Pol p = gen(r, 10, f1), q = gen(r, r.pick(std::vector<double>{10, 3, 30}), f2); if (p.l.size() < 3 || q.l.size() < 3) SKIP_CASE(); double k = r.pick(std::vector<double>{1, 0.01, 1000}); L2 at{r.real(-100, 100), r.real(-100, 100)}; place(p, at, k); L2 d{r.real(-22, 22), r.real(-22, 22)}; if (r.p(0.3)) d = L2{d.x / 6, d.y / 6}; place(q, at + d, k); if (r.p(0.4)) { ld g = sep_gap(p.l, q.l); L2 u{r.real(-1, 1), r.real(-1, 1)}; (void)g; for (auto& x : q.l) x = L2{x.x + u.x * k, x.y + u.y * k}; place(q, L2{0, 0}, 1); } c.in("first", p.g); c.in("second", q.g); ld gap = sep_gap(p.l, q.l); if (std::fabs((double)gap) < 1e-6 * k) SKIP_CASE(); bool want = gap < 0, in = true; for (auto& x : q.l) in = in && convex_in(p.l, x); count(want ? in ? "contained" : "overlapping" : "apart"); abs_cmp cmp(1e-12 * k * k); bool g1 = convex_polygons_intersection(p.g, q.g, cmp), g2 = convex_polygons_intersection(q.g, p.g, cmp); REQ(g1 == want && g2 == want, "the polygons are said to be " << (g1 ? "overlapping" : "apart") << ", swapped " << (g2 ? "overlapping" : "apart") << ", their gap is " << (double)gap); }
GROUP(moving, 24000, 1000000) {
    Rng& r = c.rng; bool f1, f2; Pol p = gen(r, 10, f1), q = gen(r, r.pick(std::vector<double>{10, 4, 20}), f2); if (p.l.size() < 3 || q.l.size() < 3) SKIP_CASE(); place(p, L2{r.real(-30, 30), r.real(-30, 30)}, 1); place(q, L2{r.real(-60, 60), r.real(-60, 60)}, 1); if (r.p(0.3)) { std::reverse(p.l.begin(), p.l.end()); place(p, L2{0, 0}, 1); } auto vel = [&]() { return L2{r.real(-5, 5), r.real(-5, 5)}; }; L2 u = r.p(0.2) ? L2{0, 0} : vel(), w = r.p(0.1) ? u : vel(); if (r.p(0.6)) { L2 cp{0, 0}, cq{0, 0}; for (auto& x : p.l) cp = cp + x; for (auto& x : q.l) cq = cq + x; L2 a = (1.0L / p.l.size()) * cp - (1.0L / q.l.size()) * cq; ld s = r.real(0.05, 1); w = u + s * a + L2{r.real(-2, 2), r.real(-2, 2)}; } V2 U((double)u.x, (double)u.y), W((double)w.x, (double)w.y); c.in("first", p.g); c.in("velocity of first", U); c.in("second", q.g); c.in("velocity of second", W); L2 v{(ld)W[0] - U[0], (ld)W[1] - U[1]}; ld sp = norm(v); if (sp > 0 && sp < 0.05) SKIP_CASE(); auto f = [&](ld t) { CP z = q.l; for (auto& x : z) x = x + t * v; return sep_gap(p.l, z); }; ld T = sp > 0 ? 300 / sp : 1, t, last; int k = first(f, T, 1e-5, t, last); if (k < 0) SKIP_CASE(); double inf = std::numeric_limits<double>::infinity(), tmax = r.p(0.5) ? inf : k && t > 0 ? (double)t * r.pick(std::vector<double>{0.5, 0.99, 1.01, 3}) : r.real(0, 20); c.in("horizon", tmax); bool want = k && t <= tmax; double tf = -1, tl = -1; bool got = moving_convex_polygons_intersection(p.g, U, q.g, W, tmax, tf, tl, abs_cmp(1e-10)); count(!k ? "never meet" : !want ? "meet too late" : t == 0 ? "overlap at the start" : "meet"); REQ(got == want, "the polygons are said to " << (got ? "meet" : "miss") << ", first contact at " << (k ? (double)t : -1)); if (want) { REQ(close(tf, (double)t, 1e-6, 1e-5), "the first contact is at " << tf << " instead of " << (double)t); if (last >= 0) REQ(close(tl, (double)last, 1e-6, 1e-5), "the last contact is at " << tl << " instead of " << (double)last); else REQ(sp > 0 || tl == inf, "polygons that keep their positions part at " << tl); } }
