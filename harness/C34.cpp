#include "geo.hpp"
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
using namespace vt;
using namespace geometrix;
// Exact clipping of an integer segment against an integer box (Liang-Barsky on rationals), the oracle for the library's outcode walk.
struct F { i128 n, d; bool operator<(const F& o) const { return n * o.d < o.n * d; } };
static bool clip(const I2& a, const I2& b, long xl, long xh, long yl, long yh, F& t0, F& t1) { t0 = F{0, 1}; t1 = F{1, 1}; i128 dx = b.x - a.x, dy = b.y - a.y; i128 p[4] = {-dx, dx, -dy, dy}, q[4] = {a.x - xl, xh - a.x, a.y - yl, yh - a.y}; for (int i = 0; i < 4; ++i) { if (p[i] == 0) { if (q[i] < 0) return false; continue; } if (p[i] < 0) { F t{-q[i], -p[i]}; if (t0 < t) t0 = t; } else { F t{q[i], p[i]}; if (t < t1) t1 = t; } } return !(t1 < t0); }
static int code(const I2& a, long xl, long xh, long yl, long yh) { return (a.x < xl ? 0 : a.x > xh ? 2 : 1) * 3 + (a.y < yl ? 0 : a.y > yh ? 2 : 1); }
template <typename C> static void run(Case& c, const I2& a, const I2& b, long xl, long xh, long yl, long yh, double k, const C& cmp, bool exactpolicy) {
    F t0, t1; bool want = clip(a, b, xl, xh, yl, yh, t0, t1); bool point = want && !(t0 < t1); double x0 = a.x * k, y0 = a.y * k, x1 = b.x * k, y1 = b.y * k; bool got = cohen_sutherland_line_clip(x0, y0, x1, y1, xl * k, xh * k, yl * k, yh * k, cmp); ld L = std::max<ld>(1, std::max(std::labs(a.x) + std::labs(b.x), std::labs(a.y) + std::labs(b.y))) * k, tol = 1e-9L * L; if (point && !(a == b) && exactpolicy && got != want) return; // a corner graze in floating point
    REQ(got == want, "the segment is " << (got ? "accepted" : "rejected")); if (!want) return; auto at = [&](F t) { return L2{((ld)a.x + (ld)t.n / (ld)t.d * (ld)(b.x - a.x)) * k, ((ld)a.y + (ld)t.n / (ld)t.d * (ld)(b.y - a.y)) * k}; }; L2 s = at(t0), e = at(t1); REQ(std::fabs((double)(x0 - s.x)) <= tol && std::fabs((double)(y0 - s.y)) <= tol, "the start is " << x0 << ' ' << y0 << " instead of " << (double)s.x << ' ' << (double)s.y); REQ(std::fabs((double)(x1 - e.x)) <= tol && std::fabs((double)(y1 - e.y)) <= tol, "the end is " << x1 << ' ' << y1 << " instead of " << (double)e.x << ' ' << (double)e.y); double lo = 1e-9 * (double)L; REQ(x0 >= xl * k - lo && x0 <= xh * k + lo && y0 >= yl * k - lo && y0 <= yh * k + lo && x1 >= xl * k - lo && x1 <= xh * k + lo && y1 >= yl * k - lo && y1 <= yh * k + lo, "a clipped end lies outside of the box"); if (!(t0.n > 0)) REQ(x0 == a.x * k && y0 == a.y * k, "an end inside of the box is moved"); if (!(t1.n < t1.d)) REQ(x1 == b.x * k && y1 == b.y * k, "an end inside of the box is moved"); count(point ? "single point" : (t0.n > 0 && t1.n < t1.d) ? "both ends cut" : (t0.n > 0 || t1.n < t1.d) ? "one end cut" : "inside"); }
GROUP(clip, 120000, 6000000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{3, 6, 20, 1000, 100000}); long xl = r.in(-m, m), xh = xl + r.in(r.p(0.1) ? 0 : 1, m), yl = r.in(-m, m), yh = yl + r.in(r.p(0.1) ? 0 : 1, m); auto pick = [&](long lo, long hi) { switch (r.in(0, 9)) { case 0: return lo; case 1: return hi; case 2: return lo - r.in(1, m); case 3: return hi + r.in(1, m); case 4: return r.in(lo, hi); default: return r.in(lo - m, hi + m); } }; I2 a{pick(xl, xh), pick(yl, yh)}, b{pick(xl, xh), pick(yl, yh)}; if (r.p(0.1)) b.x = a.x; if (r.p(0.1)) b.y = a.y; if (r.p(0.1)) { long s = r.in(1, 3); I2 cn{r.p(0.5) ? xl : xh, r.p(0.5) ? yl : yh}; b = I2{cn.x + (cn.x - a.x) * s, cn.y + (cn.y - a.y) * s}; } c.in("from", a); c.in("to", b); c.in("box", std::vector<long>{xl, xh, yl, yh}); double k = r.pick(std::vector<double>{1, 0.5, 0.125, 4, 1.0 / 3}); c.in("scale", k); static std::set<std::pair<int, int>> seen; if (seen.insert({code(a, xl, xh, yl, yh), code(b, xl, xh, yl, yh)}).second) count("outcode pairs (per shard)"); if (a == b) count("zero length"); run(c, a, b, xl, xh, yl, yh, k, direct(), true); run(c, a, b, xl, xh, yl, yh, k, abs_cmp(1e-9 * k), m > 1000 || k == 1.0 / 3); }
