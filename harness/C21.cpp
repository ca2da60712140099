#include "grid.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
#include <geometrix/algorithm/orientation_grid_traversal.hpp>
using namespace vt;
using namespace geometrix;
typedef grid_traits<double> GT;
struct Runaway {};
static Cells run(int algo, const GT& g, const S2& s, const abs_cmp& cmp, std::size_t limit) {
    Cells v; auto put = [&](std::uint32_t i, std::uint32_t j) { v.emplace_back(i, j); if (v.size() > limit) throw Fail{"traversal does not end: " + cellstr(v)}; };
    if (algo == 0) fast_voxel_grid_traversal(g, s, put, cmp); else if (algo == 1) stoppable_fast_voxel_grid_traversal(g, s, [&](std::uint32_t i, std::uint32_t j) { put(i, j); return true; }, cmp); else orientation_segment_traversal(g, s, put, cmp); return v; }
static const char* ALGO[] = {"voxel", "stoppable voxel", "orientation"};
// the chain condition: consecutive cells share an edge; the orientation guided walk may step diagonally, through a corner on the segment
static void chain(const Cells& v, int algo, int nx, int ny, const char* w, std::function<bool(long, long)> corner_on) {
    std::set<std::pair<std::uint32_t, std::uint32_t>> seen; for (std::size_t k = 0; k < v.size(); ++k) { REQ(v[k].first < (unsigned)nx && v[k].second < (unsigned)ny, w << " walk visits cell (" << v[k].first << "," << v[k].second << ") outside the " << nx << "x" << ny << " grid"); REQ(seen.insert(v[k]).second, w << " walk visits a cell twice: " << cellstr(v));
        if (k) { long di = (long)v[k].first - v[k - 1].first, dj = (long)v[k].second - v[k - 1].second; bool edge = std::labs(di) + std::labs(dj) == 1, diag = std::labs(di) == 1 && std::labs(dj) == 1; REQ(edge || (algo == 2 && diag && corner_on(std::max(v[k].first, v[k - 1].first), std::max(v[k].second, v[k - 1].second))), w << " walk jumps from cell (" << v[k - 1].first << "," << v[k - 1].second << ") to (" << v[k].first << "," << v[k].second << ")"); } } }
// exact: every coordinate is a multiple of cell/W, all arithmetic on cells is exact
GROUP(exact, 60000, 2000000) {
    Rng& r = c.rng; long W = r.pick(std::vector<long>{1, 2, 8, 8, 32}); int cx = (int)r.in(1, r.p(0.3) ? 25 : 6), cy = (int)r.in(1, r.p(0.3) ? 25 : 6); long X0 = r.in(-10, 10) * W / (W > 1 ? 2 : 1), Y0 = r.in(-10, 10) * W, X1 = X0 + cx * W - (W > 1 && r.p(0.5) ? W / 2 : 0), Y1 = Y0 + cy * W - (W > 1 && r.p(0.5) ? W / 2 : 0); double s = r.pick(std::vector<double>{1, 0.5, 0.125, 4}); GT g(X0 * s, X1 * s, Y0 * s, Y1 * s, W * s); int nx = g.get_width(), ny = g.get_height();
    bool out = r.p(0.25); auto pt = [&] { long mx = out ? W * 3 : 0; I2 p{r.in(X0 - mx, X1 + mx), r.in(Y0 - mx, Y1 + mx)}; if (r.p(0.4)) p.x = X0 + (p.x - X0) / W * W; if (r.p(0.4)) p.y = Y0 + (p.y - Y0) / W * W; return p; }; I2 a = pt(), b = pt(); if (r.p(0.12)) b.x = a.x; else if (r.p(0.12)) b.y = a.y; else if (r.p(0.15)) { long k = r.in(-6, 6) * (r.p(0.5) ? W : 1); b = {a.x + k, a.y + (r.p(0.5) ? k : -k)}; if (!out && (b.x < X0 || b.x > X1 || b.y < Y0 || b.y > Y1)) b = a; } c.in("x0", X0); c.in("y0", Y0); c.in("x1", X1); c.in("y1", Y1); c.in("W", W); c.in("s", s); c.in("a", a); c.in("b", b);
    bool inside = std::min(a.x, b.x) >= X0 && std::max(a.x, b.x) <= X1 && std::min(a.y, b.y) >= Y0 && std::max(a.y, b.y) <= Y1, meets = seg_box(a, b, X0, X1, Y0, Y1, false); count(inside ? "inside grid" : meets ? "crosses grid border" : "misses grid"); if (a.x == b.x || a.y == b.y) count("axis parallel");
    auto cell = [&](I2 p) { return std::make_pair((std::uint32_t)((p.x - X0) / W), (std::uint32_t)((p.y - Y0) / W)); }; abs_cmp cmp(1e-10); auto corner_on = [&](long i, long j) { I2 q{X0 + i * W, Y0 + j * W}; return on_seg(q, a, b); };
    for (int algo = 0; algo < 3; ++algo) { Cells v = run(algo, g, ts(a, b, s), cmp, 4 * (nx + ny) + 20); chain(v, algo, nx, ny, ALGO[algo], corner_on);
        if (!meets) { REQ(v.empty(), ALGO[algo] << " walk of a segment that misses the grid visits " << cellstr(v)); continue; }
        bool rev = algo == 2 && !(a < b); if (inside) { auto st = cell(rev ? b : a), en = cell(rev ? a : b); REQ(!v.empty() && v.front() == st, ALGO[algo] << " walk does not start in the cell of its start point: " << cellstr(v)); REQ(v.back() == en, ALGO[algo] << " walk does not end in the cell (" << en.first << "," << en.second << ") of its end point: " << cellstr(v)); }
        std::set<std::pair<std::uint32_t, std::uint32_t>> seen(v.begin(), v.end()); for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) { long xa = X0 + i * W, ya = Y0 + j * W; bool got = seen.count({(unsigned)i, (unsigned)j}) > 0; if (got) REQ(seg_box(a, b, xa, xa + W, ya, ya + W, false), ALGO[algo] << " walk visits cell (" << i << "," << j << ") the segment does not touch: " << cellstr(v)); else REQ(!seg_box(a, b, xa, std::min(xa + W, X1), ya, std::min(ya + W, Y1), true), ALGO[algo] << " walk skips cell (" << i << "," << j << ") the segment passes through: " << cellstr(v)); } }
    if (meets) { Cells full = run(1, g, ts(a, b, s), cmp, 1000); std::size_t stop = (std::size_t)r.in(1, std::max<long>(1, full.size())); Cells v; stoppable_fast_voxel_grid_traversal(g, ts(a, b, s), [&](std::uint32_t i, std::uint32_t j) { v.emplace_back(i, j); return v.size() < stop; }, cmp); REQ(v.size() == std::min(stop, full.size()) && std::equal(v.begin(), v.end(), full.begin()), "a walk stopped after " << stop << " cells visits " << v.size()); }
}
// arbitrary cell sizes: cells entered by more than a hair must be visited, visited cells must be within a hair of the segment
GROUP(rounded, 60000, 2000000) {
    Rng& r = c.rng; double w = r.pick(std::vector<double>{0.1, 0.3, 1. / 3, 0.7, 12.7}) * (r.p(0.3) ? r.real(0.5, 2) : 1); double x0 = r.p(0.4) ? 0 : r.real(-30, 30) * w, y0 = r.p(0.4) ? 0 : r.real(-30, 30) * w; int cx = (int)r.in(1, r.p(0.3) ? 40 : 8), cy = (int)r.in(1, r.p(0.3) ? 40 : 8); double x1 = x0 + (cx + (r.p(0.5) ? 0.5 : 0.999)) * w, y1 = y0 + (cy + (r.p(0.5) ? 0.5 : 0.001)) * w; GT g(x0, x1, y0, y1, w); int nx = g.get_width(), ny = g.get_height(); bool out = r.p(0.2);
    auto co = [&](double lo, double hi) { double m = out ? 2 * w : 0; double v = r.real(lo - m, hi + m); if (r.p(0.35)) v = lo + w * (double)r.in(0, (long)((hi - lo) / w)); else if (r.p(0.3)) v = lo + w * (r.in(0, (long)((hi - lo) / w)) + 0.5); if (r.p(0.1)) v = std::nextafter(v, r.p(0.5) ? 1e300 : -1e300); return out ? v : std::min(hi, std::max(lo, v)); }; P2 a(co(x0, x1), co(y0, y1)), b(co(x0, x1), co(y0, y1)); if (r.p(0.1)) b[0] = a[0]; else if (r.p(0.1)) b[1] = a[1]; else if (r.p(0.1)) { b = P2(a[0] + r.pick(std::vector<double>{1e-11, -1e-11, 1e-13, -3e-12}) * w, b[1]); if (!out) b[0] = std::min(x1, std::max(x0, b[0])); if (r.p(0.5)) { std::swap(a[0], a[1]); std::swap(b[0], b[1]); if (!out) for (auto p : {&a, &b}) { (*p)[0] = std::min(x1, std::max(x0, (*p)[0])); (*p)[1] = std::min(y1, std::max(y0, (*p)[1])); } } }
    c.in("x0", x0); c.in("y0", y0); c.in("x1", x1); c.in("y1", y1); c.in("w", w); c.in("a", a); c.in("b", b); abs_cmp cmp(1e-10); ld h = 1e-8L * w; L2 A = lp(a), B = lp(b); auto pass = [&](ld xa, ld xb, ld ya, ld yb) { ld lo = 0, hi = 1; for (int k = 0; k < 2; ++k) { ld p = k ? A.y : A.x, d = (k ? B.y : B.x) - p, l = k ? ya : xa, u = k ? yb : xb; if (d == 0) { if (p < l || p > u) return false; continue; } ld f = (l - p) / d, e = (u - p) / d; if (f > e) std::swap(f, e); lo = std::max(lo, f); hi = std::min(hi, e); } return lo <= hi; };
    bool inside = g.is_contained(a) && g.is_contained(b); auto corner_on = [&](long i, long j) { return dist_ps(L2{x0 + (ld)i * w, y0 + (ld)j * w}, A, B) < h; }; count(inside ? "inside grid (rounded)" : "outside or crossing (rounded)");
    for (int algo = 0; algo < 3; ++algo) { Cells v = run(algo, g, S2(a, b), cmp, 4 * (nx + ny) + 20); chain(v, algo, nx, ny, ALGO[algo], corner_on); if (inside) { auto st = std::make_pair(g.get_x_index(a[0]), g.get_y_index(a[1])), en = std::make_pair(g.get_x_index(b[0]), g.get_y_index(b[1])); REQ(!v.empty(), "no cell visited"); bool fwd = v.front() == st && v.back() == en, bwd = v.front() == en && v.back() == st; REQ(fwd || (algo == 2 && bwd), ALGO[algo] << " walk does not join the cells of its end points (" << st.first << "," << st.second << ")-(" << en.first << "," << en.second << "): " << cellstr(v)); }
        std::set<std::pair<std::uint32_t, std::uint32_t>> seen(v.begin(), v.end()); for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) { ld xa = x0 + (ld)i * w, ya = y0 + (ld)j * w; bool got = seen.count({(unsigned)i, (unsigned)j}) > 0; if (got) REQ(pass(xa - h, xa + w + h, ya - h, ya + w + h), ALGO[algo] << " walk visits cell (" << i << "," << j << ") away from the segment: " << cellstr(v)); else { ld xb = std::min<ld>(xa + w, x1) - h, yb = std::min<ld>(ya + w, y1) - h; REQ(xb <= xa + h || yb <= ya + h || !pass(xa + h, xb, ya + h, yb), ALGO[algo] << " walk skips cell (" << i << "," << j << ") the segment passes through: " << cellstr(v)); } } }
}

// grids of up to a million cells along each axis: short walks anywhere, and walks of thousands of cells
GROUP(wide, 3000, 100000) {
    Rng& r = c.rng; long W = r.pick(std::vector<long>{1, 2, 8}); bool far = r.p(0.02); long cx = r.in(1, far ? 2500 : 1l << r.in(3, 20)), cy = r.in(1, far ? 2500 : 1l << r.in(3, 20)); if (far && r.p(0.4)) (r.p(0.5) ? cx : cy) = r.in(1, 4); long X0 = r.in(-10, 10) * W, Y0 = r.in(-10, 10) * W, X1 = X0 + cx * W, Y1 = Y0 + cy * W; double s = r.pick(std::vector<double>{1, 0.5, 4}); GT g(X0 * s, X1 * s, Y0 * s, Y1 * s, W * s); long nx = g.get_width(), ny = g.get_height(); REQ(nx == cx + 1 && ny == cy + 1, "grid is " << nx << "x" << ny << " cells");
    I2 a{r.in(X0, X1), r.in(Y0, Y1)}, b = a; if (far) { a = {r.in(X0, X0 + W), r.in(Y0, Y0 + W)}; b = {r.in(X1 - W, X1), r.in(Y1 - W, Y1)}; if (r.p(0.5)) std::swap(a.y, b.y); if (r.p(0.5)) std::swap(a, b); } else { long k = r.in(1, 30) * W; b = {std::min(X1, std::max(X0, a.x + r.in(-k, k))), std::min(Y1, std::max(Y0, a.y + r.in(-k, k)))}; } c.in("W", W); c.in("cx", cx); c.in("cy", cy); c.in("x0", X0); c.in("y0", Y0); c.in("s", s); c.in("a", a); c.in("b", b); count(far ? "walk of thousands of cells" : "short walk in a wide grid");
    auto cell = [&](I2 p) { return std::make_pair((std::uint32_t)((p.x - X0) / W), (std::uint32_t)((p.y - Y0) / W)); }; auto corner_on = [&](long i, long j) { return on_seg(I2{X0 + i * W, Y0 + j * W}, a, b); }; auto touch = [&](long i, long j, bool open) { long xa = X0 + i * W, ya = Y0 + j * W; return open ? seg_box(a, b, xa, std::min(xa + W, X1), ya, std::min(ya + W, Y1), true) : seg_box(a, b, xa, xa + W, ya, ya + W, false); };
    for (int algo = 0; algo < 3; ++algo) { Cells v = run(algo, g, ts(a, b, s), abs_cmp(1e-10), far ? 12000 : 300); chain(v, algo, (int)nx, (int)ny, ALGO[algo], corner_on); bool rev = algo == 2 && !(a < b); REQ(!v.empty() && v.front() == cell(rev ? b : a) && v.back() == cell(rev ? a : b), ALGO[algo] << " walk does not join the cells of its end points: " << cellstr(v)); std::set<std::pair<std::uint32_t, std::uint32_t>> seen(v.begin(), v.end());
        for (auto& q : v) { long i = q.first, j = q.second; REQ(touch(i, j, false), ALGO[algo] << " walk visits cell (" << i << "," << j << ") the segment does not touch"); for (int d = 0; d < 4; ++d) { long x = i + (d == 0) - (d == 1), y = j + (d == 2) - (d == 3); if (x < 0 || y < 0 || x >= nx || y >= ny || seen.count({(unsigned)x, (unsigned)y})) continue; REQ(!touch(x, y, true), ALGO[algo] << " walk skips cell (" << x << "," << y << ") the segment passes through"); } } }
}
