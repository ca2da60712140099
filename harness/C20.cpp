#include "conv.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/grid_2d.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
using namespace vt;
using namespace geometrix;
typedef grid_traits<double> GT;
// w: cell width, bounds [x0,x1]x[y0,y1]; eps: slack for rounding (zero when every product is exact)
static void check_traits(Case& c, const GT& g, double x0, double x1, double y0, double y1, double w, double eps) {
    Rng& r = c.rng; REQ(g.get_min_x() == x0 && g.get_max_x() == x1 && g.get_min_y() == y0 && g.get_max_y() == y1 && g.get_cell_size() == w, "bounds or cell size not kept"); P2 og = g.get_origin(); REQ(og[0] == x0 && og[1] == y0, "origin is " << str(og));
    ld nx = std::floor(((ld)x1 - x0) / w), ny = std::floor(((ld)y1 - y0) / w); REQ(std::fabs(g.get_width() - (nx + 1)) <= (eps > 0) && std::fabs(g.get_height() - (ny + 1)) <= (eps > 0), "grid is " << g.get_width() << "x" << g.get_height() << " cells for " << (double)nx + 1 << "x" << (double)ny + 1); REQ(x0 + (ld)g.get_width() * w >= x1 - eps && y0 + (ld)g.get_height() * w >= y1 - eps, "cells do not cover the bounds");
    for (int k = 0; k < 30; ++k) {
        auto coord = [&](double lo, double hi) { int z = (int)r.in(0, 7); if (z == 0) return lo; if (z == 1) return hi; if (z == 2) return std::min(hi, lo + w * (double)r.in(0, (long)((hi - lo) / w))); if (z == 3) return std::nextafter(hi, lo); if (z == 4) return std::min(hi, std::max(lo, std::nextafter(lo + w * (double)r.in(0, (long)((hi - lo) / w)), r.p(0.5) ? 1e300 : -1e300))); return std::min(hi, std::max(lo, r.real(lo, hi))); }; double x = coord(x0, x1), y = coord(y0, y1);
        REQ(g.is_contained(P2(x, y)), "point (" << x << "," << y << ") on or in the bounds is called outside"); unsigned i = g.get_x_index(x), j = g.get_y_index(y); REQ(i < g.get_width() && j < g.get_height(), "point (" << x << "," << y << ") maps to cell " << i << "," << j << " of " << g.get_width() << "x" << g.get_height());
        ld e = eps + 4e-16L * (std::fabs(x) + std::fabs(y) + std::fabs(x0) + std::fabs(y0) + std::fabs(x1) + std::fabs(y1)); REQ(x0 + (ld)i * w <= x + e && x <= x0 + (ld)(i + 1) * w + e && y0 + (ld)j * w <= y + e && y <= y0 + (ld)(j + 1) * w + e, "point (" << x << "," << y << ") is not in the bounds of its cell " << i << "," << j);
        double gx = g.get_scaled_grid_coordinate_x(x), gy = g.get_scaled_grid_coordinate_y(y); REQ(close(gx, (double)(((ld)x - x0) / w), 1e-12, 1e-9) && close(gy, (double)(((ld)y - y0) / w), 1e-12, 1e-9), "scaled coordinates " << gx << "," << gy); count(x == x1 || y == y1 ? "upper border point" : x == x0 || y == y0 ? "lower border point" : "inner point"); }
    for (int k = 0; k < 8; ++k) { unsigned i = (unsigned)r.in(0, g.get_width() - 1), j = (unsigned)r.in(0, g.get_height() - 1); if (r.p(0.2)) i = g.get_width() - 1, j = g.get_height() - 1; if (r.p(0.2)) i = j = 0; ld a = x0 + (ld)i * w, b = a + w, u = y0 + (ld)j * w, v = u + w; ld e = eps + 4e-15L * (std::fabs(x0) + std::fabs(x1) + std::fabs(y0) + std::fabs(y1) + w);
        auto at = [&](P2 p, ld x, ld y, const char* what) { REQ(std::fabs(p[0] - x) <= e && std::fabs(p[1] - y) <= e, what << " of cell " << i << "," << j << " is " << str(p) << " should be (" << (double)x << "," << (double)y << ")"); };
        at(g.get_cell_centroid(i, j), (a + b) / 2, (u + v) / 2, "centroid"); at(g.get_cell_corner0(i, j), a, u, "corner 0"); at(g.get_cell_corner1(i, j), b, u, "corner 1"); at(g.get_cell_corner2(i, j), b, v, "corner 2"); at(g.get_cell_corner3(i, j), a, v, "corner 3"); auto bx = g.get_cell_aabb(i, j); at(bx.get_lower_bound(), a, u, "lower bound"); at(bx.get_upper_bound(), b, v, "upper bound"); auto pg = g.get_cell_polygon(i, j); REQ(pg.size() == 4, "cell polygon has " << pg.size() << " corners"); at(pg[0], a, u, "polygon corner 0"); at(pg[1], b, u, "polygon corner 1"); at(pg[2], b, v, "polygon corner 2"); at(pg[3], a, v, "polygon corner 3");
        P2 m = g.get_cell_centroid(i, j); if (g.is_contained(m)) REQ(g.get_x_index(m[0]) == i && g.get_y_index(m[1]) == j, "centroid of cell " << i << "," << j << " maps to cell " << g.get_x_index(m[0]) << "," << g.get_y_index(m[1])); }
    for (int k = 0; k < 6; ++k) { double d = r.p(0.5) ? w * 0.25 : (std::fabs(x0) + std::fabs(y0) + std::fabs(x1) + std::fabs(y1)) * 1e-9; int s = (int)r.in(0, 3); P2 p(r.real(x0, x1), r.real(y0, y1)); if (s == 0) p[0] = x0 - d; else if (s == 1) p[0] = x1 + d; else if (s == 2) p[1] = y0 - d; else p[1] = y1 + d; REQ(!g.is_contained(p), "point " << str(p) << " beyond the bounds is called inside"); }
}
// mostly small grids; now and then up to 2^30 cells along one axis
static long extent(Rng& r) { return r.p(0.15) ? r.in(1, 1l << r.in(6, 30)) : r.in(1, 60); }
GROUP(exact, 12000, 400000) {
    Rng& r = c.rng; double s = rscale(r), w = r.in(1, 2) == 1 ? s : s * r.pick(std::vector<double>{2, 4, 0.5, 8}); double x0 = r.in(-40, 40) * s / 2, y0 = r.in(-40, 40) * s / 2, x1 = x0 + extent(r) * s / 2, y1 = y0 + extent(r) * s / 2; c.in("x0", x0); c.in("x1", x1); c.in("y0", y0); c.in("y1", y1); c.in("w", w); if (r.p(0.5)) { GT g(x0, x1, y0, y1, w); check_traits(c, g, x0, x1, y0, y1, w, 0); } else { GT g(std::make_tuple(x0, x1, y0, y1), w); check_traits(c, g, x0, x1, y0, y1, w, 0); } }
GROUP(rounded, 12000, 400000) {
    Rng& r = c.rng; double w = r.pick(std::vector<double>{0.1, 0.3, 1. / 3, 0.7, 1e-3, 12.7, 1e3}) * (r.p(0.3) ? r.real(0.5, 2) : 1); double x0 = r.p(0.3) ? 0 : r.real(-50, 50) * w, y0 = r.p(0.3) ? 0 : r.real(-50, 50) * w, x1 = x0 + (r.p(0.5) ? extent(r) : r.real(0.2, 60)) * w, y1 = y0 + (r.p(0.5) ? extent(r) : r.real(0.2, 60)) * w; c.in("x0", x0); c.in("x1", x1); c.in("y0", y0); c.in("y1", y1); c.in("w", w); double eps = 1e-11 * w + 4e-15 * (std::fabs(x0) + std::fabs(y0) + std::fabs(x1) + std::fabs(y1)); if (r.p(0.5)) { GT g(x0, x1, y0, y1, w); check_traits(c, g, x0, x1, y0, y1, w, eps); } else { GT g(std::make_tuple(x0, x1, y0, y1), w); check_traits(c, g, x0, x1, y0, y1, w, eps); } }
struct Cell { long v = 0; std::string s; };
struct Setup { GT g; double x0, y0, w; int nx, ny; };
static Setup setup(Case& c) { Rng& r = c.rng; double w = r.pick(std::vector<double>{1, 2, 0.5}); double x0 = r.in(-9, 9), y0 = r.in(-9, 9); int nx = (int)r.in(1, r.p(0.3) ? 40 : 6), ny = (int)r.in(1, r.p(0.3) ? 40 : 6); double x1 = x0 + nx * w - (r.p(0.5) ? w / 2 : 0), y1 = y0 + ny * w - (r.p(0.5) ? w / 2 : 0); c.in("x0", x0); c.in("y0", y0); c.in("x1", x1); c.in("y1", y1); c.in("w", w); GT g(x0, x1, y0, y1, w); return {g, x0, y0, w, (int)g.get_width(), (int)g.get_height()}; }
static P2 in_cell(Rng& r, const Setup& s, int i, int j) { double x1 = std::min(s.g.get_max_x(), s.x0 + (i + 1) * s.w), y1 = std::min(s.g.get_max_y(), s.y0 + (j + 1) * s.w), xa = s.x0 + i * s.w, ya = s.y0 + j * s.w; auto f = [&](double a, double b, bool last) { double t = r.pick(std::vector<double>{0, 0.25, 0.5, 0.75}); if (last && r.p(0.3)) return b; return a + t * (b - a); }; double x = f(xa, x1, i == s.nx - 1), y = f(ya, y1, j == s.ny - 1); if (x >= xa + s.w) x = xa; if (y >= ya + s.w) y = ya; return P2(x, y); }
GROUP(dense, 4000, 100000) {
    Setup s = setup(c); Rng& r = c.rng; grid_2d<Cell, GT> g(s.g); REQ(g.get_traits().get_width() == (unsigned)s.nx && g.get_traits().get_cell_size() == s.w, "grid lost its traits"); std::map<std::pair<int, int>, long> m; int n = (int)r.in(5, big(r, 60)); c.in("ops", n);
    for (int k = 0; k < n; ++k) { int i = (int)r.in(0, s.nx - 1), j = (int)r.in(0, s.ny - 1); if (r.p(0.4) && !m.empty()) { auto it = m.begin(); std::advance(it, r.in(0, (long)m.size() - 1)); i = it->first.first; j = it->first.second; } long want = m.count({i, j}) ? m[{i, j}] : 0; P2 p = in_cell(r, s, i, j); REQ(g.is_contained(p), "point " << str(p) << " of cell " << i << "," << j << " not contained"); const auto& cg = g; const Cell& a = cg.get_cell((unsigned)i, (unsigned)j); const Cell& b = cg.get_cell(p); REQ(a.v == want && &a == &b, "cell " << i << "," << j << " holds " << a.v << " wrote " << want << (&a == &b ? "" : ", reached a different cell through point ") << str(p)); if (r.p(0.6)) { long v = r.in(1, 1000000); Cell& d = r.p(0.5) ? g.get_cell((unsigned)i, (unsigned)j) : g.get_cell(p); REQ(&d == &a, "mutable access reaches another cell"); d.v = v; d.s = std::to_string(v); m[{i, j}] = v; count("dense write"); } else count("dense read"); }
    if (r.p(0.3)) { grid_2d<Cell, GT> h(g); long nv = m.size(); (void)nv; if (!m.empty()) { auto k = m.begin()->first; g.get_cell((unsigned)k.first, (unsigned)k.second).v = -5; REQ(h.get_cell((unsigned)k.first, (unsigned)k.second).v == m.begin()->second, "a copied grid shares cells with its source"); g.get_cell((unsigned)k.first, (unsigned)k.second).v = m.begin()->second; } }
    for (int i = 0; i < s.nx; ++i) for (int j = 0; j < s.ny; ++j) { long want = m.count({i, j}) ? m[{i, j}] : 0; const Cell& x = g.get_cell((unsigned)i, (unsigned)j); REQ(x.v == want && x.s == (want ? std::to_string(want) : ""), "cell " << i << "," << j << " ends up with " << x.v << " instead of " << want); } }
GROUP(hashed, 8000, 200000) {
    Setup s = setup(c); Rng& r = c.rng; typedef hash_grid_2d<Cell, GT> H; std::unique_ptr<H> g(new H(s.g)); std::map<std::pair<int, int>, long> m; int n = (int)r.in(5, big(r, 120)); c.in("ops", n);
    for (int k = 0; k < n; ++k) { int i = (int)r.in(0, s.nx - 1), j = (int)r.in(0, s.ny - 1); if (r.p(0.4) && !m.empty()) { auto it = m.begin(); std::advance(it, r.in(0, (long)m.size() - 1)); i = it->first.first; j = it->first.second; if (r.p(0.2) && j < s.nx && i < s.ny) std::swap(i, j); } bool has = m.count({i, j}) > 0; P2 p = in_cell(r, s, i, j); const H& cg = *g; int op = (int)r.in(0, 9);
        const Cell* a = cg.find_cell((unsigned)i, (unsigned)j); const Cell* b = cg.find_cell(p); Cell* d = g->find_cell((unsigned)i, (unsigned)j); Cell* e = g->find_cell(p); bool same = (a != nullptr) == has && a == b && a == d && a == e; REQ(same, "cell " << i << "," << j << (has ? " was written but is not found" : " was never written or was erased but is found") << " (lookups " << (a != 0) << (b != 0) << (d != 0) << (e != 0) << ")"); if (has) { long mv = m[{i, j}]; REQ(a->v == mv, "cell " << i << "," << j << " holds " << a->v << " instead of " << mv); }
        if (op <= 4) { Cell& x = r.p(0.5) ? g->get_cell((unsigned)i, (unsigned)j) : g->get_cell(p); if (!has) REQ(x.v == 0 && x.s.empty(), "a fresh cell holds " << x.v); else REQ(&x == a, "access to an existing cell made another"); long v = r.in(1, 1000000); x.v = v; x.s = std::to_string(v); m[{i, j}] = v; count(has ? "hash overwrite" : "hash insert"); }
        else if (op <= 7) { g->erase((unsigned)i, (unsigned)j); m.erase({i, j}); count(has ? "hash erase" : "hash erase of nothing"); } else if (op == 8 && r.p(0.1)) { g->clear(); m.clear(); count("hash clear"); } else if (op == 9 && r.p(0.3)) { std::unique_ptr<H> h(new H(std::move(*g))); if (r.p(0.5)) { H z(s.g); z.get_cell(0u, 0u).v = 7; z = std::move(*h); h.reset(new H(std::move(z))); } g = std::move(h); count("hash move"); } }
    for (int i = 0; i < s.nx; ++i) for (int j = 0; j < s.ny; ++j) { auto it = m.find({i, j}); const Cell* x = g->find_cell((unsigned)i, (unsigned)j); REQ((x != nullptr) == (it != m.end()) && (!x || (x->v == it->second && x->s == std::to_string(it->second))), "cell " << i << "," << j << " ends up " << (x ? "present" : "absent")); } }

// a few cells of a grid with up to billions of cells: indices that share their low bits, mirrored indices, the far corner
GROUP(sparse, 6000, 150000) {
    Rng& r = c.rng; typedef hash_grid_2d<long, GT> H; double w = r.pick(std::vector<double>{1, 2, 0.5}), x0 = r.in(-9, 9), y0 = r.in(-9, 9); long nx = r.in(1, 1l << r.in(4, 32)), ny = r.in(1, 1l << r.in(4, 32)); nx = std::min(nx, 4294967290l); ny = std::min(ny, 4294967290l); double x1 = x0 + nx * w - w / 2, y1 = y0 + ny * w - w / 2; c.in("x0", x0); c.in("y0", y0); c.in("nx", nx); c.in("ny", ny); c.in("w", w); GT t(x0, x1, y0, y1, w); REQ(t.get_width() == nx && t.get_height() == ny, "grid is " << t.get_width() << "x" << t.get_height() << " cells");
    H g(t); std::map<std::pair<long, long>, long> m; int n = (int)r.in(5, 60); c.in("ops", n); auto at = [&](long i, long j) { return P2(std::min(x1, x0 + (i + r.pick(std::vector<double>{0, 0.25, 0.5})) * w), std::min(y1, y0 + (j + r.pick(std::vector<double>{0, 0.25, 0.5})) * w)); };
    for (int k = 0; k < n; ++k) { long i = r.in(0, nx - 1), j = r.in(0, ny - 1); if (r.p(0.1)) i = nx - 1; if (r.p(0.1)) j = ny - 1; if (r.p(0.6) && !m.empty()) { auto it = m.begin(); std::advance(it, r.in(0, (long)m.size() - 1)); i = it->first.first; j = it->first.second; int z = (int)r.in(0, 3); if (z == 1) i ^= 1l << r.in(0, 31); else if (z == 2) j ^= 1l << r.in(0, 31); else if (z == 3) std::swap(i, j); i = std::min(std::max(0l, i), nx - 1); j = std::min(std::max(0l, j), ny - 1); }
        bool has = m.count({i, j}) > 0; P2 p = at(i, j); c.in("cell", I2{i, j}); REQ(g.is_contained(p) && (long)t.get_x_index(p[0]) == i && (long)t.get_y_index(p[1]) == j, "point " << str(p) << " of cell " << i << "," << j << " maps to " << t.get_x_index(p[0]) << "," << t.get_y_index(p[1])); P2 q = t.get_cell_corner0((unsigned)i, (unsigned)j); REQ(q[0] == x0 + i * w && q[1] == y0 + j * w, "corner of cell " << i << "," << j << " is " << str(q));
        long* a = g.find_cell((unsigned)i, (unsigned)j); REQ((a != nullptr) == has && a == g.find_cell(p) && (!has || *a == (m[{i, j}])), "cell " << i << "," << j << (has ? " lost its value" : " was never written but is found")); if (r.p(0.75)) { long v = r.in(1, 1000000); (r.p(0.5) ? g.get_cell((unsigned)i, (unsigned)j) : g.get_cell(p)) = v; m[{i, j}] = v; } else { g.erase((unsigned)i, (unsigned)j); m.erase({i, j}); } count("sparse grid step"); }
    for (auto& e : m) { long* a = g.find_cell((unsigned)e.first.first, (unsigned)e.first.second); REQ(a && *a == e.second, "cell " << e.first.first << "," << e.first.second << " ends up " << (a ? "changed" : "absent")); } }
