// Triangulations of known shape for the mesh checks (exact integer coordinates).
#pragma once
#include "geo.hpp"
#include <array>
namespace vt {
struct TM { std::vector<I2> pts; std::vector<std::array<int, 3>> tris; };   // triangles CCW, sharing vertices by index
inline void vt_put(Case& c, const TM& m) { vt_put(c, m.pts); for (auto& t : m.tris) { c.mixin(t[0]); c.mixin(t[1]); c.mixin(t[2]); if (c.describe) c.d << " <" << t[0] << "," << t[1] << "," << t[2] << ">"; } }
inline bool in_tri(const I2& a, const I2& b, const I2& p, const I2& q) { return orient(a, b, q) >= 0 && orient(b, p, q) >= 0 && orient(p, a, q) >= 0; }
inline TM ear_mesh(Rng& r, const IPoly& v) {     // random ear clipping of a simple polygon (CCW)
    TM m; m.pts = v; std::vector<int> id; for (int i = 0; i < (int)v.size(); ++i) id.push_back(i);
    while (id.size() > 3) { int n = (int)id.size(), o = (int)r.in(0, n - 1); bool done = false;
        for (int k = 0; k < n && !done; ++k) { int i = (o + k) % n; int a = id[(i + n - 1) % n], b = id[i], d = id[(i + 1) % n]; if (orient(v[a], v[b], v[d]) <= 0) continue; bool ok = true; for (int x : id) if (x != a && x != b && x != d && in_tri(v[a], v[b], v[d], v[x])) { ok = false; break; } if (!ok) continue; m.tris.push_back({a, b, d}); id.erase(id.begin() + i); done = true; }
        if (!done) return TM(); }
    if (orient(v[id[0]], v[id[1]], v[id[2]]) <= 0) return TM(); m.tris.push_back({id[0], id[1], id[2]}); return m; }
inline TM grid_mesh(Rng& r, int w, int h, long step, long jit, double drop, double dropc) {
    TM m; auto at = [&](int i, int j) { return j * (w + 1) + i; }; for (int j = 0; j <= h; ++j) for (int i = 0; i <= w; ++i) m.pts.push_back({i * step + r.in(-jit, jit), j * step + r.in(-jit, jit)});
    for (int j = 0; j < h; ++j) for (int i = 0; i < w; ++i) { if (r.p(dropc)) continue; int a = at(i, j), b = at(i + 1, j), d = at(i + 1, j + 1), e = at(i, j + 1); auto& P = m.pts; bool f = r.p(0.5); for (int q = 0; q < 2; ++q, f = !f) { std::array<int, 3> t1, t2; if (f) { t1 = {a, b, d}; t2 = {a, d, e}; } else { t1 = {a, b, e}; t2 = {b, d, e}; } if (orient(P[t1[0]], P[t1[1]], P[t1[2]]) > 0 && orient(P[t2[0]], P[t2[1]], P[t2[2]]) > 0) { if (!r.p(drop)) m.tris.push_back(t1); if (!r.p(drop)) m.tris.push_back(t2); break; } } }
    std::vector<int> mp(m.pts.size(), -1); std::vector<I2> np; for (auto& t : m.tris) for (int& x : t) { if (mp[x] < 0) { mp[x] = (int)np.size(); np.push_back(m.pts[x]); } x = mp[x]; } m.pts = np; return m; }
inline TM fan_mesh(Rng& r, int n, long m) { // an interior hub with a star-shaped rim
    IPoly p = star_poly(r, n, m); TM t; if (p.size() < 3) return t; for (auto& q : p) if (q == I2{0, 0}) return t; t.pts = p; int h = (int)t.pts.size(); t.pts.push_back({0, 0}); for (int i = 0; i < h; ++i) { int j = (i + 1) % h; if (orient(t.pts[h], p[i], p[j]) <= 0) return TM(); t.tris.push_back({h, i, j}); } return t; }
inline TM any_mesh(Rng& r, long unit) { TM m; for (int g = 0; g < 60 && m.tris.empty(); ++g) switch (r.in(0, 4)) { case 0: m = grid_mesh(r, (int)r.in(1, r.p(0.04) ? 16 : 6), (int)r.in(1, r.p(0.04) ? 16 : 6), 5 * unit, 2 * unit > 1 ? r.in(0, 2 * unit - 1) : 0, r.p(0.5) ? 0 : 0.25, r.p(0.5) ? 0 : 0.2); break; case 1: m = grid_mesh(r, (int)r.in(2, r.p(0.04) ? 40 : 8), (int)r.in(1, 3), 4 * unit, r.in(0, unit), 0.1, 0); break; case 2: m = fan_mesh(r, (int)r.in(3, big(r, 12)), (r.p(0.95) ? 12 : 60) * unit); break; default: { IPoly p; switch (r.in(0, 4)) { case 0: p = star_poly(r, (int)r.in(3, big(r, 14)), (r.p(0.95) ? 14 : 80) * unit); break; case 1: p = opt_poly(r, (int)r.in(4, 14), 12 * unit); break; case 2: p = rectilinear_poly(r, (int)r.in(2, 6), 9 * unit); break; case 3: p = comb_poly(r, (int)r.in(2, big(r, 5)), 9 * unit); break; default: p = convex_poly(r, (int)r.in(3, big(r, 12)), 14 * unit); } if (p.size() < 3 || !is_simple(p)) break; if (area2(p) < 0) std::reverse(p.begin(), p.end()); m = ear_mesh(r, p); } } return m; }
}
