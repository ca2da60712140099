// Long double convex-geometry oracles shared by several monitors.
#pragma once
#include "geo.hpp"
namespace vt {
typedef std::vector<L2> CP;
inline ld area2l(const CP& p) { ld s = 0; for (std::size_t i = 0, n = p.size(); i < n; ++i) s += cross(p[i], p[(i + 1) % n]); return s; }
// > 0: gap along the best edge normal (disjoint), < 0: penetration
inline ld sep_gap(const CP& a, const CP& b) {
    ld best = -std::numeric_limits<ld>::infinity();
    for (int k = 0; k < 2; ++k) { const CP &p = k ? b : a, &q = k ? a : b; std::size_t n = p.size();
        for (std::size_t i = 0; i < n; ++i) { L2 e = p[(i + 1) % n] - p[i]; ld l = norm(e); if (l == 0) continue; L2 m{e.y / l, -e.x / l};
            for (int s = -1; s <= 1; s += 2) { ld hi = -1e300L, lo = 1e300L; for (auto& x : p) hi = std::max(hi, s * dot(m, x)); for (auto& x : q) lo = std::min(lo, s * dot(m, x)); best = std::max(best, lo - hi); } } }
    return best;
}
inline bool convex_in(const CP& p, L2 q) { ld s = area2l(p) < 0 ? -1 : 1; for (std::size_t i = 0, n = p.size(); i < n; ++i) if (s * cross(p[(i + 1) % n] - p[i], q - p[i]) < 0) return false; return true; }
inline ld border_dist(const CP& p, L2 q, L2* at = nullptr) { ld b = 1e300L; for (std::size_t i = 0, n = p.size(); i < n; ++i) { ld t; ld d = dist_ps(q, p[i], p[(i + 1) % n], &t); if (d < b) { b = d; if (at) *at = p[i] + t * (p[(i + 1) % n] - p[i]); } } return b; }
inline ld solid_dist(const CP& p, L2 q) { return convex_in(p, q) ? 0 : border_dist(p, q); }
inline ld border_dist(const CP& p, L2 a, L2 b) { ld m = 1e300L; for (std::size_t i = 0, n = p.size(); i < n; ++i) m = std::min(m, dist_ss(a, b, p[i], p[(i + 1) % n])); return m; }
}
