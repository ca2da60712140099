// Exact segment / cell incidence on integer grids.
#pragma once
#include "conv.hpp"
namespace vt {
struct Frac { i128 n, d; };                                  // d > 0
inline bool lt(Frac a, Frac b) { return a.n * b.d < b.n * a.d; }
// does the closed segment a->b meet the box [x0,x1]x[y0,y1]?  open: only its interior counts
inline bool seg_box(I2 a, I2 b, long x0, long x1, long y0, long y1, bool open) {
    Frac lo{0, 1}, hi{1, 1}; bool lo_open = false, hi_open = false; if (open && (x0 >= x1 || y0 >= y1)) return false;
    for (int k = 0; k < 2; ++k) { long p = k ? a.y : a.x, d = (k ? b.y : b.x) - p, l = k ? y0 : x0, h = k ? y1 : x1;
        if (d == 0) { if (open ? (p <= l || p >= h) : (p < l || p > h)) return false; continue; }
        Frac f{l - p, d}, g{h - p, d}; if (d < 0) { f = {-(i128)(h - p), -(i128)d}; g = {-(i128)(l - p), -(i128)d}; }
        if (lt(lo, f) || (!lt(f, lo) && open)) { lo = f; lo_open = open; } if (lt(g, hi) || (!lt(hi, g) && open)) { hi = g; hi_open = open; } }
    if (lt(hi, lo)) return false; if (!lt(lo, hi)) return !(lo_open || hi_open); return true;
}
typedef std::vector<std::pair<std::uint32_t, std::uint32_t>> Cells;
inline std::string cellstr(const Cells& v) { std::ostringstream o; for (std::size_t i = 0; i < v.size() && i < 40; ++i) o << "(" << v[i].first << "," << v[i].second << ")"; return o.str(); }
}
