// Shared generators and exact / long-double oracles for planar geometry.
#pragma once
#include "vt.hpp"
#include <geometrix/primitive/point.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/orientation.hpp>

namespace vt {
using P2 = geometrix::point<double, 2>;
using P3 = geometrix::point<double, 3>;
using V2 = geometrix::vector<double, 2>;
using V3 = geometrix::vector<double, 3>;
using S2 = geometrix::segment<P2>;
using S3 = geometrix::segment<P3>;
using PG = geometrix::polygon<P2>;
using PL = geometrix::polyline<P2>;
using direct = geometrix::direct_comparison_policy;
using abs_cmp = geometrix::absolute_tolerance_comparison_policy<double>;
typedef __int128 i128;
typedef long double ld;

template <class T, std::size_t N> void vt_put(Case& c, const geometrix::point<T, N>& p) { if (c.describe) c.d << "("; for (std::size_t i = 0; i < N; ++i) { if (i && c.describe) c.d << ","; vt_put(c, p[i]); } if (c.describe) c.d << ")"; }
template <class T, std::size_t N> void vt_put(Case& c, const geometrix::vector<T, N>& p) { if (c.describe) c.d << "("; for (std::size_t i = 0; i < N; ++i) { if (i && c.describe) c.d << ","; vt_put(c, p[i]); } if (c.describe) c.d << ")"; }
template <class P> void vt_put(Case& c, const geometrix::segment<P>& s) { vt_put(c, s.get_start()); if (c.describe) c.d << "->"; vt_put(c, s.get_end()); }

// ---------- exact integer plane ----------
struct I2 { long x = 0, y = 0;
    friend bool operator==(const I2& a, const I2& b) { return a.x == b.x && a.y == b.y; }
    friend bool operator!=(const I2& a, const I2& b) { return !(a == b); }
    friend bool operator<(const I2& a, const I2& b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }
    friend I2 operator-(const I2& a, const I2& b) { return {a.x - b.x, a.y - b.y}; }
    friend I2 operator+(const I2& a, const I2& b) { return {a.x + b.x, a.y + b.y}; } };
inline void vt_put(Case& c, const I2& p) { c.mixin(p.x); c.mixin(p.y * 3 + 1); if (c.describe) c.d << "(" << p.x << "," << p.y << ")"; }
struct IS { I2 a, b; };
inline void vt_put(Case& c, const IS& s) { vt_put(c, s.a); if (c.describe) c.d << "->"; vt_put(c, s.b); }
using IPoly = std::vector<I2>;
inline std::ostream& operator<<(std::ostream& o, const I2& p) { return o << "(" << p.x << "," << p.y << ")"; }
template <class T, std::size_t N> std::string str(const geometrix::point<T, N>& p) { std::ostringstream o; o << std::setprecision(17) << "("; for (std::size_t i = 0; i < N; ++i) o << (i ? "," : "") << p[i]; o << ")"; return o.str(); }
template <class T, std::size_t N> std::string str(const geometrix::vector<T, N>& p) { std::ostringstream o; o << std::setprecision(17) << "<"; for (std::size_t i = 0; i < N; ++i) o << (i ? "," : "") << p[i]; o << ">"; return o.str(); }
template <class S> std::string strs(const S& ps) { std::ostringstream o; o << "["; for (auto const& p : ps) o << str(p) << " "; o << "]"; return o.str(); }

inline i128 crossi(const I2& a, const I2& b) { return (i128)a.x * b.y - (i128)a.y * b.x; }
inline i128 doti(const I2& a, const I2& b) { return (i128)a.x * b.x + (i128)a.y * b.y; }
inline int sgn(i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline int sgnd(double v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline int orient(const I2& a, const I2& b, const I2& c) { return sgn(crossi(b - a, c - a)); }
inline bool on_seg(const I2& p, const I2& a, const I2& b) { return orient(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y); }
enum SegRel { DISJOINT, CROSS, TOUCH, OVERLAP };   // closed segments; TOUCH: single point, an endpoint of at least one
inline SegRel seg_rel(const I2& a, const I2& b, const I2& c, const I2& d) {
    int o1 = orient(a, b, c), o2 = orient(a, b, d), o3 = orient(c, d, a), o4 = orient(c, d, b);
    if (o1 == 0 && o2 == 0 && o3 == 0 && o4 == 0) {
        I2 l1 = std::min(a, b), h1 = std::max(a, b), l2 = std::min(c, d), h2 = std::max(c, d);
        I2 lo = std::max(l1, l2), hi = std::min(h1, h2);
        if (hi < lo) return DISJOINT; return lo == hi ? TOUCH : OVERLAP;
    }
    if (o1 * o2 < 0 && o3 * o4 < 0) return CROSS;
    if ((o1 == 0 && on_seg(c, a, b)) || (o2 == 0 && on_seg(d, a, b)) || (o3 == 0 && on_seg(a, c, d)) || (o4 == 0 && on_seg(b, c, d))) return TOUCH;
    return DISJOINT;
}
inline bool segs_meet(const I2& a, const I2& b, const I2& c, const I2& d) { return seg_rel(a, b, c, d) != DISJOINT; }
inline i128 area2(const IPoly& p) { i128 s = 0; for (std::size_t i = 0, n = p.size(); i < n; ++i) s += crossi(p[i], p[(i + 1) % n]); return s; }
// 1 inside, 0 on border, -1 outside.  Works on a scaled point q/den.
inline int in_poly(const IPoly& p, i128 qx, i128 qy, i128 den = 1) {
    bool in = false; std::size_t n = p.size();
    for (std::size_t i = 0, j = n - 1; i < n; j = i++) {
        i128 ax = p[j].x * den, ay = p[j].y * den, bx = p[i].x * den, by = p[i].y * den;
        i128 cr = (bx - ax) * (qy - ay) - (by - ay) * (qx - ax);
        if (cr == 0 && std::min(ax, bx) <= qx && qx <= std::max(ax, bx) && std::min(ay, by) <= qy && qy <= std::max(ay, by)) return 0;
        if ((ay > qy) != (by > qy)) { bool left = by > ay ? cr > 0 : cr < 0; if (left) in = !in; }
    }
    return in ? 1 : -1;
}
inline int in_poly(const IPoly& p, const I2& q) { return in_poly(p, q.x, q.y); }
// simple: non-adjacent edges do not meet, adjacent edges share only their vertex
inline bool is_simple(const IPoly& p) {
    std::size_t n = p.size(); if (n < 3) return false;
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = i + 1; j < n; ++j) {
        const I2 &a = p[i], &b = p[(i + 1) % n], &c = p[j], &d = p[(j + 1) % n];
        if (a == b || c == d) return false;
        SegRel r = seg_rel(a, b, c, d); bool adj = j == i + 1 || (i == 0 && j == n - 1);
        if (adj) { if (n == 3) { if (r == OVERLAP || r == CROSS) return false; } else if (r != TOUCH) return false; }
        else if (r != DISJOINT) return false;
    }
    return area2(p) != 0;
}
inline IPoly hull(IPoly v, bool keep_collinear = false) {   // CCW
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    if (v.size() < 3) return v; IPoly h(2 * v.size()); std::size_t k = 0;
    for (std::size_t i = 0; i < v.size(); ++i) { while (k >= 2 && orient(h[k - 2], h[k - 1], v[i]) <= 0) --k; h[k++] = v[i]; }
    for (std::size_t i = v.size() - 1, t = k + 1; i-- > 0;) { while (k >= t && orient(h[k - 2], h[k - 1], v[i]) <= 0) --k; h[k++] = v[i]; }
    h.resize(k - 1); return h;
}
// ---------- integer generators ----------
inline I2 rpt(Rng& r, long m) { return {r.in(-m, m), r.in(-m, m)}; }
inline long rrange(Rng& r) { static const long R[] = {3, 5, 8, 16, 40, 200, 1000, 20000}; return R[r.in(0, 7)]; }
inline long big(Rng& r, long n) { return r.p(0.003) ? std::max(n, (long)r.in(70, 150)) : r.p(0.02) ? std::min(120L, n * r.in(3, 8)) : n; }      // a size limit that is now and then much larger
inline IPoly star_poly(Rng& r, int n, long m) {      // random star-shaped polygon on the grid (CCW), may return empty
    for (int t = 0; t < 60; ++t) {
        IPoly v; std::vector<double> a; for (int i = 0; i < n; ++i) a.push_back(r.real(0, 6.283185307179586)); std::sort(a.begin(), a.end());
        for (double t2 : a) { double q = m * std::sqrt(r.real(0.02, 1)); I2 p{(long)std::lround(q * std::cos(t2)), (long)std::lround(q * std::sin(t2))}; if (v.empty() || v.back() != p) v.push_back(p); }
        while (v.size() > 1 && v.front() == v.back()) v.pop_back();
        if (v.size() >= 3 && is_simple(v)) { if (area2(v) < 0) std::reverse(v.begin(), v.end()); return v; }
    }
    return {};
}
inline IPoly opt_poly(Rng& r, int n, long m) {       // random points untangled by 2-opt moves
    for (int t = 0; t < 10; ++t) {
        std::set<I2> s; int guard = 0; while ((int)s.size() < n && ++guard < 10 * n) s.insert(rpt(r, m));
        IPoly v(s.begin(), s.end()); r.shuffle(v.begin(), v.end()); std::size_t k = v.size(); if (k < 3) continue;
        for (int it = 0; it < 400; ++it) {
            bool any = false;
            for (std::size_t i = 0; i < k && !any; ++i) for (std::size_t j = i + 2; j < k && !any; ++j) {
                if (i == 0 && j == k - 1) continue;
                if (segs_meet(v[i], v[i + 1], v[j], v[(j + 1) % k])) { std::reverse(v.begin() + i + 1, v.begin() + j + 1); any = true; }
            }
            if (!any) break;
        }
        if (is_simple(v)) { if (area2(v) < 0) std::reverse(v.begin(), v.end()); return v; }
    }
    return {};
}
inline IPoly rectilinear_poly(Rng& r, int cols, long h) {     // x-monotone rectilinear polygon (many axis parallel edges)
    IPoly lo, hi; long x = 0; long pl = 0, ph = 0;
    for (int i = 0; i < cols; ++i) {
        long l = r.in(-h, h - 1), u = l + r.in(1, h);
        if (i) { while (std::max(l, pl) >= std::min(u, ph)) { l = r.in(-h, h - 1); u = l + r.in(1, h); } }
        long w = r.in(1, 3); lo.push_back({x, l}); lo.push_back({x + w, l}); hi.push_back({x, u}); hi.push_back({x + w, u}); x += w; pl = l; ph = u;
    }
    IPoly v(lo); for (std::size_t i = hi.size(); i-- > 0;) v.push_back(hi[i]);
    IPoly o; for (auto& p : v) { if (!o.empty() && o.back() == p) continue; o.push_back(p); }
    long cx = x / 2; for (auto& p : o) p.x -= cx;
    if (!is_simple(o)) return {}; return o;
}
inline IPoly comb_poly(Rng& r, int teeth, long h) {
    IPoly v; v.push_back({0, 0}); v.push_back({4 * teeth, 0});
    for (int i = teeth; i-- > 0;) { v.push_back({4 * i + 4 - (i % 2), r.in(h / 2 + 1, h)}); v.push_back({4 * i + 2, r.in(1, h / 2)}); }
    if (v.back() == v.front()) v.pop_back(); if (!is_simple(v)) return {}; return v;
}
inline IPoly spiral_poly(int turns, long w) {
    std::vector<I2> out, in; long s = w; long x = 0, y = 0; out.push_back({0, 0}); in.push_back({0 + 1, 0 + 1}); (void)x; (void)y;
    // outer wall of a rectangular spiral of width w, inner wall offset by 1
    long L = 2 * s * turns + s; I2 p{0, 0}; IPoly path; path.push_back(p); int dx[4] = {1, 0, -1, 0}, dy[4] = {0, 1, 0, -1}; int d = 0; long len = L;
    for (int k = 0; k < 4 * turns && len > s; ++k) { p = {p.x + dx[d] * len, p.y + dy[d] * len}; path.push_back(p); d = (d + 1) % 4; if (k % 2 == 1) len -= s; else if (k == 0) {} }
    IPoly q; for (std::size_t i = 0; i < path.size(); ++i) q.push_back(path[i]);
    // offset inward by 1 at every corner
    IPoly v(q); d = 0;
    for (std::size_t i = path.size(); i-- > 0;) {
        I2 c = path[i]; int di = (int)(i % 4);      // direction leaving vertex i
        int po = (int)((i + 3) % 4);
        long ox = 0, oy = 0; if (i + 1 < path.size()) { ox += -dy[di]; oy += dx[di]; } if (i > 0) { ox += -dy[po]; oy += dx[po]; }
        v.push_back({c.x + ox, c.y + oy});
    }
    if (!is_simple(v)) return {}; return v;
}
inline IPoly convex_poly(Rng& r, int n, long m) {
    for (int t = 0; t < 50; ++t) {
        IPoly v; bool circ = r.p(0.6);
        for (int i = 0; i < n; ++i) { if (circ) { double a = r.real(0, 6.283185307179586); v.push_back({(long)std::lround(m * std::cos(a)), (long)std::lround(m * std::sin(a))}); } else v.push_back(rpt(r, m)); }
        v = hull(v); if (v.size() >= 3 && area2(v) != 0) { std::rotate(v.begin(), v.begin() + r.in(0, (long)v.size() - 1), v.end()); return v; }
    }
    return {{-m, -m}, {m, -m}, {m, m}, {-m, m}};
}
// strictly convex lattice outline with many corners: every edge direction once each way, some edges much longer than others
inline IPoly many_convex(Rng& r, int n) {
    std::vector<I2> d; long m = 2; while ((long)d.size() < n / 2) { d.clear(); for (long x = -m; x <= m; ++x) for (long y = 0; y <= m; ++y) { if ((y == 0 && x <= 0) || (x == 0 && y == 0)) continue; long a = std::labs(x), b = y; while (b) { long t = a % b; a = b; b = t; } if (a == 1) d.push_back({x, y}); } ++m; }
    r.shuffle(d.begin(), d.end()); d.resize(n / 2); for (auto& v : d) if (r.p(0.15)) { long k = r.in(2, 20); v = I2{v.x * k, v.y * k}; } std::sort(d.begin(), d.end(), [](const I2& a, const I2& b) { return crossi(a, b) > 0; });
    IPoly v; I2 p{0, 0}; for (int k = 0; k < 2; ++k) for (auto& e : d) { v.push_back(p); p = k ? I2{p.x - e.x, p.y - e.y} : p + e; } if (r.p(0.4)) { IPoly w; for (auto& q : v) if (r.p(0.9)) w.push_back(q); if (w.size() > 3) v = w; } I2 z = v[v.size() / 2]; for (auto& q : v) q = I2{q.x - z.x / 2, q.y - z.y / 2}; std::rotate(v.begin(), v.begin() + r.in(0, (long)v.size() - 1), v.end()); return v; }
// the same outline with k vertices per edge
template <class G> inline G dense(const G& g, int k, bool closed = true) { G o; std::size_t n = g.size(); for (std::size_t i = 0; i < n; ++i) { o.push_back(g[i]); if (i + 1 == n && !closed) break; auto a = g[i], b = g[(i + 1) % n]; for (int j = 1; j < k; ++j) { double t = (double)j / k; auto q = a; q[0] = a[0] + t * (b[0] - a[0]); q[1] = a[1] + t * (b[1] - a[1]); o.push_back(q); } } return o; }
// general simple polygon, CCW, random start vertex
inline IPoly any_poly(Rng& r, int maxn = 24) {
    for (;;) {
        IPoly v; int k = (int)r.in(0, 9); long m = std::max<long>(rrange(r), 4); int n = (int)r.in(3, maxn);
        if (maxn > 7 && r.p(0.02)) { maxn = std::min(100, maxn * (int)r.in(2, 8)); n = (int)r.in(maxn / 2, maxn); k = r.pick(std::vector<int>{0, 0, 0, 6, 7, 8}); m = std::max(m, 1000L); }      // now and then many vertices
        if (k <= 2) v = star_poly(r, n, std::max<long>(m, n / 2)); else if (k <= 5) v = opt_poly(r, n, std::max<long>(m, n / 2));
        else if (k == 6) v = rectilinear_poly(r, (int)r.in(1, std::max(1, maxn / 5)), r.in(2, 12)); else if (k == 7) v = convex_poly(r, n, m);
        else if (k == 8) v = comb_poly(r, (int)r.in(1, std::max(1, maxn / 2 - 1)), r.in(4, 30)); else { long w = r.in(1, 9), h = r.in(1, 9); v = {{0, 0}, {w, 0}, {w, h}, {0, h}}; }
        if (v.size() < 3) continue;
        if (r.p(0.3)) { I2 o = rpt(r, 500); for (auto& p : v) p = p + o; }
        if (area2(v) < 0) std::reverse(v.begin(), v.end());
        std::rotate(v.begin(), v.begin() + r.in(0, (long)v.size() - 1), v.end());
        return v;
    }
}
inline IPoly insert_collinear(Rng& r, const IPoly& v, double prob = 0.4) {  // scale by 4 and insert on-edge points
    IPoly o; std::size_t n = v.size();
    for (std::size_t i = 0; i < n; ++i) { I2 a{v[i].x * 4, v[i].y * 4}, d = v[(i + 1) % n] - v[i]; o.push_back(a); for (int k = 1; k < 4; ++k) if (r.p(prob / 3)) o.push_back({a.x + k * d.x, a.y + k * d.y}); }
    return o;
}
// grid-friendly conversions: multiply by a power of two so that double arithmetic stays exact
inline double rscale(Rng& r) { static const double S[] = {1, 1, 1, 0.5, 0.25, 2, 8, 0.0625, 1024}; return S[r.in(0, 8)]; }
inline P2 tp(const I2& p, double s = 1) { return P2(p.x * s, p.y * s); }
inline PG tpg(const IPoly& v, double s = 1) { PG g; for (auto& p : v) g.push_back(tp(p, s)); return g; }
inline PL tpl(const IPoly& v, double s = 1) { PL g; for (auto& p : v) g.push_back(tp(p, s)); return g; }
inline S2 ts(const I2& a, const I2& b, double s = 1) { return S2(tp(a, s), tp(b, s)); }

// ---------- long double plane ----------
struct L2 { ld x, y; };
inline L2 operator-(L2 a, L2 b) { return {a.x - b.x, a.y - b.y}; }
inline L2 operator+(L2 a, L2 b) { return {a.x + b.x, a.y + b.y}; }
inline L2 operator*(ld k, L2 a) { return {k * a.x, k * a.y}; }
inline ld dot(L2 a, L2 b) { return a.x * b.x + a.y * b.y; }
inline ld cross(L2 a, L2 b) { return a.x * b.y - a.y * b.x; }
inline ld norm(L2 a) { return std::sqrt(dot(a, a)); }
inline L2 lp(const P2& p) { return {p[0], p[1]}; }
inline ld dist_ps(L2 p, L2 a, L2 b, ld* t = nullptr) { L2 d = b - a; ld q = dot(d, d); ld u = q > 0 ? dot(p - a, d) / q : 0; if (u < 0) u = 0; if (u > 1) u = 1; if (t) *t = u; return norm(p - (a + u * d)); }
inline ld dist_ss(L2 a, L2 b, L2 c, L2 d) {
    ld o1 = cross(b - a, c - a), o2 = cross(b - a, d - a), o3 = cross(d - c, a - c), o4 = cross(d - c, b - c);
    if (((o1 > 0 && o2 < 0) || (o1 < 0 && o2 > 0)) && ((o3 > 0 && o4 < 0) || (o3 < 0 && o4 > 0))) return 0;
    return std::min(std::min(dist_ps(a, c, d), dist_ps(b, c, d)), std::min(dist_ps(c, a, b), dist_ps(d, a, b)));
}
inline ld dist(const P2& a, const P2& b) { return norm(lp(a) - lp(b)); }
struct L3 { ld x, y, z; };
inline L3 operator-(L3 a, L3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline L3 operator+(L3 a, L3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline L3 operator*(ld k, L3 a) { return {k * a.x, k * a.y, k * a.z}; }
inline ld dot(L3 a, L3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline L3 crs(L3 a, L3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline ld norm(L3 a) { return std::sqrt(dot(a, a)); }
inline L3 lp(const P3& p) { return {p[0], p[1], p[2]}; }
inline ld dist_ps(L3 p, L3 a, L3 b, ld* t = nullptr) { L3 d = b - a; ld q = dot(d, d); ld u = q > 0 ? dot(p - a, d) / q : 0; if (u < 0) u = 0; if (u > 1) u = 1; if (t) *t = u; return norm(p - (a + u * d)); }
inline ld dist_ss(L3 a, L3 b, L3 c, L3 d) {
    ld best = std::min(std::min(dist_ps(a, c, d), dist_ps(b, c, d)), std::min(dist_ps(c, a, b), dist_ps(d, a, b)));
    L3 u = b - a, v = d - c, w = a - c; ld A = dot(u, u), B = dot(u, v), C = dot(v, v), D = dot(u, w), E = dot(v, w), den = A * C - B * B;
    if (den > 1e-12L * A * C) { ld s = (B * E - C * D) / den, t = (A * E - B * D) / den; if (s >= 0 && s <= 1 && t >= 0 && t <= 1) best = std::min(best, norm(w + s * u - t * v)); }
    return best;
}
} // namespace vt
