#include "conv.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_triangle_intersection.hpp>
#include <geometrix/algorithm/eberly_triangle_aabb_intersection.hpp>
using namespace vt;
using namespace geometrix;
static bool tri(Rng& r, long m, I2 t[3]) { for (int g = 0; g < 50; ++g) { for (int i = 0; i < 3; ++i) t[i] = rpt(r, m); if (r.p(0.2)) { long q = t[0].y; t[1].y = q; } if (orient(t[0], t[1], t[2]) != 0) { if (orient(t[0], t[1], t[2]) < 0) std::swap(t[1], t[2]); return true; } } return false; }
GROUP(segments, 100000, 4000000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{3, 5, 9, 30, 200}); I2 t[3]; if (!tri(r, m, t)) SKIP_CASE(); I2 o = r.p(0.3) ? rpt(r, 1000) : I2{0, 0}; double s = rscale(r); I2 a = rpt(r, m), b = rpt(r, m);
    if (r.p(0.2)) { int k = (int)r.in(0, 2); I2 d = t[(k + 1) % 3] - t[k]; long f = r.in(-1, 2), g = r.in(-1, 2); a = t[k] + I2{f * d.x, f * d.y}; b = t[k] + I2{g * d.x, g * d.y}; } else if (r.p(0.3)) a = t[r.in(0, 2)]; else if (r.p(0.2)) { I2 v = t[r.in(0, 2)]; b = I2{2 * v.x - a.x, 2 * v.y - a.y}; }
    if (a == b) SKIP_CASE(); for (auto& p : t) p = p + o; a = a + o; b = b + o; c.in("t0", t[0]); c.in("t1", t[1]); c.in("t2", t[2]); c.in("a", a); c.in("b", b); c.in("scale", s);
    // exact clip of a + u (b-a) against the three half planes
    bool hit = true; i128 ln = 0, ld_ = 1, hn = 1, hd = 1; for (int i = 0; i < 3 && hit; ++i) { I2 e = t[(i + 1) % 3] - t[i]; i128 fa = crossi(e, a - t[i]), fb = crossi(e, b - t[i]); if (fa < 0 && fb < 0) hit = false; else if (fa < 0) { if (fa * -1 * ld_ > ln * (fb - fa)) ln = -fa, ld_ = fb - fa; } else if (fb < 0) { if (fa * hd < hn * (fa - fb)) hn = fa, hd = fa - fb; } } if (hit && ln * hd > hn * ld_) hit = false;
    ld u0 = (ld)ln / ld_, u1 = (ld)hn / hd; bool single = hit && ln * hd == hn * ld_; count(!hit ? "apart" : single ? "touches in one point" : u0 == 0 && u1 == 1 ? "segment inside" : u0 == 0 || u1 == 1 ? "one end inside" : "passes through");
    P2 A = tp(a, s), B = tp(b, s), T[3] = {tp(t[0], s), tp(t[1], s), tp(t[2], s)}; L2 la = lp(A), lb = lp(B);
    for (int rot = 0; rot < 3; ++rot) for (int fl = 0; fl < 2; ++fl) { const P2 &x = fl ? B : A, &y = fl ? A : B, &p = T[rot], &q = T[(rot + 1) % 3], &w = T[(rot + 2) % 3];
        REQ(segment_triangle_intersect(x, y, p, q, w) == hit && segment_triangle_intersect(x, y, p, w, q) == hit && segment_triangle_intersect(S2(x, y), w, q, p) == hit, "segment against triangle is " << !hit);
        P2 X[2]; abs_cmp cmp(1e-9 * s); std::size_t n = segment_triangle_intersect(x, y, p, q, w, X, cmp); REQ(n == (hit ? single ? 1u : 2u : 0u), n << " points reported, expected " << (hit ? single ? 1 : 2 : 0)); if (hit) { L2 e0 = la + u0 * (lb - la), e1 = la + u1 * (lb - la); double tol = 1e-7 * s * (1 + m); if (single) REQ(norm(lp(X[0]) - e0) < tol, "touching point is " << str(X[0])); else { bool ok = (norm(lp(X[0]) - e0) < tol && norm(lp(X[1]) - e1) < tol) || (norm(lp(X[0]) - e1) < tol && norm(lp(X[1]) - e0) < tol); REQ(ok, "common part is " << str(X[0]) << str(X[1]) << " but should be (" << (double)e0.x << "," << (double)e0.y << ")-(" << (double)e1.x << "," << (double)e1.y << ")"); } } }
}
GROUP(boxes, 100000, 4000000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{3, 5, 9, 30, 200}); I2 t[3]; if (!tri(r, m, t)) SKIP_CASE(); double s = rscale(r); I2 lo = rpt(r, m), hi = rpt(r, m); if (lo.x > hi.x) std::swap(lo.x, hi.x); if (lo.y > hi.y) std::swap(lo.y, hi.y); if (r.p(0.2)) { hi = lo + I2{r.in(0, 2), r.in(0, 2)}; } I2 o = r.p(0.3) ? rpt(r, 1000) : I2{0, 0}; if (r.p(0.2)) { I2 v = t[r.in(0, 2)]; I2 w = hi - lo; lo = v + I2{r.in(-1, 1), r.in(-1, 1)}; hi = lo + w; }
    for (auto& p : t) p = p + o; lo = lo + o; hi = hi + o; c.in("t0", t[0]); c.in("t1", t[1]); c.in("t2", t[2]); c.in("low", lo); c.in("high", hi); c.in("scale", s);
    IPoly T(t, t + 3); I2 k[4] = {lo, {hi.x, lo.y}, hi, {lo.x, hi.y}}; bool hit = false; for (auto& p : k) hit = hit || in_poly(T, p) >= 0; for (auto& p : T) hit = hit || (lo.x <= p.x && p.x <= hi.x && lo.y <= p.y && p.y <= hi.y); for (int i = 0; i < 3 && !hit; ++i) for (int j = 0; j < 4; ++j) hit = hit || segs_meet(T[i], T[(i + 1) % 3], k[j], k[(j + 1) % 4]); count(hit ? "meet" : "apart");
    axis_aligned_bounding_box<P2> b(tp(lo, s), tp(hi, s)); int p[3] = {0, 1, 2}; do REQ(eberly_triangle_aabb_intersection_2d(tp(t[p[0]], s), tp(t[p[1]], s), tp(t[p[2]], s), b, abs_cmp(1e-9 * s)) == hit, "triangle against box is " << !hit); while (std::next_permutation(p, p + 3));
}
