#include "geo.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/segment_intersection.hpp>
using namespace vt;
using namespace geometrix;
static const char* kind(int k) { return k == e_non_crossing ? "none" : k == e_crossing ? "crossing" : k == e_overlapping ? "overlap" : k == e_endpoint ? "endpoint" : "?"; }
static ld off(const P2& x, const I2& a, const I2& b, double s) { return dist_ps(lp(x), L2{(ld)a.x * s, (ld)a.y * s}, L2{(ld)b.x * s, (ld)b.y * s}); }
static bool same(const P2& a, const P2& b, double tol) { return dist(a, b) <= tol; }
template <class Cmp> static void check2(const I2& a, const I2& b, const I2& p, const I2& q, double s, long m, const Cmp& cmp) {
    SegRel w = seg_rel(a, b, p, q); double tol = 1e-10 * s * m; P2 A = tp(a, s), B = tp(b, s), C = tp(p, s), D = tp(q, s); bool par = crossi(b - a, q - p) == 0;
    P2 cs{0, 0}, ce{0, 0}; if (w == OVERLAP || (w == TOUCH && par)) { cs = tp(std::max(std::min(a, b), std::min(p, q)), s); ce = tp(std::min(std::max(a, b), std::max(p, q)), s); }
    // eight argument orders, two call forms and the null-output form must agree with exact geometry
    for (int k = 0; k < 8; ++k) {
        P2 u = k & 1 ? B : A, v = k & 1 ? A : B, x = k & 2 ? D : C, y = k & 2 ? C : D; if (k & 4) { std::swap(u, x); std::swap(v, y); }
        P2 X[2] = {P2(9e99, 9e99), P2(9e99, 9e99)}, Y[2] = {P2(9e99, 9e99), P2(9e99, 9e99)}; auto g = segment_segment_intersection(u, v, x, y, X, cmp); auto g2 = segment_segment_intersection(S2(u, v), S2(x, y), Y, cmp); auto g3 = segment_segment_intersection(u, v, x, y, (P2*)nullptr, cmp);
        REQ(g == g2 && g == g3, "call forms disagree: " << kind(g) << " " << kind(g2) << " " << kind(g3)); REQ(X[0][0] == Y[0][0] && X[0][1] == Y[0][1] && X[1][0] == Y[1][0] && X[1][1] == Y[1][1], "call forms report different points");
        if (w == DISJOINT) REQ(g == e_non_crossing, "disjoint segments reported as " << kind(g) << " (order " << k << ")");
        else if (w == CROSS) { REQ(g == e_crossing, "crossing segments reported as " << kind(g) << " (order " << k << ")"); REQ(off(X[0], a, b, s) <= tol && off(X[0], p, q, s) <= tol, "crossing point " << str(X[0]) << " is not on both segments"); }
        else if (w == OVERLAP) { REQ(g == e_overlapping, "overlapping segments reported as " << kind(g) << " (order " << k << ")"); REQ((same(X[0], cs, tol) && same(X[1], ce, tol)) || (same(X[0], ce, tol) && same(X[1], cs, tol)), "common stretch reported as " << str(X[0]) << str(X[1]) << " want " << str(cs) << str(ce)); }
        else if (par) { REQ(g == e_endpoint || g == e_overlapping, "collinear segments that share one end point reported as " << kind(g)); REQ(same(X[0], cs, tol) && (g == e_endpoint || same(X[1], cs, tol)), "shared end point reported as " << str(X[0])); }
        else { REQ(g == e_endpoint, "end point contact reported as " << kind(g) << " (order " << k << ")"); REQ(off(X[0], a, b, s) <= tol && off(X[0], p, q, s) <= tol, "contact point " << str(X[0]) << " is not on both segments"); }
    }
    count(w == DISJOINT ? "disjoint" : w == CROSS ? "crossing" : w == OVERLAP ? "overlap" : par ? "collinear contact" : "end point contact");
}
static void gen(Rng& r, long m, I2& a, I2& b, I2& p, I2& q) {
    do a = rpt(r, m), b = r.p(0.2) ? I2{r.in(-m, m), a.y} : r.p(0.25) ? I2{a.x, r.in(-m, m)} : rpt(r, m); while (a == b);
    do { p = rpt(r, m); q = rpt(r, m); I2 d = b - a; switch (r.in(0, 7)) {
        case 0: p = a; break; case 1: q = b; break; case 2: { long g = std::__gcd(std::labs(d.x), std::labs(d.y)); I2 u{d.x / g, d.y / g}; long k = r.in(-g, 2 * g), l = r.in(-g, 2 * g); p = {a.x + k * u.x, a.y + k * u.y}; q = {a.x + l * u.x, a.y + l * u.y}; break; }
        case 3: { long g = std::__gcd(std::labs(d.x), std::labs(d.y)); I2 u{d.x / g, d.y / g}; long k = r.in(0, g); p = {a.x + k * u.x, a.y + k * u.y}; break; }
        case 4: { long k = r.in(-2, 2); q = {p.x + k * d.x, p.y + k * d.y}; break; } default: break; } if (r.p(0.3)) std::swap(p, q); } while (p == q);
}
GROUP(grid_direct, 60000, 4000000) { Rng& r = c.rng; long m = rrange(r); double s = rscale(r); I2 a, b, p, q; gen(r, m, a, b, p, q); c.in("ab", IS{a, b}); c.in("cd", IS{p, q}); c.in("scale", s); check2(a, b, p, q, s, m, direct()); }
GROUP(grid_tolerance, 60000, 4000000) { Rng& r = c.rng; long m = std::min(rrange(r), 1000L); double s = rscale(r); I2 a, b, p, q; gen(r, m, a, b, p, q); c.in("ab", IS{a, b}); c.in("cd", IS{p, q}); c.in("scale", s); check2(a, b, p, q, s, m, abs_cmp(1e-10)); }
GROUP(grid_exhaustive, 6561, 43046721) {   // all segment pairs on a 3x3 (quick) / 9x9-decoded (thorough) grid
    std::uint64_t i = c.index; long w = c.thorough ? 9 : 3; I2 v[4]; for (auto& p : v) { p.x = i % w; i /= w; p.y = i % w; i /= w; } if (v[0] == v[1] || v[2] == v[3]) { c.trivial(); return; }
    c.in("ab", IS{v[0], v[1]}); c.in("cd", IS{v[2], v[3]}); check2(v[0], v[1], v[2], v[3], 1, w, direct()); check2(v[0], v[1], v[2], v[3], 1, w, abs_cmp(1e-10));
}
GROUP(real_2d, 80000, 4000000) {   // rounded coordinates; judged only when clear of ties
    Rng& r = c.rng; double m = r.pick(std::vector<double>{1, 1, 10, 1000}); P2 v[4]; for (auto& p : v) p = P2(r.real(-m, m), r.real(-m, m)); double off0 = r.p(0.3) ? r.real(-100, 100) * m : 0; for (auto& p : v) p = P2(p[0] + off0, p[1] - off0); for (auto& p : v) c.in("p", p);
    auto O = [&](int i, int j, int k) { return cross(lp(v[j]) - lp(v[i]), lp(v[k]) - lp(v[i])) / (norm(lp(v[j]) - lp(v[i]))); }; ld o1 = O(0, 1, 2), o2 = O(0, 1, 3), o3 = O(2, 3, 0), o4 = O(2, 3, 1), tol = 1e-3L * m; for (ld o : {o1, o2, o3, o4}) if (std::fabs(o) < tol) { c.trivial(); return; } if (norm(lp(v[0]) - lp(v[1])) < 0.05 * m || norm(lp(v[2]) - lp(v[3])) < 0.05 * m) { c.trivial(); return; }
    ld sn = std::fabs(cross(lp(v[1]) - lp(v[0]), lp(v[3]) - lp(v[2]))) / m / m; if (sn < 1e-4) { c.trivial(); return; }
    bool x = o1 * o2 < 0 && o3 * o4 < 0; P2 X[2]; auto g = segment_segment_intersection(v[0], v[1], v[2], v[3], X, direct()); REQ(g == (x ? e_crossing : e_non_crossing), "got " << kind(g) << " want " << (x ? "crossing" : "none")); auto h = segment_segment_intersection(v[3], v[2], v[1], v[0], X, abs_cmp(1e-10)); REQ(h == g, "answer depends on the argument order");
    if (x) { ld e = 1e-9L * (m + std::fabs(off0)) / sn; REQ(dist_ps(lp(X[0]), lp(v[0]), lp(v[1])) <= e && dist_ps(lp(X[0]), lp(v[2]), lp(v[3])) <= e, "point " << str(X[0]) << " not on both"); } count(x ? "crossing (real)" : "disjoint (real)");
}
GROUP(near_end_2d, 60000, 4000000) {   // meeting points within a few tolerances of an end: any answer the tolerance allows, but always one of the kinds and a point on both
    Rng& r = c.rng; double m = r.pick(std::vector<double>{1, 10, 1000, 1e5, 1e6}); double ox = r.p(0.5) ? 0 : r.real(-m, m), oy = r.p(0.5) ? 0 : r.real(-m, m), th = r.real(0, 7), ph = th + r.real(0.3, 2.8), L = m * r.real(0.2, 1), K = m * r.real(0.2, 1);
    auto slip = [&] { double e = r.p(0.3) ? 0 : std::pow(10., r.real(-17, -6)); return r.p(0.5) ? e : -e; }; double s = r.p(0.5) ? slip() : r.p(0.5) ? 1 + slip() : r.real(-0.2, 1.2), t = r.p(0.6) ? slip() : r.p(0.5) ? 1 + slip() : r.real(-0.2, 1.2);
    L2 X{(ld)ox, (ld)oy}, d{std::cos(th), std::sin(th)}, e{std::cos(ph), std::sin(ph)}; L2 a = X - (ld)(s * L) * d, b = a + (ld)L * d, p = X - (ld)(t * K) * e, q = p + (ld)K * e; P2 v[4] = {P2(a.x, a.y), P2(b.x, b.y), P2(p.x, p.y), P2(q.x, q.y)}; for (auto& z : v) c.in("p", z); c.in("s", s); c.in("t", t);
    ld gap = 0; { ld g1 = dist_ss(lp(v[0]), lp(v[1]), lp(v[2]), lp(v[3])); gap = g1; } double tol = 1e-10; P2 Y[2] = {P2(7e9, 7e9), P2(7e9, 7e9)}; bool dr = r.p(0.3); auto g = dr ? segment_segment_intersection(v[0], v[1], v[2], v[3], Y, direct()) : segment_segment_intersection(v[0], v[1], v[2], v[3], Y, abs_cmp(tol));
    REQ(g == e_non_crossing || g == e_crossing || g == e_endpoint, "answer " << kind(g) << " for two segments at an angle that meet in one point or none"); ld fuzz = 1e-9L * (m + std::fabs(ox) + std::fabs(oy)) + 1e-12L; ld am = std::min(std::min(s, 1 - s) * (ld)L, std::min(t, 1 - t) * (ld)K), sn = std::fabs(std::sin(th - ph));
    if (gap > fuzz / sn) REQ(g == e_non_crossing, "answer " << kind(g) << " for segments " << (double)gap << " apart"); if (am > fuzz / sn) REQ(g == e_crossing, "answer " << kind(g) << " for segments that cross " << (double)am << " from the nearest end");
    if (g != e_non_crossing) { REQ(dist_ps(lp(Y[0]), lp(v[0]), lp(v[1])) <= fuzz / sn && dist_ps(lp(Y[0]), lp(v[2]), lp(v[3])) <= fuzz / sn, "point " << str(Y[0]) << " is not on both segments"); } else REQ(dr || gap > 0 || am < fuzz / sn, "segments that meet are reported apart"); count(g == e_endpoint ? "near end: endpoint" : g == e_crossing ? "near end: crossing" : "near end: none");
}
struct J3 { long x, y, z; bool operator==(const J3& o) const { return x == o.x && y == o.y && z == o.z; } };
static void vt_put(Case& c, const J3& p) { vt_put(c, p.x); vt_put(c, ","); vt_put(c, p.y); vt_put(c, ","); vt_put(c, p.z); }
static J3 cr(const J3& a, const J3& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static J3 sub(const J3& a, const J3& b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
static long dt(const J3& a, const J3& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static bool on3(const J3& p, const J3& a, const J3& b) { J3 k = cr(sub(b, a), sub(p, a)); return k == J3{0, 0, 0} && dt(sub(p, a), sub(b, a)) >= 0 && dt(sub(p, b), sub(a, b)) >= 0; }
GROUP(grid_3d, 120000, 5000000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{1, 2, 3, 6, 30}); auto R = [&] { return J3{r.in(-m, m), r.in(-m, m), r.in(-m, m)}; }; J3 a, b, p, q; do a = R(), b = R(); while (a == b);
    do { p = R(); q = R(); J3 d = sub(b, a); long g = std::__gcd(std::__gcd(std::labs(d.x), std::labs(d.y)), std::labs(d.z)); J3 u{d.x / g, d.y / g, d.z / g}; auto on = [&](long k) { return J3{a.x + k * u.x, a.y + k * u.y, a.z + k * u.z}; };
        switch (r.in(0, 6)) { case 0: p = a; break; case 1: p = on(r.in(-g, 2 * g)); q = on(r.in(-g, 2 * g)); break; case 2: { long k = r.in(-1, 2); q = {p.x + k * d.x, p.y + k * d.y, p.z + k * d.z}; break; } case 3: { J3 x = on(r.in(0, g)), w = R(); long k = r.in(0, 2), l = r.in(0, 2); p = {x.x + k * w.x, x.y + k * w.y, x.z + k * w.z}; q = {x.x - l * w.x, x.y - l * w.y, x.z - l * w.z}; break; } case 4: if (a.x != b.x || a.y != b.y) b.z = p.z = q.z = a.z; break; default: break; } } while (p == q || a == b);
    double s = rscale(r); c.in("a", a); c.in("b", b); c.in("c", p); c.in("d", q); c.in("scale", s); auto P = [&](const J3& x) { return P3(x.x * s, x.y * s, x.z * s); }; double tol = 1e-10 * s * m * 10;
    J3 d1 = sub(b, a), d2 = sub(q, p), n = cr(d1, d2); bool par = n == J3{0, 0, 0}; int w = 0; ld lo = 0, hi = 0; // 0 none 1 cross 2 contact 3 overlap
    if (par) { if (cr(d1, sub(p, a)) == J3{0, 0, 0}) { ld L = dt(d1, d1), t0 = dt(d1, sub(p, a)) / L, t1 = dt(d1, sub(q, a)) / L; if (t0 > t1) std::swap(t0, t1); lo = std::max<ld>(0, t0); hi = std::min<ld>(1, t1); w = lo > hi ? 0 : lo == hi ? 2 : 3; } }
    else if (dt(sub(p, a), n) == 0) { if (on3(a, p, q) || on3(b, p, q) || on3(p, a, b) || on3(q, a, b)) w = 2; else { auto sd = [&](const J3& u, const J3& v, const J3& x) { long k = dt(cr(sub(v, u), sub(x, u)), n); return k > 0 ? 1 : k < 0 ? -1 : 0; }; w = sd(a, b, p) * sd(a, b, q) < 0 && sd(p, q, a) * sd(p, q, b) < 0; } }
    if (par && w == 2) { count("3d collinear touch (not judged)"); c.trivial(); return; }
    auto check = [&](auto const& cmp) { for (int k = 0; k < 8; ++k) { J3 e = a, f = b, g = p, h = q; if (k & 1) std::swap(e, f); if (k & 2) std::swap(g, h); if (k & 4) { std::swap(e, g); std::swap(f, h); } P3 X[2] = {P3(9e99, 0, 0), P3(9e99, 0, 0)}; auto it = segment_segment_intersection(P(e), P(f), P(g), P(h), X, cmp);
        REQ((it != e_non_crossing) == (w != 0), "3d segments: got " << kind(it) << " but they " << (w ? "meet" : "are apart") << " (order " << k << ")"); if (!w) continue; if (w == 1) REQ(it == e_crossing, "3d crossing reported as " << kind(it)); if (w == 3) REQ(it == e_overlapping, "3d overlap reported as " << kind(it)); if (w == 2) REQ(it == e_endpoint, "3d contact at an end reported as " << kind(it));
        auto on = [&](const P3& x) { return dist_ps(lp(x), lp(P(a)), lp(P(b))) <= tol && dist_ps(lp(x), lp(P(p)), lp(P(q))) <= tol; }; REQ(on(X[0]), "3d point " << str(X[0]) << " is not on both segments"); if (w == 3) { REQ(on(X[1]), "3d second point " << str(X[1])); ld len = (hi - lo) * norm(lp(P(b)) - lp(P(a))); REQ(std::fabs(norm(lp(X[1]) - lp(X[0])) - len) <= tol, "3d overlap length"); } } };
    check(direct()); check(abs_cmp(1e-10)); count(w == 0 ? "3d apart" : w == 1 ? "3d crossing" : w == 2 ? "3d contact" : "3d overlap");
}
