#include "conv.hpp"
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
using namespace vt;
using namespace geometrix;
template <int D> static void pp(Case& c, double s) {
    typedef point<double, D> P; Rng& r = c.rng; P a, b; ld q = 0; bool grid = r.p(0.5); for (int i = 0; i < D; ++i) { a[i] = grid ? r.in(-20, 20) * s : r.real(-20, 20) * s; b[i] = grid ? r.in(-20, 20) * s : r.real(-20, 20) * s; if (r.p(0.2)) b[i] = a[i]; ld d = (ld)a[i] - b[i]; q += d * d; } c.in("a", a); c.in("b", b); double v = point_point_distance_sqrd(a, b), w = point_point_distance(a, b); REQ(close(v, (double)q, 1e-13, 0) && close(w, (double)std::sqrt(q), 1e-13, 0) && point_point_distance_sqrd(b, a) == v, D << "D distance " << w << " should be " << (double)std::sqrt(q)); }
GROUP(points, 40000, 1000000) { double s = rscale(c.rng); switch (c.rng.in(2, 7)) { case 2: pp<2>(c, s); break; case 3: pp<3>(c, s); break; case 4: pp<4>(c, s); break; case 5: pp<5>(c, s); break; case 6: pp<6>(c, s); break; default: pp<7>(c, s); } }
template <int D> struct T; template <> struct T<2> { typedef P2 P; static P mk(L3 a) { return P((double)a.x, (double)a.y); } static L3 of(const P& p) { return {p[0], p[1], 0}; } }; template <> struct T<3> { typedef P3 P; static P mk(L3 a) { return P((double)a.x, (double)a.y, (double)a.z); } static L3 of(const P& p) { return {p[0], p[1], p[2]}; } };
// the squared distance is |ac|^2 - e^2/f, so its rounding error is relative to the distance from the segment's start
static ld sqtol(L3 p, L3 a, L3 b) { ld m = std::max(norm(p - a), norm(p - b)); return 1e-13L * m * m + 1e-300L; }
template <int D> static void seg(Case& c) {
    typedef typename T<D>::P P; Rng& r = c.rng; bool grid = r.p(0.6); double s = rscale(r); auto g = [&] { return grid ? (ld)(r.in(-9, 9) * s) : (ld)(r.real(-9, 9) * s); }; L3 A{g(), g(), D == 3 ? g() : 0}, B{g(), g(), D == 3 ? g() : 0}, Q{g(), g(), D == 3 ? g() : 0}; P a = T<D>::mk(A), b = T<D>::mk(B); if (r.p(0.15)) b = a; else if (r.p(0.1)) b[r.in(0, D - 1)] = a[0]; A = T<D>::of(a); B = T<D>::of(b); if (r.p(0.35)) { static const double F[] = {-0.5, 0, 0.25, 1. / 3, 0.5, 0.7, 1, 1.5}; ld t = F[r.in(0, 7)]; Q = A + t * (B - A); } else if (D == 2 && r.p(0.2)) { L3 d = B - A; L3 n{-d.y, d.x, 0}; Q = (r.p(0.5) ? A : B) + (ld)r.real(-2, 2) * n; }
    P p = T<D>::mk(Q); Q = T<D>::of(p); c.in("p", p); c.in("a", a); c.in("b", b); ld t, d = dist_ps(Q, A, B, &t), tol = sqtol(Q, A, B); L3 cl = A + t * (B - A); bool zero = norm(B - A) == 0; count(zero ? "zero length" : t == 0 ? "before start" : t == 1 ? "beyond end" : d < 1e-9 * s ? "on segment" : "interior foot");
    for (int f = 0; f < 2; ++f) { const P &x = f ? b : a, &y = f ? a : b; double q2 = point_segment_distance_sqrd(p, x, y), q3 = point_segment_distance_sqrd(p, segment<P>(x, y)), q = point_segment_distance(p, segment<P>(x, y)); REQ(std::isfinite(q) && q >= 0 && q2 >= 0, "distance is " << q << " squared " << q2 << " for a point at distance " << (double)d); REQ(std::abs(q2 - d * d) <= 1e-12L * d * d + tol && std::abs(q3 - d * d) <= 1e-12L * d * d + tol && std::abs(q * (ld)q - d * d) <= 1e-12L * d * d + tol, "squared distance " << q2 << " should be " << (double)(d * d));
        P z[3]; double pt = 77; z[0] = point_segment_closest_point(p, segment<P>(x, y)); z[1] = point_segment_closest_point(p, x, y); z[2] = point_segment_closest_point_and_param(p, x, y, pt); for (int i = 0; i < 3; ++i) { for (int k = 0; k < D; ++k) REQ(std::isfinite(z[i][k]), "closest point (form " << i << ") is " << str(z[i])); REQ(norm(T<D>::of(z[i]) - cl) <= 1e-12L * (norm(A) + norm(B) + norm(Q)) + 1e-300L, "closest point (form " << i << ") is " << str(z[i]) << " at parameter " << (double)t); }
        if (!zero) { ld e = dot(Q - A, B - A) / dot(B - A, B - A); if (f) e = 1 - e; REQ(close(pt, (double)e, 1e-10, 1e-10), "parameter " << pt << " should be " << (double)e); } }
}
GROUP(segments2, 60000, 2000000) { seg<2>(c); }
GROUP(segments3, 60000, 2000000) { seg<3>(c); }
GROUP(lines, 30000, 1000000) {
    Rng& r = c.rng; double s = rscale(r); bool grid = r.p(0.5); auto g = [&] { return grid ? r.in(-9, 9) * s : r.real(-9, 9) * s; }; P2 a(g(), g()), b(g(), g()), p(g(), g()); if (r.p(0.2)) p = P2(a[0] + 0.5 * (b[0] - a[0]), a[1] + 0.5 * (b[1] - a[1])); c.in("p", p); c.in("a", a); c.in("b", b); L2 d = lp(b) - lp(a); if (norm(d) < 0.1 * s) SKIP_CASE(); ld h = cross(d, lp(p) - lp(a)) / norm(d); line<P2> l[3] = {line<P2>(a, b), line<P2>(S2(a, b)), line<P2>(a, V2(b[0] - a[0], b[1] - a[1]))};
    for (int k = 0; k < 3; ++k) { double q = point_line_distance(p, l[k]), sg = signed_point_line_distance(p, l[k]); V2 n = l[k].get_normal_vector(); ld hn = dot(L2{n[0], n[1]}, lp(p) - lp(a)); REQ(close(q, (double)std::abs(h), 1e-11, 1e-11 * s), "distance to line " << q << " should be " << (double)std::abs(h)); REQ(close(sg, (double)hn, 1e-10, 1e-11 * s) && close(std::abs(sg), q, 1e-12, 0), "signed distance " << sg << " is not along the line's normal"); } count(h > 0 ? "left of line" : h < 0 ? "right of line" : "on line");
}
template <int D> static void box(Case& c) {
    typedef typename T<D>::P P; Rng& r = c.rng; double s = rscale(r); P lo, hi, p, cl; ld q = 0; for (int i = 0; i < D; ++i) { lo[i] = r.in(-9, 9) * s; hi[i] = lo[i] + r.in(0, 9) * s; static const double F[] = {-1.5, -0.25, 0, 0.5, 1, 1.25, 3}; p[i] = r.p(0.6) ? lo[i] + F[r.in(0, 6)] * (hi[i] - lo[i] + (r.p(0.3) ? s : 0)) : r.in(-20, 20) * s; cl[i] = p[i] < lo[i] ? lo[i] : p[i] > hi[i] ? hi[i] : p[i]; q += ((ld)p[i] - cl[i]) * ((ld)p[i] - cl[i]); } c.in("low", lo); c.in("high", hi); c.in("p", p); axis_aligned_bounding_box<P> b(lo, hi); double v = point_aabb_distance_sqrd(p, b), w = point_aabb_distance(p, b); P z = point_aabb_closest_point(p, b); for (int i = 0; i < D; ++i) REQ(z[i] == cl[i], "closest point of the box is " << str(z) << " should be " << str(cl)); REQ(close(v, (double)q, 1e-13, 0) && close(w, (double)std::sqrt(q), 1e-13, 0), "distance to box " << w << " should be " << (double)std::sqrt(q)); count(q == 0 ? "in box" : "outside box");
}
GROUP(boxes2, 20000, 500000) { box<2>(c); }
GROUP(boxes3, 20000, 500000) { box<3>(c); }
GROUP(chains, 40000, 1500000) {
    Rng& r = c.rng; bool grid = r.p(0.5); double s = rscale(r); int n = (int)r.in(2, big(r, r.p(0.2) ? 40 : 8)); std::vector<P2> v; for (int i = 0; i < n; ++i) { P2 p = grid ? P2(r.in(-9, 9) * s, r.in(-9, 9) * s) : P2(r.real(-9, 9) * s, r.real(-9, 9) * s); if (i && r.p(0.1)) p = v.back(); v.push_back(p); } if (r.p(0.1)) v.back() = v.front(); if (r.p(0.1) && n > 2) v[1] = v[0]; P2 p = grid ? P2(r.in(-12, 12) * s, r.in(-12, 12) * s) : P2(r.real(-12, 12) * s, r.real(-12, 12) * s); if (r.p(0.2)) { int i = (int)r.in(0, n - 1); P2 a = v[i], b = v[(i + 1) % n]; double t = r.pick(std::vector<double>{0, 0.5, 0.3, 1}); p = P2(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])); } c.in("p", p); c.in("chain", v);
    PL pl(v.begin(), v.end()); PG pg(v.begin(), v.end()); for (int closed = 0; closed < 2; ++closed) { if (closed && n < 3) continue; ld best = 1e300L, tol = 0; int at = -1; for (int i = 0; i + 1 < n + closed; ++i) { ld d = dist_ps(lp(p), lp(v[i]), lp(v[(i + 1) % n])); if (d < best) best = d, at = i; tol = std::max(tol, sqtol(T<2>::of(p), T<2>::of(v[i]), T<2>::of(v[(i + 1) % n]))); } if (closed && at == n - 1) count("closing edge nearest");
        double q2 = closed ? point_polygon_distance_sqrd(p, pg) : point_polyline_distance_sqrd(p, pl), q = closed ? point_polygon_distance(p, pg) : point_polyline_distance(p, pl); REQ(std::isfinite(q) && std::abs(q2 - best * best) <= 1e-12L * best * best + tol && std::abs(q * (ld)q - best * best) <= 1e-12L * best * best + tol, (closed ? "polygon" : "polyline") << " distance " << q << " should be " << (double)best << " on edge " << at);
        P2 z = closed ? point_polygon_closest_point(p, pg) : point_polyline_closest_point(p, pl); ld on = 1e300L; for (int i = 0; i + 1 < n + closed; ++i) on = std::min(on, dist_ps(lp(z), lp(v[i]), lp(v[(i + 1) % n]))); REQ(std::isfinite(z[0]) && std::isfinite(z[1]) && on <= 1e-11L * (12 * s) && std::abs(dist(z, p) * dist(z, p) - best * best) <= 1e-11L * best * best + 10 * tol, (closed ? "polygon" : "polyline") << " closest point " << str(z) << " has distance " << (double)dist(z, p) << " should be " << (double)best); }
}
GROUP(collections, 15000, 500000) {
    Rng& r = c.rng; std::vector<PG> gs; std::vector<IPoly> is; int n = (int)r.in(1, 5); for (int i = 0; i < n; ++i) { IPoly q = any_poly(r, 9); I2 o = rpt(r, 60); for (auto& x : q) x = x + o; is.push_back(q); gs.push_back(tpg(q)); } I2 pi = r.p(0.2) ? is[0][0] : rpt(r, 100); P2 p = tp(pi); c.in("p", pi); for (auto& q : is) c.in("polygon", q); ld best = 1e300L, big = 1; for (auto& g : gs) for (std::size_t i = 0; i < g.size(); ++i) { best = std::min(best, dist_ps(lp(p), lp(g[i]), lp(g[(i + 1) % g.size()]))); big = std::max(big, dist(p, g[i])); } P2 z = point_polygon_collection_closest_point(p, gs); ld on = 1e300L; for (auto& g : gs) for (std::size_t i = 0; i < g.size(); ++i) on = std::min(on, dist_ps(lp(z), lp(g[i]), lp(g[(i + 1) % g.size()]))); REQ(on <= 1e-11L * big && std::abs(dist(z, p) * dist(z, p) - best * best) <= 1e-12L * big * big, "closest point over the polygons is " << str(z) << " at " << (double)dist(z, p) << " should be at " << (double)best); count("collections");
}
