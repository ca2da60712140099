#include "conv.hpp"
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
#include <geometrix/algorithm/split_segment.hpp>
#include <geometrix/algorithm/polygon_with_holes_as_segment_range.hpp>
using namespace vt;
using namespace geometrix;
// Which edges of a border hold a point, which is nearest, and the stretch of border around a point.
GROUP(border, 30000, 1500000) {
    Rng& r = c.rng; IPoly P = any_poly(r, 12); if (P.size() < 3) SKIP_CASE(); bool rev = r.p(0.4); if (rev) std::reverse(P.begin(), P.end()); std::rotate(P.begin(), P.begin() + r.in(0, (long)P.size() - 1), P.end()); P = r.p(0.3) ? insert_collinear(r, P) : P; double k = r.pick(std::vector<double>{1, 0.5, 4}); std::size_t n = P.size(); PG g = tpg(P, k); c.in("polygon", P); c.in("scale", k); abs_cmp cm(1e-9); direct dc;
    // an exactly representable point: vertex, edge point or anywhere
    std::size_t e = r.in(0, (long)n - 1); P2 a = g[e], b = g[(e + 1) % n]; int what = (int)r.in(0, 2); P2 q = a; if (what == 1) { static const double T[] = {0.5, 0.25, 0.75}; double t = T[r.in(0, 2)]; q = P2(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])); } else if (what == 2) q = P2(a[0] + r.in(-12, 12) * k / 4, a[1] + r.in(-12, 12) * k / 4); c.in("point", q);
    ld best = 1e300L; std::vector<ld> d(n); for (std::size_t i = 0; i < n; ++i) { d[i] = dist_ps(lp(q), lp(g[i]), lp(g[(i + 1) % n])); best = std::min(best, d[i]); } double ext = 0; for (auto& p : g) ext = std::max({ext, std::abs(p[0]), std::abs(p[1])}); ld eps = 1e-9L * (ext + 1);
    auto f = find_containing_polygon_border_segment(g, q, cm); auto z = find_closest_polygon_border_segment(g, q); auto w = find_containing_or_closest_polygon_border_segment(g, q, cm);
    if (best == 0 || best > 1e-5) REQ(bool(f) == (best == 0), "an edge holding the point is " << (f ? "found" : "not found") << ", distance " << (double)best); if (f) REQ(*f < n && d[*f] <= eps, "edge " << *f << " is said to hold the point"); REQ(z < n && d[z] <= best + eps, "nearest edge " << z); REQ(w < n && d[w] <= best + eps, "containing or nearest edge " << w); if (f && best == 0) REQ(w == *f || d[w] == 0, "edge " << w); count(best == 0 ? "on the border" : "off the border");
    if (best == 0) { // stretch of border within a distance along it
        std::vector<ld> L(n); ld per = 0; for (std::size_t i = 0; i < n; ++i) { L[i] = norm(lp(g[(i + 1) % n]) - lp(g[i])); per += L[i]; } double x = r.p(0.8) ? r.real(0.01, 0.499) * (double)per : r.real(0.01, 0.3) * (double)L[e]; c.in("extent", x); PL s = polygon_subsequence(g, q, x, cm);
        std::size_t at = 0; while (d[at] != 0) ++at; auto walk = [&](bool fwd) { std::vector<L2> o; L2 cur = lp(q); ld rest = x; std::size_t i = fwd ? (at + 1) % n : at; for (std::size_t guard = 0; guard < 2 * n + 2; ++guard) { L2 t = lp(g[i]); ld l = norm(t - cur); if (l <= rest) { if (l > 0) o.push_back(t); rest -= l; cur = t; i = fwd ? (i + 1) % n : (i + n - 1) % n; } else { if (rest > 0) { L2 dd = t - cur; o.push_back(cur + (rest / l) * dd); } break; } } return o; };
        std::vector<L2> bw = walk(false), fw = walk(true), want(bw.rbegin(), bw.rend()); want.push_back(lp(q)); want.insert(want.end(), fw.begin(), fw.end());
        // both chains as point sets: the point itself need not be a vertex of the result; repeated points are equal to single ones
        auto clean = [&](const std::vector<L2>& v) { std::vector<L2> o; for (auto& p : v) { if (!o.empty() && norm(p - o.back()) <= 10 * eps) continue; if (norm(p - lp(q)) <= 10 * eps) continue; o.push_back(p); } return o; }; std::vector<L2> gv; for (auto& p : s) gv.push_back(lp(p)); auto A = clean(gv), B = clean(want); REQ(A.size() == B.size(), "the stretch has " << A.size() << " points, expected " << B.size()); for (std::size_t i = 0; i < A.size(); ++i) REQ(norm(A[i] - B[i]) <= 20 * eps, "point " << i << " of the stretch is off by " << (double)norm(A[i] - B[i])); count("stretch points", (long)A.size()); bool isv = false; for (auto& p : g) if (p[0] == q[0] && p[1] == q[1]) isv = true; if (isv) { bool has = false; for (auto& p : gv) if (norm(p - lp(q)) <= 10 * eps) has = true; REQ(has, "the vertex itself is missing from its stretch"); } }
}
// Side of a polyline on which a point lies: the side of the nearest part of it.
GROUP(side, 30000, 1500000) {
    Rng& r = c.rng; int n = (int)r.in(2, big(r, 9)); std::vector<I2> v; for (int i = 0; i < n; ++i) { I2 p = rpt(r, 12); if (i && p == v.back()) { --i; continue; } if (i > 1 && orient(v[i - 2], v[i - 1], p) == 0 && doti(v[i - 1] - v[i - 2], p - v[i - 1]) < 0) { --i; continue; } v.push_back(p); } c.in("polyline", v); double k = r.pick(std::vector<double>{1, 0.5, 10}); c.in("scale", k); PL l = tpl(v, k); P2 q(r.real(-15, 15) * k, r.real(-15, 15) * k); if (r.p(0.3)) { std::size_t i = r.in(0, n - 2); double t = r.u(); q = P2(l[i][0] + t * (l[i + 1][0] - l[i][0]) + r.real(-1, 1) * k, l[i][1] + t * (l[i + 1][1] - l[i][1]) + r.real(-1, 1) * k); } if (r.p(0.05)) q = l[r.in(0, n - 1)]; c.in("point", q);
    ld best = 1e300L; std::vector<ld> d(n - 1); for (int i = 0; i + 1 < n; ++i) { d[i] = dist_ps(lp(q), lp(l[i]), lp(l[i + 1])); best = std::min(best, d[i]); } auto got = point_polyline_orientation(q, l, abs_cmp(1e-10)); if (best == 0) { REQ(got == oriented_collinear, "a vertex is said to lie to one side"); count("on the line"); return; } if (best < 1e-3 * k) { c.trivial(); return; }
    int sidev = 0; bool tie = false; for (int i = 0; i + 1 < n; ++i) { if (d[i] > best + 1e-6L * k) continue; L2 a = lp(l[i]), b = lp(l[i + 1]), e = b - a; ld t = dot(lp(q) - a, e) / dot(e, e); if (std::fabs((double)t) < 1e-7 || std::fabs((double)t - 1) < 1e-7) { tie = true; break; } int s; ld cr;
        if (t > 0 && t < 1) { cr = cross(e, lp(q) - a) / norm(e); s = cr > 0 ? 1 : -1; if (std::fabs((double)cr) < 1e-6 * k) tie = true; }
        else { int j = t <= 0 ? i : i + 1; if (j == 0 || j == n - 1) { cr = cross(e, lp(q) - a) / norm(e); s = cr > 0 ? 1 : -1; if (std::fabs((double)cr) < 1e-6 * k) tie = true; } else { int o = orient(v[j - 1], v[j], v[j + 1]); s = -o; if (o == 0) tie = true; } }
        if (sidev && s != sidev) tie = true; sidev = s; }
    if (tie || !sidev) { count("side not decided"); c.trivial(); return; } REQ(got == (sidev > 0 ? oriented_left : oriented_right), "the point is said to lie " << (got == oriented_left ? "left" : got == oriented_right ? "right" : "on the line") << ", it lies " << (sidev > 0 ? "left" : "right")); count(sidev > 0 ? "left" : "right");
    for (int i = 0; i + 1 < n; ++i) if (d[i] <= best + 1e-12L * k) { auto with = point_polyline_orientation(q, l, (double)(best * best), (std::size_t)i, abs_cmp(1e-10)); REQ(with == got, "told that segment " << i << " is the nearest, the point is said to lie " << (with == oriented_left ? "left" : with == oriented_right ? "right" : "on the line")); count("told the nearest segment"); }
}
GROUP(curvature, 20000, 1000000) {
    Rng& r = c.rng; if (r.p(0.02)) { std::vector<P2> few; for (long i = r.in(0, 1); i > 0; --i) few.push_back(tp(rpt(r, 9))); PL l(few.begin(), few.end()); c.in("polyline", few); REQ(polyline_total_curvature(l) == 0 && polyline_total_absolute_curvature(l) == 0, "a polyline without a bend has curvature"); count("polylines of at most one point"); return; } int n = (int)r.in(2, big(r, 14)); double k = r.pick(std::vector<double>{1, 0.1, 20}); std::vector<P2> v; std::vector<I2> iv; for (int i = 0; i < n; ++i) { I2 p = rpt(r, 9); if (i && p == iv.back()) { --i; continue; } if (i > 1 && orient(iv[i - 2], iv[i - 1], p) == 0) { --i; continue; } iv.push_back(p); v.push_back(P2(p.x * k, p.y * k)); } PL l(v.begin(), v.end()); c.in("polyline", v);
    std::vector<ld> K(n, 0), T(n, 0); ld st = 0, sa = 0; for (int j = 1; j + 1 < n; ++j) { L2 a = lp(v[j - 1]), b = lp(v[j]), d = lp(v[j + 1]); ld R = norm(b - a) * norm(d - b) * norm(d - a), k4 = 2 * cross(b - a, d - b) / R; K[j] = k4; T[j] = std::fabs(k4) * (norm(b - a) + norm(d - b)) / 2; sa += T[j]; st += k4 > 0 ? T[j] : -T[j]; }
    for (int j = 0; j < n; ++j) { double a = polyline_signed_curvature_at_index(l, j), b = polyline_total_curvature_over_index(l, j); REQ(close(a, (double)K[j], 1e-10, 0), "curvature at " << j << " is " << a << ", expected " << (double)K[j]); REQ(close(b, (double)T[j], 1e-10, 0), "curvature over " << j << " is " << b << ", expected " << (double)T[j]); }
    double ts = polyline_total_curvature(l), ta = polyline_total_absolute_curvature(l); REQ(close(ts, (double)st, 1e-9, 1e-9), "total curvature " << ts << ", expected " << (double)st); REQ(close(ta, (double)sa, 1e-9, 1e-9), "total absolute curvature " << ta << ", expected " << (double)sa);
    auto ip = inflection_points(l); std::set<std::size_t> is(ip.begin(), ip.end()); REQ(is.size() == ip.size() && std::is_sorted(ip.begin(), ip.end()), "inflection points out of order"); for (int j = 2; j + 1 < n; ++j) { bool want = (K[j] > 0) != (K[j - 1] > 0); REQ(is.count(j) == want, "vertex " << j << " is " << (want ? "not " : "") << "called an inflection"); if (want) count("inflections"); } for (auto i : ip) REQ(i < (std::size_t)n, "inflection index " << i);
    auto joined = [&](const std::vector<PL>& ps, const char* nm) { std::size_t at = 0; for (std::size_t i = 0; i < ps.size(); ++i) { REQ(ps[i].size() > 1, nm << " piece of one point"); for (std::size_t j = 0; j < ps[i].size(); ++j) { REQ(at + j < v.size() && ps[i][j][0] == v[at + j][0] && ps[i][j][1] == v[at + j][1], nm << " piece " << i << " leaves the polyline"); } at += ps[i].size() - 1; } REQ(at + 1 == v.size(), nm << " pieces end at vertex " << at); };
    auto sp = split_polyline_by_inflection_points(l); joined(sp, "inflection"); { std::set<std::size_t> cuts; std::size_t at = 0; for (auto& p : sp) { at += p.size() - 1; cuts.insert(at); } for (int j = 2; j + 1 < n; ++j) REQ(cuts.count(j) == is.count(j), "cut at vertex " << j); }
    double ks = r.real(0.1, 8); c.in("limit", ks); auto tp = split_by_total_curvature(l, ks); joined(tp, "curvature"); std::size_t at = 0; for (std::size_t i = 0; i < tp.size(); ++i) { ld s = 0, before = 0; for (std::size_t j = 1; j < tp[i].size(); ++j) { before = s; s += T[at + j]; } at += tp[i].size() - 1; REQ(before <= ks + 1e-9, "piece " << i << " should have been cut earlier"); if (i + 1 < tp.size()) REQ(s > ks - 1e-9, "piece " << i << " is cut before the limit"); }
    count("curvature pieces", (long)tp.size());
}
GROUP(helpers, 20000, 1000000) {
    Rng& r = c.rng; P2 a(r.real(-10, 10), r.real(-10, 10)), b(r.real(-10, 10), r.real(-10, 10)); if (r.p(0.5)) { a = P2((double)r.in(-8, 8), (double)r.in(-8, 8)); b = P2((double)r.in(-8, 8), (double)r.in(-8, 8)); } double len = (double)norm(lp(b) - lp(a)); if (len < 1e-3) SKIP_CASE(); c.in("a", a); c.in("b", b); S2 s(a, b); double mx = len * r.pick(std::vector<double>{2, 1.0001, 0.9, 0.6, 0.3, 0.11, 0.03}) * r.real(0.99, 1.0); c.in("limit", mx);
    auto v = split_segment(s, mx); std::size_t want = 1; while (len / (double)want > mx) want *= 2; if (std::abs(len / (double)want / mx - 1) > 1e-9 && std::abs(len * 2 / (double)want / mx - 1) > 1e-9) REQ(v.size() == want, v.size() << " pieces, expected " << want); REQ(!v.empty(), "no piece"); REQ(v.front().get_start()[0] == a[0] && v.front().get_start()[1] == a[1] && v.back().get_end()[0] == b[0] && v.back().get_end()[1] == b[1], "ends moved"); for (std::size_t i = 0; i < v.size(); ++i) { L2 f = lp(a) + ((ld)i / v.size()) * (lp(b) - lp(a)); REQ(norm(lp(v[i].get_start()) - f) <= 1e-12 * (len + 20), "piece " << i << " starts at " << str(v[i].get_start())); if (i) REQ(v[i - 1].get_end()[0] == v[i].get_start()[0] && v[i - 1].get_end()[1] == v[i].get_start()[1], "gap before piece " << i); REQ((double)norm(lp(v[i].get_end()) - lp(v[i].get_start())) <= mx * (1 + 1e-9), "piece " << i << " too long"); } count("segment pieces", (long)v.size());
    if (std::abs(b[0] - a[0]) > 1e-3) { double sl = (b[1] - a[1]) / (b[0] - a[0]), x = r.real(-20, 20), k1 = 0, tol = 1e-12 * (1 + std::abs(sl)) * 60; c.in("x", x); REQ(close(get_slope(s), sl, 1e-12, 1e-300) && close(get_slope(a, b), sl, 1e-12, 1e-300), "slope " << get_slope(s)); double y = y_of_x(a, b, x, k1), y2 = y_of_x(a, b, x); ld wy = (ld)a[1] + ((ld)x - a[0]) * ((ld)b[1] - a[1]) / ((ld)b[0] - a[0]); REQ(close(y, (double)wy, 1e-12, tol) && close(y2, (double)wy, 1e-12, tol) && close(k1, sl, 1e-12, 1e-300), "y at x is " << y << ", expected " << (double)wy); if (std::abs(sl) > 1e-3) { double k2 = 0, xx = x_of_y(a, b, (double)wy, k2); REQ(close(xx, x, 1e-9, 1e-9 * (1 + 1 / std::abs(sl))) && close(k2, sl, 1e-12, 0), "x at y is " << xx); } }
    polygon_with_holes<P2> h; int nh = (int)r.in(0, 3); std::vector<std::pair<P2, P2>> exp; auto ring = [&](int m) { PG g; for (int i = 0; i < m; ++i) g.push_back(P2((double)r.in(-50, 50), (double)r.in(-50, 50))); for (int i = 0; i < m; ++i) exp.push_back({g[i], g[(i + 1) % m]}); return g; }; PG o = ring((int)r.in(3, 8)); h = polygon_with_holes<P2>(o); for (int i = 0; i < nh; ++i) h.add_hole(ring((int)r.in(3, 6))); auto sr = polygon_with_holes_as_segment_range<S2>(h); REQ(sr.size() == exp.size(), sr.size() << " border segments, expected " << exp.size()); for (std::size_t i = 0; i < exp.size(); ++i) { auto p = sr[i].get_start(), q = sr[i].get_end(); REQ(p[0] == exp[i].first[0] && p[1] == exp[i].first[1] && q[0] == exp[i].second[0] && q[1] == exp[i].second[1], "border segment " << i); }
    double lo = r.real(-5, 5), hi = lo + r.real(0, 5), t = r.real(-8, 12); REQ(geometrix::clamp(t, lo, hi) == std::max(lo, std::min(hi, t)), "clamp"); REQ(geometrix::sign(t) == (t < 0 ? -1 : 1), "sign"); REQ(min_copy(t, lo) == std::min(t, lo) && max_copy(t, lo) == std::max(t, lo), "min/max");
}
