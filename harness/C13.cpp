#include "conv.hpp"
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
using namespace vt;
using namespace geometrix;
typedef obb_double_2d OB;
struct Box { P2 c; V2 u, v; double hu, hv; CP corners() const { L2 C = lp(c), U{u[0], u[1]}, V{v[0], v[1]}; ld a = hu, b = hv; return {C - a * U - b * V, C + a * U - b * V, C + a * U + b * V, C - a * U + b * V}; } OB obb() const { return OB(c, u, v, hu, hv); } };
static Box rbox(Rng& r, double m) {
    double a = r.p(0.35) ? std::atan2((double)r.in(-4, 4), (double)r.in(-4, 4)) : r.real(-3.2, 3.2); double ca = std::cos(a), sa = std::sin(a); if (r.p(0.15)) { static const double Z[4][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}}; int k = (int)r.in(0, 3); ca = Z[k][0]; sa = Z[k][1]; }
    Box b; b.c = P2(r.real(-m, m), r.real(-m, m)); if (r.p(0.3)) b.c = P2((double)r.in(-5, 5), (double)r.in(-5, 5)); b.u = V2(ca, sa); b.v = r.p(0.5) ? V2(-sa, ca) : V2(sa, -ca); auto e = [&] { double k = r.u(); return k < 0.1 ? r.real(0.001, 0.05) * m : k < 0.4 ? (double)r.in(1, 4) : r.real(0.05, 1) * m; }; b.hu = e(); b.hv = e(); return b;
}
static void put(Case& c, const char* n, const Box& b) { std::string s(n); c.in((s + " center").c_str(), b.c); c.in((s + " u").c_str(), b.u); c.in((s + " v").c_str(), b.v); c.in((s + " hu").c_str(), b.hu); c.in((s + " hv").c_str(), b.hv); }
// the eight descriptions of one and the same box (axis order, axis directions)
static std::vector<OB> same(const Box& b) { std::vector<OB> o; for (int k = 0; k < 8; ++k) { V2 u = b.u, v = b.v; if (k & 1) u = V2(-u[0], -u[1]); if (k & 2) v = V2(-v[0], -v[1]); if (k & 4) o.emplace_back(b.c, v, u, b.hv, b.hu); else o.emplace_back(b.c, u, v, b.hu, b.hv); } return o; }
static P2 query(Rng& r, const Box& b, double m) { L2 U{b.u[0], b.u[1]}, V{b.v[0], b.v[1]}; static const double F[] = {-2, -1.01, -1, -0.99, -0.5, 0, 0.5, 0.99, 1, 1.01, 3}; if (r.p(0.3)) return P2(r.real(-3 * m, 3 * m), r.real(-3 * m, 3 * m)); auto f = [&] { return r.p(0.3) ? r.real(-1.3, 1.3) : F[r.in(0, 10)]; }; L2 q = lp(b.c) + (f() * (ld)b.hu) * U + (f() * (ld)b.hv) * V; return P2((double)q.x, (double)q.y); }
GROUP(points, 40000, 1500000) {
    Rng& r = c.rng; double m = r.p(0.8) ? 10 : r.p(0.5) ? 0.01 : 1000; Box b = rbox(r, m); put(c, "box", b); CP k = b.corners(); double tol = 1e-9 * (m + b.hu + b.hv + norm(lp(b.c))); OB o0 = b.obb();
    for (int i = 0; i < 4; ++i) REQ(norm(lp(o0[i]) - k[i]) <= tol, "corner " << i << " is " << str(o0[i])); REQ(o0.size() == 4, "size"); for (int i = 0; i < 4; ++i) REQ(norm(lp(o0.get_rectangle()[i]) - k[i]) <= tol, "rectangle corner " << i);
    if (b.hu > 1e-3 * m && b.hv > 1e-3 * m) { OB q = make_obb<P2, V2>(o0.get_rectangle()); REQ(close(q.get_halfwidth(0), b.hu, 1e-9, tol) && close(q.get_halfwidth(1), b.hv, 1e-9, tol) && norm(lp(q.get_center()) - lp(b.c)) <= tol && close(q.get_axis(0)[0], b.u[0], 1e-6, 1e-6) && close(q.get_axis(0)[1], b.u[1], 1e-6, 1e-6) && close(q.get_axis(1)[0], b.v[0], 1e-6, 1e-6) && close(q.get_axis(1)[1], b.v[1], 1e-6, 1e-6), "box rebuilt from its own rectangle differs: hu " << q.get_halfwidth(0) << " hv " << q.get_halfwidth(1)); }
    { OB z = o0; P2 n(r.real(-m, m), r.real(-m, m)); z.set_center(n); Box bz = b; bz.c = n; CP kz = bz.corners(); for (int i = 0; i < 4; ++i) REQ(norm(lp(z[i]) - kz[i]) <= tol, "corner of the moved box"); }
    for (int i = 0; i < 4; ++i) {
        P2 p = query(r, b, m); c.in("point", p); ld d = solid_dist(k, lp(p)); bool in = convex_in(k, lp(p)); L2 at = lp(p); if (!in) border_dist(k, lp(p), &at); tol = 1e-9 * (m + b.hu + b.hv + norm(lp(b.c)) + norm(lp(p)));
        for (auto& o : same(b)) {
            double q = point_obb_distance(p, o), q2 = point_obb_distance_sqrd(p, o); P2 cl = point_obb_closest_point(p, o);
            REQ(std::abs(q - d) <= tol, "point to box distance is " << q << " but the corners give " << (double)d); REQ(std::abs(q2 - d * d) <= tol * (1 + 2 * (double)d + tol), "squared distance is " << q2);
            REQ(norm(lp(cl) - at) <= tol * 10, "closest point of the box is " << str(cl) << " but should be (" << (double)at.x << "," << (double)at.y << ")");
            ld rad = d * r.pick(std::vector<double>{0.5, 0.9, 0.999, 1.001, 1.1, 2}) + (r.p(0.3) ? m * 0.1 : 0) + 10 * tol; if (std::abs(rad - d) > 5 * tol) { sphere<2, P2> s(p, (double)rad); REQ(sphere_obb_intersection(s, o) == (d < rad), "circle of radius " << (double)rad << " at distance " << (double)d << " from the box is reported " << (d < rad ? "apart" : "overlapping")); count(d < rad ? "circle meets box" : "circle apart"); }
        }
        count(in ? "point inside" : "point outside");
    }
}
GROUP(boxes, 60000, 2500000) {
    Rng& r = c.rng; double m = r.p(0.8) ? 10 : 0.5; Box a = rbox(r, m), b = rbox(r, m); if (r.p(0.3)) { b.u = a.u; b.v = a.v; if (r.p(0.5)) std::swap(b.u, b.v); }
    if (r.p(0.5)) { // slide b until it nearly touches a
        L2 d = lp(b.c) - lp(a.c); ld n = norm(d); if (n == 0) SKIP_CASE(); ld lo = 0, hi = 100 * m; for (int i = 0; i < 60; ++i) { ld t = (lo + hi) / 2; Box z = b; z.c = P2((double)(a.c[0] + d.x / n * t), (double)(a.c[1] + d.y / n * t)); (sep_gap(a.corners(), z.corners()) > 0 ? hi : lo) = t; } ld t = hi * (1 + r.pick(std::vector<double>{-0.1, -0.01, -1e-4, 1e-4, 0.01, 0.1})); b.c = P2((double)(a.c[0] + d.x / n * t), (double)(a.c[1] + d.y / n * t)); }
    put(c, "box 1", a); put(c, "box 2", b); ld g = sep_gap(a.corners(), b.corners()); ld mar = 1e-7 * m; if (std::abs(g) < mar) SKIP_CASE(); bool hit = g < 0; count(hit ? "boxes meet" : "boxes apart");
    bool near = std::abs(g) < 0.2 * std::min(std::min(a.hu, a.hv), std::min(b.hu, b.hv)); if (near) count("nearly touching boxes");
    auto A = same(a), B = same(b); for (int i = 0; i < 6; ++i) { auto& x = A[r.in(0, 7)]; auto& y = B[r.in(0, 7)]; REQ(obb_obb_intersection(x, y, abs_cmp(1e-10)) == hit && obb_obb_intersection(y, x, abs_cmp(1e-10)) == hit && obb_obb_intersection(x, y, direct()) == hit, "boxes with gap " << (double)g << " are reported " << (hit ? "apart" : "overlapping")); }
}
GROUP(segments, 40000, 1500000) {
    Rng& r = c.rng; double m = r.p(0.8) ? 10 : 0.5; Box b = rbox(r, m); put(c, "box", b); P2 p = query(r, b, m), q = query(r, b, m); if (r.p(0.2)) { L2 z = lp(p) + r.real(-2, 2) * m * L2{b.u[0], b.u[1]}; q = P2((double)z.x, (double)z.y); } c.in("segment start", p); c.in("segment end", q); if (norm(lp(p) - lp(q)) < 1e-3 * m) SKIP_CASE();
    CP k = b.corners(); ld d = border_dist(k, lp(p), lp(q)); double tol = 1e-6 * (m + b.hu + b.hv); bool inside = convex_in(k, lp(p)) && convex_in(k, lp(q)); count(inside ? "segment inside the box" : d < tol ? "segment meets the border" : "segment apart");
    for (auto& o : same(b)) for (int f = 0; f < 2; ++f) { S2 s(f ? q : p, f ? p : q); abs_cmp cmp(1e-10); double v = segment_obb_distance(s, o, cmp), v2 = segment_obb_distance_sqrd(s, o, cmp); REQ(std::abs(v - d) <= tol, "segment to box border distance is " << v << " but the corners give " << (double)d); REQ(std::abs(v2 - d * d) <= tol * (1 + 2 * (double)d), "squared distance " << v2); }
}
