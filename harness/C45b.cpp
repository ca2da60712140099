#include "C45.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/space/polar_reference_frame.hpp>
#include <geometrix/space/polar_access_traits.hpp>
#include <geometrix/space/cartesian_polar_transformation.hpp>
#include <geometrix/space/polar_cartesian_transformation.hpp>
static const Q PIQ = (Q)3.14159265358979323846264338327950288L + (Q)-5.01655761266833202e-20L;
// the library's pi has the digits of a double
#define WR(e, want) do { auto x_ = (e); TY(x_); Q w_ = (want); REQ(qabs((Q)x_ - w_) <= 640 * K<F>::eps() + (Q)2e-15, #e " is " << (ld)x_ << ", should be " << (ld)w_); } while (0)
template <class F> static void angles(Case& c) {
    Rng& r = c.rng; typedef typename K<F>::P P; typedef typename K<F>::V V; typedef typename K<F>::L L; F x = rv<F>(r, 10), y = rv<F>(r, 10); if (r.p(0.3)) { x = r.in(-2, 2); y = r.in(-2, 2); } if (x == 0 && y == 0) SKIP_CASE(); c.in("x", (double)x); c.in("y", (double)y); P o((F)r.in(-3, 3), (F)r.in(-3, 3)), p = o + V(x, y); F dx = get<0>(p) - get<0>(o), dy = get<1>(p) - get<1>(o); if (dx == 0 && dy == 0) SKIP_CASE(); ld want = std::atan2((ld)y, (ld)x), wd = std::atan2((ld)dy, (ld)dx);
    NQ(angle_from_a_to_b(o, p), wd, Q(1)); NQ(vector_angle(V(x, y)), want, Q(1));
    long k = r.in(-5, 5); F a = (F)((Q)want + 2 * PIQ * k); Q red = a; while (red > 2 * PIQ) red -= 2 * PIQ; while (red < 0) red += 2 * PIQ; if (red > (Q)1e-3 && red < 2 * PIQ - (Q)1e-3) { WR(normalize_angle_0_2pi_copy(a), red); if (qabs(red - PIQ) > (Q)1e-3) WR(normalize_angle_minus_pi_to_pi_copy(a), red > PIQ ? red - 2 * PIQ : red); }
    { typedef reference_frame_adaptor<P, polar_reference_frame_2d> R2; typedef reference_frame_adaptor<P, cartesian_reference_frame_2d> C2; C2 cp(P(x, y)); R2 pp(cp); auto rad = pp.template get<0>(), th = pp.template get<1>(); Q m = qsqrt((Q)x * x + (Q)y * y); NQ(rad, m, m); NQ(th, want, Q(1)); C2 back(pp); NQ(back.template get<0>(), (Q)x, m); NQ(back.template get<1>(), (Q)y, m); count("frame conversions"); }
    { Q m = qsqrt((Q)x * x + (Q)y * y); V u = normalize(V(x, y)), v(rv<F>(r, 5), rv<F>(r, 5)); V e((F)1, (F)0); V w = rotate_vector(v, e, u); NQ(get<0>(w), ((Q)v[0] * x - (Q)v[1] * y) / m, Q(10)); NQ(get<1>(w), ((Q)v[0] * y + (Q)v[1] * x) / m, Q(10)); count("rotations"); }
}
GROUP(angles_single, 6000, 200000) { angles<float>(c); }
GROUP(angles_extended, 6000, 200000) { angles<ld>(c); }
template <class F> static void shapes(Case& c) {
    Rng& r = c.rng; typedef typename K<F>::P P; typedef typename K<F>::V V; typedef typename K<F>::S S; typedef typename K<F>::G G; typedef typename K<F>::L L; F u = unit<F>(r); c.in("unit", (double)u); auto pt = [&](I2 z) { return P((F)z.x * u, (F)z.y * u); }; bool ext = sizeof(F) != 4; typename K<F>::A tight(ext ? (F)(u * (F)1e-15L) : (F)(u * (F)1e-5));
    std::vector<I2> A, B; int n = (int)r.in(3, 12), m = (int)r.in(3, 12); I2 off = rpt(r, 14); for (int i = 0; i < n; ++i) { I2 z = rpt(r, 5); if (A.empty() || A.back() != z) A.push_back(z); } for (int i = 0; i < m; ++i) { I2 z = rpt(r, 5) + off; if (B.empty() || B.back() != z) B.push_back(z); } while (A.size() > 1 && A.back() == A[0]) A.pop_back(); while (B.size() > 1 && B.back() == B[0]) B.pop_back(); if (A.size() < 3 || B.size() < 3) SKIP_CASE(); c.in("A", A); c.in("B", B);
    std::vector<QP> qa, qb; for (auto& z : A) qa.push_back(qp(pt(z))); for (auto& z : B) qb.push_back(qp(pt(z))); auto best = [&](bool closed, bool& ok) { Q d = -1; for (std::size_t i = 0; i + 1 < A.size() + closed; ++i) for (std::size_t j = 0; j + 1 < B.size() + closed; ++j) { std::size_t i1 = (i + 1) % A.size(), j1 = (j + 1) % B.size(); I2 e = A[i1] - A[i], f = B[j1] - B[j]; i128 cr = crossi(e, f); if (cr && (double)(cr < 0 ? -cr : cr) < 0.03 * std::sqrt((double)doti(e, e) * (double)doti(f, f))) ok = false; Q x = segs_meet(A[i], A[i1], B[j], B[j1]) ? Q(0) : std::min(std::min(psq(qa[i], qb[j], qb[j1]), psq(qa[i1], qb[j], qb[j1])), std::min(psq(qb[j], qa[i], qa[i1]), psq(qb[j1], qa[i], qa[i1]))); if (d < 0 || x < d) d = x; } return d; };
    Q E = (Q)u * 60, AR = E * E; { L la, lb; G ga, gb; for (auto& z : A) la.push_back(pt(z)), ga.push_back(pt(z)); for (auto& z : B) lb.push_back(pt(z)), gb.push_back(pt(z)); bool ok = true; Q d = best(false, ok); if (ok) { auto x = polyline_polyline_distance(la, lb, tight); TY(x); REQ(nearq<F>(x * x, d, AR), "polyline distance " << (ld)x << ", should be " << (ld)qsqrt(d)); count("polyline distances"); } ok = true; d = best(true, ok); if (ok) { auto x = polygon_polygon_distance(ga, gb, tight); TY(x); REQ(nearq<F>(x * x, d, AR), "polygon distance " << (ld)x << ", should be " << (ld)qsqrt(d)); count("polygon distances"); }
      Q len = 0; std::vector<Q> at{0}; for (std::size_t i = 0; i + 1 < qa.size(); ++i) len += qsqrt(qd(qa[i + 1] - qa[i], qa[i + 1] - qa[i])), at.push_back(len); NQ(polyline_length(la), len, E * 4); auto where = [&](Q t) { std::size_t i = 0; while (i + 2 < at.size() && at[i + 1] < t) ++i; return ::at(qa[i], qa[i + 1], (t - at[i]) / (at[i + 1] - at[i])); }; { P mp = polyline_mid_point(la); QP w = where(len / 2); NQ(get<0>(mp), w.x, E * 4); NQ(get<1>(mp), w.y, E * 4); }
      F cut = (F)(len * (Q)r.real(0.05, 0.9)); bool close = false; for (Q t : at) close = close || qabs(t - cut) < (Q)1e-2 * u; if (!close) { L f = clip_polyline_front(la, cut, tight); REQ(f.size() >= 2, "clipped to nothing"); QP w = where(cut), g = qp(f.front()); REQ(qabs(w.x - g.x) + qabs(w.y - g.y) <= 256 * K<F>::eps() * E, "front clip starts at " << (ld)g.x << "," << (ld)g.y << ", should be " << (ld)w.x << "," << (ld)w.y); QP z = qp(f.back()); REQ(z.x == qa.back().x && z.y == qa.back().y, "front clip moved the end"); count("clips"); }
      F tol = (F)(r.real(0.2, 3)) * u; L s = ramer_douglas_peucker_algorithm(la, tol); REQ(s.size() >= 2, "simplified to nothing"); std::size_t k = 0; for (std::size_t i = 0; i < la.size() && k < s.size(); ++i) if (la[i][0] == s[k][0] && la[i][1] == s[k][1]) ++k; REQ(k == s.size(), "simplified polyline is no subsequence"); for (auto& q : qa) { Q b = -1; for (std::size_t i = 0; i + 1 < s.size(); ++i) { Q x = psq(q, qp(s[i]), qp(s[i + 1])); if (b < 0 || x < b) b = x; } REQ(qsqrt(b) <= (Q)tol * (1 + 64 * K<F>::eps()) + 64 * K<F>::eps() * E, "a vertex is " << (ld)qsqrt(b) << " away from the simplified line, tolerance " << (ld)tol); } count("simplifications"); }
    { static const int T[][3] = {{3, 4, 5}, {4, 3, 5}, {0, 1, 1}, {1, 0, 1}, {-3, 4, 5}, {5, 12, 13}, {8, -15, 17}}; const int* t = T[r.in(0, 6)]; V x((F)t[0] / t[2], (F)t[1] / t[2]), y(-(F)t[1] / t[2], (F)t[0] / t[2]); I2 ce = rpt(r, 6), o = rpt(r, 14); long w = r.in(1, 5), h = r.in(1, 5); oriented_bounding_box<P, V> ob(pt(ce), x, y, (F)w * u, (F)h * u); Q cx = (Q)(o.x - ce.x) * u, cy = (Q)(o.y - ce.y) * u; Q lx = qabs(cx * t[0] + cy * t[1]) / t[2] - (Q)w * u, ly = qabs(cy * t[0] - cx * t[1]) / t[2] - (Q)h * u; if (lx < 0) lx = 0; if (ly < 0) ly = 0; NQ(point_obb_distance_sqrd(pt(o), ob), lx * lx + ly * ly, AR); { auto d = point_obb_distance(pt(o), ob); TY(d); REQ(nearq<F>(d * d, lx * lx + ly * ly, AR), "point-box distance " << (ld)d); } count("box distances"); }
    { long px = 0; std::vector<I2> v{{0, r.in(-3, 3)}}; int k = (int)r.in(2, 6); for (int i = 0; i < k; ++i) { px += r.in(3, 6); v.push_back({px, r.in(-2, 2)}); } L l; for (auto& z : v) l.push_back(pt(z)); F off2 = (F)(r.real(0.05, 0.3)) * u; bool left = r.p(0.5); c.in("line", v); L o = polyline_offset(l, left ? oriented_left : oriented_right, off2, tight); REQ(o.size() >= 2, "offset is empty"); for (std::size_t e = 0; e < 2; ++e) { QP a = qp(e ? l[l.size() - 2] : l[0]), b = qp(e ? l.back() : l[1]), q = e ? b : a, g = qp(e ? o.back() : o.front()); Q m2 = qsqrt(qd(b - a, b - a)), sg = left ? 1 : -1; QP want{q.x - sg * (Q)off2 * (b.y - a.y) / m2, q.y + sg * (Q)off2 * (b.x - a.x) / m2}; REQ(qabs(want.x - g.x) + qabs(want.y - g.y) <= 256 * K<F>::eps() * E, "offset " << (e ? "ends" : "starts") << " at " << (ld)g.x << "," << (ld)g.y << ", should be " << (ld)want.x << "," << (ld)want.y); } count("offsets"); } }
GROUP(shapes_single, 5000, 200000) { shapes<float>(c); }
GROUP(shapes_extended, 5000, 200000) { shapes<ld>(c); }
