#include "C45.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
#include <geometrix/arithmetic/vector/bisect.hpp>
#include <geometrix/arithmetic/vector/lerp.hpp>
#include <geometrix/algebra/vector_projection.hpp>
typedef geometrix::point<float, 2> PF; typedef geometrix::point<long double, 2> PX; typedef geometrix::sphere<2, PF> CF; typedef geometrix::sphere<2, PX> CX;
GEOMETRIX_DEFINE_SPHERE_TRAITS(2, PF, CF); GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(CF); GEOMETRIX_DEFINE_SPHERE_TRAITS(2, PX, CX); GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(CX);
// a result that may be of a wider type than the coordinates
#define NR(e, want, size) do { auto x_ = (e); Q w_ = (want); REQ(nearq<F>((F)x_, w_, (size)), #e " is " << (ld)x_ << ", should be " << (ld)w_); count("results"); } while (0)
static i128 ab(i128 x) { return x < 0 ? -x : x; }
// wide enough apart in direction for the closest points to be well conditioned
static bool slanted(I2 e, I2 f) { i128 cr = crossi(e, f); return (double)ab(cr) > 0.2 * std::sqrt((double)doti(e, e) * (double)doti(f, f)); }
#define OFF(w, q, d2, what) REQ(qabs(qd((q) - (w), (q) - (w)) - (d2)) <= 64 * K<F>::eps() * A, what " is not at the least distance: " << (ld)(w).x << "," << (ld)(w).y)
template <class F> static void closest(Case& c) {
    Rng& r = c.rng; typedef typename K<F>::P P; typedef typename K<F>::S S; typedef typename K<F>::G G; typedef typename K<F>::L L; F u = unit<F>(r); long m = r.p(0.5) ? 4 : 10; I2 z[6]; for (auto& x : z) x = rpt(r, m); for (auto& x : z) c.in("p", x); c.in("unit", (double)u); for (int i = 0; i < 6; ++i) for (int j = 0; j < i; ++j) if (z[i] == z[j]) SKIP_CASE(); P p[6]; QP q[6]; for (int i = 0; i < 6; ++i) p[i] = P((F)z[i].x * u, (F)z[i].y * u), q[i] = qp(p[i]); Q E = (Q)u * m * 3, A = E * E, e2 = 64 * 64 * K<F>::eps() * K<F>::eps() * A; bool ext = sizeof(F) != 4; typename K<F>::A tight(ext ? (F)(u * (F)1e-15L) : (F)(u * (F)1e-5));
    { Q want = psq(q[4], q[0], q[1]), l2 = qd(q[1] - q[0], q[1] - q[0]), k = qd(q[4] - q[0], q[1] - q[0]) / l2; k = k < 0 ? 0 : k > 1 ? 1 : k; P n = point_segment_closest_point(p[4], p[0], p[1]); QP w = qp(n); OFF(w, q[4], want, "closest point of a segment"); REQ(psq(w, q[0], q[1]) <= e2, "closest point is off the segment"); F t = -7; P n2 = point_segment_closest_point_and_param(p[4], p[0], p[1], t); QP w2 = qp(n2); OFF(w2, q[4], want, "closest point with parameter"); REQ(psq(w2, q[0], q[1]) <= e2, "closest point with parameter is off the segment"); Q raw = qd(q[4] - q[0], q[1] - q[0]) / l2; REQ(nearq<F>(t < 0 ? (F)0 : t > 1 ? (F)1 : t, raw < 0 ? Q(0) : raw > 1 ? Q(1) : raw, A / l2, 16), "parameter of the closest point is " << (ld)t << ", should be " << (ld)raw); QP at_ = at(q[0], q[1], k); REQ(qabs(w.x - at_.x) + qabs(w.y - at_.y) <= 64 * K<F>::eps() * A / qsqrt(l2), "closest point is displaced along the segment"); NQ(point_segment_distance_sqrd(p[4], p[0], p[1]), want, A); count("closest points"); }
    { Q len = qsqrt(qd(q[1] - q[0], q[1] - q[0])), want = qabs(qx(q[1] - q[0], q[4] - q[0])) / len; NQ(point_point_distance(p[0], p[4]), qsqrt(qd(q[4] - q[0], q[4] - q[0])), E); NQ(point_point_distance_sqrd(p[0], p[4]), qd(q[4] - q[0], q[4] - q[0]), A); line<P> ln(p[0], p[1]); NQ(point_line_distance(p[4], ln), want, E * 2); P mp = segment_mid_point(S(p[0], p[1])); NQ(get<0>(mp), (q[0].x + q[1].x) / 2, E); NQ(get<1>(mp), (q[0].y + q[1].y) / 2, E); count("line distances"); }
    { L l; G g; for (int i = 0; i < 4; ++i) l.push_back(p[i]), g.push_back(p[i]); Q bl = -1, bg = -1; for (int i = 0; i < 4; ++i) { Q d = psq(q[4], q[i], q[(i + 1) % 4]); if (i < 3 && (bl < 0 || d < bl)) bl = d; if (bg < 0 || d < bg) bg = d; } auto on = [&](QP w, int n) { Q b = -1; for (int i = 0; i < n; ++i) { Q d = psq(w, q[i], q[(i + 1) % 4]); if (b < 0 || d < b) b = d; } return b; }; P a = point_polyline_closest_point(p[4], l), b = point_polygon_closest_point(p[4], g); OFF(qp(a), q[4], bl, "closest point of a polyline"); OFF(qp(b), q[4], bg, "closest point of a polygon"); REQ(on(qp(a), 3) <= e2 && on(qp(b), 4) <= e2, "closest point is off the outline"); NQ(point_polyline_distance_sqrd(p[4], l), bl, A); NQ(point_polygon_distance_sqrd(p[4], g), bg, A); count("outline distances");
      bool ok = true; Q sg = -1, sl = -1; for (int i = 0; i < 4; ++i) { int j = (i + 1) % 4; if (!slanted(z[5] - z[4], z[j] - z[i])) { ok = false; break; } Q d = segs_meet(z[4], z[5], z[i], z[j]) ? Q(0) : std::min(std::min(psq(q[4], q[i], q[j]), psq(q[5], q[i], q[j])), std::min(psq(q[i], q[4], q[5]), psq(q[j], q[4], q[5]))); if (i < 3 && (sl < 0 || d < sl)) sl = d; if (sg < 0 || d < sg) sg = d; }
      if (ok) { NQ(segment_polyline_distance_sqrd(p[4], p[5], l, tight), sl, A); NQ(segment_polygon_distance_sqrd(S(p[4], p[5]), g, tight), sg, A); std::size_t k = 99; F s = -7, t = -7; P c1, c2; auto d2 = segment_polyline_closest_point(S(p[4], p[5]), l, k, s, t, c1, c2, tight); REQ(k < 3 && nearq<F>(d2, sl, A), "squared distance of the closest pair is " << (ld)d2 << ", should be " << (ld)sl); REQ(psq(qp(c1), q[4], q[5]) <= e2 * 4 && psq(qp(c2), q[k], q[k + 1]) <= e2 * 4, "a closest pair is off its edges"); QP w = qp(c2) - qp(c1); REQ(qabs(qd(w, w) - sl) <= 64 * K<F>::eps() * A, "the closest pair is " << (ld)qsqrt(qd(w, w)) << " apart, should be " << (ld)qsqrt(sl)); QP a1 = at(q[4], q[5], s), a2 = at(q[k], q[k + 1], t); REQ(qabs(a1.x - qp(c1).x) + qabs(a1.y - qp(c1).y) + qabs(a2.x - qp(c2).x) + qabs(a2.y - qp(c2).y) <= 64 * K<F>::eps() * E * 4, "the parameters of the closest pair do not give its points"); count("closest pairs"); } }
    if (slanted(z[1] - z[0], z[3] - z[2])) { Q sq = segs_meet(z[0], z[1], z[2], z[3]) ? Q(0) : std::min(std::min(psq(q[0], q[2], q[3]), psq(q[1], q[2], q[3])), std::min(psq(q[2], q[0], q[1]), psq(q[3], q[0], q[1]))); F s = -7, t = -7; P c1, c2; auto d2 = segment_segment_closest_point(p[0], p[1], p[2], p[3], s, t, c1, c2, tight); REQ(nearq<F>(d2, sq, A), "squared distance of the closest pair is " << (ld)d2); REQ(psq(qp(c1), q[0], q[1]) <= e2 * 4 && psq(qp(c2), q[2], q[3]) <= e2 * 4, "a closest pair is off its segments"); QP w = qp(c2) - qp(c1); REQ(qabs(qd(w, w) - sq) <= 64 * K<F>::eps() * A, "the closest pair is not at the least distance");
      P X; F a = -7, b = -7; auto k = line_line_intersect(p[0], p[1], p[2], p[3], X, a, b, tight); REQ(k == e_crossing, "crossing lines are reported " << k); Q den = qx(q[1] - q[0], q[3] - q[2]), w1 = qx(q[2] - q[0], q[3] - q[2]) / den, w2 = qx(q[2] - q[0], q[1] - q[0]) / den; QP h = at(q[0], q[1], w1); Q span = (qabs(w1) + 1) * 5; NQ(get<0>(X), h.x, E * span); NQ(get<1>(X), h.y, E * span); NQ(a, w1, A / qabs(den) * 2 * span); NQ(b, w2, A / qabs(den) * 2 * (qabs(w2) + 1)); count("line crossings"); }
    { I2 a{std::min(z[0].x, z[1].x), std::min(z[0].y, z[1].y)}, b{std::max(z[0].x, z[1].x), std::max(z[0].y, z[1].y)}, d{std::min(z[2].x, z[3].x), std::min(z[2].y, z[3].y)}, e{std::max(z[2].x, z[3].x), std::max(z[2].y, z[3].y)}; auto pt = [&](I2 w) { return P((F)w.x * u, (F)w.y * u); }; axis_aligned_bounding_box<P> b1(pt(a), pt(b)), b2(pt(d), pt(e)); Q gx = std::max(std::max(d.x - b.x, a.x - e.x), 0L), gy = std::max(std::max(d.y - b.y, a.y - e.y), 0L), want = (gx * gx + gy * gy) * (Q)u * u; NQ(aabb_aabb_distance_sqrd(b1, b2), want, A); P n = point_aabb_closest_point(p[4], b1); I2 w{std::min(std::max(z[4].x, a.x), b.x), std::min(std::max(z[4].y, a.y), b.y)}; REQ(get<0>(n) == (F)w.x * u && get<1>(n) == (F)w.y * u, "closest point of a box"); count("boxes");
      F x0 = get<0>(p[4]), y0 = get<1>(p[4]), x1 = get<0>(p[5]), y1 = get<1>(p[5]); Q lo = 0, hi = 1; bool edge = false; for (int k = 0; k < 2; ++k) { long o = k ? z[4].y : z[4].x, f = k ? z[5].y : z[5].x, l0 = k ? a.y : a.x, h0 = k ? b.y : b.x; if (o == f) { if (o < l0 || o > h0) hi = -1; if (o == l0 || o == h0) edge = true; } else { Q t0 = (Q)(l0 - o) / (f - o), t1 = (Q)(h0 - o) / (f - o); if (t0 > t1) std::swap(t0, t1); lo = std::max(lo, t0); hi = std::min(hi, t1); } } if (!edge && qabs(hi - lo) > (Q)1e-3) { bool got = cohen_sutherland_line_clip(x0, y0, x1, y1, (F)a.x * u, (F)b.x * u, (F)a.y * u, (F)b.y * u, tight); REQ(got == (lo < hi), "clipping says " << got); if (got) { QP s = at(q[4], q[5], lo), t = at(q[4], q[5], hi); Q d[4] = {s.x - x0, s.y - y0, t.x - x1, t.y - y1}; for (Q x : d) REQ(qabs(x) <= 64 * K<F>::eps() * E * 4, "a clipped end is off by " << (ld)x); count("clipped segments"); } } }
}
GROUP(closest_single, 6000, 200000) { closest<float>(c); }
GROUP(closest_extended, 6000, 200000) { closest<ld>(c); }
template <class F> static void hits(Case& c) {
    Rng& r = c.rng; typedef typename K<F>::P P; typedef typename K<F>::V V; typedef typename K<F>::S S; F u = unit<F>(r); long m = 8; I2 z[5]; for (auto& x : z) x = rpt(r, m); c.in("unit", (double)u); for (auto& x : z) c.in("p", x); P p[5]; QP q[5]; for (int i = 0; i < 5; ++i) p[i] = P((F)z[i].x * u, (F)z[i].y * u), q[i] = qp(p[i]); if (z[0] == z[1] || z[2] == z[3]) SKIP_CASE(); Q E = (Q)u * m * 3, A = E * E; bool ext = sizeof(F) != 4; typename K<F>::A tight(ext ? (F)(u * (F)1e-15L) : (F)(u * (F)1e-5)); V d = normalize(p[1] - p[0]); QP D{(Q)d[0], (Q)d[1]};
    { I2 a{std::min(z[2].x, z[3].x), std::min(z[2].y, z[3].y)}, b{std::max(z[2].x, z[3].x), std::max(z[2].y, z[3].y)}; if (a.x < b.x && a.y < b.y && qabs(D.x) > (Q)0.2 && qabs(D.y) > (Q)0.2) { axis_aligned_bounding_box<P> bb(P((F)a.x * u, (F)a.y * u), P((F)b.x * u, (F)b.y * u)); Q t0x = ((Q)(F)((F)a.x * u) - q[0].x) / D.x, t1x = ((Q)(F)((F)b.x * u) - q[0].x) / D.x, t0y = ((Q)(F)((F)a.y * u) - q[0].y) / D.y, t1y = ((Q)(F)((F)b.y * u) - q[0].y) / D.y; if (t0x > t1x) std::swap(t0x, t1x); if (t0y > t1y) std::swap(t0y, t1y); Q in = std::max(t0x, t0y), out = std::min(t1x, t1y); Q g = (Q)u * (Q)0.02; if (qabs(in - out) > g && qabs(in) > g && qabs(out) > g) { bool hit = in < out && out > 0; F t = -7, te = -7, tx = -7; P x, y, w; bool got = (bool)ray_aabb_intersection(p[0], d, bb, t, x, tight); REQ(got == hit, "ray against box is " << got); if (hit && in > 0) { REQ(nearq<F>(t, in, E * 2), "ray enters the box at " << (ld)t << ", should be " << (ld)in); QP h{q[0].x + in * D.x, q[0].y + in * D.y}; REQ(nearq<F>(get<0>(x), h.x, E * 2) && nearq<F>(get<1>(x), h.y, E * 2), "entry point"); bool both = (bool)ray_aabb_intersection(p[0], d, bb, te, y, tx, w, tight); REQ(both && nearq<F>(te, in, E * 2) && nearq<F>(tx, out, E * 2), "ray is in the box from " << (ld)te << " to " << (ld)tx << ", should be " << (ld)in << " to " << (ld)out); count("box hits"); } else count(hit ? "ray starts in the box" : "box misses"); } } }
    { long R = r.in(1, 6); sphere<2, P> s(p[4], (F)R * u); QP w = q[0] - q[4]; Q rr = (Q)(F)((F)R * u), b = qd(w, D), cc = qd(w, w) - rr * rr, n2 = qd(D, D), disc = b * b - n2 * cc; if (qabs(disc) > A * (Q)0.002 && qabs(cc) > A * (Q)0.002 && qabs(b) > E * (Q)0.002) { F t = -7; P x; bool got = ray_sphere_intersection(p[0], d, s, t, x, tight); bool hit = disc > 0 && (cc < 0 || b < 0); REQ(got == hit, "ray against circle is " << got); if (hit && cc > 0) { Q want = (-b - qsqrt(disc)) / n2; REQ(nearq<F>(t, want, E * 6), "ray meets the circle at " << (ld)t << ", should be " << (ld)want); QP h{q[0].x + want * D.x, q[0].y + want * D.y}; REQ(nearq<F>(get<0>(x), h.x, E * 6) && nearq<F>(get<1>(x), h.y, E * 6), "hit point of the circle"); count("circle hits"); } else count(hit ? "ray starts in the circle" : "circle misses"); } }
    { line<P> l(p[2], p[3]); Q den = qx(D, q[3] - q[2]); Q len = qsqrt(qd(q[3] - q[2], q[3] - q[2])); if (qabs(den) > (Q)0.2 * len) { Q want = qx(q[2] - q[0], q[3] - q[2]) / den; if (qabs(want) > (Q)0.01 * u) { F t = -7; P x; bool got = (bool)ray_line_intersection(p[0], d, l, t, x, tight); REQ(got == (want > 0), "ray against line is " << got); if (got) { REQ(nearq<F>(t, want, E * 6), "ray meets the line at " << (ld)t << ", should be " << (ld)want); QP h{q[0].x + want * D.x, q[0].y + want * D.y}; REQ(nearq<F>(get<0>(x), h.x, E * 6) && nearq<F>(get<1>(x), h.y, E * 6), "hit point of the line"); count("line hits"); } } } }
    { long R = r.in(1, 4), T = r.in(1, 4); V v((F)r.in(-3, 3) * u, (F)r.in(-3, 3) * u), w((F)r.in(-3, 3) * u, (F)r.in(-3, 3) * u); QP rv{(Q)w[0] - (Q)v[0], (Q)w[1] - (Q)v[1]}, s = q[2] - q[0]; Q rr = (Q)(R + T) * u, a = qd(rv, rv), b = qd(rv, s), cc = qd(s, s) - rr * rr, disc = b * b - a * cc; if (a > 0 && qabs(cc) > (Q)0.01 * A / 25 && qabs(disc) > (Q)0.01 * a * (Q)u * u) { sphere<2, P> s0(p[0], (F)R * u), s1(p[2], (F)T * u); F t = -7; P x; bool got = moving_sphere_sphere_intersection(s0, s1, v, w, t, x, tight); bool hit = cc < 0 || (b < 0 && disc > 0); if (cc < 0 || qabs(b) > (Q)0.01 * u * u) { REQ(got == hit, "moving circles are reported " << got); if (hit && cc > 0) { Q want = (-b - qsqrt(disc)) / a; REQ(nearq<F>(t, want, (want + 1) * 10 * A / qsqrt(disc) / qsqrt(a) * qsqrt(a) / E), "circles meet at " << (ld)t << ", should be " << (ld)want); count("moving circles meet"); } else count(hit ? "moving circles overlap" : "moving circles miss"); } } }
    { long R = r.in(1, 3); V v((F)r.in(-4, 4) * u, (F)r.in(-4, 4) * u); QP V_{(Q)v[0], (Q)v[1]}; Q vv = qd(V_, V_), rr = (Q)R * u; if (vv > 0 && psq(q[4], q[2], q[3]) > rr * rr * (Q)1.01 && ext) { QP e = q[3] - q[2]; Q le = qsqrt(qd(e, e)); QP n{-e.y / le, e.x / le}; Q h = qd(q[4] - q[2], n), hv = qd(V_, n); Q first = -1; bool vague = qabs(hv) < (Q)0.1 * u && hv != 0; if (qabs(h) < rr * (Q)1.01 && qabs(h) > rr * (Q)0.99) vague = true; if (h * hv < 0 && qabs(h) > rr) { Q t = (qabs(h) - rr) / qabs(hv); QP ct{q[4].x + t * V_.x, q[4].y + t * V_.y}; Q k = qd(ct - q[2], e) / (le * le); if (qabs(k) < (Q)0.01 || qabs(k - 1) < (Q)0.01) vague = true; if (k > 0 && k < 1) first = t; } for (int k = 2; k < 4; ++k) { QP w = q[4] - q[k]; Q b = qd(w, V_), cc = qd(w, w) - rr * rr, disc = b * b - vv * cc; if (qabs(disc) < vv * (Q)u * u / 20) vague = true; if (b < 0 && disc > 0) { Q t = (-b - qsqrt(disc)) / vv; if (first < 0 || t < first) first = t; } } if (!vague) { S sg(p[2], p[3]); F t = -7; P x; bool got = (bool)moving_sphere_segment_intersection(sphere<2, P>(p[4], (F)R * u), v, sg, t, x, tight); bool hit = first >= 0; if (got == hit) { if (hit) { REQ(nearq<F>(t, first, (first + 1) * 30), "circle meets the segment at " << (ld)t << ", should be " << (ld)first); count("circle meets segment"); } else count("circle misses segment"); } else REQ(got == hit, "circle against segment is " << got); } } }
    { bool h = r.p(0.5); V a = h ? V((F)(r.p(0.5) ? 1 : -1), (F)0) : V((F)0, (F)(r.p(0.5) ? 1 : -1)); F row = (F)r.in(-5, 5) * u; long o = r.in(-6, 6), x0 = r.in(-6, 6), x1 = r.in(-6, 6); if (x0 != x1 && o != x0 && o != x1) { auto mk = [&](long k) { return h ? P((F)k * u, row) : P(row, (F)k * u); }; F sg = h ? get<0>(a) : get<1>(a); Q t0 = ((Q)(F)((F)x0 * u) - (Q)(F)((F)o * u)) * (Q)sg, t1 = ((Q)(F)((F)x1 * u) - (Q)(F)((F)o * u)) * (Q)sg; F t = -7; P y[2]; auto k = ray_segment_intersection(mk(o), a, mk(x0), mk(x1), t, y, tight); bool hit = t0 > 0 || t1 > 0; REQ(k == (hit ? e_overlapping : e_non_crossing), "a ray along a segment is reported " << (int)k); if (hit) { Q lo = std::min(t0, t1), hi = std::max(t0, t1); if (lo < 0) lo = 0; REQ(nearq<F>(t, lo, E), "the ray enters the segment on its line at " << (ld)t << ", should be " << (ld)lo); for (int i = 0; i < 2; ++i) { Q got = ((Q)(h ? get<0>(y[i]) : get<1>(y[i])) - (Q)(F)((F)o * u)) * (Q)sg; REQ(qabs(got - (i ? hi : lo)) <= 16 * K<F>::eps() * E, "end " << i << " of the part of the segment on the ray"); } count("rays along a segment"); } else count("rays away from a segment on their line"); } }
}
GROUP(hits_single, 6000, 200000) { hits<float>(c); }
GROUP(hits_extended, 6000, 200000) { hits<ld>(c); }
template <class F> static void measures(Case& c) {
    Rng& r = c.rng; typedef typename K<F>::P P; typedef typename K<F>::V V; typedef typename K<F>::G G; typedef typename K<F>::L L; F u = unit<F>(r); c.in("unit", (double)u);
    { IPoly g = any_poly(r, 12); Q mx = 1; for (auto& x : g) mx = std::max(mx, (Q)std::max(std::labs(x.x), std::labs(x.y))); i128 a2 = area2(g); c.in("polygon", g); G G_; std::vector<QP> w; for (auto& x : g) G_.push_back(P((F)x.x * u, (F)x.y * u)), w.push_back(qp(G_.back())); Q S2_ = 0, cx = 0, cy = 0; for (std::size_t i = 0; i < w.size(); ++i) { QP a = w[i], b = w[(i + 1) % w.size()]; Q x = qx(a, b); S2_ += x; cx += (a.x + b.x) * x; cy += (a.y + b.y) * x; } Q M = mx * u; NQ(get_area(G_), qabs(S2_) / 2, M * M * (Q)w.size() / 2); if ((double)ab(a2) > 0.3 * (double)(mx * mx)) { P k = get_centroid(G_); Q sz = M * M * M * (Q)w.size() / qabs(S2_); NQ(get<0>(k), cx / (3 * S2_), sz); NQ(get<1>(k), cy / (3 * S2_), sz); count("centroids"); } }
    { std::vector<I2> v; int n = (int)r.in(2, 8); for (int i = 0; i < n; ++i) { I2 z = rpt(r, 6); if (!v.empty() && v.back() == z) { --i; continue; } if (v.size() > 1 && (crossi(v.back() - v[v.size() - 2], z - v.back()) == 0 || z == v[v.size() - 2])) { --i; continue; } v.push_back(z); } c.in("polyline", v); L l; std::vector<QP> q; std::vector<Q> at{0}; for (auto& z : v) l.push_back(P((F)z.x * u, (F)z.y * u)), q.push_back(qp(l.back())); for (int i = 0; i + 1 < n; ++i) at.push_back(at.back() + qsqrt(qd(q[i + 1] - q[i], q[i + 1] - q[i]))); Q E = (Q)u * 40; F pos = (F)(at.back() * (Q)r.real(0.02, 0.98)); bool near = false; for (Q t : at) near = near || qabs(t - pos) < (Q)1e-2 * u; if (!near) { std::size_t i = 0; while (at[i + 1] < pos) ++i; QP w = ::at(q[i], q[i + 1], ((Q)pos - at[i]) / (at[i + 1] - at[i])); auto got = polyline_point_at_position(l, pos); REQ(!!std::get<1>(got), "no point at the position"); P g = *std::get<1>(got); REQ(std::get<0>(got) == i, "the position is on edge " << std::get<0>(got) << ", should be " << i); NQ(get<0>(g), w.x, E * 2); NQ(get<1>(g), w.y, E * 2); count("positions"); }
      Q ts = 0, ta = 0, sz = 1; for (int j = 1; j + 1 < n; ++j) { QP a = q[j] - q[j - 1], b = q[j + 1] - q[j], d = q[j + 1] - q[j - 1]; Q la = qd(a, a), lb = qd(b, b), le = qd(d, d), k = 2 * qx(a, b) / qsqrt(la * lb * le), rel = (qsqrt(la) + qsqrt(lb)) / 2, tt = k * rel; ts += tt; ta += qabs(tt); Q cond = (Q)u * 12 / qsqrt(le) + (Q)u * 12 / qsqrt(la) + (Q)u * 12 / qsqrt(lb); sz += rel / qsqrt(le) * 2 * cond; NR(polyline_signed_curvature_at_index(l, j), k, 2 / qsqrt(le) * cond); } NR(polyline_total_curvature(l), ts, sz); NR(polyline_total_absolute_curvature(l), ta, sz); count("curvatures"); }
    { F x = rv<F>(r, 10), y = rv<F>(r, 10), a = rv<F>(r, 10), b = rv<F>(r, 10); Q m = qsqrt((Q)x * x + (Q)y * y), k = qsqrt((Q)a * a + (Q)b * b); if (m > 1 && k > 1) { V s(x, y), t(a, b); V pr = vector_projection(s, t); Q d = ((Q)x * a + (Q)y * b) / (k * k); NQ(get<0>(pr), d * a, m); NQ(get<1>(pr), d * b, m); Q cr = ((Q)x * b - (Q)y * a) / (m * k), dt = ((Q)x * a + (Q)y * b) / (m * k); if (qabs(cr) > (Q)0.05 || dt > (Q)0.5) if (qabs(cr) > (Q)1e-3) { V h = bisect(s, t); QP o{(Q)x / m, (Q)y / m}, e{(Q)a / k, (Q)b / k}; QP sum{o.x + e.x, o.y + e.y}; Q sn = qsqrt(qd(sum, sum)); if (sn > (Q)0.3) { Q sg = cr > 0 ? 1 : -1; NQ(get<0>(h), sg * sum.x / sn, Q(4)); NQ(get<1>(h), sg * sum.y / sn, Q(4)); count("bisectors"); F f = (F)r.in(0, 8) / 8; V uo = normalize(s), ue = normalize(t); V li = lerp(uo, ue, f); QP lw{o.x + (Q)f * (e.x - o.x), o.y + (Q)f * (e.y - o.y)}; Q ln = qsqrt(qd(lw, lw)); if (ln > (Q)0.2) { NQ(get<0>(li), lw.x / ln, Q(8)); NQ(get<1>(li), lw.y / ln, Q(8)); } } } count("projections"); } }
}
GROUP(measures_single, 6000, 200000) { measures<float>(c); }
GROUP(measures_extended, 6000, 200000) { measures<ld>(c); }
