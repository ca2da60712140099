#include "conv.hpp"
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/algebra/lup_decomposition.hpp>
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
#include <geometrix/algorithm/median_partitioning_strategy.hpp>
#include <geometrix/algorithm/hyperplane_partition_policies.hpp>
#include <geometrix/algorithm/solid_leaf_bsp_tree.hpp>
typedef geometrix::point<float, 2> PF; typedef geometrix::point<long double, 2> PX; typedef geometrix::sphere<2, PF> CF; typedef geometrix::sphere<2, PX> CX;
GEOMETRIX_DEFINE_SPHERE_TRAITS(2, PF, CF); GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(CF); GEOMETRIX_DEFINE_SPHERE_TRAITS(2, PX, CX); GEOMETRIX_DEFINE_SPHERE_ACCESS_TRAITS(CX);
#include "C45.hpp"
template <class F> static void vectors(Case& c) {
    Rng& r = c.rng; typedef typename K<F>::V V; typedef typename K<F>::P P; typedef typename K<F>::V3 V3; double s = r.pick(std::vector<double>{1, 10, 1e3, 1e-3}); F k[12]; for (auto& x : k) x = rv<F>(r, s); for (auto& x : k) c.in("x", (double)x); V a(k[0], k[1]), b(k[2], k[3]); P p(k[4], k[5]), q(k[6], k[7]); V3 u(k[0], k[1], k[2]), w(k[3], k[4], k[5]); Q z[12]; for (int i = 0; i < 12; ++i) z[i] = k[i]; Q S = s, A = S * S;
    NQ(dot_product(a, b), z[0] * z[2] + z[1] * z[3], A); NQ(dot_product(u, w), z[0] * z[3] + z[1] * z[4] + z[2] * z[5], A); NQ(exterior_product_area(a, b), z[0] * z[3] - z[1] * z[2], A); NQ(magnitude_sqrd(a), z[0] * z[0] + z[1] * z[1], A); NQ(magnitude(a), qsqrt(z[0] * z[0] + z[1] * z[1]), S); NQ(magnitude(u), qsqrt(z[0] * z[0] + z[1] * z[1] + z[2] * z[2]), S);
    NQ(point_point_distance(p, q), qsqrt((z[4] - z[6]) * (z[4] - z[6]) + (z[5] - z[7]) * (z[5] - z[7])), S); NQ(point_point_distance_sqrd(p, q), (z[4] - z[6]) * (z[4] - z[6]) + (z[5] - z[7]) * (z[5] - z[7]), A * 4);
    Q m = qsqrt(z[0] * z[0] + z[1] * z[1]); if (m > S / 100) { V n = normalize(a); NQ(get<0>(n), z[0] / m, Q(1)); NQ(get<1>(n), z[1] / m, Q(1)); V o = n * magnitude(a); NQ(get<0>(o), z[0], S); }
    P t = p + a; NQ(get<0>(t), z[4] + z[0], S); t = p - b; NQ(get<1>(t), z[5] - z[3], S); t = p + k[8] * a; NQ(get<0>(t), z[4] + z[8] * z[0], S + A); V d = p - q; NQ(get<1>(d), z[5] - z[7], S); d = a + b; NQ(get<0>(d), z[0] + z[2], S); d = -a; NQ(get<1>(d), -z[1], S); d = a * k[9]; NQ(get<1>(d), z[1] * z[9], A); if (qabs(z[10]) > S / 100) { d = a / k[10]; NQ(get<0>(d), z[0] / z[10], Q(100)); }
    V3 x; x <<= u ^ w; NQ(get<0>(x), z[1] * z[5] - z[2] * z[4], A); NQ(get<1>(x), z[2] * z[3] - z[0] * z[5], A); NQ(get<2>(x), z[0] * z[4] - z[1] * z[3], A);
    matrix<F, 2, 2> M, N, O; M[0][0] = k[0]; M[0][1] = k[1]; M[1][0] = k[2]; M[1][1] = k[3]; N[0][0] = k[8]; N[0][1] = k[9]; N[1][0] = k[10]; N[1][1] = k[11]; O <<= M * N; NQ(O[0][1], z[0] * z[9] + z[1] * z[11], A); NQ(O[1][0], z[2] * z[8] + z[3] * z[10], A); NQ(determinant(M), z[0] * z[3] - z[1] * z[2], A); V y; y <<= M * b; NQ(get<1>(y), z[2] * z[2] + z[3] * z[3], A);
    Q D = z[0] * z[3] - z[1] * z[2]; if (qabs(D) > A / 10) { O <<= inv(M); NQ(O[0][0], z[3] / D, 100 / S); NQ(O[0][1], -z[1] / D, 100 / S); NQ(O[1][0], -z[2] / D, 100 / S); NQ(O[1][1], z[0] / D, 100 / S); boost::array<std::size_t, 2> pi; boost::array<F, 2> rhs = {{k[4], k[5]}}; matrix<F, 2, 2> lu = M; geometrix::lup_decomposition(lu, pi); auto sol = geometrix::lup_solve(lu, pi, rhs); NQ(sol[0], (z[3] * z[4] - z[1] * z[5]) / D, Q(100)); NQ(sol[1], (z[0] * z[5] - z[2] * z[4]) / D, Q(100)); count("systems solved"); }
    matrix<F, 3, 3> T; for (int i = 0; i < 9; ++i) T[i / 3][i % 3] = k[i]; NQ(determinant(T), z[0] * (z[4] * z[8] - z[5] * z[7]) - z[1] * (z[3] * z[8] - z[5] * z[6]) + z[2] * (z[3] * z[7] - z[4] * z[6]), A * S); }
GROUP(vectors_single, 6000, 200000) { vectors<float>(c); }
GROUP(vectors_extended, 6000, 200000) { vectors<ld>(c); }
// pairs of directions whose cross product is +-1 although their coordinates are large
static void unimodular(Rng& r, long lim, long v[4]) { v[0] = v[3] = 1; v[1] = v[2] = 0; for (;;) { long k = r.in(1, 3); bool s = r.p(0.5); long a = s ? v[0] + k * v[2] : v[0], b = s ? v[1] + k * v[3] : v[1], d = s ? v[2] : v[2] + k * v[0], e = s ? v[3] : v[3] + k * v[1]; if (std::max(std::max(a, b), std::max(d, e)) > lim) return; v[0] = a; v[1] = b; v[2] = d; v[3] = e; } }
template <class F> static void predicates(Case& c) {
    Rng& r = c.rng; typedef typename K<F>::P P; typedef typename K<F>::G G; long big = sizeof(F) == 4 ? 250 : 1L << 27; long v[4]; unimodular(r, r.p(0.2) ? 20 : big, v); if (r.p(0.5)) for (int i = 0; i < 4; i += 2) { std::swap(v[i], v[i + 1]); } int sx = r.p(0.5) ? 1 : -1, sy = r.p(0.5) ? 1 : -1; I2 a{r.in(-big, big), r.in(-big, big)}, d{sx * v[0], sy * v[1]}, e{sx * v[2], sy * v[3]}; long kk = r.in(1, 3), jj = r.in(-1, 4); I2 b{a.x + kk * d.x, a.y + kk * d.y}, q = r.p(0.3) ? a + e : r.p(0.25) ? I2{a.x + jj * d.x, a.y + jj * d.y} : r.p(0.5) ? b + e : r.p(0.5) ? a + d + d : I2{r.in(-big, big), r.in(-big, big)};
    c.in("a", a); c.in("b", b); c.in("c", q); P A((F)a.x, (F)a.y), B((F)b.x, (F)b.y), C((F)q.x, (F)q.y); int w = orient(a, b, q); direct_comparison_policy dc; typename K<F>::A ac((F)0.5); auto want = w > 0 ? oriented_left : w < 0 ? oriented_right : oriented_collinear; count(w == 0 ? "collinear" : "turning by less than a rounding of the next narrower type");
    REQ(get_orientation(A, B, C, dc) == want && get_orientation(A, B, C, ac) == want, "orientation is " << get_orientation(A, B, C, dc) << ", should be " << want); REQ(get_orientation(C, B, A, dc) == (w > 0 ? oriented_right : w < 0 ? oriented_left : oriented_collinear), "orientation of the reverse"); if (a != b) { bool in = on_seg(q, a, b); count(in ? "between" : "not between"); REQ(is_between(A, B, C, true, ac) == in, "is_between is " << !in); } REQ(is_collinear(A, B, C, ac) == (w == 0), "collinear is " << (w != 0));
    IPoly g = any_poly(r, 12); long mx = 1; for (auto& x : g) mx = std::max(mx, std::max(std::labs(x.x), std::labs(x.y))); long k = sizeof(F) == 4 ? (mx < 200 ? 3 : 1) : std::min<long>((1L << 27) / mx, 1000003); if (k < 1 || (sizeof(F) == 4 && mx > 900)) SKIP_CASE(); for (auto& x : g) x = {x.x * k, x.y * k}; I2 t = r.pick(g); I2 o = r.p(0.6) ? I2{t.x + r.in(-2, 2), t.y + r.in(-2, 2)} : I2{r.in(-mx * k, mx * k), r.in(-mx * k, mx * k)}; c.in("polygon", g); c.in("point", o); int in = in_poly(g, o); G G_; for (auto& x : g) G_.push_back(P((F)x.x, (F)x.y)); P O((F)o.x, (F)o.y);
    if (in) { REQ(point_in_polygon(O, G_) == (in > 0), "point in polygon is " << (in < 0)); count(in > 0 ? "inside" : "outside"); } else count("border point"); bool simple = mx > 100 || is_polygon_simple(G_, typename K<F>::A((F)(64 * K<F>::eps()))); REQ(simple, "simple polygon is called not simple"); i128 a2 = area2(g); auto ar = get_signed_area(G_); TY(ar); REQ(nearq<F>(ar, (Q)a2 / 2, (Q)mx * k * mx * k * 4, 16), "signed area " << (ld)ar << ", should be " << (ld)a2 / 2); count("areas"); }
GROUP(predicates_single, 8000, 300000) { predicates<float>(c); }
GROUP(predicates_extended, 8000, 300000) { predicates<ld>(c); }
template <class F> static void distances(Case& c) {
    Rng& r = c.rng; typedef typename K<F>::P P; typedef typename K<F>::S S; typedef typename K<F>::G G; typedef typename K<F>::L L; F u = unit<F>(r); long m = r.p(0.5) ? 4 : 10; I2 z[6]; for (auto& x : z) x = rpt(r, m); for (auto& x : z) c.in("p", x); c.in("unit", (double)u); if (z[0] == z[1] || z[2] == z[3]) SKIP_CASE(); P p[6]; QP q[6]; for (int i = 0; i < 6; ++i) p[i] = P((F)z[i].x * u, (F)z[i].y * u), q[i] = qp(p[i]); Q E = (Q)u * m * 3, A = E * E; typename K<F>::A cmp((F)(u * (F)1e-5)); bool ext = sizeof(F) != 4; typename K<F>::A tight(ext ? (F)(u * (F)1e-15L) : (F)(u * (F)1e-5)); S s(p[0], p[1]), t(p[2], p[3]);
    NQ(point_segment_distance_sqrd(p[4], s), psq(q[4], q[0], q[1]), A); { auto d = point_segment_distance(p[4], s); TY(d); REQ(nearq<F>(d * d, psq(q[4], q[0], q[1]), A), "point-segment distance " << (ld)d); }
    { P n = point_segment_closest_point(p[4], s); QP w = qp(n); REQ(qabs(qd(q[4] - w, q[4] - w) - psq(q[4], q[0], q[1])) <= 64 * K<F>::eps() * A && psq(w, q[0], q[1]) <= 64 * 64 * K<F>::eps() * K<F>::eps() * A, "closest point " << (ld)get<0>(n) << "," << (ld)get<1>(n) << " is not on the segment at the least distance"); }
    I2 d1 = z[1] - z[0], d2 = z[3] - z[2]; i128 cr = crossi(d1, d2); bool slant = cr == 0 || (double)(cr < 0 ? -cr : cr) > 0.2 * std::sqrt((double)doti(d1, d1) * (double)doti(d2, d2)); bool meet = segs_meet(z[0], z[1], z[2], z[3]); Q sq = meet ? Q(0) : std::min(std::min(psq(q[0], q[2], q[3]), psq(q[1], q[2], q[3])), std::min(psq(q[2], q[0], q[1]), psq(q[3], q[0], q[1])));
    if (slant) { NQ(segment_segment_distance_sqrd(s, t, tight), sq, A); P X[2]; auto k = segment_segment_intersection(s, t, X, tight); bool hit = k != e_non_crossing; REQ(hit == meet, "segments " << (meet ? "meet" : "do not meet") << " but the intersection is " << k); if (cr != 0 && meet) { Q w = qx(q[2] - q[0], q[3] - q[2]) / qx(q[1] - q[0], q[3] - q[2]); QP h = at(q[0], q[1], w); NQ(get<0>(X[0]), h.x, E * 2); NQ(get<1>(X[0]), h.y, E * 2); count("crossing points"); } if (k == e_overlapping) count("overlaps"); else if (!meet) count("segments apart");
        typename K<F>::V dir = normalize(p[1] - p[0]); F tt = -7; P Y[2]; auto rk = ray_segment_intersection(p[0], dir, t, tt, Y, tight); if (cr != 0) { Q den = qx(q[1] - q[0], q[3] - q[2]), w = qx(q[2] - q[0], q[3] - q[2]) / den, o = qx(q[2] - q[0], q[1] - q[0]) / den; if (qabs(w) > 1e-3 && qabs(o) > 1e-3 && qabs(o - 1) > 1e-3) { bool in = w > 0 && o > 0 && o < 1; REQ((rk != e_non_crossing) == in, "ray-segment is " << rk << ", should " << (in ? "" : "not ") << "meet"); if (in) { Q len = qsqrt(qd(q[1] - q[0], q[1] - q[0])); REQ(nearq<F>(tt, w * len, E * 4), "ray parameter " << (ld)tt << ", should be " << (ld)(w * len)); QP h = at(q[0], q[1], w); REQ(nearq<F>(get<0>(Y[0]), h.x, E * 4) && nearq<F>(get<1>(Y[0]), h.y, E * 4), "ray hit point"); count("ray hits"); } } } }
    I2 lo{std::min(z[2].x, z[3].x), std::min(z[2].y, z[3].y)}, hi{std::max(z[2].x, z[3].x), std::max(z[2].y, z[3].y)}; axis_aligned_bounding_box<P> bb(P((F)lo.x * u, (F)lo.y * u), P((F)hi.x * u, (F)hi.y * u)); Q bx = 0, by = 0; long gx = std::max(std::max(lo.x - z[4].x, z[4].x - hi.x), 0L), gy = std::max(std::max(lo.y - z[4].y, z[4].y - hi.y), 0L); bx = (Q)gx * u; by = (Q)gy * u; NQ(point_aabb_distance_sqrd(p[4], bb), bx * bx + by * by, A); NQ(point_aabb_distance(p[4], bb), qsqrt(bx * bx + by * by), E);
    { long r1 = r.in(1, m), r2 = r.in(1, m); c.in("r1", r1); c.in("r2", r2); sphere<2, P> a(p[0], (F)r1 * u), b(p[2], (F)r2 * u); long dd = (long)doti(z[0] - z[2], z[0] - z[2]); if (dd != (r1 + r2) * (r1 + r2) && dd != (r1 - r2) * (r1 - r2)) { bool two = dd < (r1 + r2) * (r1 + r2) && dd > (r1 - r2) * (r1 - r2); auto o = circle_circle_intersection(a, b, tight); REQ((o.State == circle_intersection_state::two_intersections) == two, "circles " << (two ? "cross" : "do not cross")); if (two) for (int k = 0; k < 2; ++k) { P x = k ? *o.IntersectionPoint1 : *o.IntersectionPoint0; QP y = qp(x); for (int j = 0; j < 2; ++j) { QP ce = j ? q[2] : q[0]; Q R = (Q)(j ? r2 : r1) * u; REQ(qabs(qd(y - ce, y - ce) - R * R) <= 512 * K<F>::eps() * A, "circle crossing is off circle " << j << " by " << (ld)((qd(y - ce, y - ce) - R * R) / A)); } count("circle crossings"); } } }
    { G g; L l; IPoly ig; for (int i = 0; i < 6; ++i) if (ig.empty() || (ig.back() != z[i])) ig.push_back(z[i]), l.push_back(p[i]); Q len = 0; for (std::size_t i = 0; i + 1 < l.size(); ++i) len += qsqrt(qd(qp(l[i + 1]) - qp(l[i]), qp(l[i + 1]) - qp(l[i]))); NQ(polyline_length(l), len, E * 6); Q best = -1; P o((F)r.in(-m, m) * u, (F)r.in(-m, m) * u); for (std::size_t i = 0; i + 1 < l.size(); ++i) { Q d = psq(qp(o), qp(l[i]), qp(l[i + 1])); if (best < 0 || d < best) best = d; } auto d = point_polyline_distance(o, l); TY(d); REQ(nearq<F>(d * d, best, A), "point-polyline distance " << (ld)d << ", should be " << (ld)qsqrt(best)); } }
GROUP(distances_single, 8000, 300000) { distances<float>(c); }
GROUP(distances_extended, 8000, 300000) { distances<ld>(c); }
template <class F> static void structures(Case& c) {
    Rng& r = c.rng; typedef typename K<F>::P P; typedef typename K<F>::S S; F u = unit<F>(r); c.in("unit", (double)u); typename K<F>::A cmp((F)(u * (F)1e-4)); int n = (int)r.in(1, 60); std::vector<P> v; std::vector<I2> iv; for (int i = 0; i < n; ++i) { I2 z = rpt(r, 9); iv.push_back(z); v.push_back(P((F)z.x * u, (F)z.y * u)); } c.in("points", iv); kd_tree<P> tree(v, direct_comparison_policy(), median_partitioning_strategy());
    for (int k = 0; k < 4; ++k) { I2 a = rpt(r, 10), b = rpt(r, 10); if (b.x < a.x) std::swap(a.x, b.x); if (b.y < a.y) std::swap(a.y, b.y); std::multiset<std::pair<F, F>> w, g; for (int i = 0; i < n; ++i) if (a.x <= iv[i].x && iv[i].x <= b.x && a.y <= iv[i].y && iv[i].y <= b.y) w.insert({get<0>(v[i]), get<1>(v[i])}); tree.search(axis_aligned_bounding_box<P>(P((F)a.x * u, (F)a.y * u), P((F)b.x * u, (F)b.y * u)), [&](const P& p) { g.insert({get<0>(p), get<1>(p)}); }, direct_comparison_policy()); REQ(w == g, "search finds " << g.size() << " of " << w.size() << " points"); count("searches"); }
    long W = r.in(2, 14), H = r.in(2, 14); F cs = u; grid_traits<F> gt((F)0, (F)W * cs, (F)0, (F)H * cs, cs); grid_traits<double> dt(0., (double)W, 0., (double)H, 1.); REQ(gt.get_width() == dt.get_width() && gt.get_height() == dt.get_height(), "grid is " << gt.get_width() << "x" << gt.get_height() << ", with doubles " << dt.get_width() << "x" << dt.get_height()); auto co = [&](long w) { return r.in(1, 8 * w - 1); }; long ax = co(W) | 1, ay = co(H) | 1, bx = co(W) | 1, by = co(H) | 1; c.in("ax", ax); c.in("ay", ay); c.in("bx", bx); c.in("by", by); P A((F)ax * cs / 8, (F)ay * cs / 8), B((F)bx * cs / 8, (F)by * cs / 8); REQ((long)gt.get_x_index(get<0>(A)) == ax / 8 && (long)gt.get_y_index(get<1>(A)) == ay / 8, "cell of " << ax << "/8," << ay << "/8 is " << gt.get_x_index(get<0>(A)) << "," << gt.get_y_index(get<1>(A)));
    std::vector<std::pair<long, long>> cells; fast_voxel_grid_traversal(gt, S(A, B), [&](std::uint32_t i, std::uint32_t j) { cells.push_back({i, j}); }, cmp); REQ(!cells.empty() && cells.front() == std::make_pair(ax / 8, ay / 8) && cells.back() == std::make_pair(bx / 8, by / 8), "the walk does not join the end cells"); for (auto& ce : cells) { I2 box[4] = {{ce.first * 8, ce.second * 8}, {ce.first * 8 + 8, ce.second * 8}, {ce.first * 8 + 8, ce.second * 8 + 8}, {ce.first * 8, ce.second * 8 + 8}}; IPoly bp(box, box + 4); I2 s{ax, ay}, t{bx, by}; bool touch = in_poly(bp, s) >= 0; for (int i = 0; i < 4; ++i) touch = touch || segs_meet(s, t, box[i], box[(i + 1) % 4]); REQ(touch, "visited cell " << ce.first << "," << ce.second << " which the segment does not meet"); count("cells visited"); } for (std::size_t i = 0; i + 1 < cells.size(); ++i) REQ(std::labs(cells[i + 1].first - cells[i].first) <= 1 && std::labs(cells[i + 1].second - cells[i].second) <= 1, "the walk jumps");
    IPoly g = any_poly(r, 10); long mx = 1; for (auto& x : g) mx = std::max(mx, std::max(std::labs(x.x), std::labs(x.y))); if (mx > 60) return; if (area2(g) > 0) std::reverse(g.begin(), g.end()); c.in("polygon", g); std::vector<S> segs; for (std::size_t i = 0; i < g.size(); ++i) { I2 a = g[i], b = g[(i + 1) % g.size()]; segs.push_back(S(P((F)a.x * u, (F)a.y * u), P((F)b.x * u, (F)b.y * u))); } solid_leaf_bsp_tree<S> t(segs, partition_policies::autopartition_policy(), cmp); for (int k = 0; k < 8; ++k) { I2 o{r.in(-mx, mx), r.in(-mx, mx)}; int in = in_poly(g, o); if (!in) continue; auto got = t.point_in_solid_space(P((F)o.x * u, (F)o.y * u), cmp); REQ(got == (in > 0 ? point_in_solid_classification::in_solid : point_in_solid_classification::in_empty_space), "point " << o << " is classified wrongly"); count("solidity queries"); } }
GROUP(structures_single, 4000, 150000) { structures<float>(c); }
GROUP(structures_extended, 4000, 150000) { structures<ld>(c); }
