#include "geo.hpp"
#include <geometrix/utility/point_angle_compare.hpp>
#include <geometrix/utility/vector_angle_compare.hpp>
#include <geometrix/algorithm/distance/distance_compare.hpp>
using namespace vt;
using namespace geometrix;
struct I3 { long v[3]; };
static void vt_put(Case& c, const I3& p) { for (long x : p.v) vt_put(c, x); }
// Monitors a library comparator over a set of items: every pair against the exact order, every triple for the ordering laws
// (both are implied by pair agreement with a weak order; triples are still checked directly), and std::sort against an exact sort.
template <class T, class X, class Less, class Exact> static void laws(const char* what, std::vector<T> items, std::vector<X> ex, const Less& lib, const Exact& exact) {
    std::size_t n = items.size(); std::vector<std::vector<char>> L(n, std::vector<char>(n));
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) { L[i][j] = lib(items[i], items[j]); bool w = exact(ex[i], ex[j]); REQ((bool)L[i][j] == w, what << ": items " << i << "," << j << " compare " << (int)L[i][j] << " want " << w); }
    for (std::size_t i = 0; i < n; ++i) { REQ(!L[i][i], what << ": irreflexive"); for (std::size_t j = 0; j < n; ++j) { REQ(!(L[i][j] && L[j][i]), what << ": asymmetric"); for (std::size_t k = 0; k < n; ++k) { REQ(!(L[i][j] && L[j][k]) || L[i][k], what << ": transitive"); bool eij = !L[i][j] && !L[j][i], ejk = !L[j][k] && !L[k][j], eik = !L[i][k] && !L[k][i]; REQ(!(eij && ejk) || eik, what << ": equivalence transitive"); } } }
    std::vector<std::size_t> p(n), q; std::iota(p.begin(), p.end(), 0); q = p;
    std::stable_sort(p.begin(), p.end(), [&](std::size_t a, std::size_t b) { return lib(items[a], items[b]); }); std::stable_sort(q.begin(), q.end(), [&](std::size_t a, std::size_t b) { return exact(ex[a], ex[b]); });
    REQ(p == q, what << ": sorted order differs from the exact one"); count(what, n * n);
}
static bool lexi(const I2& a, const I2& b) { return a < b; }
static bool rlex(const I2& a, const I2& b) { return a.y != b.y ? a.y < b.y : a.x < b.x; }
template <class Cmp> static void pts(const std::vector<I2>& v, double s, const I2& o, const Cmp& cmp) {
    std::vector<P2> P; for (auto& p : v) P.push_back(tp(p, s)); lexicographical_comparer<Cmp> lx(cmp); laws("lexicographical 2d", P, v, lx, lexi);
    laws("lexicographically_less_than", P, v, [&](const P2& a, const P2& b) { return lexicographically_less_than(a, b, cmp); }, lexi);
    laws("variadic lexicographical_compare", P, v, [&](const P2& a, const P2& b) { return lexicographical_compare(a[0], b[0], a[1], b[1]); }, lexi);
    laws("reverse lexicographical 2d", P, v, reverse_lexicographical_point_compare<Cmp>(cmp), rlex);
    laws("dimension 0", P, v, dimension_compare<0, Cmp>(cmp), lexi); laws("dimension 1", P, v, dimension_compare<1, Cmp>(cmp), rlex);
    auto dd = [&](const I2& a, const I2& b) { return doti(a - o, a - o) < doti(b - o, b - o); }; laws("distance from a point", P, v, distance_compare<P2, Cmp>(tp(o, s), cmp), dd);
    std::vector<std::pair<P2, int>> pr; std::vector<std::pair<int, P2>> ps; for (std::size_t i = 0; i < P.size(); ++i) pr.emplace_back(P[i], (int)(P.size() - i)), ps.emplace_back((int)i, P[i]);
    laws("pair first", pr, v, pair_first_compare<lexicographical_comparer<Cmp>>(lx), lexi); laws("pair second", ps, v, pair_second_compare<lexicographical_comparer<Cmp>>(lx), lexi);
}
GROUP(points, 1600, 150000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{1, 2, 3, 40, 5000}); double s = rscale(r); int n = (int)r.in(1, std::min(40L, big(r, 12))); std::vector<I2> v; for (int i = 0; i < n; ++i) v.push_back(i && r.p(0.2) ? v[r.in(0, i - 1)] : i && r.p(0.2) ? I2{v[i - 1].x, r.in(-m, m)} : rpt(r, m)); I2 o = rpt(r, m); c.in("points", v); c.in("origin", o); c.in("scale", s); if (n < 2) c.trivial();
    pts(v, s, o, direct()); pts(v, s, o, abs_cmp(1e-10));
}
template <class Cmp> static void pts3(const std::vector<I3>& v, double s, const I3& o, const Cmp& cmp) {
    std::vector<P3> P; for (auto& p : v) P.push_back(P3(p.v[0] * s, p.v[1] * s, p.v[2] * s)); auto lx = [](int a, int b, int d) { return [=](const I3& p, const I3& q) { for (int k : {a, b, d}) if (p.v[k] != q.v[k]) return p.v[k] < q.v[k]; return false; }; };
    laws("lexicographical 3d", P, v, lexicographical_comparer<Cmp>(cmp), lx(0, 1, 2)); laws("reverse lexicographical 3d", P, v, reverse_lexicographical_point_compare<Cmp>(cmp), lx(2, 1, 0));
    laws("dimension 0 of 3d", P, v, dimension_compare<0, Cmp>(cmp), lx(0, 1, 2)); laws("dimension 1 of 3d", P, v, dimension_compare<1, Cmp>(cmp), lx(1, 0, 2)); laws("dimension 2 of 3d", P, v, dimension_compare<2, Cmp>(cmp), lx(2, 0, 1));
    auto q = [&](const I3& a) { long s2 = 0; for (int k = 0; k < 3; ++k) s2 += (a.v[k] - o.v[k]) * (a.v[k] - o.v[k]); return s2; }; laws("distance from a point 3d", P, v, distance_compare<P3, Cmp>(P3(o.v[0] * s, o.v[1] * s, o.v[2] * s), cmp), [&](const I3& a, const I3& b) { return q(a) < q(b); });
}
GROUP(points3, 1500, 100000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{1, 2, 20}); double s = rscale(r); int n = (int)r.in(2, std::min(40L, big(r, 10))); std::vector<I3> v(n); for (auto& p : v) for (long& x : p.v) x = r.in(-m, m); I3 o; for (long& x : o.v) x = r.in(-m, m); for (auto& p : v) c.in("p", p); c.in("origin", o); c.in("scale", s);
    pts3(v, s, o, direct()); pts3(v, s, o, abs_cmp(1e-10));
}
static int half(const I2& ref, const I2& v) { i128 cr = crossi(ref, v); return cr > 0 || (cr == 0 && doti(ref, v) > 0) ? 0 : 1; }
static bool angless(const I2& ref, const I2& u, const I2& v) { int hu = half(ref, u), hv = half(ref, v); return hu != hv ? hu < hv : crossi(u, v) > 0; }
static I2 dir(Rng& r, long m) { I2 d; do d = r.p(0.4) ? I2{r.in(-1, 1), r.in(-1, 1)} : rpt(r, m); while (d.x == 0 && d.y == 0); return d; }
GROUP(angles, 4000, 300000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{1, 2, 3, 30, 1000}); double s = rscale(r); I2 ref = dir(r, m), o = rpt(r, m); int n = (int)r.in(2, std::min(40L, big(r, 12))); std::vector<I2> d; for (int i = 0; i < n; ++i) { I2 x = i && r.p(0.2) ? d[r.in(0, i - 1)] : dir(r, m); long k = r.in(1, 3); if (r.p(0.2)) x = {-x.x * k, -x.y * k}; if (r.p(0.1)) x = ref; if (r.p(0.1)) x = {-ref.x, -ref.y}; d.push_back(x); }
    c.in("directions", d); c.in("reference", ref); c.in("origin", o); c.in("scale", s); I2 X{1, 0}; auto ex = [&](const I2& a, const I2& b) { return angless(X, a, b); }; auto er = [&](const I2& a, const I2& b) { return angless(ref, a, b); };
    std::vector<P2> P; std::vector<V2> V; for (auto& x : d) P.push_back(tp(o + x, s)), V.push_back(V2{x.x * s, x.y * s}); V2 R{ref.x * s, ref.y * s}; P2 O = tp(o, s);
    laws("point angle", P, d, point_angle_compare<direct>(O, direct()), ex); laws("point angle", P, d, point_angle_compare<abs_cmp>(O, abs_cmp(1e-10)), ex);
    laws("vector angle", V, d, vector_angle_compare<direct>(direct()), ex); laws("vector angle from a reference", V, d, vector_angle_compare<direct>(R, direct()), er); laws("vector angle from a reference", V, d, vector_angle_compare<abs_cmp>(R, abs_cmp(1e-10)), er);
}
GROUP(segments, 8000, 300000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{1, 2, 30}); double s = rscale(r); int n = (int)r.in(2, std::min(40L, big(r, 10))); std::vector<std::pair<I2, I2>> v; for (int i = 0; i < n; ++i) { if (i && r.p(0.3)) { auto q = v[r.in(0, i - 1)]; if (r.p(0.5)) std::swap(q.first, q.second); v.push_back(q); } else if (i && r.p(0.4)) v.push_back({v[i - 1].first, rpt(r, m)}); else v.push_back({rpt(r, m), rpt(r, m)}); }
    c.in("segments", v); c.in("scale", s); std::vector<S2> S; for (auto& q : v) S.push_back(ts(q.first, q.second, s)); auto ex = [](const std::pair<I2, I2>& a, const std::pair<I2, I2>& b) { return std::make_pair(std::min(a.first, a.second), std::max(a.first, a.second)) < std::make_pair(std::min(b.first, b.second), std::max(b.first, b.second)); };
    laws("segments", S, v, lexicographical_segment_compare<direct>(direct()), ex); laws("segments", S, v, lexicographical_segment_compare<abs_cmp>(abs_cmp(1e-10)), ex);
    auto iv = [](const std::pair<I2, I2>& a, const std::pair<I2, I2>& b) { return std::max(a.first, a.second) < std::min(b.first, b.second); }; segment_interval_compare<direct> si{direct()};   // an interval order: a strict partial order
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { bool g = si(S[i], S[j]); REQ(g == iv(v[i], v[j]), "interval order of segments " << i << "," << j << " is " << g); if (v[i].first != v[i].second) REQ(i != j || !g, "interval order irreflexive"); }
}
