#include "conv.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/distance_compare.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
#include <geometrix/algorithm/median_partitioning_strategy.hpp>
using namespace vt;
using namespace geometrix;
template <int D> struct key { std::array<double, D> a; bool operator<(const key& o) const { return a < o.a; } };
template <int D> static key<D> mk(const point<double, D>& p) { key<D> k; for (int i = 0; i < D; ++i) k.a[i] = p[i]; return k; }
// a second, equally valid way of splitting: off-centre and unsorted, so that regions and depths differ
struct skew_strategy { template <std::size_t K, class S, class C> std::size_t partition(S& s, const C& c) const { dimension_compare<K, C> d(c); std::sort(s.begin(), s.end(), d); std::size_t m = s.size() < 4 ? 1 : s.size() / 4; return m; } };
template <int D, class Cmp, class St> static void run(Case& c, const std::vector<point<double, D>>& v, const Cmp& cmp, const St& st, double q) {
    typedef point<double, D> P; Rng& r = c.rng; std::unique_ptr<std::vector<P>> src(new std::vector<P>(v)); kd_tree<P> first(*src, cmp, st); bool moved = r.p(0.3); c.in("moved", moved); if (r.p(0.5)) { for (auto& p : *src) p = P(); src.reset(); } std::unique_ptr<kd_tree<P>> other; if (moved) other.reset(new kd_tree<P>(std::move(first))); const kd_tree<P>& tree = moved ? *other : first; std::map<key<D>, int> all; P lo = v[0], hi = v[0]; for (auto& p : v) { ++all[mk<D>(p)]; for (int i = 0; i < D; ++i) lo[i] = std::min(lo[i], p[i]), hi[i] = std::max(hi[i], p[i]); }
    int nq = (int)r.in(3, 8); for (int k = 0; k < nq; ++k) { P a, b; int kind = (int)r.in(0, 6); for (int i = 0; i < D; ++i) { double x = v[r.in(0, (long)v.size() - 1)][i], y = v[r.in(0, (long)v.size() - 1)][i]; if (kind == 0) { x = lo[i]; y = hi[i]; } else if (kind == 1) { x = lo[i] - q; y = hi[i] + q; } else if (kind == 2) y = x; else if (kind == 3) { x += q / 2; y += q / 2; } else if (kind == 4) { x = hi[i] + q; y = hi[i] + 3 * q; if (r.p(0.5)) { x = lo[i]; y = hi[i]; } } a[i] = std::min(x, y); b[i] = std::max(x, y); }
        if (kind == 2 && r.p(0.5)) { const P& p = v[r.in(0, (long)v.size() - 1)]; a = b = p; }
        std::map<key<D>, int> want, got; for (auto& e : all) { bool in = true; for (int i = 0; i < D; ++i) in = in && a[i] <= e.first.a[i] && e.first.a[i] <= b[i]; if (in) want[e.first] = e.second; } std::size_t seen = 0; tree.search(axis_aligned_bounding_box<P>(a, b), [&](const P& p) { ++got[mk<D>(p)]; ++seen; }, cmp);
        count(want.empty() ? "query finds nothing" : want.size() == all.size() ? "query finds everything" : "query finds some"); for (auto& e : got) { auto w = want.find(e.first); REQ(w != want.end(), "visited " << [&] { std::ostringstream o; for (double x : e.first.a) o << x << " "; return o.str(); }() << " which is not in range " << str(a) << ".." << str(b) << " (stored " << (all.count(e.first) ? all[e.first] : 0) << " times)"); REQ(w->second == e.second, "visited a point " << e.second << " times, stored " << w->second << " times"); }
        for (auto& e : want) REQ(got.count(e.first), "missed a point of range " << str(a) << ".." << str(b) << ", found " << got.size() << " of " << want.size() << " distinct"); }
}
template <int D> static void kd(Case& c) {
    typedef point<double, D> P; Rng& r = c.rng; static const int N[] = {1, 2, 3, 4, 7, 20, 60, 200}; int n = r.p(0.5) ? N[r.in(0, 7)] : (int)r.in(1, 40); double s = rscale(r); int kind = (int)r.in(0, 5); long m = r.p(0.4) ? 2 : r.p(0.5) ? 6 : 40; std::vector<P> v; P base; for (int i = 0; i < D; ++i) base[i] = r.in(-m, m) * s; int ax = (int)r.in(0, D - 1);
    for (int k = 0; k < n; ++k) { P p; for (int i = 0; i < D; ++i) p[i] = kind == 5 ? r.real(-m, m) * s : r.in(-m, m) * s; if (kind == 1) p[ax] = base[ax]; if (kind == 2) for (int i = 0; i < D; ++i) if (i != ax) p[i] = base[i]; if (kind == 3 && r.p(0.7)) p = v.empty() ? base : v[r.in(0, (long)v.size() - 1)]; if (kind == 4 && r.p(0.9)) p = base; v.push_back(p); }
    if (r.p(0.2)) std::sort(v.begin(), v.end(), [](const P& a, const P& b) { return mk<D>(a) < mk<D>(b); }); else if (r.p(0.1)) std::sort(v.begin(), v.end(), [](const P& a, const P& b) { return mk<D>(b) < mk<D>(a); }); c.in("points", v); static const char* L[] = {"grid points", "equal coordinate", "points on axis line", "duplicates", "mostly one point", "real points"}; count(L[kind]);
    bool tol = kind != 5 && r.p(0.4); c.in("tolerant", tol); bool skew = r.p(0.3); if (tol) { if (skew) run<D>(c, v, abs_cmp(1e-10), skew_strategy(), s); else run<D>(c, v, abs_cmp(1e-10), median_partitioning_strategy(), s); } else { if (skew) run<D>(c, v, direct(), skew_strategy(), s); else run<D>(c, v, direct(), median_partitioning_strategy(), s); }
}
GROUP(plane, 12000, 400000) { kd<2>(c); }
GROUP(space, 12000, 400000) { kd<3>(c); }
GROUP(sequences, 4000, 100000) { Rng& r = c.rng; IPoly p = any_poly(r, 30); c.in("polygon", p); PG g = tpg(p); kd_tree<P2> t(g, direct(), median_partitioning_strategy()); I2 a = rpt(r, 60), b = rpt(r, 60); if (b.x < a.x) std::swap(a.x, b.x); if (b.y < a.y) std::swap(a.y, b.y); std::set<I2> want, got; for (auto& x : p) if (a.x <= x.x && x.x <= b.x && a.y <= x.y && x.y <= b.y) want.insert(x); t.search(axis_aligned_bounding_box<P2>(tp(a), tp(b)), [&](const P2& q) { got.insert({(long)q[0], (long)q[1]}); }, direct()); REQ(want == got, "search in polygon vertices finds " << got.size() << " of " << want.size()); count("polygon vertices"); }
GROUP(large, 40, 600) {
    Rng& r = c.rng; int n = (int)r.in(500, 3000); bool same = r.p(0.2); std::vector<P2> v; long m = r.p(0.5) ? 8 : 1000; for (int i = 0; i < n; ++i) v.push_back(same ? P2(1, 2) : P2(r.in(-m, m), r.in(-m, m))); if (same) v.back() = P2(2, 1); c.in("points", v); run<2>(c, v, direct(), median_partitioning_strategy(), 1.); count("large sets"); }
GROUP(distance_order, 10000, 200000) { Rng& r = c.rng; P3 o(r.in(-5, 5), r.in(-5, 5), r.in(-5, 5)); std::vector<P3> v; int n = (int)r.in(2, big(r, 20)); for (int i = 0; i < n; ++i) v.push_back(P3(r.in(-9, 9), r.in(-9, 9), r.in(-9, 9))); c.in("origin", o); c.in("points", v); std::sort(v.begin(), v.end(), distance_compare<P3, direct>(o, direct())); for (int i = 1; i < n; ++i) { L3 a = lp(v[i - 1]) - lp(o), b = lp(v[i]) - lp(o); REQ(dot(a, a) <= dot(b, b), "distance ordering puts a farther point first"); } count("distance orders"); }
