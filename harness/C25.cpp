#include "conv.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/node_bsp_tree_2d.hpp>
using namespace vt;
using namespace geometrix;
typedef node_bsp_tree_2d<S2> Tree;
struct Pick { mutable Rng r; template <class R> S2 operator()(const R& v) const { auto it = boost::begin(v); std::advance(it, r.in(0, (long)boost::size(v) - 1)); return *it; } };
static std::unique_ptr<Tree> build(Rng& r, std::vector<S2> v, int pol, const abs_cmp& cmp) { /* the tree has to outlive its input */ if (pol == 0) return std::unique_ptr<Tree>(new Tree(v, partition_policies::first_segment_selector_policy<S2>(), cmp)); if (pol == 1) return std::unique_ptr<Tree>(new Tree(v, partition_policies::scored_segment_selector_policy<S2, abs_cmp>(cmp), cmp)); return std::unique_ptr<Tree>(new Tree(v, Pick{Rng(r.u())}, cmp)); }
static const char* NAME[] = {"outside", "on the boundary", "inside"};
static void query(Tree& t, const std::vector<IPoly>& ps, long x, long y, long den, double s, const abs_cmp& cmp) { bool in = false, on = false; for (auto& p : ps) { int k = in_poly(p, x, y, den); on = on || k == 0; in = in || k > 0; } int want = on ? 0 : in ? 1 : -1; P2 q(x * s / den, y * s / den); auto got = t.locate_point(q, cmp); int g = got == e_inside ? 1 : got == e_boundary ? 0 : -1; count(NAME[want + 1]); REQ(g == want, "point " << str(q) << " is located " << NAME[g + 1] << " but is " << NAME[want + 1]); }
static IPoly small_poly(Rng& r, int n) { for (;;) { IPoly p = any_poly(r, n); long m = 0; for (auto& a : p) m = std::max(m, std::max(std::labs(a.x), std::labs(a.y))); if (m <= 150) return p; } }
GROUP(locate, 6000, 250000) {
    Rng& r = c.rng; IPoly p = small_poly(r, r.p(0.3) ? 24 : 9); if (r.p(0.3)) p = insert_collinear(r, p, 0.3); double s = r.pick(std::vector<double>{1, 0.5, 4}); int pol = (int)r.in(0, 2); c.in("poly", p); c.in("s", s); c.in("policy", pol); std::vector<S2> v; for (std::size_t i = 0; i < p.size(); ++i) v.push_back(ts(p[i], p[(i + 1) % p.size()], s)); if (r.p(0.4)) { r.shuffle(v.begin(), v.end()); for (auto& q : v) c.in("e", q); } abs_cmp cmp(1e-9); auto t = build(r, v, pol, cmp);
    long lx = 1e9, ly = 1e9, hx = -1e9, hy = -1e9; for (auto& a : p) { lx = std::min(lx, a.x); hx = std::max(hx, a.x); ly = std::min(ly, a.y); hy = std::max(hy, a.y); } long den = r.pick(std::vector<long>{1, 2, 4});
    for (auto& a : p) query(*t, {p}, a.x * den, a.y * den, den, s, cmp);
    for (int k = 0; k < 60; ++k) { long x = r.in((lx - 2) * den, (hx + 2) * den), y = r.in((ly - 2) * den, (hy + 2) * den); if (r.p(0.5)) { std::size_t i = r.in(0, (long)p.size() - 1); I2 a = p[i], b = p[(i + 1) % p.size()]; if (r.p(0.3)) b = p[r.in(0, (long)p.size() - 1)]; long m = r.in(-4, 8); x = (a.x * den * 4 + (b.x - a.x) * den * m); y = (a.y * den * 4 + (b.y - a.y) * den * m); query(*t, {p}, x, y, den * 4, s, cmp); continue; } query(*t, {p}, x, y, den, s, cmp); }
}
// several disjoint polygons, built at once or added one at a time
GROUP(several, 2500, 100000) {
    Rng& r = c.rng; std::vector<IPoly> ps; int nx = (int)r.in(1, 3), ny = (int)r.in(1, 2); for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) { IPoly p; do p = r.p(0.5) ? convex_poly(r, (int)r.in(3, 7), 6) : r.p(0.4) ? IPoly{{-4, -4}, {4, -4}, {4, 4}, {-4, 4}} : star_poly(r, (int)r.in(4, 8), 7); while (p.empty()); for (auto& a : p) a = a + I2{i * 18, j * 18}; ps.push_back(p); } r.shuffle(ps.begin(), ps.end()); int pol = (int)r.in(0, 2); bool incremental = r.p(0.6); c.in("polys", ps); c.in("policy", pol); c.in("incremental", incremental); abs_cmp cmp(1e-9); std::unique_ptr<Tree> t; std::vector<S2> all; for (auto& p : ps) { std::vector<S2> v; for (std::size_t i = 0; i < p.size(); ++i) v.push_back(ts(p[i], p[(i + 1) % p.size()])); all.insert(all.end(), v.begin(), v.end()); if (!incremental) continue; if (!t) t = build(r, v, pol, cmp); else if (pol == 0) t->insert(v, partition_policies::first_segment_selector_policy<S2>(), cmp); else if (pol == 1) t->insert(v, partition_policies::scored_segment_selector_policy<S2, abs_cmp>(cmp), cmp); else t->insert(v, Pick{Rng(r.u())}, cmp); } if (!incremental) t = build(r, all, pol, cmp);
    for (auto& p : ps) for (auto& a : p) query(*t, ps, a.x, a.y, 1, 1, cmp); for (int k = 0; k < 60; ++k) query(*t, ps, r.in(-10 * 4, (nx * 18) * 4), r.in(-10 * 4, (ny * 18) * 4), 4, 1, cmp);
}
struct Sink { std::vector<S2>* out; void operator()(const S2& s) const { out->push_back(s); } };
GROUP(painter, 4000, 150000) {
    Rng& r = c.rng; std::vector<IS> e; if (r.p(0.4)) { IPoly p = small_poly(r, 12); for (std::size_t i = 0; i < p.size(); ++i) e.push_back({p[i], p[(i + 1) % p.size()]}); } else { long m = r.pick(std::vector<long>{4, 8, 20}); int n = (int)r.in(1, big(r, 14)); for (int k = 0; k < 60 && (int)e.size() < n; ++k) { IS t{rpt(r, m), rpt(r, m)}; if (r.p(0.2)) t.b.x = t.a.x; else if (r.p(0.2)) t.b.y = t.a.y; bool ok = t.a != t.b; for (auto& q : e) ok = ok && !segs_meet(t.a, t.b, q.a, q.b); if (ok) e.push_back(t); } }
    int pol = (int)r.in(0, 2); c.in("segs", e); c.in("policy", pol); std::vector<S2> v; for (auto& t : e) v.push_back(ts(t.a, t.b)); abs_cmp cmp(1e-9); auto t = build(r, v, pol, cmp); long m = 3; for (auto& q : e) m = std::max(m, std::max(std::max(std::labs(q.a.x), std::labs(q.a.y)), std::max(std::labs(q.b.x), std::labs(q.b.y))));
    for (int k = 0; k < 4; ++k) { P2 w(r.real(-1.3, 1.3) * m, r.real(-1.3, 1.3) * m); bool ok = true; for (auto& q : v) ok = ok && std::fabs(cross(lp(get_end(q)) - lp(get_start(q)), lp(w) - lp(get_start(q)))) > 1e-4; if (!ok) continue; c.in("view", w); std::vector<S2> out; Sink sink{&out}; t->painters_traversal(w, sink, cmp); std::vector<ld> len(e.size(), 0); std::vector<int> owner; std::vector<std::vector<std::pair<ld, ld>>> part(e.size());
        for (auto& q : out) { int own = -1; for (int i = 0; i < (int)v.size() && own < 0; ++i) { L2 a = lp(get_start(v[i])), b = lp(get_end(v[i])); if (dist_ps(lp(get_start(q)), a, b) < 1e-7L && dist_ps(lp(get_end(q)), a, b) < 1e-7L && norm(lp(get_end(q)) - lp(get_start(q))) > 0 && dot(lp(get_end(q)) - lp(get_start(q)), b - a) > 0) { own = i; ld n = norm(b - a); part[i].push_back({dot(lp(get_start(q)) - a, b - a) / n, dot(lp(get_end(q)) - a, b - a) / n}); } } REQ(own >= 0, "a drawn piece " << str(get_start(q)) << str(get_end(q)) << " is not part of any edge"); owner.push_back(own); }
        for (std::size_t i = 0; i < e.size(); ++i) { std::sort(part[i].begin(), part[i].end()); ld at = 0; for (auto& q : part[i]) { REQ(std::fabs(q.first - at) < 1e-6L, "edge " << i << (q.first > at ? " is drawn with a gap" : " is drawn twice")); at = q.second; } REQ(std::fabs(at - norm(lp(get_end(v[i])) - lp(get_start(v[i])))) < 1e-6L, "edge " << i << " is not drawn completely"); } if (out.size() > e.size()) count("views with split edges"); count("views");
        for (std::size_t i = 0; i < out.size(); ++i) for (std::size_t j = i + 1; j < out.size(); ++j) { L2 a = lp(get_start(out[i])), b = lp(get_end(out[i])), f = lp(get_start(out[j])), g = lp(get_end(out[j])), o = lp(w); for (ld u : {0.01L, 0.25L, 0.5L, 0.75L, 0.99L}) { L2 q = f + u * (g - f); // does piece i (drawn first) hide this point of piece j?
                ld d = cross(q - o, b - a); if (std::fabs(d) < 1e-9L) continue; ld x = cross(a - o, b - a) / d, y = cross(a - o, q - o) / d; REQ(!(x > 1e-6L && x < 1 - 1e-6L && y > 1e-6L && y < 1 - 1e-6L), "piece " << str(get_start(out[i])) << str(get_end(out[i])) << " is drawn before " << str(get_start(out[j])) << str(get_end(out[j])) << " which it hides from " << str(w)); } } }
}
