#include "geo.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/doubly_connected_edge_list.hpp>
using namespace vt;
using namespace geometrix;
typedef doubly_connected_edge_list<P2, abs_cmp> D;
typedef std::vector<I2> Seq;
template <class S> static Seq snap(const S& s, double k) { Seq o; for (auto const& p : s) { double x = p[0] / k, y = p[1] / k; I2 q{std::lround(x), std::lround(y)}; REQ(std::fabs(x - q.x) < 1e-8 && std::fabs(y - q.y) < 1e-8, "a result holds the point " << str(p) << " which is not an input point"); o.push_back(q); } return o; }
static Seq canon(Seq s) { std::rotate(s.begin(), std::min_element(s.begin(), s.end()), s.end()); return s; }
static std::string txt(const std::multiset<Seq>& m) { std::ostringstream o; for (auto& s : m) { o << "["; for (auto& p : s) o << p; o << "] "; } return o.str(); }
static void judge(const D& d, const std::vector<Seq>& loops, const std::vector<Seq>& chains, double k) {
    std::multiset<Seq> wl, wc, gl, gc; for (auto& l : loops) wl.insert(canon(l)); for (auto& l : chains) wc.insert(l); for (auto const& g : d.get_polygons()) { Seq s = snap(g, k); REQ(!s.empty(), "an empty polygon is returned"); gl.insert(canon(s)); } for (auto const& g : d.get_polylines()) gc.insert(snap(g, k)); REQ(gl == wl, "polygons " << txt(gl) << "instead of " << txt(wl)); REQ(gc == wc, "polylines " << txt(gc) << "instead of " << txt(wc)); }
GROUP(link, 20000, 800000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{6, 10, 30, 1000}); double k = r.pick(std::vector<double>{1, 0.1, 0.25, 3}); int parts = (int)r.in(1, 7); std::set<I2> used; auto fresh = [&] { I2 p; int guard = 0; do p = rpt(r, m); while (!used.insert(p).second && ++guard < 400); return p; };
    std::vector<Seq> loops, chains; for (int i = 0; i < parts && used.size() < (std::size_t)m * 3; ++i) { int n = (int)r.in(2, big(r, r.p(0.2) ? 14 : 6)); bool loop = r.p(0.5); if (loop) n = std::max(n, 3); Seq s; for (int q = 0; q < n; ++q) s.push_back(fresh()); std::set<I2> u(s.begin(), s.end()); if (u.size() != s.size()) continue; (loop ? loops : chains).push_back(s); } bool jit = r.p(0.4); c.in("loops", loops); c.in("chains", chains); c.in("scale", k); c.in("jitter", jit);
    std::vector<S2> segs; auto J = [&](I2 p) { P2 q = tp(p, k); if (jit) q = P2(q[0] + r.real(-4e-11, 4e-11), q[1] + r.real(-4e-11, 4e-11)); return q; }; for (auto& l : loops) for (std::size_t i = 0; i < l.size(); ++i) segs.push_back(S2(J(l[i]), J(l[(i + 1) % l.size()]))); for (auto& l : chains) for (std::size_t i = 0; i + 1 < l.size(); ++i) segs.push_back(S2(J(l[i]), J(l[i + 1]))); r.shuffle(segs.begin(), segs.end()); abs_cmp cmp(2e-10); count("loops", (long)loops.size()); count("chains", (long)chains.size()); if (segs.empty()) c.trivial();
    int how = (int)r.in(0, 3); c.in("how", how);
    if (how == 0) judge(make_dcel<P2>(segs, cmp), loops, chains, k); else if (how == 1) { D d(cmp); for (auto& s : segs) d.add_edge(s); d.calculate_point_sequences(); judge(d, loops, chains, k); d.calculate_point_sequences(); judge(d, loops, chains, k); }
    else { // copies and moves of a half-built list carry on like the original
        D d(cmp); std::size_t cut = r.in(0, (long)segs.size()); for (std::size_t i = 0; i < cut; ++i) { if (r.p(0.5)) d.add_edge(segs[i]); else d.add_edge(get_start(segs[i]), get_end(segs[i])); } if (r.p(0.3)) d.calculate_point_sequences(); int op = (int)r.in(0, 3); c.in("op", op); D e(cmp); if (r.p(0.5)) e.add_edge(P2(k * 5000, 0), P2(k * 5001, 0)); auto go = [&](D& x) { for (std::size_t i = cut; i < segs.size(); ++i) x.add_edge(segs[i]); x.calculate_point_sequences(); judge(x, loops, chains, k); };
        if (op == 0) { D x(d); go(x); go(d); } else if (op == 1) { D x(std::move(d)); go(x); } else if (op == 2) { e = d; go(e); go(d); } else { e = std::move(d); go(e); } count("copied or moved"); }
}
