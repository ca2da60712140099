#include "conv.hpp"
#include <geometrix/algorithm/euclidean_distance.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/hyperplane_partition_policies.hpp>
#include <geometrix/algorithm/solid_leaf_bsp_tree.hpp>
using namespace vt;
using namespace geometrix;
typedef solid_leaf_bsp_tree<S2> Tree;
struct RandomPolicy { mutable Rng r; template <class R> typename boost::range_iterator<R>::type operator()(R& v, boost::dynamic_bitset<>& used) const { std::vector<std::size_t> f; for (std::size_t i = 0; i < used.size(); ++i) if (!used[i]) f.push_back(i); if (f.empty()) return boost::end(v); std::size_t k = f[r.in(0, (long)f.size() - 1)]; used.set(k); return boost::begin(v) + k; } };
// a scene: CW outlines are solid inside, CCW outlines are empty inside; every segment has its solid side on the right
struct Scene { std::vector<IPoly> polys; bool room = false; };   // coordinates in units of s
static int solid(const Scene& sc, i128 x, i128 y, i128 den) { bool in = sc.room; for (auto& p : sc.polys) { int k = in_poly(p, x, y, den); if (k == 0) return 0; if (k > 0) in = !in; } return in ? 1 : -1; }
static IPoly fit(IPoly p, long x, long y, long w) { long lx = 1e9, ly = 1e9, hx = -1e9, hy = -1e9; for (auto& a : p) { lx = std::min(lx, a.x); hx = std::max(hx, a.x); ly = std::min(ly, a.y); hy = std::max(hy, a.y); } long k = std::max(hx - lx, hy - ly); for (auto& a : p) a = {x + (a.x - lx) * w / std::max(k, w), y + (a.y - ly) * w / std::max(k, w)}; IPoly o; for (auto& a : p) if (o.empty() || o.back() != a) o.push_back(a); while (o.size() > 1 && o.front() == o.back()) o.pop_back(); if (!is_simple(o)) o = {{x, y}, {x + w, y}, {x + w, y + w}, {x, y + w}}; if (area2(o) < 0) std::reverse(o.begin(), o.end()); return o; }
static Scene scene(Rng& r, int maxp) {
    Scene sc; int kind = (int)r.in(0, 4); long step = 10, w = 8; int nx = (int)r.in(1, maxp), ny = (int)r.in(1, maxp); bool jitter = r.p(0.5); 
    for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) { if (nx * ny > 1 && r.p(0.25)) continue; long x = i * step + (jitter ? r.in(0, 1) : 0), y = j * step + (jitter ? r.in(0, 1) : 0); IPoly p; if (kind == 0 || (kind == 4 && r.p(0.5))) { long a = r.in(1, w), b = r.in(1, w); p = {{x, y}, {x + a, y}, {x + a, y + b}, {x, y + b}}; } else if (kind == 1) p = fit(convex_poly(r, (int)r.in(3, 8), 4), x, y, w); else if (kind == 2) p = fit(rectilinear_poly(r, (int)r.in(1, 3), 3), x, y, w); else p = fit(any_poly(r, 9), x, y, w);
        std::reverse(p.begin(), p.end()); sc.polys.push_back(p); if (r.p(0.3)) { IPoly h{{x + 3, y + 3}, {x + 4, y + 3}, {x + 4, y + 5}, {x + 3, y + 5}}; if (r.p(0.5)) h = {{x + 2, y + 3}, {x + 5, y + 4}, {x + 3, y + 5}}; bool ok = true; for (auto& a : h) ok = ok && in_poly(p, a) > 0; for (std::size_t a = 0; a < h.size() && ok; ++a) for (std::size_t b = 0; b < p.size() && ok; ++b) ok = !segs_meet(h[a], h[(a + 1) % h.size()], p[b], p[(b + 1) % p.size()]); if (ok) sc.polys.push_back(h); } }
    if (r.p(0.4) || sc.polys.empty()) { sc.room = true; long X = nx * step + 2, Y = ny * step + 2; IPoly o{{-3, -3}, {X, -3}, {X, Y}, {-3, Y}}; if (r.p(0.3)) o = {{-3, -3}, {X, -4}, {X + 5, Y / 2}, {X, Y}, {-3, Y + 2}, {-7, Y / 2}}; sc.polys.push_back(o); }
    for (auto& p : sc.polys) std::rotate(p.begin(), p.begin() + r.in(0, (long)p.size() - 1), p.end()); return sc;
}
static ld solid_ld(const Scene& sc, L2 q) { bool in = sc.room; for (auto& p : sc.polys) for (std::size_t i = 0, j = p.size() - 1; i < p.size(); j = i++) { ld ax = p[j].x, ay = p[j].y, bx = p[i].x, by = p[i].y; if ((ay > q.y) != (by > q.y) && q.x < (bx - ax) * (q.y - ay) / (by - ay) + ax) in = !in; } return in; }
GROUP(scenes, 2500, 100000) {
    Rng& r = c.rng; Scene sc = scene(r, r.p(0.2) ? 4 : 2); std::vector<IS> segs; for (auto& p : sc.polys) for (std::size_t i = 0; i < p.size(); ++i) segs.push_back({p[i], p[(i + 1) % p.size()]}); if (r.p(0.5)) r.shuffle(segs.begin(), segs.end()); double s = r.pick(std::vector<double>{1, 0.5, 4}); std::vector<S2> in; for (auto& t : segs) in.push_back(ts(t.a, t.b, s)); int pol = (int)r.in(0, 3); c.in("s", s); c.in("policy", pol); c.in("room", sc.room); c.in("polys", sc.polys); if (pol == 3) c.in("segs", segs); abs_cmp cmp(1e-10); Tree t;
    t = [&](auto in) { /* the tree has to outlive its input */ if (pol == 0) return Tree(in, partition_policies::autopartition_policy(), cmp); if (pol == 1) return Tree(in, partition_policies::scored_selector_policy<identity_simplex_extractor, abs_cmp>(identity_simplex_extractor(), cmp), cmp); return Tree(in, RandomPolicy{Rng(r.u())}, cmp); }(in);
    count("scenes"); if (sc.room) count("rooms"); long lo = -9, hi = 45; { hi = 0; for (auto& q : segs) hi = std::max(hi, std::max(q.a.x, q.a.y)); hi += 3; } long den = r.pick(std::vector<long>{1, 1, 2, 4});
    for (int k = 0; k < 40; ++k) { long x = r.in(lo * den, hi * den), y = r.in(lo * den, hi * den); if (r.p(0.3)) { auto& q = segs[r.in(0, (long)segs.size() - 1)]; long m = r.in(-3, 6); x = q.a.x * den + (q.b.x - q.a.x) * den * m / 2; y = q.a.y * den + (q.b.y - q.a.y) * den * m / 2; } int want = solid(sc, x, y, den); P2 p(x * s / den, y * s / den); auto got = t.point_in_solid_space(p, cmp); const char* names[] = {"empty", "boundary", "solid"}; int g = got == point_in_solid_classification::in_solid ? 1 : got == point_in_solid_classification::on_boundary ? 0 : -1; if (want) REQ(g == want, "point " << str(p) << " is classified " << names[g + 1] << " but is " << names[want + 1]); else { count("points on the boundary"); bool corner = false; for (auto& q : segs) corner = corner || (q.a.x * den == x && q.a.y * den == y); if (!corner) REQ(g == 0, "point " << str(p) << " in an edge is classified " << names[g + 1]); }
        ld best = 1e30L; for (auto& q : in) best = std::min(best, dist_ps(lp(p), lp(get_start(q)), lp(get_end(q)))); std::size_t idx = 999999; double d2 = t.get_min_distance_sqrd_to_solid(p, idx, cmp); REQ(close(d2, best * best, 1e-9, 1e-12), "squared distance from " << str(p) << " to the boundary is " << (double)(best * best) << " but " << d2 << " is reported"); REQ(idx < in.size() && close(dist_ps(lp(p), lp(get_start(in[idx])), lp(get_end(in[idx]))), best, 1e-9, 1e-9), "segment " << idx << " is reported as nearest to " << str(p)); double d1 = t.get_min_distance_to_solid(p, idx, cmp); REQ(close(d1, best, 1e-9, 1e-9), "distance from " << str(p) << " is " << d1);
        if (want >= 0) continue; I2 di; do di = r.p(0.3) ? rpt(r, 1) : rpt(r, 12); while (di == I2{0, 0}); if (r.p(0.25)) { auto& q = segs[r.in(0, (long)segs.size() - 1)]; di = q.b - q.a; if (r.p(0.5)) di = {-di.x, -di.y}; } else if (r.p(0.15)) { auto& q = segs[r.in(0, (long)segs.size() - 1)]; di = {q.a.x * den - x, q.a.y * den - y}; if (di == I2{0, 0}) continue; } c.in("p", p); c.in("dir", di);
        V2 d; { ld n = std::hypot((ld)di.x, (ld)di.y); d = V2((double)(di.x / n), (double)(di.y / n)); }
        // events along the exact ray, in units of s
        L2 o{(ld)x / den, (ld)y / den}, u{0, 0}; { ld n = std::hypot((ld)di.x, (ld)di.y); u = {di.x / n, di.y / n}; } std::vector<ld> ev; bool graze = false; std::vector<std::pair<ld, int>> proper; for (int q = 0; q < (int)segs.size(); ++q) { L2 a{(ld)segs[q].a.x, (ld)segs[q].a.y}, b{(ld)segs[q].b.x, (ld)segs[q].b.y}; i128 ca = (i128)di.x * (segs[q].a.y * den - y) - (i128)di.y * (segs[q].a.x * den - x), cb = (i128)di.x * (segs[q].b.y * den - y) - (i128)di.y * (segs[q].b.x * den - x); for (int e = 0; e < 2; ++e) if ((e ? cb : ca) == 0) { ld tt = dot(u, (e ? b : a) - o); if (tt > 0) ev.push_back(tt); } if ((ca > 0 && cb < 0) || (ca < 0 && cb > 0)) { ld f = (ld)ca / ((ld)ca - (ld)cb); L2 h{a.x + f * (b.x - a.x), a.y + f * (b.y - a.y)}; ld tt = dot(u, h - o); if (tt > 0) { ev.push_back(tt); proper.push_back({tt, q}); } } }
        std::sort(ev.begin(), ev.end()); ld enter = -1; for (std::size_t e = 0; e < ev.size(); ++e) { ld nx = e + 1 < ev.size() ? ev[e + 1] : ev[e] + 5; if (nx - ev[e] < 1e-9L) continue; ld m = (nx + ev[e]) / 2; L2 q{o.x + m * u.x, o.y + m * u.y}; bool on = false; for (auto& z : segs) on = on || dist_ps(q, L2{(ld)z.a.x, (ld)z.a.y}, L2{(ld)z.b.x, (ld)z.b.y}) < 1e-9L; if (on) { graze = true; continue; } if (solid_ld(sc, q)) { enter = ev[e]; break; } }
        // a vertex on the way makes the reported contact ambiguous
        for (auto& z : segs) { L2 a{(ld)z.a.x - o.x, (ld)z.a.y - o.y}; ld al = dot(a, u); if (al > 0 && (enter < 0 || al < enter + 1e-6L) && std::fabs(cross(u, a)) < 1e-9L) graze = true; }
        for (int only = 0; only < 2; ++only) { auto res = only ? t.ray_intersection_only_border(p, d, cmp) : t.ray_intersection(p, d, cmp); ld got_t = res.is_intersecting() ? res.intersection_distance() / (ld)s : -1;
            if (!graze) { count(enter < 0 ? "rays missing" : "rays hitting"); if (enter < 0) REQ(!res.is_intersecting(), "a ray from " << str(p) << " along " << str(d) << " meets no solid but a hit at " << (double)(got_t * s) << " is reported"); else { REQ(res.is_intersecting(), "a ray from " << str(p) << " along " << str(d) << " hits a solid at " << (double)(enter * s) << " but none is reported"); REQ(close(got_t, enter, 1e-9, 1e-9), "a ray from " << str(p) << " along " << str(d) << " hits at " << (double)(enter * s) << " but " << (double)(got_t * s) << " is reported"); int want_i = -1; for (auto& pr : proper) if (std::fabs(pr.first - enter) < 1e-9L) want_i = pr.second; REQ((int)res.get_data() == want_i, "a ray from " << str(p) << " along " << str(d) << " hits segment " << want_i << " but " << (long)(int)res.get_data() << " is reported"); } }
            else { count("rays through corners"); if (enter >= 0) REQ(res.is_intersecting() && got_t <= enter + 1e-8L, "a ray from " << str(p) << " along " << str(d) << " enters a solid at " << (double)(enter * s) << " but the reported hit is " << (double)(got_t * s)); if (res.is_intersecting()) { bool touch = false; L2 q{o.x + got_t * u.x, o.y + got_t * u.y}; for (auto& z : segs) touch = touch || dist_ps(q, L2{(ld)z.a.x, (ld)z.a.y}, L2{(ld)z.b.x, (ld)z.b.y}) < 1e-7L; REQ(touch, "a ray from " << str(p) << " along " << str(d) << " is reported to hit at " << (double)(got_t * s) << " where there is no boundary"); } } } }
}
// segments carried by user items, trees moved and assigned over
struct Item { S2 seg; int id; };
struct Extract { S2 operator()(const Item& i) const { return i.seg; } Item make_split(const S2& s, const Item& i) const { return Item{s, i.id}; } };
GROUP(items, 1500, 50000) {
    Rng& r = c.rng; Scene sc = scene(r, 2); std::vector<S2> in; for (auto& p : sc.polys) for (std::size_t i = 0; i < p.size(); ++i) in.push_back(ts(p[i], p[(i + 1) % p.size()], 1)); if (r.p(0.5)) r.shuffle(in.begin(), in.end()); std::vector<Item> items; for (std::size_t i = 0; i < in.size(); ++i) items.push_back(Item{in[i], (int)i}); int pol = (int)r.in(0, 2), mv = (int)r.in(0, 3); double seed = r.u(); c.in("policy", pol); c.in("moves", mv); c.in("room", sc.room); c.in("polys", sc.polys); abs_cmp cmp(1e-10); Extract ex;
    auto make = [&] { if (pol == 0) return Tree(items, partition_policies::autopartition_policy(), cmp, ex); if (pol == 1) return Tree(items, partition_policies::scored_selector_policy<Extract, abs_cmp>(ex, cmp), cmp, ex); return Tree(items, RandomPolicy{Rng(seed)}, cmp, ex); };
    Tree a = make(); std::vector<S2> other{ts(I2{0, 0}, I2{1, 0}, 1), ts(I2{1, 0}, I2{0, 1}, 1), ts(I2{0, 1}, I2{0, 0}, 1)}; Tree o(other, partition_policies::autopartition_policy(), cmp); if (mv == 1) { Tree b(std::move(a)); o = std::move(b); } else if (mv == 2) { o = std::move(a); Tree b(std::move(o)); a = std::move(b); o = std::move(a); } else o = std::move(a); if (mv == 3) { a = make(); std::swap(a, o); } count("trees moved");
    long hi = 0; for (auto& p : sc.polys) for (auto& q : p) hi = std::max(hi, std::max(q.x, q.y)); hi += 3;
    for (int k = 0; k < 12; ++k) { long x = r.in(-9 * 2, hi * 2), y = r.in(-9 * 2, hi * 2); P2 p(x / 2.0, y / 2.0); c.in("p", p); int want = solid(sc, x, y, 2); auto got = o.point_in_solid_space(p, cmp); if (want) REQ(got == (want > 0 ? point_in_solid_classification::in_solid : point_in_solid_classification::in_empty_space), "point " << str(p) << " is classified wrongly");
        ld best = 1e30L; for (auto& q : in) best = std::min(best, dist_ps(lp(p), lp(get_start(q)), lp(get_end(q)))); std::size_t idx = 999999; double d = o.get_min_distance_to_solid(p, idx, cmp); REQ(close(d, best, 1e-9, 1e-9), "distance from " << str(p) << " is " << d << ", not " << (double)best); REQ(idx < in.size() && close(dist_ps(lp(p), lp(get_start(in[idx])), lp(get_end(in[idx]))), best, 1e-9, 1e-9), "segment " << idx << " is reported as nearest to " << str(p));
        if (want >= 0) continue; double ang = r.real(0, 6.28); V2 u(std::cos(ang), std::sin(ang)); ld near = 1e30L; int hit = -1; bool vague = false; for (std::size_t i = 0; i < in.size(); ++i) { L2 s = lp(get_start(in[i])), e = lp(get_end(in[i])), P = lp(p), U{u[0], u[1]}; ld cs = cross(U, s - P), ce = cross(U, e - P); if (fabsl(cs) < 1e-6L || fabsl(ce) < 1e-6L) vague = true; if ((cs > 0) == (ce > 0)) continue; ld f = cs / (cs - ce); ld t = dot(U, L2{s.x + f * (e.x - s.x) - P.x, s.y + f * (e.y - s.y) - P.y}); if (t > 0 && t < near) { near = t; hit = (int)i; } } if (vague) continue; auto res = o.ray_intersection(p, u, cmp); REQ(res.is_intersecting() == (hit >= 0), "a ray from " << str(p) << " along " << str(u) << (hit >= 0 ? " misses segment " : " hits something, not ") << hit); if (hit >= 0) { REQ(close(res.intersection_distance(), near, 1e-9, 1e-9), "the hit is at " << (double)near << ", not " << res.intersection_distance()); REQ((int)res.get_data() == hit, "the ray hits segment " << hit << ", not " << (int)res.get_data()); count("rays hitting"); } else count("rays missing"); } }
