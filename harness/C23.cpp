#include "geo.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/bentley_ottmann_segment_intersection.hpp>
using namespace vt;
using namespace geometrix;
struct Rep { P2 p; std::vector<S2> segs; };
struct Runaway {};
struct Vis { std::vector<Rep>* out; std::size_t limit; template <class It> void operator()(const P2& p, It a, It b) const { Rep r; r.p = p; for (; a != b; ++a) r.segs.push_back(**a); out->push_back(r); if (out->size() > limit) throw Fail{"the sweep reports more than " + std::to_string(limit) + " points"}; } };
struct Q { i128 x, y, d; bool operator<(const Q& o) const { return x != o.x ? x < o.x : y != o.y ? y < o.y : d < o.d; } };
static i128 gcd128(i128 a, i128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { i128 t = a % b; a = b; b = t; } return a; }
static Q meet(const IS& s, const IS& t) { i128 D = crossi(s.b - s.a, t.b - t.a); if (D == 0) { I2 p = on_seg(s.a, t.a, t.b) ? s.a : s.b; return {p.x, p.y, 1}; } i128 N = crossi(t.a - s.a, t.b - t.a); Q q{s.a.x * D + N * (s.b.x - s.a.x), s.a.y * D + N * (s.b.y - s.a.y), D}; if (q.d < 0) { q.x = -q.x; q.y = -q.y; q.d = -q.d; } i128 g = gcd128(gcd128(q.x, q.y), q.d); q.x /= g; q.y /= g; q.d /= g; return q; }
static bool has_overlap(const std::vector<IS>& v, const IS& s) { for (auto& t : v) if (seg_rel(s.a, s.b, t.a, t.b) == OVERLAP) return true; return false; }
static void judge(Case& c, const std::vector<IS>& v, double s, double tol) {
    std::map<Q, std::set<int>> want; for (int i = 0; i < (int)v.size(); ++i) for (int j = i + 1; j < (int)v.size(); ++j) if (segs_meet(v[i].a, v[i].b, v[j].a, v[j].b)) { auto& w = want[meet(v[i], v[j])]; w.insert(i); w.insert(j); }
    std::vector<S2> in; std::map<std::pair<I2, I2>, int> id; for (int i = 0; i < (int)v.size(); ++i) { in.push_back(c.rng.p(0.5) ? ts(v[i].a, v[i].b, s) : ts(v[i].b, v[i].a, s)); id[{std::min(v[i].a, v[i].b), std::max(v[i].a, v[i].b)}] = i; }
    std::vector<Rep> out; bentley_ottmann_segment_intersection(in, Vis{&out, want.size() * 4 + 50}, abs_cmp(tol)); count("meeting points", (long)want.size()); if (want.empty()) count("no meeting point");
    if (want.size() > in.size()) count("more points than segments"); if (want.size() > 3 * in.size()) count("more than three points per segment"); std::map<Q, int> hits;
    for (auto& r : out) { std::set<int> got; for (auto& g : r.segs) { I2 a{std::lround(get<0>(get_start(g)) / s), std::lround(get<1>(get_start(g)) / s)}, b{std::lround(get<0>(get_end(g)) / s), std::lround(get<1>(get_end(g)) / s)}; auto it = id.find({std::min(a, b), std::max(a, b)}); REQ(it != id.end(), "a reported segment is not one of the input"); REQ(got.insert(it->second).second, "a segment is reported twice at " << str(r.p)); }
        const Q* best = nullptr; ld bd = 1e30L; for (auto& w : want) { ld d = std::hypot((ld)w.first.x / (ld)w.first.d * s - r.p[0], (ld)w.first.y / (ld)w.first.d * s - r.p[1]); if (d < bd) { bd = d; best = &w.first; } } REQ(best && bd < 1e-7 * s, "the sweep reports " << str(r.p) << " where no two segments meet"); REQ(++hits[*best] == 1, "the meeting point " << str(r.p) << " is reported twice");
        auto& w = want[*best]; if (got != w) { std::ostringstream o; for (int i : w) o << " " << i; std::ostringstream g; for (int i : got) g << " " << i; REQ(got == w, "at " << str(r.p) << " segments" << g.str() << " are reported instead of" << o.str()); } }
    for (auto& w : want) REQ(hits[w.first] == 1, "the meeting point (" << (double)w.first.x / (double)w.first.d * s << "," << (double)w.first.y / (double)w.first.d * s << ") of " << w.second.size() << " segments is not reported"); if (want.empty()) c.trivial(); }
GROUP(mixed, 20000, 800000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{2, 3, 5, 8, 12, 20}); double s = r.pick(std::vector<double>{1, 0.5, 2}); int n = (int)r.in(2, big(r, 22)); std::vector<IS> v; for (int k = 0; k < 4 * n && (int)v.size() < n; ++k) { IS t{rpt(r, m), rpt(r, m)}; if (!v.empty() && r.p(0.2)) { auto& o = v[r.in(0, (long)v.size() - 1)]; t.a = r.p(0.5) ? o.a : o.b; } if (r.p(0.15)) t.b.x = t.a.x; else if (r.p(0.12)) t.b.y = t.a.y; if (t.a == t.b || has_overlap(v, t)) continue; v.push_back(t); } c.in("s", s); c.in("segs", v); judge(c, v, s, 1e-10);
}
// dense arrangements: many more meeting points than segments, many through one point
GROUP(dense, 3000, 100000) {
    Rng& r = c.rng; std::vector<IS> v; int kind = (int)r.in(0, 3); long m = 12; auto add = [&](IS t) { if (t.a != t.b && !has_overlap(v, t)) v.push_back(t); };
    if (kind == 0) { int n = (int)r.in(3, 14); for (int k = 0; k < n; ++k) add({{k, -r.in(0, 2)}, {k, n + r.in(0, 2)}}); for (int k = 0; k < n; ++k) add({{-r.in(0, 2), k}, {n + r.in(0, 2), k}}); }
    else if (kind == 1) { int n = (int)r.in(5, 30); for (int k = 0; k < n; ++k) add({{-m, r.in(-m, m)}, {m, r.in(-m, m)}}); }
    else if (kind == 2) { int n = (int)r.in(3, big(r, 16)); I2 o = rpt(r, 3); for (int k = 0; k < n; ++k) { I2 d = rpt(r, 6); int z = (int)r.in(0, 2); add(z == 0 ? IS{{o.x - d.x, o.y - d.y}, o + d} : z == 1 ? IS{o, o + d} : IS{{o.x - 2 * d.x, o.y - 2 * d.y}, o + d}); } }
    else { int n = (int)r.in(4, 12); for (int k = 0; k < n; ++k) { add({{k, 0}, {n - 1 - k + (int)r.in(0, 1), n}}); add({{0, k}, {n, k + (int)r.in(-1, 1)}}); } }
    r.shuffle(v.begin(), v.end()); c.in("kind", kind); c.in("segs", v); judge(c, v, 1, 1e-10);
}
// overlapping and repeated segments: must end, stay in memory, and report only points shared by the segments it names
GROUP(overlapping, 6000, 200000) {
    Rng& r = c.rng; long m = r.pick(std::vector<long>{2, 3, 5, 8}); int n = (int)r.in(2, big(r, 16)); std::vector<IS> v; while ((int)v.size() < n) { IS t{rpt(r, m), rpt(r, m)}; if (!v.empty() && r.p(0.5)) { auto& o = v[r.in(0, (long)v.size() - 1)]; I2 d = o.b - o.a; long k = r.in(-1, 1), l = r.in(1, 2); t = {{o.a.x + k * d.x, o.a.y + k * d.y}, {o.a.x + l * d.x, o.a.y + l * d.y}}; if (r.p(0.2)) t = o; } if (t.a == t.b) continue; v.push_back(t); } c.in("segs", v); std::vector<S2> in; for (auto& t : v) in.push_back(ts(t.a, t.b)); std::vector<Rep> out; bentley_ottmann_segment_intersection(in, Vis{&out, (std::size_t)(n * n * 2 + 2 * n)}, abs_cmp(1e-10));
    for (auto& q : out) { REQ(q.segs.size() > 1, "a single segment is reported"); for (auto& g : q.segs) REQ(dist_ps(lp(q.p), lp(get_start(g)), lp(get_end(g))) < 1e-7, "segment " << str(get_start(g)) << str(get_end(g)) << " is reported at " << str(q.p) << " where it does not pass"); }
}
