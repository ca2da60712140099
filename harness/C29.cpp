#include "geo.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
using namespace vt;
using namespace geometrix;
template <class P, std::size_t N> struct Chain { polyline<P> g; std::vector<ld> at; ld len; double ext; std::string s;
    ld d(const P& a, const P& b) const { ld q = 0; for (std::size_t i = 0; i < N; ++i) { ld t = (ld)a[i] - (ld)b[i]; q += t * t; } return std::sqrt(q); }
    P pos(ld t) const { std::size_t i = 0; while (i + 2 < g.size() && at[i + 1] < t) ++i; ld u = at[i + 1] > at[i] ? (t - at[i]) / (at[i + 1] - at[i]) : 0; P p; for (std::size_t q = 0; q < N; ++q) p[q] = (double)((ld)g[i][q] + u * ((ld)g[i + 1][q] - (ld)g[i][q])); return p; }
    std::vector<P> part(ld a, ld b) const { std::vector<P> o{pos(a)}; for (std::size_t i = 0; i < g.size(); ++i) if (at[i] > a && at[i] < b) o.push_back(g[i]); o.push_back(pos(b)); return o; }
    template <class S> std::vector<P> thin(const S& v) const { std::vector<P> o; for (auto const& p : v) if (o.empty() || d(o.back(), p) > 2e-8L * ext) o.push_back(p); return o; }
    template <class S, class T> bool same(const S& a, const T& b) const { auto x = thin(a), y = thin(b); if (x.size() != y.size()) return false; for (std::size_t i = 0; i < x.size(); ++i) if (d(x[i], y[i]) > 4e-8L * ext) return false; return true; } };
template <class P, std::size_t N> static Chain<P, N> make(Case& c, double k, std::vector<std::array<long, N>>& raw) { Rng& r = c.rng; Chain<P, N> h; int n = (int)r.in(2, big(r, r.p(0.2) ? 40 : 8)); long m = r.pick(std::vector<long>{2, 5, 20, 300}); bool dup = r.p(0.25), axis = r.p(0.25), mono = r.p(0.15); for (int i = 0; i < n; ++i) { std::array<long, N> p; for (auto& x : p) x = r.in(-m, m); if (i && axis) { auto q = raw.back(); int ax = (int)r.in(0, N - 1); q[ax] = p[ax]; p = q; } if (mono && i) { p = raw.back(); p[0] += r.in(1, m); } if (i && !dup && p == raw.back()) { --i; if (axis) for (auto& x : raw.back()) x += r.in(0, 1); continue; } if (dup && i && r.p(0.3)) p = raw.back(); raw.push_back(p); } h.ext = m * k; for (auto& p : raw) { P q; for (std::size_t i = 0; i < N; ++i) { q[i] = p[i] * k; h.ext = std::max(h.ext, std::fabs(q[i])); } h.g.push_back(q); } h.at.push_back(0); for (int i = 1; i < n; ++i) h.at.push_back(h.at.back() + h.d(h.g[i - 1], h.g[i])); h.len = h.at.back(); h.s = strs(h.g); c.in("polyline", h.s); return h; }
template <class P, std::size_t N> static double place(Rng& r, const Chain<P, N>& h) { switch (r.in(0, 6)) { case 0: return (double)h.at[r.in(0, (long)h.at.size() - 1)]; case 1: return 0; case 2: return std::min((double)h.len, (double)(h.at[r.in(0, (long)h.at.size() - 1)] + 1e-6L * h.ext)); case 3: return (double)(h.len / 2); default: return (double)(h.len * r.u()); } }
template <class P, std::size_t N> static void run(Case& c) {
    Rng& r = c.rng; double k = r.pick(std::vector<double>{1, 1, 0.5, 0.25, 0.1, 3, 1000}); std::vector<std::array<long, N>> raw; auto h = make<P, N>(c, k, raw); if (h.len <= 0) SKIP_CASE(); abs_cmp cmp(1e-10); ld tol = 1e-11L * h.ext * h.g.size(); bool exact = k != 0.1; for (std::size_t i = 0; i + 1 < raw.size(); ++i) { int df = 0; for (std::size_t x = 0; x < N; ++x) df += raw[i][x] != raw[i + 1][x]; if (df != 1) exact = false; }
    REQ(vt::close(polyline_length(h.g), h.len, 1e-12, 0), "polyline_length is " << polyline_length(h.g) << " instead of " << h.len); auto mid = polyline_mid_point(h.g); P mp; for (std::size_t i = 0; i < N; ++i) mp[i] = mid[i]; REQ(h.d(mp, h.pos(h.len / 2)) < tol * 10, "the mid point is " << str(mp) << " instead of " << str(h.pos(h.len / 2)));
    { polygon<P> pg(h.g.begin(), h.g.end()); ld w = h.len + h.d(h.g.back(), h.g.front()); REQ(vt::close(polygon_length(pg), w, 1e-12, 0), "polygon_length is " << polygon_length(pg) << " instead of " << w); }
    auto cum = polyline_segment_lengths(h.g); REQ(cum.size() + 1 == h.g.size(), "number of running lengths"); for (std::size_t i = 0; i < cum.size(); ++i) REQ(vt::close(cum[i], h.at[i + 1], 1e-12, 1e-13), "running length " << i);
    for (int q = 0; q < 4; ++q) { double s = place(r, h); c.in("position", s); bool inside = s < (double)h.len - 1e-9 * h.ext; if (inside) { auto at = polyline_point_at_position(h.g, s); std::size_t i = std::get<0>(at); REQ(i + 1 < h.g.size(), "segment index " << i); P p = h.g[i]; if (std::get<1>(at)) { count("inside an edge"); for (std::size_t x = 0; x < N; ++x) p[x] = (*std::get<1>(at))[x]; } else count("on a vertex"); REQ(s >= h.at[i] - tol && s <= h.at[i + 1] + tol, "position " << s << " is placed on edge " << i << " which spans " << h.at[i] << ".." << h.at[i + 1]); REQ(h.d(p, h.pos(s)) < tol * 10, "the point at " << s << " is " << str(p) << " instead of " << str(h.pos(s))); } else { count("at the end"); auto at = polyline_point_at_position(h.g, (double)h.len + h.ext * r.pick(std::vector<double>{0.5, 1e-3, 1e3})); REQ(!std::get<1>(at), "a position beyond the end of the polyline is given a point"); REQ(std::get<0>(at) < h.g.size(), "segment index beyond the end: " << std::get<0>(at)); }
        auto sp = polyline_split(h.g, s); auto const& A = std::get<0>(sp); auto const& B = std::get<1>(sp); REQ(!A.empty() && !B.empty(), "a part of the split is empty"); REQ(h.d(A.back(), B.front()) <= tol, "the parts do not join: " << str(A.back()) << str(B.front())); REQ(h.same(A, h.part(0, s)), "the first part is " << strs(A) << " instead of " << strs(h.part(0, s))); REQ(h.same(B, h.part(s, h.len)), "the second part is " << strs(B) << " instead of " << strs(h.part(s, h.len))); if (exact && std::count(h.at.begin(), h.at.end(), (ld)s)) { auto rep = [&](const polyline<P>& z) { for (std::size_t i = 0; i + 1 < z.size(); ++i) if (h.d(z[i], z[i + 1]) == 0) return true; return false; }; REQ(!rep(A) && !rep(B), "a split exactly at a vertex repeats a point: " << strs(A) << " and " << strs(B)); count("split exactly at a vertex"); } ld la = A.size() > 1 ? polyline_length(A) : 0, lb = B.size() > 1 ? polyline_length(B) : 0; REQ(std::fabs(la - s) < tol * 10 && std::fabs(la + lb - h.len) < tol * 10, "lengths " << la << "+" << lb); }
    { double s = place(r, h); if (r.p(0.1)) s = (double)h.len * r.real(1.01, 3); c.in("clip", s); auto ends = r.p(0.5); auto chk = [&](const polyline<P>& got, ld a, ld b, const char* n) { if (b - a > 1e-7L * h.ext) { REQ(h.same(got, h.part(a, b)), n << " leaves " << strs(got) << " instead of " << strs(h.part(a, b))); count(n); } else if (b - a < -1e-7L * h.ext) { REQ(got.empty(), n << " leaves " << strs(got) << " although more than the whole length is cut"); count("all cut off"); } else REQ(h.thin(got).size() <= 1, n << " leaves " << strs(got) << " although the whole length is cut"); };
        chk(clip_polyline_front(h.g, s, cmp), s, h.len, "front clip"); chk(clip_polyline_back(h.g, s, cmp), 0, h.len - s, "back clip"); if (ends) s /= 2; if (s < h.len * 1.0000001L || s > h.len * 1.01L) chk(clip_polyline_ends(h.g, s, cmp), s, h.len - s, "clip at both ends"); } }
GROUP(plane, 6000, 400000) { run<P2, 2>(c); }
GROUP(space, 4000, 300000) { run<P3, 3>(c); }
GROUP(point, 8000, 400000) { // a point on the polyline: distances to both ends and the edge holding it
    Rng& r = c.rng; int n = (int)r.in(2, big(r, 9)); long m = r.pick(std::vector<long>{2, 4, 12, 60}); std::vector<I2> v; bool axis = r.p(0.3); for (int i = 0; i < n; ++i) { I2 p = rpt(r, m); if (axis && i) (r.p(0.5) ? p.x : p.y) = (r.p(0.5) ? v.back().x : p.x); if (i && p == v.back()) { --i; continue; } v.push_back(p); } for (auto& p : v) p = I2{p.x * 4, p.y * 4}; std::size_t e = r.in(0, n - 2); I2 p; bool off = r.p(0.15); if (off) p = rpt(r, 4 * m + 2); else { long q = r.in(0, 4); p = I2{v[e].x + (v[e + 1].x - v[e].x) / 4 * q, v[e].y + (v[e + 1].y - v[e].y) / 4 * q}; } double k = r.pick(std::vector<double>{1, 0.5, 0.125, 2}); c.in("polyline", v); c.in("point", p); c.in("scale", k);
    auto g = tpl(v, k); ld pre = 0, post = 0; long idx = -1; for (int i = 0; i + 1 < n; ++i) { ld d = norm(lp(tp(v[i + 1] - v[i], k))); if (idx < 0) { if (on_seg(p, v[i], v[i + 1])) { idx = i; pre += norm(lp(tp(p - v[i], k))); post += norm(lp(tp(v[i + 1] - p, k))); } else pre += d; } else post += d; } auto x = point_on_polyline_length_characteristics(g, tp(p, k), abs_cmp(1e-10)); double a = std::get<0>(x).value(), b = std::get<1>(x).value(); std::size_t ix = std::get<2>(x).value(); count(idx < 0 ? "off the polyline" : "on the polyline"); REQ((idx < 0) == (ix == std::size_t(-1)) && (idx < 0 || ix == (std::size_t)idx), "edge " << (long)ix << " instead of " << idx); REQ(vt::close(a, pre, 1e-12, 1e-12) && vt::close(b, post, 1e-12, 1e-12), "distances " << a << "," << b << " instead of " << pre << "," << post); }
