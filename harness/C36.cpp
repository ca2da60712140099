#include "geo.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
using namespace vt;
using namespace geometrix;
// Expected offset: the offset lines of consecutive edges meet at the joints (a straight joint moves along the common normal).
struct Off { std::vector<L2> p; std::vector<bool> in; ld sharp; }; // in: the joint lies on both shifted edges
static Off expected(const std::vector<L2>& v, int side, ld h) { Off o; o.sharp = 10; std::size_t n = v.size(); std::vector<L2> nn; for (std::size_t i = 0; i + 1 < n; ++i) { L2 e = v[i + 1] - v[i]; ld l = norm(e); nn.push_back(L2{-e.y / l * side, e.x / l * side}); } o.p.push_back(v[0] + h * nn[0]); for (std::size_t i = 1; i + 1 < n; ++i) { ld c = dot(nn[i - 1], nn[i]); o.sharp = std::min(o.sharp, 1 + c); L2 j = v[i] + (h / (1 + c)) * (nn[i - 1] + nn[i]); o.p.push_back(j); } o.p.push_back(v[n - 1] + h * nn[n - 2]); for (std::size_t i = 1; i + 1 < n; ++i) { auto par = [&](L2 a, L2 b) { L2 e = b - a; return dot(o.p[i] - (a + h * nn[0]), e) / dot(e, e); }; (void)par; L2 e = v[i] - v[i - 1], f = v[i + 1] - v[i]; ld s = dot(o.p[i] - (v[i - 1] + h * nn[i - 1]), e) / dot(e, e), t = dot(o.p[i] - (v[i] + h * nn[i]), f) / dot(f, f); o.in.push_back((s > -1e-6 && s < 1 + 1e-6 && t > -1e-6 && t < 1 + 1e-6) || (s > 1 + 1e-6 && t < -1e-6)); if (o.in.back() && (s < 1e-6 || t > 1 - 1e-6) && std::fabs((double)cross(e, f)) > 0) o.in.back() = o.in.back() && s > 1e-6 && t < 1 - 1e-6; } return o; }
GROUP(offset, 40000, 2000000) {
    Rng& r = c.rng; int n = (int)r.in(2, big(r, r.p(0.2) ? 14 : 6)); bool grid = r.p(0.5); std::vector<L2> v; L2 q{(ld)r.in(-20, 20), (ld)r.in(-20, 20)}; v.push_back(q); double dir = r.real(0, 6.28), bend = r.pick(std::vector<double>{0.2, 0.8, 1.5, 2.6}); I2 last{1, 0}; for (int i = 1; i < n; ++i) { L2 d; if (grid) { I2 w = last; if (!(i > 1 && r.p(0.3))) for (int g = 0; g < 50; ++g) { w = I2{r.in(-3, 3), r.in(-3, 3)}; if (!(w == I2{0, 0}) && (i == 1 || crossi(last, w) != 0 || doti(last, w) > 0)) break; } if (w == I2{0, 0} || (i > 1 && crossi(last, w) == 0 && doti(last, w) < 0)) w = last; ld s = (ld)r.in(1, 4); d = L2{(ld)w.x * s, (ld)w.y * s}; last = w; } else { dir += r.p(0.1) ? 0 : r.real(-bend, bend); ld s = r.real(0.5, 8); d = L2{s * std::cos(dir), s * std::sin(dir)}; } q = q + d; q = L2{(double)q.x, (double)q.y}; v.push_back(q); }
    double h = r.p(0.1) ? 0 : r.pick(std::vector<double>{0.05, 0.5, 1, 3.7, 0.3, 12}); if (r.p(0.1)) h = -h; bool left = r.p(0.5); std::vector<P2> w; for (auto& x : v) w.push_back(P2((double)x.x, (double)x.y)); PL l(w.begin(), w.end()); c.in("polyline", l); c.in("side", std::string(left ? "left" : "right")); c.in("offset", h); Off o = expected(v, left ? 1 : -1, h); if (o.sharp < 1e-3) SKIP_CASE(); abs_cmp cmp(1e-10); PL g = polyline_offset(l, left ? oriented_left : oriented_right, h, cmp); REQ(g.size() == v.size(), "the offset has " << g.size() << " vertices instead of " << v.size()); double tol = 1e-6 * (1 + std::fabs(h) / (double)o.sharp); for (std::size_t i = 0; i < g.size(); ++i) REQ(std::fabs(g[i][0] - (double)o.p[i].x) <= tol && std::fabs(g[i][1] - (double)o.p[i].y) <= tol, "vertex " << i << " of the offset is " << g[i][0] << ' ' << g[i][1] << " instead of " << (double)o.p[i].x << ' ' << (double)o.p[i].y); count(n > 2 ? "bent" : "single edge"); bool straight = false; for (std::size_t i = 0; i + 2 < v.size(); ++i) if (std::fabs((double)cross(v[i + 1] - v[i], v[i + 2] - v[i + 1])) < 1e-9) straight = true; if (straight) count("with a straight joint");
    // the trimming variant has nothing to trim when every joint lies on both shifted edges and the result does not meet itself
    bool plain = true; for (bool b : o.in) plain = plain && b; for (std::size_t i = 0; i + 2 < v.size(); ++i) { L2 e = v[i + 1] - v[i], f = v[i + 2] - v[i + 1]; if (std::fabs((double)cross(e, f)) < 1e-3 * (double)(norm(e) * norm(f)) && !((e.x == 0 && f.x == 0) || (e.y == 0 && f.y == 0))) plain = false; /* straight only up to rounding: not decided */ } for (std::size_t i = 0; i + 1 < o.p.size() && plain; ++i) for (std::size_t j = i + 2; j + 1 < o.p.size(); ++j) if (dist_ss(o.p[i], o.p[i + 1], o.p[j], o.p[j + 1]) < 1e-4) plain = false; for (std::size_t i = 0; i + 1 < o.p.size() && plain; ++i) if (norm(o.p[i + 1] - o.p[i]) < 1e-3) plain = false; if (plain) { std::vector<PL> t = liu_polyline_offset(l, left ? oriented_left : oriented_right, h, cmp); REQ(t.size() == 1, "the trimmed offset has " << t.size() << " parts"); REQ(t[0].size() == v.size(), "the trimmed offset has " << t[0].size() << " vertices instead of " << v.size()); for (std::size_t i = 0; i < v.size(); ++i) REQ(std::fabs(t[0][i][0] - (double)o.p[i].x) <= tol && std::fabs(t[0][i][1] - (double)o.p[i].y) <= tol, "vertex " << i << " of the trimmed offset is wrong"); count("nothing to trim"); } }
