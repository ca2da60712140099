#include "geo.hpp"
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/capsule.hpp>
#include <geometrix/primitive/rectangle.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/polygon_with_holes_as_segment_range.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
#include <geometrix/tensor/numeric_sequence_compare.hpp>
#include <geometrix/tensor/is_null.hpp>
#include <deque>
using namespace vt;
using namespace geometrix;
typedef segment<P3> S3; typedef line<P2> LN; typedef sphere<2, P2> C2; typedef sphere<3, P3> B3; typedef capsule<P2> CA; typedef polygon_with_holes<P2> PH;
static bool eq(const P2& a, const P2& b) { return a[0] == b[0] && a[1] == b[1]; }
static bool eq(const P3& a, const P3& b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
template <class A, class B> static bool eqs(const A& a, const B& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!eq(a[i], b[i])) return false; return true; }
static P2 any2(Rng& r) { double m = r.pick(std::vector<double>{1, 10, 1e3, 1e-3, 1e6}); return r.p(0.3) ? P2((double)r.in(-3, 3), (double)r.in(-3, 3)) : P2(r.real(-m, m), r.real(-m, m)); }
static P3 any3(Rng& r) { double m = r.pick(std::vector<double>{1, 10, 1e3, 1e-3}); return r.p(0.3) ? P3((double)r.in(-3, 3), (double)r.in(-3, 3), (double)r.in(-3, 3)) : P3(r.real(-m, m), r.real(-m, m), r.real(-m, m)); }
template <class S, class P> static void seg_is(const S& s, const P& a, const P& b, const char* n) { REQ(eq(get_start(s), a) && eq(get_end(s), b) && eq(s.get_start(), a) && eq(s.get_end(), b), n << ": the ends are " << str(get_start(s)) << str(get_end(s)) << " instead of " << str(a) << str(b)); REQ(number_vertices(s) == 2 && eq(get_vertex(s, 0), a) && eq(get_vertex(s, 1), b), n << ": the vertices are mixed up"); }
template <class P> static void seg_ops(const P& a, const P& b, const P& d) {
    typedef segment<P> S; S s(a, b); seg_is(s, a, b, "made"); seg_is(construct<S>(a, b), a, b, "constructed"); seg_is(make_segment(a, b), a, b, "make_segment"); S t; t = s; seg_is(t, a, b, "assigned"); S u(s); seg_is(u.reverse(), b, a, "reversed"); seg_is(u, a, b, "reversing leaves the segment alone"); t.set_start(d); seg_is(t, d, b, "start replaced"); t.set_end(a); seg_is(t, d, a, "end replaced"); set_start(u, d); seg_is(u, d, b, "start replaced by function"); set_end(u, a); seg_is(u, d, a, "end replaced by function"); seg_is(s, a, b, "the copied segment"); std::vector<P> v{a, b}; seg_is(construct<S>(v), a, b, "made from a sequence"); std::array<P, 2> ar{{a, b}}; seg_is(construct<S>(ar), a, b, "made from an array"); }
GROUP(parts, 6000, 400000) {   // segments, spheres, capsules, lines
    Rng& r = c.rng; P2 a = any2(r), b = any2(r), d = any2(r); c.in("a", a); c.in("b", b); c.in("d", d); seg_ops(a, b, d); S2 s4(a[0], a[1], b[0], b[1]); seg_is(s4, a, b, "made from four numbers"); P3 a3 = any3(r), b3 = any3(r), d3 = any3(r); seg_ops(a3, b3, d3);
    { P2 m = segment_mid_point(a, b), m2 = segment_mid_point(s4); ld e = 1e-15L * (std::fabs(a[0]) + std::fabs(a[1]) + std::fabs(b[0]) + std::fabs(b[1])); for (int i = 0; i < 2; ++i) REQ(std::fabs((ld)m[i] - ((ld)a[i] + (ld)b[i]) / 2) <= e && m[i] == m2[i], "the mid point is " << str(m)); P3 k = segment_mid_point(S3(a3, b3)); for (int i = 0; i < 3; ++i) REQ(std::fabs((ld)k[i] - ((ld)a3[i] + (ld)b3[i]) / 2) <= 1e-12L, "the mid point in space is " << str(k)); }
    double R = r.real(0, 10), Q = r.real(0, 5); C2 q(a, R); REQ(eq(get_center(q), a) && get_radius(q) == R, "circle parts"); C2 w; w = q; w.set_center(b); REQ(eq(get_center(w), b) && get_radius(w) == R && eq(get_center(q), a), "centre replaced"); w.set_radius(Q); REQ(eq(get_center(w), b) && get_radius(w) == Q && get_radius(q) == R, "radius replaced"); C2 w2 = construct<C2>(d, Q), w3 = make_sphere<2>(d, Q); REQ(eq(get_center(w2), d) && get_radius(w2) == Q && eq(get_center(w3), d) && get_radius(w3) == Q, "constructed circle"); B3 b0(a3, R); B3 b1(b0); b1.set_center(b3); REQ(eq(get_center(b0), a3) && eq(get_center(b1), b3) && get_radius(b1) == R, "ball parts");
    CA k(a, b, R), k2(S2(a, b), Q), k3 = construct<CA>(a, b, Q), k4 = construct<CA>(S2(b, a), R); auto chk = [&](const CA& x, const P2& p, const P2& z, double rr) { seg_is(x.get_segment(), p, z, "capsule"); REQ(x.get_radius() == rr && capsule_access_traits<CA>::get_radius(x) == rr && eq(get_start(capsule_access_traits<CA>::get_segment(x)), p), "capsule parts"); }; chk(k, a, b, R); chk(k2, a, b, Q); chk(k3, a, b, Q); chk(k4, b, a, R);
    P2 p = any2(r), v2 = any2(r); ld L = norm(lp(v2) - lp(p)); if (L < 1e-9) SKIP_CASE(); ld M = std::fabs((ld)p[0]) + std::fabs((ld)p[1]) + std::fabs((ld)v2[0]) + std::fabs((ld)v2[1]); if (L < 1e-4L * M) SKIP_CASE();
    V2 dv = V2(v2 - p); double st = std::pow(10., r.real(-3, 3)); V2 dvs(dv[0] * st, dv[1] * st); LN ls[] = {LN(p, v2), LN(p, dvs), LN(S2(p, v2)), make_line(p, v2), make_line(p, dvs), make_line(S2(p, v2)), construct<LN>(p, dvs)}; L2 u = (1 / L) * (lp(v2) - lp(p)); ld e = 1e-13L * M / L; for (auto& l : ls) {
        auto n = l.get_normal_vector(); auto t = l.get_parallel_vector(); REQ(eq(l.get_reference_point(), p) && eq(line_access_traits<LN>::get_reference_point(l), p), "the line does not keep its reference point"); REQ(std::fabs((ld)t[0] - u.x) < e && std::fabs((ld)t[1] - u.y) < e, "direction " << t[0] << "," << t[1]); REQ(n[0] == -t[1] && n[1] == t[0], "the normal is not the left normal of the direction"); auto t2 = line_access_traits<LN>::get_parallel_vector(l); auto n2 = line_access_traits<LN>::get_normal_vector(l); REQ(t2[0] == t[0] && t2[1] == t[1] && n2[0] == n[0] && n2[1] == n[1], "the line's parts read by function differ"); ld D = (ld)p[0] * -u.y + (ld)p[1] * u.x; REQ(std::fabs((ld)l.get_distance_to_origin() - D) < 1e-12L * M * (1 + M / L) + 1e-15L, "signed distance " << l.get_distance_to_origin() << " instead of " << D); } count("lines", 7); }
GROUP(hyperplane, 20000, 1000000) {   // a segment against a line that splits the plane
    Rng& r = c.rng; long m = r.pick(std::vector<long>{3, 10, 100}); I2 a, b, p, q; do { p = rpt(r, m); q = rpt(r, m); } while (p == q); if (r.p(0.3)) { q = p; (r.p(0.5) ? q.x : q.y) += r.in(1, m); } a = rpt(r, m); b = rpt(r, m); if (r.p(0.2)) a = I2{p.x + 2 * (q.x - p.x), p.y + 2 * (q.y - p.y)}; double s = r.pick(std::vector<double>{1, 0.5, 4}); c.in("segment", IS{a, b}); c.in("line", IS{p, q}); long oa = orient(p, q, a), ob = orient(p, q, b); i128 ca = crossi(q - p, a - p), cb = crossi(q - p, b - p); (void)ca; (void)cb; if (crossi(q - p, b - a) == 0) { c.trivial(); return; }
    LN l(tp(p, s), tp(q, s)); double t = 7e9; P2 x(7e9, 7e9); bool hit = segment_plane_intersection(tp(a, s), tp(b, s), l, t, x); ld T = (ld)(long)ca / ((ld)(long)ca - (ld)(long)cb); bool clear = oa != 0 && ob != 0; REQ(std::fabs(t - (double)T) < 1e-9 * (1 + std::fabs((double)T)), "parameter " << t << " instead of " << (double)T);
    if (clear) { REQ(hit == (oa != ob), "the line is " << (hit ? "" : "not ") << "reached by a segment with sides " << oa << "," << ob); } if (hit) { L2 X = lp(tp(a, s)) + T * (lp(tp(b, s)) - lp(tp(a, s))); REQ(norm(lp(x) - X) < 1e-9L * m * s, "point " << str(x) << " is off the line or the segment"); count("reached"); } else count("not reached"); }
GROUP(sequences, 6000, 300000) {   // the same points kept in every kind of container
    Rng& r = c.rng; IPoly p = any_poly(r, 14); double s = rscale(r); c.in("polygon", p); std::vector<P2> v; for (auto& a : p) v.push_back(tp(a, s)); std::deque<P2> d(v.begin(), v.end()); PG pg(v.begin(), v.end()), pg1(v), pg2 = construct<PG>(v), pg3; pg3 = v; PG pg4(std::vector<P2>(v.begin(), v.end())); REQ(eqs(pg4, v), "a polygon made of a vector"); PG pg5{v[1], v[0]}, pg6{v[0], v[2], v[1], v[0]}, pg7(v.size() + 2), pg8; REQ(pg7.size() == v.size() + 2, "a polygon of a given size"); pg4.pop_back(); pg4 = std::vector<P2>(v); pg5 = v; pg6 = std::vector<P2>(v); pg7 = pg1; pg8 = PG(v.begin(), v.end()); PL pl4(std::vector<P2>(v.begin(), v.end())), pl5{v[1], v[0]}, pl6{v[0], v[2], v[1], v[0]}, pl7(v.size() + 2), pl8; REQ(eqs(pl4, v), "a polyline made of a vector"); pl4.pop_back(); pl4 = std::vector<P2>(v); pl5 = v; pl6 = std::vector<P2>(v); pl7 = PL(v); pl8 = PL(v.begin(), v.end()); { PG x(v); x = {v[2], v[1]}; PL y(v); y = {v[2], v[1]}; for (int i = 0; i < 2; ++i) REQ(x.size() == 2 && y.size() == 2 && eq(x[i], v[2 - i]) && eq(y[i], v[2 - i]), "a list of points is not kept on assignment"); PG o(v); auto& self = o; o = self; REQ(eqs(o, v), "a polygon assigned to itself"); } PL pl(v.begin(), v.end()), pl1(v), pl2 = construct<PL>(v), pl3; pl3 = v; PG e1(pg), e2(std::move(e1)), e3; e3 = e2; PG e4; e4 = std::move(e3); PL f1(pl), f2(std::move(f1)), f3; f3 = f2; PL f4; f4 = std::move(f3);
    for (auto* x : {&pg, &pg1, &pg2, &pg3, &pg4, &pg5, &pg6, &pg7, &pg8, &e2, &e4}) REQ(eqs(*x, v), "a polygon does not keep the points it was given"); for (auto* x : {&pl, &pl1, &pl2, &pl3, &pl4, &pl5, &pl6, &pl7, &pl8, &f2, &f4}) REQ(eqs(*x, v), "a polyline does not keep the points it was given");
    ld A = (ld)(long)area2(p) / 2 * s * s; double ar[] = {get_signed_area(v), get_signed_area(d), get_signed_area(pg), get_signed_area(pl)}; for (double a : ar) REQ(a == ar[0] && vt::close(a, A, 1e-12, 1e-12 * s * s), "area " << a << " instead of " << (double)A); abs_cmp cmp(1e-10 * s); I2 q = rpt(r, 8); for (int i = 0; i < 2; ++i) { P2 x = tp(q, s); int in = in_poly(p, q); if (in != 0) REQ(point_in_polygon(x, v) == (in > 0) && point_in_polygon(x, d) == (in > 0) && point_in_polygon(x, pg) == (in > 0), "point in polygon differs between containers"); q = rpt(r, 8); }
    typedef point_sequence_traits<std::vector<P2>> TV; typedef point_sequence_traits<std::deque<P2>> TD; typedef point_sequence_traits<PG> TG; REQ(TV::size(v) == p.size() && TD::size(d) == p.size() && TG::size(pg) == p.size() && !TV::empty(v) && !TD::empty(d) && !TG::empty(pg), "sizes"); REQ(eq(TV::front(v), v[0]) && eq(TD::front(d), v[0]) && eq(TG::front(pg), v[0]) && eq(TV::back(v), v.back()) && eq(TD::back(d), v.back()) && eq(TG::back(pg), v.back()), "front and back"); for (std::size_t i = 0; i < v.size(); ++i) REQ(eq(TV::get_point(v, i), v[i]) && eq(TD::get_point(d, i), v[i]) && eq(TG::get_point(pg, i), v[i]), "point " << i); { std::size_t i = 0; for (auto it = TD::begin(d); it != TD::end(d); ++it) REQ(eq(*it, v[i++]), "iteration"); for (auto it = TD::rbegin(d); it != TD::rend(d); ++it) REQ(eq(*it, v[--i]), "reverse iteration"); i = v.size(); for (auto it = TV::rbegin(v); it != TV::rend(v); ++it) REQ(eq(*it, pl[--i]), "reverse iteration"); }
    P2 n = any2(r); std::vector<P2> w(v); TV::push_back(w, n); d.push_back(n); TG::push_back(pg, n); REQ(eqs(w, d) && eqs(w, pg) && eq(w.back(), n) && w.size() == v.size() + 1, "push_back"); TV::pop_back(w); d.pop_back(); TG::pop_back(pg); REQ(eqs(w, v) && eqs(d, v) && eqs(pg, v), "pop_back");
    P2 k[4]; for (auto& z : k) z = any2(r); std::array<P2, 4> a4{{k[0], k[1], k[2], k[3]}}; rectangle<P2> rc(k[0], k[1], k[2], k[3]), rc2(a4), rc3 = construct<rectangle<P2>>(k[0], k[1], k[2], k[3]); PG g4{k[0], k[1], k[2], k[3]}; REQ(eqs(rc, g4) && eqs(rc2, g4) && eqs(rc3, g4) && eqs(a4, g4), "a rectangle does not keep its corners"); double A4 = get_signed_area(g4); REQ(get_signed_area(g4) == A4 && vt::close(get_signed_area(g4), 0.5 * ((ld)cross(lp(k[2]) - lp(k[0]), lp(k[3]) - lp(k[1]))), 1e-9, 1e-9 * (std::fabs(A4) + 1e6)), "four corners"); typedef point_sequence_traits<rectangle<P2>> TR; REQ(TR::size(rc) == 4 && !TR::empty(rc) && eq(TR::front(rc), k[0]) && eq(TR::back(rc), k[3]) && eq(TR::get_point(rc, 2), k[2]), "rectangle as a sequence");
    count("containers compared", 7); }
GROUP(holes, 8000, 400000) {   // a polygon with holes against a plain list of lists
    Rng& r = c.rng; typedef std::vector<P2> V; auto fresh = [&] { V v; int n = (int)r.in(1, big(r, 5)); for (int i = 0; i < n; ++i) v.push_back(any2(r)); return v; }; auto pg = [&](const V& v) { return PG(v.begin(), v.end()); }; V o = fresh(); std::vector<V> h; PG src = pg(o); PH g(src); if (r.p(0.4)) { int n = (int)r.in(0, 3); std::vector<PG> hs; for (int i = 0; i < n; ++i) { h.push_back(fresh()); hs.push_back(pg(h.back())); } std::vector<PG> keep(hs); switch (r.in(0, 3)) { case 0: g = PH(src, hs); break; case 1: g = PH(PG(src), hs); break; case 2: g = PH(src, std::move(hs)); hs = keep; break; default: g = PH(PG(src), std::move(hs)); hs = keep; } REQ(eqs(src, o), "building a polygon with holes changes the border it was given"); for (std::size_t i = 0; i < h.size(); ++i) REQ(eqs(hs[i], h[i]), "building a polygon with holes changes the holes it was given"); }
    auto judge = [&](const PH& x, const V& oo, const std::vector<V>& hh, const char* n) { REQ(eqs(x.get_outer(), oo), n << ": the border is not the one given"); REQ(x.get_holes().size() == hh.size(), n << ": " << x.get_holes().size() << " holes instead of " << hh.size()); for (std::size_t i = 0; i < hh.size(); ++i) REQ(eqs(x.get_holes()[i], hh[i]), n << ": hole " << i << " is not the one given"); };
    int ops = (int)r.in(1, 12); std::string tr; for (int k = 0; k < ops; ++k) { int op = (int)r.in(0, 9); tr += char('0' + op); c.in("operations", tr); V n = fresh(); PG q = pg(n); const PG cq(q); switch (op) {
        case 0: g.set_outer(cq); o = n; break; case 1: g.set_outer(std::move(q)); q = pg(n); o = n; break; case 2: g.set_outer(q); o = n; REQ(eqs(q, n), "setting the border empties the polygon it was given"); break;
        case 3: g.add_hole(cq); h.push_back(n); break; case 4: g.add_hole(std::move(q)); q = pg(n); h.push_back(n); break; case 5: g.add_hole(q); h.push_back(n); REQ(eqs(q, n), "adding a hole empties the polygon it was given"); break;
        case 6: { PH x(g); judge(x, o, h, "copy"); x.add_hole(cq); judge(g, o, h, "the copied one"); break; } case 7: { PH x(g); PH y(std::move(x)); judge(y, o, h, "moved"); g = std::move(y); break; } case 8: { PH x(pg(n)); x = g; judge(x, o, h, "assigned"); x.set_outer(cq); judge(g, o, h, "the one assigned from"); break; } default: if (!h.empty()) { std::size_t i = r.in(0, (long)h.size() - 1); g.get_holes()[i] = cq; h[i] = n; } else { g.get_outer() = cq; o = n; } }
        REQ(eqs(cq, n), "a constant polygon changes"); judge(g, o, h, "after an operation"); }
    std::size_t e = o.size(); for (auto& x : h) e += x.size(); bool ok = o.size() > 1; for (auto& x : h) ok = ok && x.size() > 1; if (ok) { auto sg = polygon_with_holes_as_segment_range<S2>(g); REQ(sg.size() == e, sg.size() << " edges instead of " << e); std::size_t k = 0; auto ring = [&](const V& x) { for (std::size_t i = 0; i < x.size(); ++i, ++k) REQ(eq(get_start(sg[k]), x[i]) && eq(get_end(sg[k]), x[(i + 1) % x.size()]), "edge " << k); }; ring(o); for (auto& x : h) ring(x); count("edges listed"); } count("operations", ops); }
GROUP(equality, 20000, 1000000) {   // equality of coordinate tuples within a tolerance
    Rng& r = c.rng; double tol = std::pow(10., r.real(-9, -1)); P3 a = any3(r), b = a; double d[3]; bool same2 = true, same3 = true; for (int i = 0; i < 3; ++i) { d[i] = r.p(0.5) ? 0 : r.p(0.5) ? tol * r.real(0, 0.9) : tol * r.real(1.1, 50); if (r.p(0.5)) d[i] = -d[i]; b[i] += d[i]; if (std::fabs(d[i]) > tol) { same3 = false; if (i < 2) same2 = false; } } if (tol < 1e-6 && std::fabs(a[0]) + std::fabs(a[1]) + std::fabs(a[2]) > 100) SKIP_CASE(); c.in("a", a); c.in("b", b); c.in("tol", tol); abs_cmp cmp(tol);
    REQ(numeric_sequence_equals(a, b, cmp) == same3 && numeric_sequence_equals_3d(a, b, cmp) == same3, "in space: equal to within " << tol); P2 p(a[0], a[1]), q(b[0], b[1]); REQ(numeric_sequence_equals(p, q, cmp) == same2 && numeric_sequence_equals_2d(p, q, cmp) == same2 && numeric_sequence_equals(q, p, cmp) == same2, "in the plane: equal to within " << tol); bool z2 = std::fabs(d[0]) <= tol && std::fabs(d[1]) <= tol; REQ(is_null(V2(d[0], d[1]), cmp) == z2 && is_null(V3(d[0], d[1], d[2]), cmp) == same3, "the null test within " << tol); REQ(is_null(V3(d[0], d[1], d[2])) == (d[0] == 0 && d[1] == 0 && d[2] == 0), "the exact null test"); count(same3 ? "equal" : "different"); }
