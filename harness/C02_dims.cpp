#include "geo.hpp"
#include <utility>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
using namespace vt;
// the dimensions the other groups leave out, each with the basic operations and element by element construction
namespace {
template <class T, std::size_t... I> T from(const double* x, std::index_sequence<I...>) { return T(x[I]...); }
template <class T, std::size_t... I> void assign_to(T& t, const double* x, std::index_sequence<I...>) { geometrix::assign(t, x[I]...); }
template <std::size_t N> std::enable_if_t<(N > 1 && N < 11)> assigned(vt::Case& c, const double* x) { using V = geometrix::vector<double, N>; using P = geometrix::point<double, N>; V v; P p; assign_to(v, x, std::make_index_sequence<N>()); assign_to(p, x, std::make_index_sequence<N>()); for (std::size_t i = 0; i < N; ++i) REQ(v[i] == x[i] && p[i] == x[i], "assigning " << N << " elements, element " << i); (void)c; }
template <std::size_t N> std::enable_if_t<!(N > 1 && N < 11)> assigned(vt::Case&, const double*) {}
template <std::size_t N> void basics(vt::Case& c) {
    using namespace geometrix; using V = geometrix::vector<double, N>; using P = geometrix::point<double, N>; Rng& r = c.rng; double x[N], y[N], s = (double)r.in(-8, 8), t = r.pick(std::vector<double>{1, 2, -2, 0.5, 4}); bool real = r.p(0.4); for (std::size_t i = 0; i < N; ++i) { x[i] = real ? r.real(-9, 9) : (double)r.in(-50, 50); y[i] = real ? r.real(-9, 9) : (double)r.in(-50, 50); } c.in("dimension", (long)N); for (std::size_t i = 0; i < N; ++i) { c.in("x", x[i]); c.in("y", y[i]); } c.in("s", s); c.in("t", t);
    V a = from<V>(x, std::make_index_sequence<N>()), b = from<V>(y, std::make_index_sequence<N>()); P p = from<P>(x, std::make_index_sequence<N>()), q = from<P>(y, std::make_index_sequence<N>()); for (std::size_t i = 0; i < N; ++i) REQ(a[i] == x[i] && q[i] == y[i], "constructed element " << i); assigned<N>(c, x);
    double eps = real ? 1e-11 : 0; auto eq = [&](double g, double w) { return std::fabs(g - w) <= eps * (1 + std::fabs(w)); };
#define EACH(TYPE, e, w, what) do { TYPE g_ = TYPE(e); TYPE h_; h_ <<= e; for (std::size_t i = 0; i < N; ++i) { double w_ = w; REQ(eq(g_[i], w_), what " constructed: component " << i << " is " << g_[i] << ", not " << w_); REQ(eq(h_[i], w_), what " assigned: component " << i << " is " << h_[i] << ", not " << w_); } count("expressions"); } while (0)
    EACH(V, (a + b), x[i] + y[i], "a+b"); EACH(V, (a - b), x[i] - y[i], "a-b"); EACH(V, (s * a), s * x[i], "s*a"); EACH(V, (a * s), s * x[i], "a*s"); EACH(V, (b / t), y[i] / t, "b/t"); EACH(V, (-a), -x[i], "-a"); EACH(V, (p - q), x[i] - y[i], "p-q"); EACH(P, (p + b), x[i] + y[i], "p+b"); EACH(P, (p - b), x[i] - y[i], "p-b"); EACH(P, (p + (q - p) * t), x[i] + (y[i] - x[i]) * t, "p+(q-p)*t"); EACH(V, (s * (a - b) + b / t), s * (x[i] - y[i]) + y[i] / t, "s*(a-b)+b/t");
    V u = a; u += b; for (std::size_t i = 0; i < N; ++i) REQ(eq(u[i], x[i] + y[i]), "a+=b, component " << i); u = a; u -= b; for (std::size_t i = 0; i < N; ++i) REQ(eq(u[i], x[i] - y[i]), "a-=b, component " << i); u = a; u *= s; for (std::size_t i = 0; i < N; ++i) REQ(eq(u[i], x[i] * s), "a*=s, component " << i); u = a; u /= t; for (std::size_t i = 0; i < N; ++i) REQ(eq(u[i], x[i] / t), "a/=t, component " << i);
    ld d = 0, m = 0, k = 0; for (std::size_t i = 0; i < N; ++i) { d += (ld)x[i] * y[i]; m += (ld)x[i] * x[i]; k += ((ld)x[i] - y[i]) * ((ld)x[i] - y[i]); }
    auto near = [&](double g, ld w) { return std::fabs((double)(g - w)) <= 1e-12 * (double)(1 + m + k + fabsl(w)); }; REQ(near(dot_product(a, b), d), "dot product of dimension " << N << " is " << dot_product(a, b) << ", not " << (double)d); double e = 0; e <<= a * b; REQ(near(e, d), "a*b is " << e << ", not " << (double)d); REQ(near(magnitude_sqrd(a), m), "squared magnitude"); REQ(near(magnitude(a), sqrtl(m)), "magnitude is " << magnitude(a) << ", not " << (double)sqrtl(m)); REQ(near(point_point_distance(p, q), sqrtl(k)) && near(point_point_distance_sqrd(p, q), k), "distance of points");
    if (m > 1e-6L) { V n = normalize(a); for (std::size_t i = 0; i < N; ++i) REQ(std::fabs((double)(n[i] - x[i] / sqrtl(m))) < 1e-13 * N, "normalize, component " << i << " is " << n[i]); }
    bool same = true; for (std::size_t i = 0; i < N; ++i) same = same && x[i] == y[i]; REQ(numeric_sequence_equals(a, b, direct()) == same && numeric_sequence_equals(a, V(a), direct()), "equality of coordinate sequences"); std::size_t z = r.in(0, (long)N - 1); V w = a; w[z] += 1; P o = p; o[z] -= 1; REQ(!numeric_sequence_equals(a, w, direct()) && !numeric_sequence_equals(p, o, direct()), "sequences that differ in element " << z << " only are called equal"); }
}
GROUP(more_dims, 12000, 400000) { switch (c.index % 8) { case 0: basics<6>(c); break; case 1: basics<8>(c); break; case 2: basics<9>(c); break; case 3: basics<10>(c); break; case 4: basics<12>(c); break; case 5: basics<15>(c); break; case 6: basics<19>(c); break; default: basics<20>(c); } }
