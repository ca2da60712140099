#pragma once
#include "conv.hpp"
using namespace vt;
using namespace geometrix;
// Coordinates in single and in extended precision. Everything is judged in 113-bit arithmetic from the stored coordinates, with a
// tolerance of a few roundings of the coordinate type: a detour through a narrower type, or a constant with too few digits, shows
// for extended precision; a detour through a wider one is harmless.
typedef __float128 Q;
static Q qabs(Q x) { return x < 0 ? -x : x; }
static Q qsqrt(Q x) { if (!(x > 0)) return 0; Q s = std::sqrt((ld)x); for (int i = 0; i < 3; ++i) s = (s + x / s) / 2; return s; }
template <class F> struct K { typedef F f; typedef point<F, 2> P; typedef point<F, 3> P3; typedef geometrix::vector<F, 2> V; typedef geometrix::vector<F, 3> V3; typedef segment<P> S; typedef polygon<P> G; typedef polyline<P> L; typedef absolute_tolerance_comparison_policy<F> A; static Q eps() { return std::numeric_limits<F>::epsilon(); } };
template <class F> static bool nearq(F x, Q want, Q size, int k = 12) { return std::isfinite(x) && qabs((Q)x - want) <= (Q)k * K<F>::eps() * size; }
template <class F> static F rv(Rng& r, double s) { return (F)((ld)r.real(-s, s) + (ld)r.real(-1, 1) * s * 1e-17L); }
// a multiplier that makes lattice coordinates use digits the next narrower type does not have
template <class F> static F unit(Rng& r) { return sizeof(F) == 4 ? (F)r.pick(std::vector<double>{1, 3, 7, 0.5}) : (F)(r.p(0.3) ? 1 : 1048583.0L * 4099.0L * 3 / 17179869184.0L); }
#define TY(e) static_assert(std::is_same<typename std::decay<decltype(e)>::type, F>::value, "type of " #e)
#define NQ(e, want, size) do { auto x_ = (e); TY(x_); Q w_ = (want); REQ(nearq<F>(x_, w_, (size)), #e " is " << (ld)x_ << ", should be " << (ld)w_ << " (off by " << (ld)(qabs((Q)x_ - w_) / (K<F>::eps() * (size))) << " roundings)"); count("results"); } while (0)
struct QP { Q x, y; }; static QP operator-(QP a, QP b) { return {a.x - b.x, a.y - b.y}; } static QP at(QP a, QP b, Q t) { return {a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}; } static Q qd(QP a, QP b) { return a.x * b.x + a.y * b.y; } static Q qx(QP a, QP b) { return a.x * b.y - a.y * b.x; }
template <class P> static QP qp(const P& p) { return {(Q)get<0>(p), (Q)get<1>(p)}; }
static Q psq(QP p, QP a, QP b) { Q l = qd(b - a, b - a), t = l > 0 ? qd(p - a, b - a) / l : 0; t = t < 0 ? 0 : t > 1 ? 1 : t; QP z = at(a, b, t); return qd(p - z, p - z); }
