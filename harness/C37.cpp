#include "vt.hpp"
#include <geometrix/numeric/fixed_point.hpp>
#include <sstream>
using namespace vt;
using namespace geometrix;
typedef long double ld;
typedef __int128 i128;
template <class S> struct Sc { static S pol(int) { return S(); } static const bool rt = false; };
template <int R, int E> struct Pw { static int radix() { return R; } static int e(int) { return E; } };
template <class F, class S, class Rnd, int Radix, int Exp> struct Kind { typedef fixed_point<fixed_point_traits<F, S, Rnd>> T; typedef F fmt; typedef Rnd rnd; static S pol(int) { return S(); } static i128 scale(int) { i128 p = 1; for (int i = 0; i < Exp; ++i) p *= Radix; return p; } static const bool rt = false; static int maxe() { return 0; } };
template <class F, class S, class Rnd, int Radix, int Max> struct RKind { typedef fixed_point<fixed_point_traits<F, S, Rnd>> T; typedef F fmt; typedef Rnd rnd; static S pol(int e) { return S(e); } static i128 scale(int e) { i128 p = 1; for (int i = 0; i < e; ++i) p *= Radix; return p; } static const bool rt = true; static int maxe() { return Max; } };
static const char* rname(round_half_to_even*) { return "half to even"; }
static const char* rname(round_toward_zero*) { return "toward zero"; }
// Every number is an integer count m of units 1/P; the oracle computes with counts in 128 bit integers.
template <class K> static void run(Case& c) {
    typedef typename K::T T; typedef typename K::fmt F; Rng& r = c.rng; int e = K::rt ? (int)r.in(0, K::maxe()) : 0; auto pol = K::pol(e); i128 P = K::scale(e); F lo = std::numeric_limits<F>::min(), hi = std::numeric_limits<F>::max(); auto mk = [&](i128 m) { return T::from_format_value((F)m, pol); }; auto fits = [&](i128 m) { return m >= lo && m <= hi; };
    auto any = [&]() -> i128 { long top = sizeof(F) == 8 ? 1000000000000L : (long)hi; switch (r.in(0, 6)) { case 0: return r.in(-3, 3); case 1: return (i128)r.in(-3, 3) * P; case 2: return sizeof(F) == 8 ? (i128)r.in(-top, top) : r.p(0.5) ? (i128)lo + r.in(0, 3) : (i128)hi - r.in(0, 3); case 3: { long b = (long)std::sqrt((double)top) ; return r.in(-b, b); } case 4: return (i128)r.in(-100, 100) * (P > 4 ? P / 4 : 1); default: return r.in(-top, top); } }; auto fitany = [&]() { for (;;) { i128 m = any(); if (fits(m)) return m; } };
    i128 a = fitany(), b = fitany(); c.in("unit", 1 / (double)P); c.in("a count", (long)a); c.in("b count", (long)b); T A = mk(a), B = mk(b); auto cnt = [](const T& t) -> i128 { return t.get_scaled_value(); };
    REQ(cnt(A) == a, "the count is not kept"); REQ((A < B) == (a < b) && (A > B) == (a > b) && (A <= B) == (a <= b) && (A >= B) == (a >= b) && (A == B) == (a == b) && (A != B) == (a != b), "comparison of the numbers disagrees with their counts"); T Cp(A); REQ(cnt(Cp) == a, "a copy differs"); Cp = B; REQ(cnt(Cp) == b, "an assigned copy differs"); { T x(A), y(B); x.swap(y); REQ(cnt(x) == b && cnt(y) == a, "swap does not exchange the numbers"); } REQ((!A) == (a == 0) && (A ? true : false) == (a != 0), "truth of the number is wrong");
    if (fits(a + b)) { REQ(cnt(A + B) == a + b, "sum has count " << (long)cnt(A + B)); T x(A); x += B; REQ(cnt(x) == a + b, "+= differs"); count("sums"); } if (fits(a - b)) { REQ(cnt(A - B) == a - b, "difference has count " << (long)cnt(A - B)); T x(A); x -= B; REQ(cnt(x) == a - b, "-= differs"); } if (a != lo) REQ(cnt(-A) == -a, "negation has count " << (long)cnt(-A));
    if (fits(a + P)) { T x(A), y(A); ++x; REQ(cnt(x) == a + P, "increment has count " << (long)cnt(x)); REQ(cnt(y++) == a && cnt(y) == a + P, "post increment is wrong"); } if (fits(a - P)) { T x(A), y(A); --x; REQ(cnt(x) == a - P, "decrement has count " << (long)cnt(x)); REQ(cnt(y--) == a && cnt(y) == a - P, "post decrement is wrong"); }
    auto within = [](i128 got, i128 num, i128 den) { i128 d = got * den - num; if (den < 0) { d = -d; den = -den; } return d > -den && d < den; }; // |got - num/den| < 1
    bool wide = sizeof(F) == 8; i128 lim = (i128)1 << 62; auto ok64 = [&](i128 v) { return !wide || (v < lim && v > -lim); }; if (ok64(a * b)) { i128 q = a * b / P; if (fits(q + 1) && fits(q - 1)) { T x = A * B; REQ(within(cnt(x), a * b, P), "product has count " << (long)cnt(x) << " next to " << (long)q); x = A; x *= B; REQ(within(cnt(x), a * b, P), "*= differs"); count("products"); } else if (!fits(q + 2) && !fits(q - 2)) { bool thrown = false; try { T x = A * B; (void)x; } catch (const std::exception&) { thrown = true; } REQ(thrown, "a product that does not fit is not rejected"); count("products that do not fit"); } }
    if (b != 0 && ok64(a * P)) { i128 q = a * P / b; if (fits(q + 1) && fits(q - 1)) { T x = A / B; REQ(within(cnt(x), a * P, b), "quotient has count " << (long)cnt(x) << " next to " << (long)q); x = A; x /= B; REQ(within(cnt(x), a * P, b), "/= differs"); count("quotients"); } else if (!fits(q + 2) && !fits(q - 2)) { bool thrown = false; try { T x = A / B; (void)x; } catch (const std::exception&) { thrown = true; } REQ(thrown, "a quotient that does not fit is not rejected"); count("quotients that do not fit"); } if (b != -1) { T x = fmod(A, B); i128 f = a % b; REQ(cnt(x) == f, "remainder has count " << (long)cnt(x)); } }
    // built-in numbers
    ld v = (ld)a / (ld)P; double dv = A.template convert_to<double>(); REQ(std::fabs((double)(dv - v)) <= 1e-15 * std::fabs((double)v) + 1e-300, "converted to double it is " << dv << " instead of " << (double)v); long double lv = A.template convert_to<long double>(); REQ(std::fabs((double)(lv - v)) <= 1e-15 * std::fabs((double)v) + 1e-300, "converted to long double it is " << (double)lv); float fv = A.template convert_to<float>(); REQ(std::fabs((double)(fv - v)) <= 1e-6 * std::fabs((double)v) + 1e-30, "converted to float it is " << fv); long iv = A.template convert_to<long>(); REQ(std::fabs((double)(iv - v)) < 1, "converted to an integer it is " << iv << " instead of " << (double)v);
    double s; switch (r.in(0, 3)) { case 0: s = (double)v; break; case 1: s = r.real(-10, 10); break; case 2: s = ((double)a + r.pick(std::vector<double>{0.5, -0.5, 0.25, 0.75, 0.4999, 0.5001})) / (double)P; break; default: s = r.real(-1, 1) * 2.5 * (double)hi / (double)P; } c.in("built-in", s); ld x = (ld)s * (ld)P; ld slack = std::fabs((double)x) * 4e-16 + 1e-9L; if (x < (ld)hi - 1 - slack && x > (ld)lo + 1 + slack) { T n(s, pol); bool near = std::is_same<typename K::rnd, round_half_to_even>::value; ld d = (ld)cnt(n) - x; if (near) REQ(std::fabs((double)d) <= 0.5L + slack, "made from " << s << " it has count " << (long)cnt(n) << " instead of about " << (double)x); else REQ(x >= 0 ? (d <= slack && d > -1 - slack) : (d >= -slack && d < 1 + slack), "made from " << s << " and rounded " << rname((typename K::rnd*)0) << " it has count " << (long)cnt(n)); if (near && std::fabs((double)(x - std::floor(x) - 0.5L)) < 1e-18L && std::fabs((double)x) < 1e6 && (P & (P - 1)) == 0) REQ(cnt(n) % 2 == 0, "a half is rounded to the odd count " << (long)cnt(n)); count("made from a real"); if (!K::rt) { T m; m = s; REQ(cnt(m) == cnt(n), "assigning a real gives count " << (long)cnt(m)); REQ((m == s) && !(m < s) && !(m > s) && !(s < m) && !(s > m) && (m <= s) && (m >= s) && !(m != s) && (s == m), "a number compared with the real it was made from"); T y(A); if (fits(a + cnt(n))) { REQ(cnt(A + s) == a + cnt(n) && cnt(s + A) == a + cnt(n), "sum with a real"); y += s; REQ(cnt(y) == a + cnt(n), "+= with a real"); } if (fits(a - cnt(n))) { REQ(cnt(A - s) == a - cnt(n), "difference with a real"); } if (fits(cnt(n) - a)) REQ(cnt(s - A) == cnt(n) - a, "difference of a real and the number"); } } else if (std::fabs((double)x) > 1.01 * (double)hi + 4 && std::fabs((double)x) < 1e18) { bool thrown = false; try { T n(s, pol); (void)n; } catch (const std::exception&) { thrown = true; } REQ(thrown, "a real that does not fit is not rejected"); count("reals that do not fit"); }
    long k = r.p(0.5) ? r.in(-9, 9) : r.in(-1000, 1000); if (fits((i128)k * P)) { T n((int)k, pol); REQ(cnt(n) == (i128)k * P, "made from the integer " << k << " it has count " << (long)cnt(n)); if (!K::rt) { REQ((A == (int)k) == (a == k * P) && (A < (int)k) == (a < k * P) && (A > (int)k) == (a > k * P) && ((int)k < A) == (k * P < a) && (A >= (int)k) == (a >= k * P) && (A <= (int)k) == (a <= k * P), "comparison with the integer " << k); if (fits(a * k) && ok64(a * k * P)) { REQ(cnt(A * (int)k) == a * k && cnt((int)k * A) == a * k, "product with the integer " << k); } if (k && ok64(a * P) && fits(-a)) REQ(within(cnt(A / (int)k), a, k), "quotient by the integer " << k); } count("made from an integer"); }
    if (!wide && !K::rt && std::fabs((double)a) < 0.98 * (double)hi) { std::stringstream ss; ss << A; T z; ss >> z; ld got = (ld)cnt(z), tol = std::pow(10.0, 1 - std::numeric_limits<F>::digits10) * std::fabs((double)a) + 1; REQ(std::fabs((double)(got - (ld)a)) <= tol, "printed as " << ss.str() << " and read back it has count " << (long)cnt(z)); } if (!wide && !K::rt) { std::stringstream ss(r.pick(std::vector<std::string>{"", "  ", "abc", "x1", "--3"})); T z(A); ss >> z; REQ(!ss && cnt(z) == cnt(A), "a failed read changes the number to " << (long)cnt(z)); } if (!K::rt) { REQ(cnt(std::numeric_limits<T>::epsilon()) == 1 && cnt(std::numeric_limits<T>::max()) == hi && cnt(std::numeric_limits<T>::min()) == lo, "the limits are wrong"); } REQ(cnt(A.epsilon()) == 1 && cnt(A.max()) == hi && cnt(A.min()) == lo, "the limits of the number are wrong"); }
template <class K, class L> static void cross(Case& c) { typedef typename K::T T; typedef typename L::T U; Rng& r = c.rng; i128 P = K::scale(0), Q = L::scale(0); i128 top = (i128)std::numeric_limits<typename K::fmt>::max(); long m = (long)std::min<i128>(top, 1000000000000L); long a = r.p(0.5) ? r.in(-m, m) : r.in(-2000, 2000); if (a > (long)top || a < -(long)top) SKIP_CASE(); c.in("count", a); c.in("unit", 1 / (double)P); c.in("other unit", 1 / (double)Q); ld want = (ld)a * (ld)Q / (ld)P; if (std::fabs((double)want) > 0.99 * (double)std::numeric_limits<typename L::fmt>::max()) SKIP_CASE(); T A = T::from_format_value((typename K::fmt)a, K::pol(0)); U x(A); ld d = (ld)x.get_scaled_value() - want, tol = 1 + 1e-15L * std::fabs((double)want); REQ(d < tol && d > -tol, "in the other scale it has count " << (long)x.get_scaled_value() << " instead of " << (double)want); U y; y = A; REQ(y.get_scaled_value() == x.get_scaled_value(), "assigning across scales gives another count"); if (Q % P == 0 && std::is_same<typename L::rnd, round_half_to_even>::value && std::is_same<typename K::rnd, round_half_to_even>::value && std::fabs((double)want) < 1e14) { REQ((i128)x.get_scaled_value() == (i128)a * (Q / P), "a finer scale does not keep the number"); T back(x); REQ(back.get_scaled_value() == a, "going to a finer scale and back changes the number"); } count("conversions between scales"); }
typedef round_half_to_even N; typedef round_toward_zero Z;
typedef Kind<int, generic_compile_time_scale_policy<10, 2>, N, 10, 2> D2; typedef Kind<int, generic_compile_time_scale_policy<10, 5>, Z, 10, 5> D5; typedef Kind<long long, generic_compile_time_scale_policy<10, 6>, N, 10, 6> L6; typedef Kind<short, generic_compile_time_scale_policy<10, 1>, N, 10, 1> S1; typedef Kind<int, generic_compile_time_scale_policy<3, 4>, N, 3, 4> T4; typedef Kind<int, binary_compile_time_scale_policy<8>, N, 2, 8> B8; typedef Kind<long long, binary_compile_time_scale_policy<20>, Z, 2, 20> B20; typedef Kind<int, generic_compile_time_scale_policy<10, 0>, N, 10, 0> D0;
typedef RKind<int, generic_run_time_scale_policy<10>, N, 10, 6> R10; typedef RKind<int, binary_run_time_scale_policy, N, 2, 16> RB;
GROUP(decimal, 60000, 3000000) { switch (c.rng.in(0, 5)) { case 0: run<D2>(c); break; case 1: run<D5>(c); break; case 2: run<L6>(c); break; case 3: run<S1>(c); break; case 4: run<T4>(c); break; default: run<D0>(c); } }
GROUP(binary, 40000, 2000000) { if (c.rng.p(0.5)) run<B8>(c); else run<B20>(c); }
GROUP(runtime, 40000, 2000000) { if (c.rng.p(0.5)) run<R10>(c); else run<RB>(c); }
GROUP(across, 40000, 2000000) { switch (c.rng.in(0, 8)) { case 0: cross<D2, D5>(c); break; case 1: cross<D5, D2>(c); break; case 2: cross<D2, L6>(c); break; case 3: cross<L6, D2>(c); break; case 4: cross<B8, B20>(c); break; case 5: cross<B8, D5>(c); break; case 6: cross<D5, B20>(c); break; case 7: cross<D2, T4>(c); break; default: cross<B20, S1>(c); } }
