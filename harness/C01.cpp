#include "geo.hpp"
#include <geometrix/numeric/boost_units_quantity.hpp>
#include <boost/units/systems/si.hpp>
using namespace vt;
using len = boost::units::quantity<boost::units::si::length, double>;
static double num(Rng& r) {
    switch (r.in(0, 11)) {
    case 0: return 0.0; case 1: return -0.0; case 2: return r.in(-5, 5); case 3: return r.real(-1, 1); case 4: return std::ldexp(r.real(-1, 1), (int)r.in(-60, 60));
    case 5: return std::ldexp(r.real(-1, 1), (int)r.in(-1000, 1000)); case 6: return 5e-324 * r.in(-4, 4); case 7: return r.in(-1000000, 1000000) * 0.5; case 8: return 1e-10 * r.in(-30, 30); case 9: return r.real(-1e6, 1e6);
    case 10: return r.real(-0.999, 0.999); default: return std::ldexp(1.0, (int)r.in(-40, 40)); }
}
static double num2(Rng& r, double u) {
    switch (r.in(0, 7)) {
    case 0: case 1: return num(r); case 2: return u; case 3: return std::nextafter(u, r.p(0.5) ? 1e308 : -1e308); case 4: return u * (1 + r.real(-1e-9, 1e-9)); case 5: return u + r.real(-1e-9, 1e-9); case 6: return -u; default: return u + std::ldexp(r.real(-1, 1), (int)r.in(-50, 20)); }
}
static double tol(Rng& r) { switch (r.in(0, 5)) { case 0: return 0; case 1: return 1e-10; case 2: return std::ldexp(1.0, -(int)r.in(1, 50)); case 3: return r.real(0, 1); case 4: return r.in(0, 4) * 0.25; default: return 1e-5; } }
template <class Cmp, class T> static int laws(const char* nm, const Cmp& cmp, const T& u, const T& v) {
    bool e = cmp.equals(u, v), l = cmp.less_than(u, v), g = cmp.greater_than(u, v), le = cmp.less_than_or_equal(u, v), ge = cmp.greater_than_or_equal(u, v);
    REQ((int)e + (int)l + (int)g == 1, nm << ": trichotomy broken: equals " << e << " less " << l << " greater " << g);
    REQ(le == (l || e), nm << ": less_than_or_equal " << le << " but less " << l << " equals " << e);
    REQ(ge == (g || e), nm << ": greater_than_or_equal " << ge << " but greater " << g << " equals " << e);
    REQ(cmp.equals(v, u) == e, nm << ": equals not symmetric");
    REQ(cmp.less_than(v, u) == g && cmp.greater_than(v, u) == l, nm << ": not mirrored under swap");
    REQ(cmp.less_than_or_equal(v, u) == ge && cmp.greater_than_or_equal(v, u) == le, nm << ": weak orders not mirrored under swap");
    if (l) { REQ(u < v, nm << ": less_than but not u < v"); }
    if (g) { REQ(u > v, nm << ": greater_than but not u > v"); }
    REQ(cmp.equals(u, u), nm << ": not reflexive");
    REQ(geometrix::less_than<Cmp>(cmp)(u, v) == l && geometrix::greater_than<Cmp>(cmp)(u, v) == g && geometrix::less_than_or_equal<Cmp>(cmp)(u, v) == le && geometrix::greater_than_or_equal<Cmp>(cmp)(u, v) == ge && geometrix::equals<Cmp>(cmp)(u, v) == e, nm << ": functor adaptor disagrees with its policy");
    count(l ? "less" : g ? "greater" : e && !(u == v) ? "equal by tolerance" : "equal exactly");
    return l ? -1 : g ? 1 : 0;
}
static int ops(double u, double v) { return u < v ? -1 : u > v ? 1 : 0; }
static double clampmag(double x) { return std::fabs(x) > 1e150 ? std::copysign(1e150, x) : x; }
GROUP(absolute, 60000, 3000000) {
    double u = num(c.rng), v = num2(c.rng, u), e = tol(c.rng); u = clampmag(u); v = clampmag(v); c.in("u", u); c.in("v", v); c.in("tol", e);
    int k = laws("absolute", abs_cmp(e), u, v); double d = u - v;
    REQ((k == 0) == (std::fabs(d) <= e), "absolute tolerance " << e << " decided " << k << " for difference " << d);
    if (k) REQ(k == ops(u, v), "wrong side");
    len lu = u * boost::units::si::meters, lv = v * boost::units::si::meters; len le = e * boost::units::si::meters;
    REQ(laws("absolute<length>", geometrix::absolute_tolerance_comparison_policy<len>(le), lu, lv) == k, "quantity comparison differs from plain");
}
GROUP(absolute_dyadic_edge, 20000, 500000) {   // differences exactly at the tolerance
    double s = rscale(c.rng); double u = c.rng.in(-50, 50) * s, e = c.rng.in(0, 6) * s, v = u + c.rng.in(-7, 7) * s; c.in("u", u); c.in("v", v); c.in("tol", e);
    int k = laws("absolute", abs_cmp(e), u, v); REQ(k == (std::fabs(u - v) <= e ? 0 : ops(u, v)), "edge of tolerance decided " << k);
}
GROUP(direct_policy, 20000, 500000) {
    double u = num(c.rng), v = num2(c.rng, u); c.in("u", u); c.in("v", v);
    REQ(laws("direct", direct(), u, v) == ops(u, v), "direct policy differs from operators");
    long a = c.rng.in(-4, 4), b = c.rng.in(-4, 4); REQ(laws("direct<long>", direct(), a, b) == (a < b ? -1 : a > b), "direct policy on integers");
}
GROUP(fraction, 60000, 3000000) {
    double u = num(c.rng), v = num2(c.rng, u), e = c.rng.p(0.5) ? 1e-10 : tol(c.rng) * 0.5, a = c.rng.p(0.5) ? e : tol(c.rng); u = clampmag(u); v = clampmag(v);
    c.in("u", u); c.in("v", v); c.in("fraction", e); c.in("abs", a);
    if ((u != 0 && std::fabs(u) < 1e-150) || (v != 0 && std::fabs(v) < 1e-150)) c.trivial();
    geometrix::fraction_tolerance_comparison_policy<double> cmp(e, a);
    int k = laws("fraction", cmp, u, v);
    if (c.nontrivial && u != 0 && v != 0) {
        ld d = fabsl((ld)u - v), f1 = d / fabsl((ld)u), f2 = d / fabsl((ld)v); ld m = std::max(f1, f2);
        if (m > (ld)e * (1 + 1e-9L) + 1e-15L) REQ(k == ops(u, v), "fraction " << e << " equal although relative difference is " << (double)m);
        if (m < (ld)e * (1 - 1e-9L) - 1e-15L) REQ(k == 0, "fraction " << e << " unequal although relative difference is " << (double)m);
    } else if (c.nontrivial) { ld m = std::max(fabsl((ld)u), fabsl((ld)v)); if (m > (ld)a * (1 + 1e-12L)) REQ(k == ops(u, v), "zero: equal beyond absolute tolerance"); if (m < (ld)a * (1 - 1e-12L)) REQ(k == 0, "zero: unequal within absolute tolerance"); }
    len lu = u * boost::units::si::meters, lv = v * boost::units::si::meters;
    geometrix::fraction_tolerance_comparison_policy<double, len> lc(e, a * boost::units::si::meters);
    (void)lc; (void)lu; (void)lv;
}
GROUP(relative, 60000, 3000000) {
    double u = num(c.rng), v = num2(c.rng, u), e = tol(c.rng); u = clampmag(u); v = clampmag(v); c.in("u", u); c.in("v", v); c.in("tol", e);
    geometrix::relative_tolerance_comparison_policy<double> cmp(e); int k = laws("relative", cmp, u, v);
    ld d = fabsl((ld)u - v), t = (ld)e * (fabsl((ld)u) + fabsl((ld)v) + 1);
    if (d > t * (1 + 1e-12L) + 1e-15L * fabsl(u)) REQ(k == ops(u, v), "relative policy equal beyond its tolerance");
    if (d < t * (1 - 1e-12L) - 1e-15L * fabsl(u)) REQ(k == 0, "relative policy unequal within its tolerance");
    int k0 = laws("default absolute", geometrix::absolute_tolerance_comparison_policy<double>(), u, v), k1 = laws("default relative", geometrix::relative_tolerance_comparison_policy<double>(), u, v); if (d > 1e-6L * (fabsl((ld)u) + fabsl((ld)v) + 1)) REQ(k0 == ops(u, v) && k1 == ops(u, v), "a policy of default tolerance takes " << u << " and " << v << " for equal"); if (d < 1e-13L) REQ(k0 == 0 && k1 == 0, "a policy of default tolerance tells " << u << " from " << v);
}
GROUP(mapped, 40000, 1000000) {
    double u = num(c.rng), v = num2(c.rng, u), e = tol(c.rng), e2 = tol(c.rng); u = clampmag(u); v = clampmag(v); c.in("u", u); c.in("v", v); c.in("tol", e); c.in("tol2", e2);
    namespace bf = boost::fusion; using pr = bf::pair<len, abs_cmp>;
    auto cmp = geometrix::make_mapped_tolerance_comparison_policy(abs_cmp(e), bf::make_pair<len>(abs_cmp(e2)));
    len lu = u * boost::units::si::meters, lv = v * boost::units::si::meters;
    auto e1 = [](double a, double b, double t) { return std::fabs(a - b) <= t ? 0 : ops(a, b); };
    REQ(laws("mapped default", cmp, u, v) == e1(u, v, e), "mapped policy: default not used for unmapped type");
    REQ(laws("mapped length", cmp, lu, lv) == e1(u, v, e2), "mapped policy: mapped tolerance not used for mapped type");
    geometrix::mapped_tolerance_comparison_policy<abs_cmp, pr> one(e2);
    (void)one;
}
// The comparison functions offered beside the policies.
#define FREE_CMP(NAME, KIND) struct NAME { double e; template <class A, class B> bool equals(const A& u, const B& v) const { return geometrix::equals_within_##KIND##_tolerance(u, v, e); } template <class A, class B> bool less_than(const A& u, const B& v) const { return geometrix::less_than_with_##KIND##_tolerance(u, v, e); } template <class A, class B> bool greater_than(const A& u, const B& v) const { return geometrix::greater_than_with_##KIND##_tolerance(u, v, e); } template <class A, class B> bool less_than_or_equal(const A& u, const B& v) const { return geometrix::less_than_or_equal_with_##KIND##_tolerance(u, v, e); } template <class A, class B> bool greater_than_or_equal(const A& u, const B& v) const { return geometrix::greater_than_or_equal_with_##KIND##_tolerance(u, v, e); } };
FREE_CMP(free_absolute, absolute)
FREE_CMP(free_fraction, fraction)
GROUP(functions_absolute, 40000, 1000000) { double u = num(c.rng), v = num2(c.rng, u), e = tol(c.rng); if (c.rng.p(0.3)) { double s = rscale(c.rng); u = c.rng.in(-50, 50) * s; e = c.rng.in(0, 6) * s; v = u + c.rng.in(-7, 7) * s; } u = clampmag(u); v = clampmag(v); c.in("u", u); c.in("v", v); c.in("tol", e); int k = laws("absolute functions", free_absolute{e}, u, v); double d = u - v; REQ((k == 0) == (std::fabs(d) <= e), "absolute tolerance " << e << " decided " << k << " for difference " << d); if (k) REQ(k == ops(u, v), "wrong side"); }
GROUP(functions_fraction, 40000, 1000000) { double u = num(c.rng), v = num2(c.rng, u), e = c.rng.p(0.5) ? 1e-10 : tol(c.rng) * 0.5; u = clampmag(u); v = clampmag(v); if (c.rng.p(0.1)) u = 0; if (c.rng.p(0.1)) v = c.rng.p(0.5) ? 0 : e * c.rng.real(-2, 2); c.in("u", u); c.in("v", v); c.in("fraction", e); if ((u != 0 && std::fabs(u) < 1e-150) || (v != 0 && std::fabs(v) < 1e-150)) c.trivial(); int k = laws("fraction functions", free_fraction{e}, u, v); if (!c.nontrivial) return; ld m = u != 0 && v != 0 ? std::max(fabsl((ld)u - v) / fabsl((ld)u), fabsl((ld)u - v) / fabsl((ld)v)) : std::max(fabsl((ld)u), fabsl((ld)v)); if (m > (ld)e * (1 + 1e-9L) + (u != 0 && v != 0 ? 1e-15L : 0)) REQ(k == ops(u, v), "fraction " << e << " equal although the difference is " << (double)m); if (m < (ld)e * (1 - 1e-9L) - (u != 0 && v != 0 ? 1e-15L : 0)) REQ(k == 0, "fraction " << e << " unequal although the difference is " << (double)m); }
