#include "geo.hpp"
#include <geometrix/utility/array.hpp>
#include <geometrix/space/cartesian_reference_frame.hpp>
#include <geometrix/space/polar_reference_frame.hpp>
#include <geometrix/space/reference_frame_adaptor.hpp>
#include <geometrix/space/cartesian_access_traits.hpp>
#include <geometrix/space/polar_access_traits.hpp>
#include <geometrix/space/cartesian_polar_transformation.hpp>
#include <geometrix/space/polar_cartesian_transformation.hpp>
using namespace vt;
using namespace geometrix;
using C2 = reference_frame_adaptor<P2, cartesian_reference_frame_2d>; using C3 = reference_frame_adaptor<P3, cartesian_reference_frame_3d>;
using R2 = reference_frame_adaptor<P2, polar_reference_frame_2d>; using R3 = reference_frame_adaptor<P3, polar_reference_frame_3d>;
static double val(Rng& r) { switch (r.in(0, 5)) { case 0: return 0; case 1: return r.in(-9, 9); case 2: return r.real(-1, 1); case 3: return r.real(-1e6, 1e6); case 4: return std::ldexp(r.real(-1, 1), (int)r.in(-80, 80)); default: return -r.in(1, 3); } }
static const double PI = 3.14159265358979323846;
static bool eqd(double a, double b, ld R) { return std::fabs(a - b) <= 1e-13 * (40 + 20 * (double)R); }
#define NEAR(G, W, S, WHAT) do { double g_ = (G), w_ = (double)(W); REQ(std::fabs(g_ - w_) <= 1e-13 * (double)(S) + 1e-300, WHAT << ": got " << g_ << " want " << w_); } while (0)
GROUP(plane, 60000, 2000000) {
    Rng& r = c.rng; double x = val(r), y = val(r); if (r.p(0.1)) y = x; if (r.p(0.1)) y = -x; c.in("x", x); c.in("y", y); ld R = hypotl(x, y), T = atan2l(y, x);
    C2 cp(P2(x, y)); REQ(cp.get<0>() == x && cp.get<1>() == y, "adaptor of the same frame changes coordinates"); R2 pp(cp);
    NEAR(pp.get<0>(), R, R * 10, "radius"); NEAR(pp.get<1>(), T, 40, "theta"); REQ(pp.get<0>() >= 0, "negative radius"); REQ(pp.get<1>() >= -PI - 1e-15 && pp.get<1>() <= PI + 1e-15, "theta out of range");
    C2 back(pp); NEAR(back.get<0>(), x, R * 20, "round trip x"); NEAR(back.get<1>(), y, R * 20, "round trip y");
    REQ(eqd(polar_access_traits<C2>::get_raw<0>(cp), pp.get<0>(), R) && eqd(polar_access_traits<C2>::get_raw<1>(cp), pp.get<1>(), R), "polar accessors disagree with converting first"); REQ(eqd(get_r(cp).value(), pp.get<0>(), R) && eqd(get_theta(cp).value(), pp.get<1>(), R), "get_r/get_theta disagree with converting first");
    REQ(eqd(cartesian_access_traits<R2>::get_raw<0>(pp), back.get<0>(), R) && eqd(cartesian_access_traits<R2>::get_raw<1>(pp), back.get<1>(), R), "cartesian accessors disagree with converting first");
    REQ(cartesian_access_traits<C2>::get_raw<0>(cp) == x && cartesian_access_traits<C2>::get_raw<1>(cp) == y, "cartesian accessors on a cartesian point");
    REQ(get_x(cp).value() == x && get_y(cp).value() == y && eqd(get_x(pp).value(), back.get<0>(), R) && eqd(get_y(pp).value(), back.get<1>(), R), "get_x/get_y disagree with the cartesian coordinates");
    count(R == 0 ? "origin" : x == 0 || y == 0 ? "axes" : x > 0 ? (y > 0 ? "quadrant 1" : "quadrant 4") : y > 0 ? "quadrant 2" : "quadrant 3");
}
GROUP(polar_first, 30000, 1000000) {
    Rng& r = c.rng; double rad = std::fabs(val(r)), th = r.p(0.3) ? r.in(-4, 4) * PI / 4 : r.real(-PI, PI); c.in("r", rad); c.in("theta", th); R2 p(P2(rad, th)); C2 q(p); NEAR(q.get<0>(), rad * cosl(th), rad * 10, "x of polar point"); NEAR(q.get<1>(), rad * sinl(th), rad * 10, "y of polar point");
    double ph = r.p(0.3) ? r.in(0, 4) * PI / 4 : r.real(0, PI); c.in("phi", ph); R3 p3(P3(rad, th, ph)); C3 q3(p3); NEAR(q3.get<0>(), rad * sinl(ph) * cosl(th), rad * 10, "x of polar point in space"); NEAR(q3.get<1>(), rad * sinl(ph) * sinl(th), rad * 10, "y of polar point in space"); NEAR(q3.get<2>(), rad * cosl(ph), rad * 10, "z of polar point in space"); count("polar points converted", 2);
}
GROUP(space, 60000, 2000000) {
    Rng& r = c.rng; double x = val(r), y = val(r), z = val(r); c.in("x", x); c.in("y", y); c.in("z", z); ld H = hypotl(x, y), R = hypotl(H, z);
    C3 cp(P3(x, y, z)); R3 pp(cp); NEAR(pp.get<0>(), R, R * 10, "radius"); NEAR(pp.get<1>(), atan2l(y, x), 40, "theta"); NEAR(pp.get<2>(), atan2l(H, z), 40, "phi");
    REQ(pp.get<0>() >= 0 && pp.get<1>() >= -PI - 1e-15 && pp.get<1>() <= PI + 1e-15 && pp.get<2>() >= 0 && pp.get<2>() <= PI + 1e-15, "polar coordinates out of range");
    C3 back(pp); NEAR(back.get<0>(), x, R * 30, "round trip x"); NEAR(back.get<1>(), y, R * 30, "round trip y"); NEAR(back.get<2>(), z, R * 30, "round trip z");
    REQ(eqd(get_r(cp).value(), pp.get<0>(), R) && eqd(get_theta(cp).value(), pp.get<1>(), R) && eqd(get_phi(cp).value(), pp.get<2>(), R), "polar accessors disagree with converting first");
    REQ(eqd(cartesian_access_traits<R3>::get_raw<0>(pp), back.get<0>(), R) && eqd(cartesian_access_traits<R3>::get_raw<1>(pp), back.get<1>(), R) && eqd(cartesian_access_traits<R3>::get_raw<2>(pp), back.get<2>(), R), "cartesian accessors disagree with converting first");
    REQ(get_x(cp).value() == x && get_y(cp).value() == y && get_z(cp).value() == z && eqd(get_x(pp).value(), back.get<0>(), R) && eqd(get_y(pp).value(), back.get<1>(), R) && eqd(get_z(pp).value(), back.get<2>(), R), "get_x/get_y/get_z disagree with the cartesian coordinates");
    count(std::string(std::string("octant ") + (x > 0 ? "+" : x < 0 ? "-" : "0") + (y > 0 ? "+" : y < 0 ? "-" : "0") + (z > 0 ? "+" : z < 0 ? "-" : "0")).c_str());
}
