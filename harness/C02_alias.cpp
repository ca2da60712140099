#include "geo.hpp"
using namespace vt;
using namespace geometrix;
// the target of an assignment occurs in the assigned expression: same values as when the expression goes to a fresh object
template <typename V> static void same(vt::Case& c, const V& got, const V& want, ld S, const std::string& what) { for (int i = 0; i < dimension_of<V>::value; ++i) REQ(close(got[i], want[i], 1e-11, 1e-12 * S), what << " with its own target: component " << i << " is " << got[i] << ", not " << want[i]); count("aliased assignments"); }
#define AL(X, T, what, e) do { T x_ = X; T w_ = (e(x_)); T y_ = X; y_ = e(y_); same(c, y_, w_, S, what " assigned by ="); T z_ = X; z_ <<= e(z_); same(c, z_, w_, S, what " assigned by <<="); T u_ = X; assign(u_, e(u_)); same(c, u_, w_, S, what " assigned by assign"); } while (0)
#define E_SELF(x) ((x * x) * x)
#define E_SUB(x) (x - (x * n) * n)
#define E_QUOT(x) (x / x[0])
#define E_QLAST(x) (w - x / x[1])
#define E_MAT(x) (m * x)
#define E_TIMES(x) (x[1] * x)
#define E_CROSS(x) (x ^ w)
#define E_CROSS2(x) (w ^ (x ^ w))
#define E_PT(x) (x + (as_vector(x) * n) * n)
#define E_PT2(x) (x + x[0] * n)
GROUP(aliased, 60000, 600000) {
    Rng& r = c.rng; auto v2 = [&] { double s = r.p(0.5) ? 1 : 10; V2 v(r.real(-s, s), r.real(-s, s)); if (r.p(0.3)) v = V2((double)r.in(-5, 5), (double)r.in(-5, 5)); for (int i = 0; i < 2; ++i) if (std::fabs(v[i]) < 0.05) v[i] = 1.5; return v; };
    { V2 a = v2(), n = v2(), w = v2(); matrix<double, 2, 2> m; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) m[i][j] = r.real(-3, 3); ld S = 2e3; c.in("a", a); c.in("n", n); c.in("w", w);
      AL(a, V2, "(x*x)*x", E_SELF); AL(a, V2, "x-(x*n)*n", E_SUB); AL(a, V2, "x/x[0]", E_QUOT); AL(a, V2, "w-x/x[1]", E_QLAST); AL(a, V2, "m*x", E_MAT); AL(a, V2, "x[1]*x", E_TIMES);
      V2 t = a; t += t * (t * t); V2 q = a * (a * a); same(c, t, V2(a[0] + q[0], a[1] + q[1]), S, "x+=x*(x*x)"); t = a; t -= (t * n) * n; double d = a[0] * n[0] + a[1] * n[1]; same(c, t, V2(a[0] - d * n[0], a[1] - d * n[1]), S, "x-=(x*n)*n"); t = a; t += t; same(c, t, V2(2 * a[0], 2 * a[1]), S, "x+=x"); t = a; t -= t; same(c, t, V2(0, 0), S, "x-=x");
      t = a; t /= t[0]; same(c, t, V2(1, a[1] / a[0]), S, "x/=x[0]"); t = a; t *= t[0]; same(c, t, V2(a[0] * a[0], a[1] * a[0]), S, "x*=x[0]");
      t = a; assign(t, t[1], t[0]); same(c, t, V2(a[1], a[0]), S, "assign(x,x[1],x[0])"); P2 p(a[0], a[1]), o = p; AL(p, P2, "p+(p*n)*n", E_PT); AL(p, P2, "p+p[0]*n", E_PT2); assign(o, o[1], o[0]); same(c, o, P2(p[1], p[0]), S, "assign(p,p[1],p[0])"); }
    { auto v3 = [&] { V3 v(v2()[0], v2()[0], v2()[1]); return v; }; V3 a = v3(), n = v3(), w = v3(); matrix<double, 3, 3> m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = r.real(-3, 3); ld S = 2e4; c.in("a3", a); c.in("n3", n); c.in("w3", w);
      AL(a, V3, "x^w", E_CROSS); AL(a, V3, "w^(x^w)", E_CROSS2); AL(a, V3, "(x*x)*x", E_SELF); AL(a, V3, "x-(x*n)*n", E_SUB); AL(a, V3, "x/x[0]", E_QUOT); AL(a, V3, "m*x", E_MAT); AL(a, V3, "x[1]*x", E_TIMES);
      V3 t = a, x = a ^ w; t += t ^ w; same(c, t, V3(a[0] + x[0], a[1] + x[1], a[2] + x[2]), S, "x+=x^w"); t = a; t -= t ^ w; same(c, t, V3(a[0] - x[0], a[1] - x[1], a[2] - x[2]), S, "x-=x^w"); P3 p(a[0], a[1], a[2]); AL(p, P3, "p+(p*n)*n", E_PT); AL(p, P3, "p+p[0]*n", E_PT2); t = a; assign(t, t[2], t[0], t[1]); same(c, t, V3(a[2], a[0], a[1]), S, "assign(x,x[2],x[0],x[1])"); }
    { typedef vector<double, 5> V5; V5 a, w, n; for (int i = 0; i < 5; ++i) { a[i] = v2()[0]; w[i] = v2()[0]; n[i] = v2()[0]; } ld S = 2e4; AL(a, V5, "(x*x)*x", E_SELF); AL(a, V5, "x-(x*n)*n", E_SUB); AL(a, V5, "x/x[0]", E_QUOT); AL(a, V5, "w-x/x[1]", E_QLAST); }
}
