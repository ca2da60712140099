#include "geo.hpp"
using namespace vt;
// tensor product and element-wise functions, and the short names of the matrix functions
namespace { template <std::size_t R, std::size_t C> void tfill(Rng& r, geometrix::matrix<double, R, C>& m) { for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { m[i][j] = (double)r.in(-30, 30); if (m[i][j] == 0 && r.p(0.8)) m[i][j] = 7; } }
template <std::size_t R, std::size_t C, std::size_t S, std::size_t T> bool kron(const geometrix::matrix<double, R * S, C * T>& k, const geometrix::matrix<double, R, C>& a, const geometrix::matrix<double, S, T>& b) { for (std::size_t i = 0; i < R * S; ++i) for (std::size_t j = 0; j < C * T; ++j) if (k[i][j] != a[i / S][j / T] * b[i % S][j % T]) return false; return true; } }
GROUP(tensor, 4000, 200000) {
    using namespace geometrix; Rng& r = c.rng; matrix<double, 2, 2> z, y; matrix<double, 2, 3> q; matrix<double, 3, 2> qt; matrix<double, 3, 3> t; tfill(r, z); tfill(r, y); tfill(r, q); tfill(r, t); V3 a{(double)r.in(-30, 30), (double)r.in(-30, 30), (double)r.in(1, 30)}; c.in("z00", z[0][0]); c.in("z01", z[0][1]); c.in("z10", z[1][0]); c.in("z11", z[1][1]); c.in("y00", y[0][0]); c.in("y01", y[0][1]); c.in("y10", y[1][0]); c.in("y11", y[1][1]); c.in("q00", q[0][0]); c.in("q12", q[1][2]); c.in("a", a); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) qt[j][i] = q[i][j];
    matrix<double, 4, 4> w; w <<= z & y; REQ((kron<2, 2, 2, 2>(w, z, y)), "2x2 times 2x2 tensor product"); matrix<double, 4, 6> v; v <<= z & q; REQ((kron<2, 2, 2, 3>(v, z, q)), "2x2 times 2x3 tensor product"); v <<= q & y; REQ((kron<2, 3, 2, 2>(v, q, y)), "2x3 times 2x2 tensor product"); matrix<double, 6, 4> u; u <<= transpose(q) & z; REQ((kron<3, 2, 2, 2>(u, qt, z)), "tensor product with a transpose"); w <<= (z + y) & (z - y); matrix<double, 2, 2> s, d; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { s[i][j] = z[i][j] + y[i][j]; d[i][j] = z[i][j] - y[i][j]; } REQ((kron<2, 2, 2, 2>(w, s, d)), "tensor product of a sum and a difference");
    matrix<double, 3, 1> col; matrix<double, 1, 3> row1; for (int i = 0; i < 3; ++i) col[i][0] = row1[0][i] = a[i]; matrix<double, 6, 2> vm; vm <<= a & z; REQ((kron<3, 1, 2, 2>(vm, col, z)), "tensor product of a vector and a matrix"); matrix<double, 2, 6> mv; mv <<= z & a; REQ((kron<2, 2, 1, 3>(mv, z, row1)), "tensor product of a matrix and a vector");
    V3 rc; rc <<= reciprocal(a); for (int i = 0; i < 3; ++i) if (a[i] != 0) REQ(vt::close(rc[i], 1 / a[i], 1e-14, 0), "reciprocal of component " << i); matrix<double, 3, 3> rm; rm <<= rec(t); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (t[i][j] != 0) REQ(vt::close(rm[i][j], 1 / t[i][j], 1e-14, 0), "reciprocal of element " << i << ' ' << j); rm <<= reciprocal(t) + t; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (t[i][j] != 0) REQ(vt::close(rm[i][j], 1 / t[i][j] + t[i][j], 1e-13, 0), "reciprocal in a sum, element " << i << ' ' << j);
    double dz = z[0][0] * z[1][1] - z[0][1] * z[1][0], g = 0; g <<= det(z); REQ(vt::close(g, dz, 1e-12, 1e-9), "det gives " << g << " instead of " << dz); matrix<double, 3, 2> tr; tr <<= trans(q); bool ok = true; for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) ok = ok && tr[i][j] == qt[i][j]; REQ(ok, "trans is not the transpose"); if (std::fabs(dz) > 20) { matrix<double, 2, 2> iv, p; iv <<= inv(z); p <<= iv * z; REQ(std::fabs(p[0][0] - 1) < 1e-9 && std::fabs(p[1][1] - 1) < 1e-9 && std::fabs(p[0][1]) < 1e-9 && std::fabs(p[1][0]) < 1e-9, "inv times the matrix is not the identity"); count("inverted"); } double m = std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); g <<= mag(a); REQ(vt::close(g, m, 1e-12, 0), "mag gives " << g); V3 un; un <<= norm(a); for (int i = 0; i < 3; ++i) REQ(std::fabs(un[i] - a[i] / m) < 1e-12, "norm, component " << i); }
