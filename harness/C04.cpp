#include "geo.hpp"
#include <geometrix/algebra/lup_decomposition.hpp>
using namespace vt;
using geometrix::matrix;
template <std::size_t N> using M = matrix<double, N, N>;
namespace vt { template <std::size_t R> void vt_put(Case& c, const matrix<double, R, R>& m) { for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < R; ++j) { vt_put(c, (double)m[i][j]); if (c.describe) c.d << (j + 1 < R ? " " : " | "); } } }
template <std::size_t N> static ld gauss(const M<N>& a, std::vector<std::vector<ld>>* inv = nullptr) {
    std::vector<std::vector<ld>> m(N, std::vector<ld>(2 * N, 0)); for (std::size_t i = 0; i < N; ++i) { for (std::size_t j = 0; j < N; ++j) m[i][j] = a[i][j]; m[i][N + i] = 1; }
    ld d = 1; for (std::size_t k = 0; k < N; ++k) { std::size_t p = k; for (std::size_t i = k; i < N; ++i) if (fabsl(m[i][k]) > fabsl(m[p][k])) p = i; if (m[p][k] == 0) return 0; if (p != k) { std::swap(m[p], m[k]); d = -d; } d *= m[k][k]; ld f = m[k][k]; for (auto& x : m[k]) x /= f; for (std::size_t i = 0; i < N; ++i) if (i != k) { ld g = m[i][k]; for (std::size_t j = 0; j < 2 * N; ++j) m[i][j] -= g * m[k][j]; } }
    if (inv) *inv = m; return d;
}
template <std::size_t N> static M<N> gen(Rng& r) {
    M<N> m; int k = (int)r.in(0, 7); double s = std::ldexp(1.0, (int)r.in(-12, 8));
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) switch (k) { case 0: m[i][j] = r.in(-9, 9); break; case 1: m[i][j] = r.in(-1, 1); break; case 2: m[i][j] = r.real(-1, 1) * s; break; case 3: m[i][j] = r.real(-0.99, 0.99); break; default: m[i][j] = r.in(-20, 20) * 0.25; }
    if (k >= 4 && k <= 5) { std::array<std::size_t, N> p; for (std::size_t i = 0; i < N; ++i) p[i] = i; r.shuffle(p.begin(), p.end()); for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) m[i][j] = k == 4 ? (p[i] == j ? s * (r.p(0.5) ? 1 : -1) * r.in(1, 4) : 0) : m[i][j] * 0.05 + (p[i] == j ? (r.p(0.5) ? 40 : -40) : 0); }
    if (k == 6) for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) m[i][j] = i + j < N - 1 ? 0 : r.in(1, 5) * (r.p(0.5) ? 1 : -1);   // anti triangular: every step pivots
    return m;
}
template <std::size_t N> static void solve(vt::Case& c) {
    Rng& r = c.rng; M<N> a = gen<N>(r); c.in("A", a); std::vector<std::vector<ld>> iv; ld D = gauss<N>(a, &iv); ld big = 0; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) big = std::max(big, fabsl((ld)a[i][j]));
    if (D == 0 || big == 0) { c.trivial(); return; }
    ld ib = 0; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) ib = std::max(ib, fabsl(iv[i][N + j])); ld cond = big * ib * N; if (!(cond < 1e7L)) { c.trivial(); count("ill conditioned, not judged"); return; }
    M<N> lu = a; boost::array<std::size_t, N> pi; for (auto& x : pi) x = 99;
    try { geometrix::lup_decomposition(lu, pi); } catch (const std::logic_error& e) { REQ(false, "regular matrix (condition about " << (double)cond << ") refused: " << e.what()); }
    std::set<std::size_t> ps(pi.begin(), pi.end()); REQ(ps.size() == N && *ps.rbegin() == N - 1, "pivot array is not a permutation"); int sw = 0; { auto q = pi; for (std::size_t i = 0; i < N; ++i) while (q[i] != i) { std::swap(q[i], q[q[i]]); ++sw; } } static const char* nm[] = {"no row swaps", "odd permutation", "even permutation"}; count(sw == 0 ? nm[0] : nm[1 + (sw % 2 == 0)]);
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { ld s = 0; for (std::size_t k = 0; k <= std::min(i, j); ++k) s += (k == i ? 1 : (ld)lu[i][k]) * lu[k][j]; REQ(fabsl(s - a[pi[i]][j]) <= 1e-12L * N * big * 64, "L*U differs from the permuted matrix at " << i << "," << j << ": " << (double)s << " want " << a[pi[i]][j]); }
    for (std::size_t i = 0; i < N; ++i) for (std::size_t k = 0; k < i; ++k) REQ(fabsl(lu[i][k]) <= 1 + 1e-12L, "multiplier " << lu[i][k] << " above 1: partial pivoting not honoured");
    ld dt = sw % 2 ? -1 : 1; for (std::size_t i = 0; i < N; ++i) dt *= lu[i][i]; REQ(fabsl(dt - D) <= 1e-6L * fabsl(D) + 1e-300L, "product of pivots " << (double)dt << " is not the determinant " << (double)D);
    for (int t = 0; t < 4; ++t) {
        boost::array<double, N> b; if (t < 2) { for (auto& x : b) x = 0; b[r.in(0, N - 1)] = 1; } else for (auto& x : b) x = r.real(-10, 10) * (t == 3 ? big : 1);
        auto x = geometrix::lup_solve(lu, pi, b); ld bb = 0; for (auto q : b) bb = std::max(bb, fabsl((ld)q)); ld xm = 0; for (auto q : x) { REQ(std::isfinite(q), "solution not finite"); xm = std::max(xm, fabsl((ld)q)); }
        for (std::size_t i = 0; i < N; ++i) { ld s = 0; for (std::size_t j = 0; j < N; ++j) s += (ld)a[i][j] * x[j]; REQ(fabsl(s - b[i]) <= 1e-12L * 256 * N * big * xm + 1e-12L * bb, "residual of equation " << i << " is " << (double)(s - b[i])); }
        for (std::size_t i = 0; i < N; ++i) { ld s = 0; for (std::size_t j = 0; j < N; ++j) s += iv[i][N + j] * b[j]; REQ(fabsl(s - x[i]) <= 1e-12L * 256 * N * cond * (xm + fabsl(s)) , "solution component " << i << " got " << x[i] << " want " << (double)s); }
        count("systems solved");
    }
}
template <std::size_t N> static void singular(vt::Case& c) {
    // singular matrices whose elimination is exact in binary arithmetic: a zero column, two equal or zero rows
    Rng& r = c.rng; M<N> a; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) a[i][j] = r.in(-3, 3) * std::ldexp(1.0, (int)r.in(0, 2));
    int k = (int)r.in(0, 2); std::size_t i = r.in(0, N - 1), j = (i + r.in(1, N - 1)) % N;
    if (k == 0) for (std::size_t q = 0; q < N; ++q) a[q][i] = 0; else if (k == 1) for (std::size_t q = 0; q < N; ++q) a[i][q] = 0; else for (std::size_t q = 0; q < N; ++q) a[i][q] = a[j][q];
    if (k == 2 && N > 2) { for (std::size_t p = 0; p < N; ++p) for (std::size_t q = 0; q < N; ++q) if (p != i && p != j) a[p][q] = (p == q) ? 1 : 0; for (std::size_t q = 0; q < N; ++q) a[j][q] = a[i][q] = r.in(-1, 1); }
    c.in("A", a); M<N> lu = a; boost::array<std::size_t, N> pi; bool thr = false; try { geometrix::lup_decomposition(lu, pi); } catch (const std::logic_error&) { thr = true; }
    REQ(thr, "singular matrix decomposed without an exception"); count("singular matrices refused");
}
GROUP(solve, 60000, 3000000) { switch (c.index % 5) { case 0: solve<2>(c); break; case 1: solve<3>(c); break; case 2: solve<4>(c); break; case 3: solve<5>(c); break; default: solve<6>(c); } }
GROUP(singular, 10000, 200000) { switch (c.index % 5) { case 0: singular<2>(c); break; case 1: singular<3>(c); break; case 2: singular<4>(c); break; case 3: singular<5>(c); break; default: singular<6>(c); } }
