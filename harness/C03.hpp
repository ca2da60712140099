#pragma once
#include "geo.hpp"
#include <geometrix/arithmetic/matrix/trace.hpp>
#include <geometrix/tensor/matrix_minor_adaptor.hpp>
#include <geometrix/tensor/composite_matrix.hpp>
#include <geometrix/tensor/vector_matrix_adaptors.hpp>
using namespace vt;
using geometrix::matrix;
using geometrix::get;
template <std::size_t R, std::size_t C> using M = matrix<double, R, C>;
template <std::size_t R, std::size_t C> using Ref = std::array<std::array<ld, C>, R>;
namespace vt { template <std::size_t R, std::size_t C> void vt_put(Case& c, const matrix<double, R, C>& m) { for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { vt_put(c, (double)m[i][j]); if (c.describe) c.d << (j + 1 < C ? " " : " | "); } } }
static double val(Rng& r, int k) { switch (k) { case 0: return r.in(-6, 6); case 1: return r.in(0, 1); case 2: return r.real(-10, 10); case 3: return r.in(-40, 40) * 0.25; default: return r.in(0, 5) ? 0 : r.in(-3, 3); } }
template <std::size_t R, std::size_t C> static M<R, C> mk(Rng& r) { M<R, C> m; int k = (int)r.in(0, 4); for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) m[i][j] = val(r, k); return m; }
template <std::size_t R, std::size_t C> static Ref<R, C> ref(const M<R, C>& m) { Ref<R, C> o; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) o[i][j] = m[i][j]; return o; }
template <std::size_t R, std::size_t C> static void same(const M<R, C>& got, const Ref<R, C>& w, const char* what, double tol = 1e-10) { for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) REQ(vt::close(got[i][j], (double)w[i][j], tol, tol * 10), what << " (" << R << "x" << C << ") element " << i << "," << j << ": got " << got[i][j] << " want " << (double)w[i][j]); count("matrix expressions evaluated"); }
template <std::size_t R, std::size_t C, class F> static Ref<R, C> gen(F f) { Ref<R, C> o; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) o[i][j] = f(i, j); return o; }
template <std::size_t N, class T> static ld det_ref(const T& a) {   // permutation-free oracle: pivoted elimination in long double
    std::vector<std::vector<ld>> m(N, std::vector<ld>(N)); for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) m[i][j] = a[i][j];
    ld d = 1; for (std::size_t k = 0; k < N; ++k) { std::size_t p = k; for (std::size_t i = k; i < N; ++i) if (fabsl(m[i][k]) > fabsl(m[p][k])) p = i; if (m[p][k] == 0) return 0; if (p != k) { std::swap(m[p], m[k]); d = -d; } d *= m[k][k]; for (std::size_t i = k + 1; i < N; ++i) { ld f = m[i][k] / m[k][k]; for (std::size_t j = k; j < N; ++j) m[i][j] -= f * m[k][j]; } }
    return d;
}
template <std::size_t N> static bool inv_ref(const Ref<N, N>& a, Ref<N, N>& o) { 
    std::vector<std::vector<ld>> m(N, std::vector<ld>(2 * N, 0)); for (std::size_t i = 0; i < N; ++i) { for (std::size_t j = 0; j < N; ++j) m[i][j] = a[i][j]; m[i][N + i] = 1; }
    for (std::size_t k = 0; k < N; ++k) { std::size_t p = k; for (std::size_t i = k; i < N; ++i) if (fabsl(m[i][k]) > fabsl(m[p][k])) p = i; if (fabsl(m[p][k]) < 1e-9L) return false; std::swap(m[p], m[k]); ld f = m[k][k]; for (auto& x : m[k]) x /= f; for (std::size_t i = 0; i < N; ++i) if (i != k) { ld g = m[i][k]; for (std::size_t j = 0; j < 2 * N; ++j) m[i][j] -= g * m[k][j]; } }
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) o[i][j] = m[i][N + j]; return true;
}
template <std::size_t R, std::size_t K> static void matvec(vt::Case&, const M<R, K>&, const M<R, K>&) {}
template <std::size_t K> static void matvec(vt::Case& c, const M<K, K>& a, const M<K, K>& a2) {
    constexpr std::size_t R = K; Rng& r = c.rng; auto A = ref(a), A2 = ref(a2);
    { geometrix::vector<double, K> v; for (std::size_t i = 0; i < K; ++i) v[i] = val(r, 2); geometrix::vector<double, R> o; o <<= a * v; for (std::size_t i = 0; i < R; ++i) { ld s = 0; for (std::size_t k = 0; k < K; ++k) s += A[i][k] * v[k]; REQ(vt::close(o[i], (double)s), "matrix * vector component " << i << " got " << o[i] << " want " << (double)s); } count("matrix vector products");
      geometrix::vector<double, R> o2; o2 <<= a * v + a2 * v; for (std::size_t i = 0; i < R; ++i) { ld s = 0; for (std::size_t k = 0; k < K; ++k) s += (A[i][k] + A2[i][k]) * v[k]; REQ(vt::close(o2[i], (double)s), "a * v + a2 * v component " << i); }
}}
template <std::size_t R, std::size_t K, std::size_t C> static void rect(vt::Case& c) {
    Rng& r = c.rng; auto a = mk<R, K>(r), a2 = mk<R, K>(r); auto b = mk<K, C>(r), b2 = mk<K, C>(r); c.in("a", a); c.in("a2", a2); c.in("b", b); c.in("b2", b2);
    auto A = ref(a), A2 = ref(a2); auto B = ref(b), B2 = ref(b2);
    auto prod = gen<R, C>([&](std::size_t i, std::size_t j) { ld s = 0; for (std::size_t k = 0; k < K; ++k) s += A[i][k] * B[k][j]; return s; });
    { M<R, K> o; o <<= a + a2; same(o, gen<R, K>([&](std::size_t i, std::size_t j) { return A[i][j] + A2[i][j]; }), "a + a2"); }
    { M<R, K> o; o <<= a - a2; same(o, gen<R, K>([&](std::size_t i, std::size_t j) { return A[i][j] - A2[i][j]; }), "a - a2"); }
    { M<R, K> o; o <<= a - a2 + a; same(o, gen<R, K>([&](std::size_t i, std::size_t j) { return 2 * A[i][j] - A2[i][j]; }), "a - a2 + a"); }
    { M<R, K> o; o <<= -a; same(o, gen<R, K>([&](std::size_t i, std::size_t j) { return -A[i][j]; }), "-a"); }
    { M<R, C> o; o <<= a * b; same(o, prod, "a * b"); M<R, C> o2; o2 <<= -(a * b); same(o2, gen<R, C>([&](std::size_t i, std::size_t j) { return -prod[i][j]; }), "-(a * b)"); }
    { M<R, C> o; o <<= (a + a2) * (b - b2); same(o, gen<R, C>([&](std::size_t i, std::size_t j) { ld s = 0; for (std::size_t k = 0; k < K; ++k) s += (A[i][k] + A2[i][k]) * (B[k][j] - B2[k][j]); return s; }), "(a + a2) * (b - b2)"); }
    { M<K, R> o; o <<= trans(a); same(o, gen<K, R>([&](std::size_t i, std::size_t j) { return A[j][i]; }), "trans(a)"); }
    { M<C, R> o; o <<= trans(a * b); same(o, gen<C, R>([&](std::size_t i, std::size_t j) { return prod[j][i]; }), "trans(a * b)"); }
    { M<C, R> o; o <<= trans(b) * trans(a); same(o, gen<C, R>([&](std::size_t i, std::size_t j) { return prod[j][i]; }), "trans(b) * trans(a)"); }
    matvec(c, a, a2);
}
template <std::size_t I, std::size_t J, std::size_t R, std::size_t C> struct Views { static void go(const M<R, C>& m) {
    REQ((get<I, J>(m) == m[I][J]), "get<" << I << "," << J << ">");
    { M<R, C> k = m; geometrix::set<I, J>(k, 77.5); for (std::size_t x = 0; x < R; ++x) for (std::size_t y = 0; y < C; ++y) REQ(k[x][y] == (x == I && y == J ? 77.5 : m[x][y]), "set<" << I << "," << J << "> changed " << x << "," << y); }
    geometrix::row<M<R, C>, I> rw(m); REQ(get<J>(rw) == m[I][J], "row " << I << " column " << J); geometrix::column<M<R, C>, J> cl(m); REQ(get<I>(cl) == m[I][J], "column " << J << " row " << I); count("row/column elements read", 2);
    Views<J + 1 == C ? I + 1 : I, J + 1 == C ? 0 : J + 1, R, C>::go(m); } };
template <std::size_t J, std::size_t R, std::size_t C> struct Views<R, J, R, C> { static void go(const M<R, C>&) {} };
template <std::size_t ER, std::size_t EC, std::size_t I, std::size_t J, std::size_t N> struct Minor { static void go(const M<N, N>& m) {
    geometrix::matrix_minor<M<N, N>, ER, EC> mm(m); double w = m[I + (I >= ER)][J + (J >= EC)];
    REQ((get<I, J>(mm) == w), "minor without row " << ER << " column " << EC << " element " << I << "," << J << " is " << (get<I, J>(mm)) << " want " << w);
    using mt = geometrix::matrix_minor<M<N, N>, ER, EC>; geometrix::row<mt, I> rw(mm); REQ(get<J>(rw) == w, "row of minor"); geometrix::column<mt, J> cl(mm); REQ(get<I>(cl) == w, "column of minor"); count("minor elements read", 3);
    Minor<ER, EC, J + 2 == N ? I + 1 : I, J + 2 == N ? 0 : J + 1, N>::go(m); } };
template <std::size_t ER, std::size_t EC, std::size_t J, std::size_t N> struct MinorEnd {};
template <std::size_t ER, std::size_t EC, std::size_t J> struct Minor<ER, EC, 1, J, 2> { static void go(const M<2, 2>&) {} };
template <std::size_t ER, std::size_t EC, std::size_t J> struct Minor<ER, EC, 2, J, 3> { static void go(const M<3, 3>&) {} };
template <std::size_t ER, std::size_t EC, std::size_t J> struct Minor<ER, EC, 3, J, 4> { static void go(const M<4, 4>&) {} };
template <std::size_t K, std::size_t N> struct AllMinors { static void go(const M<N, N>& m) { Minor<K / N, K % N, 0, 0, N>::go(m); AllMinors<K + 1, N>::go(m); } };
template <> struct AllMinors<4, 2> { static void go(const M<2, 2>&) {} };
template <> struct AllMinors<9, 3> { static void go(const M<3, 3>&) {} };
template <> struct AllMinors<16, 4> { static void go(const M<4, 4>&) {} };
template <std::size_t N> static void inverse(const M<N, N>& m, const Ref<N, N>& A, ld D, ld mag) {
    Ref<N, N> I; bool ok = inv_ref<N>(A, I) && fabsl(D) > 1e-6L * mag; if (!ok) { count("near singular, inverse not judged"); if (D == 0) { M<N, N> o; bool thr = false; double d; d <<= det(m); if (d == 0) { try { o <<= inv(m); } catch (const std::logic_error&) { thr = true; } REQ(thr, "inverse of a singular matrix returned a result"); count("singular inverse refused"); } } return; }
    M<N, N> o; o <<= inv(m); ld mx = 0; for (auto& q : I) for (ld x : q) mx = std::max(mx, fabsl(x));
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) REQ(fabsl(o[i][j] - I[i][j]) <= 1e-7L * (1 + mx), "inverse of " << N << "x" << N << " element " << i << "," << j << ": got " << o[i][j] << " want " << (double)I[i][j]);
    M<N, N> id; id <<= m * o; for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) REQ(fabsl(id[i][j] - (i == j)) <= 1e-5L * (1 + mx), "m * inv(m) is not the identity at " << i << "," << j); count("inverses verified");
}
template <std::size_t N> static void square(vt::Case& c, bool doinv) {
    Rng& r = c.rng; auto m = mk<N, N>(r); if (r.p(0.15) && N > 1) { std::size_t i = r.in(0, N - 1), j = (i + r.in(1, N - 1)) % N; for (std::size_t k = 0; k < N; ++k) m[i][k] = 2 * m[j][k]; }
    c.in("m", m); auto A = ref(m); ld D = det_ref<N>(m), mag = 1; for (std::size_t i = 0; i < N; ++i) { ld s = 0; for (std::size_t j = 0; j < N; ++j) s += fabsl(A[i][j]); mag *= std::max(s, (ld)1e-3); }
    double d = geometrix::determinant(m); REQ(fabsl(d - D) <= 1e-9L * mag + 1e-9L, "determinant of " << N << "x" << N << " got " << d << " want " << (double)D); double d2; d2 <<= det(m); REQ(fabsl(d2 - D) <= 1e-9L * mag + 1e-9L, "det() expression got " << d2 << " want " << (double)D); count("determinants verified", 2);
    { M<N, N> t; t <<= trans(m); double d3 = geometrix::determinant(t); REQ(fabsl(d3 - D) <= 1e-9L * mag + 1e-9L, "determinant changes under transposition"); }
    (void)doinv;
}
template <std::size_t N> static void tr(vt::Case& c) { auto m = mk<N, N>(c.rng); c.in("m", m); ld s = 0; for (std::size_t i = 0; i < N; ++i) s += m[i][i]; REQ(vt::close(geometrix::trace(m), (double)s), "trace of " << N << "x" << N << " got " << geometrix::trace(m) << " want " << (double)s); count("traces verified"); }
template <std::size_t N> static void invc(vt::Case& c) {
    Rng& r = c.rng; auto m = mk<N, N>(r); int k = (int)r.in(0, 4); if (k == 0) { for (std::size_t i = 0; i < N; ++i) m[i][i] += 8 + N; } if (k == 1) { std::array<std::size_t, N> p; for (std::size_t i = 0; i < N; ++i) p[i] = i; r.shuffle(p.begin(), p.end()); for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) m[i][j] = p[i] == j ? (double)r.in(1, 4) : 0; }
    if (k == 2 && N > 1) { std::size_t i = r.in(0, N - 1), j = (i + 1) % N; for (std::size_t q = 0; q < N; ++q) m[i][q] = 2 * m[j][q]; }
    c.in("m", m); auto A = ref(m); ld mag = 1; for (std::size_t i = 0; i < N; ++i) { ld s = 0; for (std::size_t j = 0; j < N; ++j) s += fabsl(A[i][j]); mag *= std::max(s, (ld)1e-3); } inverse<N>(m, A, det_ref<N>(m), mag);
}
