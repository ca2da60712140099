#include "C03.hpp"
// matrices composed of rows, columns and blocks in many layouts
template <std::size_t I, std::size_t J, std::size_t R, std::size_t C> struct Same { template <class X> static void go(const X& x, const Ref<R, C>& e, const char* what) { REQ((get<I, J>(x) == (double)e[I][J]), what << ": element " << I << "," << J << " is " << (get<I, J>(x)) << ", not " << (double)e[I][J]); count("composite elements read"); Same<J + 1 == C ? I + 1 : I, J + 1 == C ? 0 : J + 1, R, C>::go(x, e, what); } };
template <std::size_t J, std::size_t R, std::size_t C> struct Same<R, J, R, C> { template <class X> static void go(const X&, const Ref<R, C>&, const char*) {} };
template <std::size_t R, std::size_t C, class X> static void is(const X& x, const Ref<R, C>& e, const char* what) { Same<0, 0, R, C>::go(x, e, what); M<R, C> m; m <<= x + x; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) REQ(vt::close(m[i][j], 2 * (double)e[i][j]), what << " added to itself: element " << i << "," << j); }
template <std::size_t N> using V = geometrix::vector<double, N>;
template <std::size_t N> static V<N> vec(Rng& r) { V<N> v; for (std::size_t i = 0; i < N; ++i) v[i] = r.in(-99, 99); return v; }
template <std::size_t R, std::size_t C> static void put(Ref<R, C>& e, std::size_t i, std::size_t j, const M<2, 2>& m) { for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) e[i + a][j + b] = m[a][b]; }
GROUP(composites, 3000, 60000) {
    using namespace geometrix; Rng& r = c.rng; V<2> p[10]; for (auto& x : p) x = vec<2>(r); V<3> t[4]; for (auto& x : t) x = vec<3>(r); V<4> f[4]; for (auto& x : f) x = vec<4>(r); for (auto& x : p) c.in("p", x); for (auto& x : t) c.in("t", x); for (auto& x : f) c.in("f", x);
    typedef column_vector<V<2>> C2; typedef column_vector<V<3>> C3; typedef row_vector<V<2>> R2; typedef row_vector<V<3>> R3; typedef row_vector<V<4>> R4; typedef column_vector<V<4>> C4;
    C2 c0(p[0]), c1(p[1]), c2(p[2]), c3(p[3]), c4(p[4]), c5(p[5]), c6(p[6]), c7(p[7]), c8(p[8]), c9(p[9]); R2 r0(p[0]), r1(p[1]), r2(p[2]), r3(p[3]), r4(p[4]), r5(p[5]);
    auto cols = [&](std::size_t i, std::size_t j) { return (ld)p[j][i]; }; auto rows = [&](std::size_t i, std::size_t j) { return (ld)p[i][j]; };
    switch (c.index % 3) {
    case 0: is<2, 2>(as_matrix<2, 2>(c0, c1), gen<2, 2>(cols), "2 columns"); is<2, 3>(as_matrix<2, 3>(c0, c1, c2), gen<2, 3>(cols), "3 columns"); is<2, 5>(as_matrix<2, 5>(c0, c1, c2, c3, c4), gen<2, 5>(cols), "5 columns"); is<2, 7>(as_matrix<2, 7>(c0, c1, c2, c3, c4, c5, c6), gen<2, 7>(cols), "7 columns"); is<2, 10>(as_matrix<2, 10>(c0, c1, c2, c3, c4, c5, c6, c7, c8, c9), gen<2, 10>(cols), "10 columns"); break;
    case 1: is<2, 2>(as_matrix<2, 2>(r0, r1), gen<2, 2>(rows), "2 rows"); is<3, 2>(as_matrix<3, 2>(r0, r1, r2), gen<3, 2>(rows), "3 rows"); is<4, 2>(as_matrix<4, 2>(r0, r1, r2, r3), gen<4, 2>(rows), "4 rows"); is<6, 2>(as_matrix<6, 2>(r0, r1, r2, r3, r4, r5), gen<6, 2>(rows), "6 rows");
        { R4 a(f[0]), b(f[1]), d(f[2]), e(f[3]); is<4, 4>(as_matrix<4, 4>(a, b, d, e), gen<4, 4>([&](std::size_t i, std::size_t j) { return (ld)f[i][j]; }), "4 rows of 4"); C4 g(f[0]), h(f[1]), k(f[2]), l(f[3]); is<4, 4>(as_matrix<4, 4>(g, h, k, l), gen<4, 4>([&](std::size_t i, std::size_t j) { return (ld)f[j][i]; }), "4 columns of 4"); double dr = determinant(as_matrix<4, 4>(a, b, d, e)), dc = determinant(as_matrix<4, 4>(g, h, k, l)); REQ(vt::close(dr, dc, 1e-9, 1e-3), "determinant of rows " << dr << " and of columns " << dc); } break;
    default: { auto a = mk<2, 2>(r), b = mk<2, 2>(r), d = mk<2, 2>(r), e = mk<2, 2>(r); c.in("a", a); c.in("b", b); c.in("d", d); c.in("e", e); { Ref<4, 4> x; put(x, 0, 0, a); put(x, 0, 2, b); put(x, 2, 0, d); put(x, 2, 2, e); is<4, 4>(as_matrix<4, 4>(a, b, d, e), x, "four blocks"); } { Ref<2, 4> x; put(x, 0, 0, a); put(x, 0, 2, b); is<2, 4>(as_matrix<2, 4>(a, b), x, "blocks side by side"); } { Ref<4, 2> x; put(x, 0, 0, a); put(x, 2, 0, b); is<4, 2>(as_matrix<4, 2>(a, b), x, "blocks on top of each other"); } { Ref<6, 2> x; put(x, 0, 0, a); put(x, 2, 0, b); put(x, 4, 0, d); is<6, 2>(as_matrix<6, 2>(a, b, d), x, "three blocks on top of each other"); }
        { Ref<2, 3> x; for (int i = 0; i < 2; ++i) { x[i][0] = a[i][0]; x[i][1] = a[i][1]; x[i][2] = p[0][i]; } is<2, 3>(as_matrix<2, 3>(a, c0), x, "block and column"); for (int i = 0; i < 2; ++i) { x[i][0] = p[0][i]; x[i][1] = a[i][0]; x[i][2] = a[i][1]; } is<2, 3>(as_matrix<2, 3>(c0, a), x, "column and block"); } { Ref<3, 2> x; for (int j = 0; j < 2; ++j) { x[0][j] = a[0][j]; x[1][j] = a[1][j]; x[2][j] = p[1][j]; } is<3, 2>(as_matrix<3, 2>(a, r1), x, "block and row"); for (int j = 0; j < 2; ++j) { x[0][j] = p[1][j]; x[1][j] = a[0][j]; x[2][j] = a[1][j]; } is<3, 2>(as_matrix<3, 2>(r1, a), x, "row and block"); }
        { R3 u(t[0]); C3 v(t[1]); R3 w(t[2]); auto m = mk<3, 3>(r); c.in("m", m); Ref<5, 3> x; for (int j = 0; j < 3; ++j) { x[0][j] = t[0][j]; for (int i = 0; i < 3; ++i) x[1 + i][j] = m[i][j]; x[4][j] = t[2][j]; } is<5, 3>(as_matrix<5, 3>(u, m, w), x, "row, block and row"); Ref<3, 5> y; for (int i = 0; i < 3; ++i) { y[i][0] = t[1][i]; for (int j = 0; j < 3; ++j) y[i][1 + j] = m[i][j]; y[i][4] = t[1][i]; } is<3, 5>(as_matrix<3, 5>(v, m, v), y, "column, block and column"); } } } }
template <std::size_t ER, std::size_t EC, std::size_t N> static Ref<N - 1, N - 1> mref(const M<N, N>& m) { return gen<N - 1, N - 1>([&](std::size_t i, std::size_t j) { return (ld)m[i + (i >= ER)][j + (j >= EC)]; }); }
template <std::size_t ER, std::size_t EC, std::size_t N> static void minor_ops(Case& c) {
    using namespace geometrix; constexpr std::size_t K = N - 1; Rng& r = c.rng; auto m = mk<N, N>(r), n = mk<N, N>(r); c.in("m", m); c.in("n", n); auto A = mref<ER, EC>(m), B = mref<EC, ER>(n);
    { M<K, K> z; z <<= as_matrix_minor<ER, EC>(m) + as_matrix_minor<EC, ER>(n); same(z, gen<K, K>([&](std::size_t i, std::size_t j) { return A[i][j] + B[i][j]; }), "sum of minors"); }
    { M<K, K> z; z <<= as_matrix_minor<ER, EC>(m) * as_matrix_minor<EC, ER>(n); same(z, gen<K, K>([&](std::size_t i, std::size_t j) { ld s = 0; for (std::size_t k = 0; k < K; ++k) s += A[i][k] * B[k][j]; return s; }), "product of minors"); }
    { M<K, K> z; z <<= transpose(as_matrix_minor<ER, EC>(m)); same(z, gen<K, K>([&](std::size_t i, std::size_t j) { return A[j][i]; }), "transposed minor"); }
    { V<K> v = vec<K>(r), w; w <<= as_matrix_minor<ER, EC>(m) * v; for (std::size_t i = 0; i < K; ++i) { ld s = 0; for (std::size_t k = 0; k < K; ++k) s += A[i][k] * v[k]; REQ(vt::close(w[i], (double)s), "minor * v component " << i << " is " << w[i] << ", not " << (double)s); } }
    M<K, K> e; for (std::size_t i = 0; i < K; ++i) for (std::size_t j = 0; j < K; ++j) e[i][j] = (double)A[i][j]; ld D = det_ref<K>(e), mag = 1; for (auto& q : A) { ld s = 0; for (ld x : q) s += fabsl(x); mag *= std::max(s, (ld)1e-3); }
    double d = geometrix::determinant(as_matrix_minor<ER, EC>(m)); REQ(fabsl(d - D) <= 1e-9L * (mag + 1), "determinant of a minor is " << d << ", not " << (double)D);
    Ref<K, K> I; if (fabsl(D) > 1e-6L * mag && inv_ref<K>(A, I)) { M<K, K> z; z <<= inv(as_matrix_minor<ER, EC>(m)); ld mx = 0; for (auto& q : I) for (ld x : q) mx = std::max(mx, fabsl(x)); for (std::size_t i = 0; i < K; ++i) for (std::size_t j = 0; j < K; ++j) REQ(fabsl(z[i][j] - I[i][j]) <= 1e-7L * (1 + mx), "inverse of a minor at " << i << "," << j); count("minors inverted"); }
}
GROUP(minor_algebra, 6000, 120000) { switch (c.index % 6) { case 0: minor_ops<0, 0, 3>(c); break; case 1: minor_ops<1, 2, 3>(c); break; case 2: minor_ops<2, 1, 3>(c); break; case 3: minor_ops<1, 3, 4>(c); break; case 4: minor_ops<3, 0, 4>(c); break; default: minor_ops<2, 2, 4>(c); } }
