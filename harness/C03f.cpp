#include "C03.hpp"
// larger shapes than the other groups; inverses of 6x6 and aliased targets
template <std::size_t R, std::size_t K, std::size_t C> static void wide(vt::Case& c) {
    Rng& r = c.rng; auto a = mk<R, K>(r), a2 = mk<R, K>(r); auto b = mk<K, C>(r); c.in("a", a); c.in("a2", a2); c.in("b", b); auto A = ref(a), A2 = ref(a2); auto B = ref(b);
    { M<R, K> o; o <<= a - a2; same(o, gen<R, K>([&](std::size_t i, std::size_t j) { return A[i][j] - A2[i][j]; }), "a - a2"); o = a; o <<= o + a2; same(o, gen<R, K>([&](std::size_t i, std::size_t j) { return A[i][j] + A2[i][j]; }), "o + a2 into o"); }
    { M<R, C> o; o <<= a * b; same(o, gen<R, C>([&](std::size_t i, std::size_t j) { ld s = 0; for (std::size_t k = 0; k < K; ++k) s += A[i][k] * B[k][j]; return s; }), "a * b"); }
    { M<K, R> o; o <<= trans(a); same(o, gen<K, R>([&](std::size_t i, std::size_t j) { return A[j][i]; }), "trans(a)"); } }
template <std::size_t N> static void own(vt::Case& c) {      // the target occurs in the expression
    Rng& r = c.rng; auto a = mk<N, N>(r), b = mk<N, N>(r); c.in("a", a); c.in("b", b); auto A = ref(a), B = ref(b); auto mul = [](const Ref<N, N>& x, const Ref<N, N>& y) { return gen<N, N>([&](std::size_t i, std::size_t j) { ld s = 0; for (std::size_t k = 0; k < N; ++k) s += x[i][k] * y[k][j]; return s; }); };
    { M<N, N> o = a; o <<= o * o; same(o, mul(A, A), "o * o into o"); o = a; o <<= b * o; same(o, mul(B, A), "b * o into o"); o = a; o <<= trans(o); same(o, gen<N, N>([&](std::size_t i, std::size_t j) { return A[j][i]; }), "trans(o) into o"); o = a; o <<= o - trans(o); same(o, gen<N, N>([&](std::size_t i, std::size_t j) { return A[i][j] - A[j][i]; }), "o - trans(o) into o"); }
    ld D = det_ref<N>(a), mag = 1; for (std::size_t i = 0; i < N; ++i) { ld s = 0; for (std::size_t j = 0; j < N; ++j) s += fabsl(A[i][j]); mag *= std::max(s, (ld)1e-3); } Ref<N, N> I; if (fabsl(D) > 1e-4L * mag && inv_ref<N>(A, I)) { M<N, N> o = a; o <<= inv(o); ld mx = 0; for (auto& q : I) for (ld x : q) mx = std::max(mx, fabsl(x)); for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) REQ(fabsl(o[i][j] - I[i][j]) <= 1e-7L * (1 + mx), "inv(o) into o, element " << i << "," << j); count("inverted in place"); }
    geometrix::vector<double, N> v; for (std::size_t i = 0; i < N; ++i) v[i] = val(r, 2); auto w = v; v <<= a * (b * v); auto AB = mul(A, B); for (std::size_t i = 0; i < N; ++i) { ld s = 0; for (std::size_t k = 0; k < N; ++k) s += AB[i][k] * w[k]; REQ(vt::close(v[i], (double)s, 1e-9, 1e-7), "a * (b * v) into v, component " << i); } }
GROUP(larger, 6000, 150000) { switch (c.index % 8) { case 0: wide<7, 7, 7>(c); break; case 1: wide<8, 2, 9>(c); break; case 2: wide<10, 3, 1>(c); break; case 3: wide<1, 16, 2>(c); break; case 4: wide<16, 2, 3>(c); break; case 5: wide<6, 5, 8>(c); break; case 6: invc<6>(c); break; default: tr<9>(c); tr<16>(c); } }
GROUP(in_place, 6000, 150000) { switch (c.index % 3) { case 0: own<2>(c); break; case 1: own<3>(c); break; default: own<4>(c); } }
