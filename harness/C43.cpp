#include "geo.hpp"
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/utility/random_generator.hpp>
#include <geometrix/utility/memoize.hpp>
#include <geometrix/utility/scope_timer.ipp>
#include <geometrix/utility/golden_ratio_color_generator.hpp>
#include <geometrix/utility/integer_sequence.hpp>
#include <geometrix/utility/private_allocator.hpp>
#include <geometrix/algorithm/hyperplane_partition_policies.hpp>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <sstream>
#include <fstream>
#include <unistd.h>
#include <glob.h>
using namespace vt;
using namespace geometrix;

namespace pa { GEOMETRIX_PRIVATE_ALLOCATOR(mine) }
template <class G, class M> static void assigned(G&, G, M, std::false_type) {}
template <class G, class M> static void assigned(G& g, G d, M draw, std::true_type) { d = g; REQ(draw(d) == draw(g), "an assigned generator differs from its source"); auto ng = draw(g); REQ(draw(d) == ng, "an assigned generator draws from its source's state"); }
template <class G, class M> static void twins(Case& c, G& g, std::function<G(unsigned long)> make, unsigned long seed, M draw) {   // repeatability: equal seeds, reseeding, and copies that live on alone
    Rng& r = c.rng; G h = make(seed); int n = (int)r.in(1, big(r, 40)); for (int i = 0; i < n; ++i) REQ(draw(g) == draw(h), "draw " << i << " differs between generators with equal seeds");
    std::unique_ptr<G> a(new G(g)); G b(*a); int k = (int)r.in(0, 20); std::vector<decltype(draw(g))> ahead; for (int i = 0; i < k; ++i) ahead.push_back(draw(*a)); for (int i = 0; i < k; ++i) REQ(draw(b) == ahead[i], "a copy does not go on from where its original was"); a.reset(); for (int i = 0; i < k; ++i) REQ(draw(g) == ahead[i], "drawing from a copy disturbs the original"); for (int i = 0; i < 5; ++i) REQ(draw(b) == draw(g), "a copy fails once its original is gone");
    assigned(g, make(seed + 1), draw, std::is_copy_assignable<G>());
    unsigned long s2 = (unsigned long)r.in(0, 1000000); g.seed(s2); G f = make(s2); for (int i = 0; i < 20; ++i) REQ(draw(g) == draw(f), "reseeding is not the same as starting with the seed"); count("repeatability draws", n + 4 * k + 30); }
GROUP(generators, 5000, 400000) {   // documented half-open ranges, and repeatability
    Rng& r = c.rng; unsigned long seed = (unsigned long)r.in(0, 1 << 30); std::size_t m = r.p(0.6) ? (std::size_t)r.in(1, 8) : r.p(0.5) ? (std::size_t)r.in(1, 100000) : ((std::size_t)1 << r.in(20, 63)) + (std::size_t)r.in(0, 5); c.in("max", (long)m); c.in("seed", (long)seed);
    { typedef random_index_generator<boost::mt19937> G; G g(m, seed), e(m, boost::mt19937((unsigned)seed)); std::set<std::size_t> seen; int n = m <= 8 ? 300 : 30; for (int i = 0; i < n; ++i) { std::size_t v = g(), w = e(); REQ(v < m && v == w, "index " << v << " of " << m << " (" << w << " from an equal engine)"); seen.insert(v); } if (m <= 8) REQ(seen.size() == m, "only " << seen.size() << " of " << m << " indexes are ever drawn"); twins<G>(c, g, [m](unsigned long s) { return G(m, s); }, (g.seed(seed), seed), [](const G& x) { return x(); }); }
    { double M = std::pow(10., r.real(-6, 6)); typedef random_real_generator<> G; G g(M, seed); double lo = M, hi = 0; for (int i = 0; i < 60; ++i) { double v = g(); REQ(v >= 0 && v < M, v << " is outside [0," << M << ")"); lo = std::min(lo, v); hi = std::max(hi, v); } REQ(lo < 0.4 * M && hi > 0.6 * M, "sixty draws from [0," << M << ") stay within [" << lo << "," << hi << "]"); twins<G>(c, g, [M](unsigned long s) { return G(M, s); }, (g.seed(seed), seed), [](const G& x) { return x(); }); }
    { typedef random_integer_generator<> G; G g(seed); std::set<std::size_t> seen; int n = m <= 8 ? 300 : 30; for (int i = 0; i < n; ++i) { std::size_t v = g(m); REQ(v < m, v << " is not below " << m); seen.insert(v); } if (m <= 8) REQ(seen.size() == m, "only " << seen.size() << " of " << m << " numbers are ever drawn"); twins<G>(c, g, [](unsigned long s) { return G(s); }, (g.seed(seed), seed), [](const G& x) { return x(); }); }
    long s0 = r.in(-50, 50); sequence_generator<long> q(s0); std::vector<long> v((std::size_t)r.in(0, 30)); for (auto& x : v) x = q(); for (std::size_t i = 0; i < v.size(); ++i) REQ(v[i] == s0 + (long)i, "the ordered sequence has " << v[i] << " at place " << i); }
GROUP(selection, 5000, 400000) {   // an element picked at random is an element
    Rng& r = c.rng; int n = (int)r.in(1, big(r, 9)); unsigned long seed = (unsigned long)r.in(0, 1 << 30); c.in("size", n); c.in("seed", (long)seed); std::set<int> st; std::list<int> li; std::vector<int> ve; for (int i = 0; i < n; ++i) { st.insert(i); li.push_back(i); ve.push_back(i); } boost::mt19937 eng((unsigned)seed); int N = n <= 9 ? 300 : 40 * n;
    { random_index_generator<boost::mt19937> g((std::size_t)n, eng); std::set<int> seen; for (int i = 0; i < N; ++i) { auto it = random_element(st, g); REQ(it != st.end(), "the end is selected"); REQ(*it >= 0 && *it < n, "element " << *it); seen.insert(*it); } REQ((int)seen.size() == n, "some element is never selected"); }
    { auto R = boost::make_iterator_range(ve.begin(), ve.end()); auto L = boost::make_iterator_range(li.begin(), li.end()); std::set<int> seen; for (int i = 0; i < 60; ++i) { partition_policies::random_partition_selector_policy<> pol(boost::mt19937((unsigned)seed + i)); auto it = pol(R); REQ(it != ve.end(), "the partition policy selects the end of the list"); seen.insert(*it); auto il = pol(L); REQ(il != li.end(), "the partition policy selects the end of the list"); REQ(*il == *it, "the selection depends on the container"); } REQ(n < 2 || seen.size() > 1, "one element is selected for sixty seeds"); }
    count("selections", N + 60); }
GROUP(memo, 20000, 600000) {   // every distinct argument list is computed once, and the answers are the function's
    Rng& r = c.rng; int D = (int)r.in(1, 7), n = (int)r.in(1, big(r, 60)); c.in("domain", D); c.in("calls", n); std::string tr; for (int i = 0; i < 4; ++i) tr += char(97 + r.in(0, 25)); c.in("salt", tr); { std::map<std::tuple<int, std::string>, long> cache; std::map<std::pair<int, std::string>, int> calls; auto f = memoize(cache, [&calls](int a, std::string b) -> long { ++calls[{a, b}]; return a * 1000 + (long)b.size() * 10 + (b.empty() ? 0 : b[0] - 'a'); }); auto f2 = f; std::set<std::pair<int, std::string>> asked; for (int i = 0; i < n; ++i) { int a = (int)r.in(-D, D); std::string b((std::size_t)r.in(0, 3), (char)('a' + r.in(0, D - 1))); long got = r.p(0.5) ? f(a, b) : f2(a, b); long want = a * 1000 + (long)b.size() * 10 + (b.empty() ? 0 : b[0] - 'a'); REQ(got == want, "the memoised function of (" << a << "," << b << ") is " << got << " instead of " << want); asked.insert({a, b}); } REQ(cache.size() == asked.size() && calls.size() == asked.size(), cache.size() << " kept results and " << calls.size() << " evaluated argument lists for " << asked.size()); for (auto& k : calls) REQ(k.second == 1, "the function is evaluated " << k.second << " times for one argument list"); }
    { std::map<std::tuple<int>, unsigned long> cache; std::function<unsigned long(int)> fib; int evals = 0; fib = memoize(cache, [&](int k) -> unsigned long { ++evals; return k < 2 ? (unsigned long)k : fib(k - 1) + fib(k - 2); }); int k = (int)r.in(0, 60), top = 1; unsigned long a = 0, b = 1; for (int i = 0; i < k; ++i) { unsigned long t = a + b; a = b; b = t; } for (int rep = 0; rep < 3; ++rep) REQ(fib(k) == a, "a recursive memoised function gives " << fib(k) << " instead of " << a); (void)top; REQ(evals == (k < 2 ? 1 : k + 1), evals << " evaluations for " << k); cache.clear(); REQ(fib(k) == a && evals == 2 * (k < 2 ? 1 : k + 1), "a cleared cache is still used"); }
    count("memoised calls", n); }
template <class T> static void stat_case(Case& c, std::function<T()> draw) {
    Rng& r = c.rng; scope_timer_detail::running_stat<T> s; int rounds = (int)r.in(1, 3); for (int q = 0; q < rounds; ++q) { std::vector<T> v; int n = (int)r.in(0, big(r, 40)); auto judge = [&] { REQ(s.counts() == v.size(), s.counts() << " samples instead of " << v.size()); T t{}; ld m = 0, S = 0, big = 0; for (auto x : v) { t += x; m += (ld)x; big = std::max(big, std::fabs((ld)x)); } REQ(v.empty() ? s.sum() == T{} : vt::close((double)s.sum(), (double)t, 1e-12, 1e-12 * (double)big * v.size()), "the sum is " << s.sum() << " instead of " << t); if (!v.empty()) m /= v.size(); for (auto x : v) S += ((ld)x - m) * ((ld)x - m); if (v.size() > 1) S /= v.size() - 1; else S = 0; REQ(vt::close(s.mean(), (double)m, 1e-11, 1e-11 * (double)big), "mean " << s.mean() << " instead of " << (double)m); REQ(vt::close(s.variance(), (double)S, 1e-8, 1e-11 * (double)(big * big)), "variance " << s.variance() << " instead of " << (double)S); REQ(vt::close(s.standard_deviation() * s.standard_deviation(), s.variance(), 1e-12, 1e-300), "deviation"); };
        judge(); for (int i = 0; i < n; ++i) { T x = draw(); v.push_back(x); s.push(x); judge(); } auto k = s; k.push(draw()); judge(); k.clear(); judge(); s.clear(); v.clear(); judge(); count("samples", n); } }
GROUP(statistics, 4000, 400000) {
    Rng& r = c.rng; double off = r.p(0.5) ? 0 : std::pow(10., r.real(0, 5)), sp = std::pow(10., r.real(-3, 3)); c.in("offset", off); c.in("spread", sp); stat_case<double>(c, [&] { return off + r.real(-sp, sp); }); stat_case<std::uint64_t>(c, [&] { return (std::uint64_t)r.in(0, 1000000); }); stat_case<long>(c, [&] { return (long)r.in(-1000, 1000); }); }
static void inner(int n) { GEOMETRIX_MEASURE_SCOPE_TIME("inner \"scope\"") volatile double x = 1; for (int i = 0; i < n; ++i) x = x * 1.0000001; if (n % 3 == 0) inner(n / 2 + 1); }
GROUP(timers, 300, 6000) {   // measured scopes: counts, durations and the report
    Rng& r = c.rng; auto& m = scope_timer_detail::call_map::instance(); m.clear(); std::map<std::string, int> want; int n = (int)r.in(1, big(r, 30)); auto t0 = std::chrono::high_resolution_clock::now(); std::vector<std::string> names{"a", "b", "c"}; std::string tr; for (int i = 0; i < n; ++i) { std::string k = r.pick(names); tr += k; try { GEOMETRIX_MEASURE_SCOPE_TIME(k) inner((int)r.in(1, 2) * 100 + 1); if (r.p(0.2)) throw 1; } catch (int) {} ++want[k]; } c.in("scopes", tr); double el = std::chrono::duration<double>(std::chrono::high_resolution_clock::now() - t0).count();
    double tot = 0; for (auto& k : want) { REQ(m.count(k.first) == 1 && (int)m[k.first].counts() == k.second, "scope " << k.first << " counted " << m[k.first].counts() << " times instead of " << k.second); tot += m[k.first].sum() * 1e-9; } REQ(tot <= el + 1e-6 && tot > 0, "the scopes took " << tot << " s of " << el << " s"); REQ(m["inner \"scope\""].counts() >= (std::uint64_t)n && m["inner \"scope\""].sum() * 1e-9 <= tot * (1 + n) + 1e-6, "inner scopes");
    char here[4096]; if (!getcwd(here, sizeof here)) throw Fail{"getcwd"}; char dir[] = "/tmp/vt43-XXXXXX"; if (!mkdtemp(dir)) throw Fail{"mkdtemp"}; std::string text; bool ok = chdir(dir) == 0; int files = 0; if (ok) { m.write(); glob_t g; if (glob("geometrix_scope_timer_timings_*.csv", 0, 0, &g) == 0) { files = (int)g.gl_pathc; for (std::size_t i = 0; i < g.gl_pathc; ++i) { std::ifstream f(g.gl_pathv[i]); std::stringstream s; s << f.rdbuf(); text = s.str(); f.close(); unlink(g.gl_pathv[i]); } } globfree(&g); ok = chdir(here) == 0; } rmdir(dir); if (!ok) throw Fail{"chdir"};
    REQ(files == 1, files << " report files"); std::stringstream s(text); std::string line; REQ(std::getline(s, line) && line.find("Counts") != std::string::npos, "no header"); std::size_t rows = 0; auto it = m.begin(); while (std::getline(s, line)) { REQ(it != m.end(), "too many rows"); std::string key = "\"" + it->first + "\","; REQ(line.compare(0, key.size(), key) == 0, "row for another scope: " << line); std::stringstream ls(line.substr(key.size())); unsigned long cn = 0; double tt = -1, av = -1, sd = -1; char k; ls >> cn >> k >> tt >> k >> av >> k >> sd; REQ(!ls.fail() && cn == it->second.counts() && vt::close(tt, it->second.sum() * 1e-9, 1e-4, 1e-12) && vt::close(av, it->second.mean() * 1e-9, 1e-4, 1e-12) && vt::close(sd, it->second.standard_deviation() * 1e-9, 1e-4, 1e-12), "row " << line << " is not the statistics kept"); ++it; ++rows; } REQ(rows == m.size(), rows << " rows for " << m.size() << " scopes"); m.clear(); count("scopes", n); }
GROUP(colours, 20000, 800000) {   // hue, saturation and value to channels
    Rng& r = c.rng; float h = r.p(0.2) ? (float)r.in(0, 12) / 12 : (float)r.real(0, 1), s = r.p(0.2) ? (float)r.in(0, 1) : (float)r.real(0, 1), v = r.p(0.2) ? (float)r.in(0, 1) : (float)r.real(0, 1); c.in("h", h); c.in("s", s); c.in("v", v); argb_tuple t = hsv2rgb(h, s, v); auto ch = [&](double n) { double k = std::fmod(n + 6 * (double)h, 6); double w = std::max(0., std::min(std::min(k, 4 - k), 1.)); return 255 * ((double)v - (double)v * s * w); }; double want[3] = {ch(5), ch(3), ch(1)}; int got[3] = {std::get<argb::Red>(t), std::get<argb::Green>(t), std::get<argb::Blue>(t)}; REQ((int)std::get<argb::Alpha>(t) == 255, "not opaque"); for (int i = 0; i < 3; ++i) REQ(got[i] <= want[i] + 1e-3 && got[i] > want[i] - 1 - 1e-3, "channel " << i << " is " << got[i] << " instead of the whole part of " << want[i]);
    if (c.index % 40 == 0) { std::size_t n = (std::size_t)r.in(0, r.p(0.1) ? 1500 : 60); double S = r.real(0.3, 1), W = r.real(0.5, 1); auto cs = generate_colors(n, S, W), c2 = generate_colors(n, S, W); REQ(cs.size() == n && cs == c2, "palettes of one size differ"); std::set<argb_tuple> d(cs.begin(), cs.end()); REQ(n > 60 || d.size() * 4 >= n * 3, "only " << d.size() << " colours out of " << n); for (auto& x : cs) { int hi = std::max(std::max((int)std::get<1>(x), (int)std::get<2>(x)), (int)std::get<3>(x)), lo = std::min(std::min((int)std::get<1>(x), (int)std::get<2>(x)), (int)std::get<3>(x)); REQ(std::fabs(hi - W * 255) <= 1.01 && std::fabs(lo - W * (1 - S) * 255) <= 1.01, "a palette colour has another saturation or value"); } count("palettes"); } count("colours"); }
static std::vector<long> listed(const long* a, std::size_t n, std::size_t sz) { std::vector<long> v(a + 1, a + n); if (sz != v.size()) throw Fail{"size() of an integer sequence"}; return v; }
template <class T, T... N> static std::vector<long> values(integer_sequence<T, N...>) { static const long a[] = {-1, (long)N...}; return listed(a, sizeof a / sizeof *a, integer_sequence<T, N...>::size()); }
static void seq_ok(const std::vector<long>& v, long N);
template <class T, T N> static void seq_is() { seq_ok(values(make_integer_sequence<T, N>()), (long)N); }
static void seq_ok(const std::vector<long>& v, long N) { REQ(v.size() == (std::size_t)N, v.size() << " integers instead of " << (long)N); for (std::size_t i = 0; i < v.size(); ++i) REQ(v[i] == (long)i, "integer " << i << " of " << (long)N << " is " << v[i]); count("sequences"); }
template <std::size_t N> struct All { static void go() { seq_is<std::size_t, N>(); seq_is<int, (int)N>(); All<N - 1>::go(); } }; template <> struct All<0> { static void go() { seq_is<std::size_t, 0>(); seq_is<int, 0>(); } };
template <class... A> static std::size_t arity() { return values(index_sequence_for<A...>()).size(); }
GROUP(sequences, 8, 8) { c.in("index", (long)c.index); All<48>::go(); seq_is<std::size_t, 127>(); seq_is<std::size_t, 128>(); seq_is<std::size_t, 129>(); seq_is<int, 511>(); seq_is<int, 512>(); seq_is<int, 513>(); seq_is<long, 583>(); seq_is<std::size_t, 1000>(); REQ((arity<>()) == 0 && (arity<int, char, std::string>()) == 3 && (arity<int, int>()) == 2, "a sequence for a type list"); }
GROUP(allocator, 6000, 200000) {   // standard containers on a private allocator against the same containers on the default one
    Rng& r = c.rng; int n = (int)r.in(1, big(r, 80)); c.in("operations", n); std::string tr; for (int i = 0; i < 4; ++i) tr += char(97 + r.in(0, 25)); c.in("salt", tr); typedef std::string E; auto val = [&] { return std::string((std::size_t)r.in(0, 40), (char)('a' + r.in(0, 25))); }; std::vector<E> v0; std::vector<E, pa::mine<E>> v1; std::list<E> l0; std::list<E, pa::mine<E>> l1; std::map<int, E> m0; std::map<int, E, std::less<int>, pa::mine<std::pair<const int, E>>> m1; std::deque<E> d0; std::deque<E, pa::mine<E>> d1;
    for (int i = 0; i < n; ++i) { E x = val(); int k = (int)r.in(-9, 9); switch (r.in(0, 9)) { case 0: case 1: v0.push_back(x); v1.push_back(x); break; case 2: if (!v0.empty()) { std::size_t j = r.in(0, (long)v0.size() - 1); v0.erase(v0.begin() + j); v1.erase(v1.begin() + j); } break; case 3: l0.push_front(x); l1.push_front(x); break; case 4: if (!l0.empty()) { l0.pop_back(); l1.pop_back(); } break; case 5: m0[k] = x; m1[k] = x; break; case 6: m0.erase(k); m1.erase(k); break; case 7: d0.push_front(x); d1.push_front(x); d0.emplace_back(3, 'q'); d1.emplace_back(3, 'q'); break; case 8: { auto w(v1); auto z(m1); v1.swap(w); m1 = std::move(z); l1.splice(l1.begin(), l1, l1.empty() ? l1.begin() : l1.begin()); break; } default: v0.insert(v0.begin(), (std::size_t)r.in(0, 5), x); v1.insert(v1.begin(), v0.size() - v1.size(), x); } }
    REQ(v0.size() == v1.size() && std::equal(v0.begin(), v0.end(), v1.begin()), "vectors differ"); REQ(l0.size() == l1.size() && std::equal(l0.begin(), l0.end(), l1.begin()), "lists differ"); REQ(d0.size() == d1.size() && std::equal(d0.begin(), d0.end(), d1.begin()), "deques differ"); REQ(m0.size() == m1.size() && std::equal(m0.begin(), m0.end(), m1.begin()), "maps differ"); REQ(pa::mine<int>() == pa::mine<E>() && !(pa::mine<int>() != pa::mine<E>()), "allocators of one family are unequal"); pa::mine<E> A; REQ(A.max_size() > 1000 && A.max_size() <= (std::size_t)-1 / sizeof(E), "largest allocation"); E* p = A.allocate((std::size_t)n); A.construct(p + (n - 1), "abc"); REQ(A.address(p[n - 1]) == p + (n - 1) && p[n - 1] == "abc", "constructed element"); A.destroy(p + (n - 1)); A.deallocate(p, (std::size_t)n); count("container operations", n); }
