// Runtime-monitoring harness core: deterministic case generation, violation reporting,
// crash/assert/hang capture and coverage accounting.  One executable per property.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>

// Library assertions become monitor verdicts: GEOMETRIX_ASSERT throws a Fail.
#define GEOMETRIX_DEFINE_ASSERT_HANDLERS
namespace vt { struct Fail { std::string msg; }; }
namespace boost {
inline void assertion_failed(char const* expr, char const* fn, char const* file, long line) { throw vt::Fail{std::string("library assertion failed: ") + expr + " in " + fn + " at " + file + ":" + std::to_string(line)}; }
inline void assertion_failed_msg(char const* expr, char const* msg, char const* fn, char const* file, long line) { throw vt::Fail{std::string("library assertion failed: ") + expr + " (" + msg + ") in " + fn + " at " + file + ":" + std::to_string(line)}; }
}
#include <geometrix/utility/ignore_unused_warnings.hpp>

namespace vt {

inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed) {}
    std::uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
    using result_type = std::uint64_t;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return ~0ull; }
    result_type operator()() { return next(); }
    long in(long lo, long hi) { return lo + (long)(next() % (std::uint64_t)(hi - lo + 1)); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double lo, double hi) { return lo + (hi - lo) * u(); }
    bool p(double q) { return u() < q; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    template <class It> void shuffle(It a, It b) { auto n = b - a; for (auto i = n - 1; i > 0; --i) std::swap(a[i], a[next() % (i + 1)]); }
};

struct Skip {};

struct Case {
    Rng rng; bool describe = false; std::uint64_t h = 1469598103934665603ull; bool nontrivial = true;
    std::ostringstream d; std::uint64_t index = 0; const char* group = ""; bool thorough = false;
    void mixin(std::uint64_t v) { h = mix(h ^ v); }
    template <class T> void in(const char* name, const T& v);
    void trivial() { nontrivial = false; }
};

// ---- hashing / printing of inputs (extend by overloading vt_put in the harness) ----
inline void vt_put(Case& c, double v) { std::uint64_t b; std::memcpy(&b, &v, 8); c.mixin(b); if (c.describe) c.d << std::setprecision(17) << v; }
inline void vt_put(Case& c, float v) { vt_put(c, (double)v); }
inline void vt_put(Case& c, long double v) { vt_put(c, (double)v); }
inline void vt_put(Case& c, int v) { c.mixin((std::uint64_t)(std::int64_t)v); if (c.describe) c.d << v; }
inline void vt_put(Case& c, unsigned v) { c.mixin(v); if (c.describe) c.d << v; }
inline void vt_put(Case& c, long v) { c.mixin((std::uint64_t)v); if (c.describe) c.d << v; }
inline void vt_put(Case& c, unsigned long v) { c.mixin(v); if (c.describe) c.d << v; }
inline void vt_put(Case& c, long long v) { c.mixin((std::uint64_t)v); if (c.describe) c.d << v; }
inline void vt_put(Case& c, unsigned long long v) { c.mixin(v); if (c.describe) c.d << v; }
inline void vt_put(Case& c, bool v) { c.mixin(v); if (c.describe) c.d << (v ? "true" : "false"); }
inline void vt_put(Case& c, const char* v) { for (const char* q = v; *q; ++q) c.mixin((unsigned char)*q); if (c.describe) c.d << v; }
inline void vt_put(Case& c, const std::string& v) { vt_put(c, v.c_str()); }
struct PutTag {};
template <class T, std::size_t N> void vt_put(Case& c, const std::array<T, N>& v) { if (c.describe) c.d << "{"; bool f = true; for (auto& e : v) { if (c.describe && !f) c.d << ","; f = false; vt_put(c, e); } if (c.describe) c.d << "}"; }
template <class A, class B> void vt_put(Case& c, const std::pair<A, B>& v) { if (c.describe) c.d << "<"; vt_put(c, v.first); if (c.describe) c.d << ","; vt_put(c, v.second); if (c.describe) c.d << ">"; }
template <class T, class A> void vt_put(Case& c, const std::vector<T, A>& v) { if (c.describe) c.d << "["; bool f = true; for (const auto& e : v) { if (c.describe && !f) c.d << ","; f = false; vt_put(c, e); } if (c.describe) c.d << "]"; }
template <class T> void Case::in(const char* name, const T& v) { if (describe) d << name << "="; vt_put(*this, v); if (describe) d << "; "; }

struct Group { const char* name; std::uint64_t nq, nt; void (*fn)(Case&); };
std::vector<Group>& groups();
struct Reg { Reg(const char* n, std::uint64_t q, std::uint64_t t, void (*f)(Case&)) { groups().push_back({n, q, t, f}); } };
void count(const char* what, std::uint64_t n = 1);      // monitor event counters
void note_check();                                       // oracle comparisons made

#define GROUP(NAME, NQ, NT) \
    static void vt_fn_##NAME(vt::Case& c); static vt::Reg vt_reg_##NAME(#NAME, NQ, NT, &vt_fn_##NAME); \
    static void vt_fn_##NAME(vt::Case& c)
#define REQ(COND, EXPR) do { vt::note_check(); if (!(COND)) { std::ostringstream o_; o_ << std::setprecision(17) << EXPR << "   [" #COND "]"; throw vt::Fail{o_.str()}; } } while (0)
#define SKIP_CASE() throw vt::Skip{}

inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-9) {
    if (a == b) return true;
    if (!(std::isfinite(a) && std::isfinite(b))) return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}
} // namespace vt
