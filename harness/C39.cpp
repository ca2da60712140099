#include "geo.hpp"
using namespace vt;
using namespace geometrix;
// History monitor: a set of disjoint intervals on one carrier line against a model bitmap of unit cells.
template <class Cmp> static void history(Case& c, const Cmp& cmp) {
    Rng& r = c.rng; typedef std::set<S2, segment_interval_compare<Cmp>> Set; Set st{segment_interval_compare<Cmp>(cmp)}; const int N = 16; std::vector<char> model(N, 0); double s = rscale(r);
    I2 d; do d = r.p(0.5) ? I2{r.in(-1, 1), r.in(-1, 1)} : rpt(r, 20); while (d.x == 0 && d.y == 0); I2 o = rpt(r, 50); c.in("direction", d); c.in("origin", o); c.in("scale", s); auto at = [&](long t) { return tp(I2{o.x + t * d.x, o.y + t * d.y}, s); };
    int ops = (int)r.in(1, 24); std::vector<long> log; double pu = r.real(0.3, 0.8);
    for (int k = 0; k < ops; ++k) {
        bool un = r.p(pu); long a = r.in(0, N), b = r.p(0.5) ? std::min<long>(N, a + r.in(1, 3)) : r.in(0, N); if (a == b) { if (un) continue; } if (r.p(0.3)) std::swap(a, b); c.in(un ? "union" : "difference", std::make_pair(a, b)); long lo = std::min(a, b), hi = std::max(a, b);
        if (un) { collinear_segment_union(st, S2(at(a), at(b)), cmp); for (long t = lo; t < hi; ++t) model[t] = 1; count("unions"); } else { collinear_segment_difference(st, S2(at(a), at(b)), cmp); for (long t = lo; t < hi; ++t) model[t] = 0; count("differences"); }
        // every maximal run of the model must be stored exactly once: same pieces, no empty ones
        std::vector<std::pair<P2, P2>> want, got; for (long t = 0; t < N;) { if (!model[t]) { ++t; continue; } long e = t; while (e < N && model[e]) ++e; P2 p = at(t), q = at(e); if (q[0] < p[0] || (q[0] == p[0] && q[1] < p[1])) std::swap(p, q); want.push_back({p, q}); t = e; }
        auto lt = [](const std::pair<P2, P2>& x, const std::pair<P2, P2>& y) { return x.first[0] != y.first[0] ? x.first[0] < y.first[0] : x.first[1] < y.first[1]; };
        for (auto const& g : st) { P2 p = g.get_start(), q = g.get_end(); if (q[0] < p[0] || (q[0] == p[0] && q[1] < p[1])) std::swap(p, q); got.push_back({p, q}); } std::sort(want.begin(), want.end(), lt); std::sort(got.begin(), got.end(), lt);
        bool same = want.size() == got.size(); for (std::size_t i = 0; same && i < want.size(); ++i) same = want[i].first[0] == got[i].first[0] && want[i].first[1] == got[i].first[1] && want[i].second[0] == got[i].second[0] && want[i].second[1] == got[i].second[1];
        std::ostringstream os; for (auto& g : got) os << str(g.first) << "-" << str(g.second) << " "; os << "want "; for (auto& g : want) os << str(g.first) << "-" << str(g.second) << " ";
        REQ(same, "after operation " << k << " the set is " << os.str()); count("pieces seen", got.size());
    }
}
GROUP(history_direct, 60000, 3000000) { history(c, direct()); }
GROUP(history_tolerance, 20000, 1000000) { history(c, abs_cmp(1e-10)); }
