#include "mesh.hpp"
#include <geometrix/algorithm/mesh_2d.hpp>
using namespace vt;
using namespace geometrix;
struct sparse_traits { using cache_t = triangle_grid_cache<double, sparse_grid_type_generator>; };
struct odd_weight { using weight_type = double; using normalized_type = double; template <class T> double get_weight(T&& t) const { double w = t[0][0] + t[1][0] * 2 + t[2][1] * 3; return std::fabs(w) + 0.5; } double normalize(double a, double t) const { return a / t; } double initial_weight() const { return 0; } };
template <class M> struct Walk { struct edge_item { std::size_t from, to; std::size_t get_triangle_index() const { return to; } }; const M& m; std::size_t s; long limit; std::vector<std::size_t> seen; std::set<std::size_t> queued; edge_item get_start() { queued.insert(s); return {std::size_t(-1), s}; } bool visit(const edge_item& e) { seen.push_back(e.to); return (long)seen.size() < limit; } boost::optional<edge_item> prepare_adjacent_traversal(std::size_t n, const edge_item& e) { if (!queued.insert(n).second) return boost::none; return edge_item{e.to, n}; } };
template <class M> static void judge(Case& c, const TM& tm, const M& mesh, double k, std::vector<double> wt) {
    Rng& r = c.rng; abs_cmp cmp(1e-10); std::size_t n = tm.tris.size(); REQ(mesh.get_number_triangles() == n, mesh.get_number_triangles() << " triangles instead of " << n); REQ(mesh.get_number_vertices() == tm.pts.size(), "number of vertices");
    for (std::size_t i = 0; i < tm.pts.size(); ++i) REQ(mesh.get_vertices()[i][0] == tm.pts[i].x * k && mesh.get_vertices()[i][1] == tm.pts[i].y * k, "vertex " << i << " moved");
    std::map<std::pair<int, int>, int> edge; for (std::size_t t = 0; t < n; ++t) for (int e = 0; e < 3; ++e) edge[{tm.tris[t][e], tm.tris[t][(e + 1) % 3]}] = (int)t;
    auto const& adj = mesh.get_adjacency_matrix(); REQ(adj.size() == n, "size of the adjacency table");
    std::vector<std::vector<int>> nb(n); for (std::size_t t = 0; t < n; ++t) { auto const& ix = mesh.get_triangle_indices(t); std::set<std::size_t> a(ix.begin(), ix.end()), b(tm.tris[t].begin(), tm.tris[t].end()); REQ(a == b, "triangle " << t << " has other corners"); auto const& pv = mesh.get_triangle_vertices(t); I2 q[3]; for (int j = 0; j < 3; ++j) { q[j] = tm.pts[ix[j]]; REQ(pv[j][0] == q[j].x * k && pv[j][1] == q[j].y * k, "corner " << j << " of triangle " << t << " is not its vertex"); } REQ(orient(q[0], q[1], q[2]) > 0, "triangle " << t << " is not counter-clockwise");
        std::multiset<std::size_t> want, got; for (int e = 0; e < 3; ++e) { auto it = edge.find({(int)ix[(e + 1) % 3], (int)ix[e]}); std::size_t w = it == edge.end() ? std::size_t(-1) : (std::size_t)it->second; REQ(adj[t][e] == w, "neighbour of triangle " << t << " across edge " << e << " is " << (long)adj[t][e] << " instead of " << (long)w); if (w != std::size_t(-1)) { nb[t].push_back((int)w); REQ(get_triangle_adjacent_side(ix, mesh.get_triangle_indices(w)) == (std::size_t)e, "shared side of triangles " << t << " and " << w); count("neighbours"); } } }
    // location
    for (int q = 0; q < 24; ++q) { long den = r.pick(std::vector<long>{1, 2, 3, 8, 97}); i128 qx, qy; std::size_t t0 = r.in(0, (long)n - 1); auto const& T = tm.tris[t0]; long minx = 1e9, maxx = -1e9, miny = 1e9, maxy = -1e9; for (auto& p : tm.pts) { minx = std::min(minx, p.x); maxx = std::max(maxx, p.x); miny = std::min(miny, p.y); maxy = std::max(maxy, p.y); }
        if (q % 2) { long a = r.in(0, den), b = r.in(0, den - a); qx = (i128)tm.pts[T[0]].x * (den - a - b) + (i128)tm.pts[T[1]].x * a + (i128)tm.pts[T[2]].x * b; qy = (i128)tm.pts[T[0]].y * (den - a - b) + (i128)tm.pts[T[1]].y * a + (i128)tm.pts[T[2]].y * b; } else { qx = r.in((minx - 3) * den, (maxx + 3) * den); qy = r.in((miny - 3) * den, (maxy + 3) * den); }
        P2 p((double)qx / den * k, (double)qy / den * k); std::set<std::size_t> strict, closed; for (std::size_t t = 0; t < n; ++t) { IPoly tp3{tm.pts[tm.tris[t][0]], tm.pts[tm.tris[t][1]], tm.pts[tm.tris[t][2]]}; int w = in_poly(tp3, qx, qy, den); if (w > 0) strict.insert(t); if (w >= 0) closed.insert(t); }
        auto f = mesh.find_triangle(p, cmp); if (strict.size() == 1) { count("interior points"); REQ(f && *f == *strict.begin(), "the point " << str(p) << " inside triangle " << *strict.begin() << " is located " << (f ? "in triangle " + std::to_string(*f) : std::string("nowhere"))); } else if (!closed.empty()) { count("points on edges"); bool exact = den == 1 || den == 2 || den == 8; if (exact) REQ(f && closed.count(*f), "the point " << str(p) << " on an edge is located " << (f ? "in triangle " + std::to_string(*f) : std::string("nowhere"))); else if (f) REQ(closed.count(*f), "the point " << str(p) << " on an edge is located in a triangle that does not hold it"); } else { count("outside points"); REQ(!f, "the point " << str(p) << " outside every triangle is located in triangle " << *f); } }
    // random positions
    ld tot = 0; for (double w : wt) tot += w; std::vector<ld> cum{0}; for (double w : wt) cum.push_back(cum.back() + w / tot); for (int q = 0; q < 12; ++q) { double rT = r.u(), r1 = r.u(), r2 = r.u(); switch (r.in(0, 5)) { case 0: rT = 1; break; case 1: rT = 0; break; case 2: rT = std::nextafter(1.0, 0.0); break; case 3: { rT = std::min(1.0, (double)cum[r.in(0, (long)n)]); } default:; } if (r.p(0.2)) r1 = r.p(0.5); if (r.p(0.2)) r2 = r.p(0.5); c.in("draw", std::vector<double>{rT, r1, r2}); P2 p; GEOMETRIX_ASSERT(true); assign(p, mesh.get_random_position(rT, r1, r2)); bool ok = false; for (std::size_t t = 0; t < n && !ok; ++t) { if (rT < cum[t] - 1e-9L || rT > cum[t + 1] + 1e-9L) continue; L2 a = lp(tp(tm.pts[tm.tris[t][0]], k)), b = lp(tp(tm.pts[tm.tris[t][1]], k)), d = lp(tp(tm.pts[tm.tris[t][2]], k)), x = lp(p); ld s = std::max({norm(a), norm(b), norm(d), (ld)k}) * 1e-12L; ok = cross(b - a, x - a) >= -s * norm(b - a) && cross(d - b, x - b) >= -s * norm(d - b) && cross(a - d, x - d) >= -s * norm(a - d); } REQ(ok, "the draw (" << rT << "," << r1 << "," << r2 << ") gives " << str(p) << ", not in a triangle its first number selects"); count("draws"); }
    { // a triangle's positions are spread evenly: midpoint rule over the two inner numbers reproduces its centroid and second moment
        std::size_t t = r.in(0, (long)n - 1); if (wt[t] / tot > 1e-6) { double rT = (double)((cum[t] + cum[t + 1]) / 2); const int N = 24; ld sx = 0, sy = 0, sxx = 0; I2 A = tm.pts[tm.tris[t][0]], B = tm.pts[tm.tris[t][1]], C = tm.pts[tm.tris[t][2]]; ld mx = (ld)(A.x + B.x + C.x) / 3 * k, my = (ld)(A.y + B.y + C.y) / 3 * k, e = 0; for (I2 p : {A, B, C}) { e += (p.x * (ld)k - mx) * (p.x * (ld)k - mx); } e /= 12; for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { P2 p; assign(p, mesh.get_random_position(rT, (i + 0.5) / N, (j + 0.5) / N)); sx += p[0] - mx; sy += p[1] - my; sxx += (p[0] - mx) * (p[0] - mx); } ld d = std::max({norm(lp(tp(B - A))), norm(lp(tp(C - A))), norm(lp(tp(C - B)))}) * k; REQ(std::fabs(sx / (N * N)) < 0.02L * d && std::fabs(sy / (N * N)) < 0.02L * d, "positions drawn in triangle " << t << " are not centred on its centroid"); REQ(std::fabs(sxx / (N * N) - e) < 0.02L * d * d, "positions drawn in triangle " << t << " are not evenly spread"); } }
    { // traversal
        std::size_t s = r.in(0, (long)n - 1); std::set<std::size_t> comp{s}; std::vector<std::size_t> st{s}; while (!st.empty()) { auto x = st.back(); st.pop_back(); for (int y : nb[x]) if (comp.insert(y).second) st.push_back(y); } Walk<M> w{mesh, s, 1000000}; mesh.search(w); std::set<std::size_t> got(w.seen.begin(), w.seen.end()); REQ(got == comp && got.size() == w.seen.size(), "a search from triangle " << s << " visits " << w.seen.size() << " triangles instead of the " << comp.size() << " connected ones"); long lim = r.in(1, (long)comp.size()); Walk<M> w2{mesh, s, lim}; mesh.search(w2); REQ((long)w2.seen.size() == lim, "a search told to stop after " << lim << " triangles visits " << w2.seen.size()); } }
// the mesh itself, or the mesh moved elsewhere, with the first object gone before any question is asked
template <class M, class F> static void relay(Case& c, M* p, F f) { std::unique_ptr<M> a(p), b; int how = (int)c.rng.in(0, 5); c.in("moved", how); if (how == 2) a->get_adjacency_matrix(); if (how == 1 || how == 2) { b.reset(new M(std::move(*a))); count("moved meshes"); } else b = std::move(a); a.reset(); f(*b); }
GROUP(mesh, 1600, 60000) {
    Rng& r = c.rng; TM tm = any_mesh(r, r.p(0.5) ? 1 : 2); if (tm.tris.empty()) SKIP_CASE(); double k = r.pick(std::vector<double>{1, 1, 0.5, 0.25, 0.125, 2}); c.in("mesh", tm); c.in("scale", k); std::vector<P2> pts; for (auto& p : tm.pts) pts.push_back(tp(p, k)); std::vector<std::size_t> idx; r.shuffle(tm.tris.begin(), tm.tris.end()); bool deg = r.p(0.25);
    for (auto& t : tm.tris) { int o = (int)r.in(0, 2); bool cw = r.p(0.4); std::array<int, 3> u{t[o], t[(o + 1) % 3], t[(o + 2) % 3]}; if (cw) std::swap(u[1], u[2]); for (int x : u) idx.push_back(x); if (deg && r.p(0.2)) { std::size_t a = r.in(0, (long)pts.size() - 1), b = r.in(0, (long)pts.size() - 1); std::size_t z[3] = {a, a, b}; int q = (int)r.in(0, 2); for (int i = 0; i < 3; ++i) idx.push_back(z[(i + q) % 3]); count("degenerate entries"); } } count("triangles", (long)tm.tris.size());
    abs_cmp cmp(1e-10); std::vector<double> wt; int how = (int)r.in(0, 2); c.in("how", how);
    if (how == 0) { for (auto& t : tm.tris) wt.push_back((double)area2({tm.pts[t[0]], tm.pts[t[1]], tm.pts[t[2]]})); typedef mesh_2d<double> M; relay<M>(c, new M(pts, idx, cmp), [&](const M& m) { judge(c, tm, m, k, wt); }); }
    else if (how == 1) { for (auto& t : tm.tris) wt.push_back((double)area2({tm.pts[t[0]], tm.pts[t[1]], tm.pts[t[2]]})); typedef mesh_2d<double, sparse_traits> M; relay<M>(c, new M(pts, idx, cmp), [&](const M& m) { judge(c, tm, m, k, wt); }); }
    else { typedef mesh_2d<double> M; odd_weight w; M m(pts, idx, cmp, make_triangle_cache<M::cache_t, M::point_container_t, M::triangle_container_t>, w); for (std::size_t t = 0; t < m.get_number_triangles(); ++t) wt.push_back(w.get_weight(m.get_triangle_vertices(t))); judge(c, tm, m, k, wt); } }
