#include "umesh.hh"
#include <ftk/config.hh>
#include <ftk/numeric/clamp.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
#include <ftk/mesh/simplicial_unstructured_3d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh>
using namespace vh;
typedef std::vector<int> S; // sorted vertex ids of a simplex
static std::string str(const S& s) { std::string r = "("; for (int v : s) r += std::to_string(v) + ","; return r + ")"; }
static void subsets(const S& s, size_t k, std::function<void(const S&)> f) { int n = s.size(); for (int b = 0; b < (1 << n); b++) if ((size_t)__builtin_popcount(b) == k) { S t; for (int i = 0; i < n; i++) if (b >> i & 1) t.push_back(s[i]); f(t); } }
static double det(std::vector<std::vector<double>> m) { int n = m.size(); double d = 1; for (int c = 0; c < n; c++) { int p = c; for (int r = c; r < n; r++) if (fabs(m[r][c]) > fabs(m[p][c])) p = r; if (fabs(m[p][c]) < 1e-13) return 0; if (p != c) { std::swap(m[p], m[c]); d = -d; } d *= m[c][c]; for (int r = c + 1; r < n; r++) { double f = m[r][c] / m[c][c]; for (int k = c; k < n; k++) m[r][k] -= f * m[c][k]; } } return d; }
typedef std::vector<std::map<S, int>> Complex; // per dimension: simplex -> id
static Complex closure(const UMesh& u) { Complex c(u.D + 1); for (int i = 0; i < u.nv; i++) c[0][{i}] = i; int k = u.D + 1; for (size_t i = 0; i < u.cells.size() / k; i++) { S s(u.cells.begin() + i * k, u.cells.begin() + (i + 1) * k); std::sort(s.begin(), s.end()); c[u.D][s] = -1; for (int d = 1; d < u.D; d++) subsets(s, d + 1, [&](const S& t) { c[d][t] = -1; }); } return c; }
static uint64_t hmesh(const UMesh& u) { uint64_t h = u.D * 1000 + u.nv; for (int c : u.cells) h = hcomb(h, c); return h; }
// base mesh: n(), get_simplex, find_simplex, side_of (+sides) against the closure of the input cells
template <class M, class G, class F> void base_checks(Rng& r, const UMesh& u, Complex& C, M& m, G get, F find) {
  for (int d = 0; d <= u.D; d++) if (m.n(d) != C[d].size()) viol(strf("base%d:count", u.D), strf("%s: n(%d)=%zu, the complex has %zu", u.desc.c_str(), d, (size_t)m.n(d), C[d].size()));
  for (int d = 1; d <= u.D; d++) {
    for (int i = 0; i < (int)m.n(d); i++) {
      S s = get(d, i); std::sort(s.begin(), s.end()); auto it = C[d].find(s);
      if (it == C[d].end()) { viol(strf("base%d:foreign", u.D), u.desc + " enumerated simplex is not in the mesh " + str(s)); continue; }
      if (it->second >= 0) viol(strf("base%d:twice", u.D), u.desc + " simplex has two ids " + str(s)); it->second = i;
      int id = -7; if (!find(d, s, id) || id != i) viol(strf("base%d:find", u.D), strf("%s dim %d %s has id %d, lookup gives %d", u.desc.c_str(), d, str(s).c_str(), i, id));
      count("base_simplices");
    }
    for (auto& kv : C[d]) if (kv.second < 0) { viol(strf("base%d:missing", u.D), u.desc + " not enumerated " + str(kv.first)); break; }
    for (int k = 0; k < 20 && u.nv > d + 1; k++) { std::set<int> q; while ((int)q.size() < d + 1) q.insert(r.below(u.nv)); S s(q.begin(), q.end()); if (C[d].count(s)) continue; int id; if (find(d, s, id)) viol(strf("base%d:find-foreign", u.D), u.desc + " lookup of a non-simplex succeeded " + str(s)); count("negative_lookups"); }
  }
  for (int d = 0; d < u.D; d++) {
    std::map<int, std::set<int>> want; for (auto& kv : C[d + 1]) subsets(kv.first, d + 1, [&](const S& t) { want[d == 0 ? t[0] : C[d][t]].insert(kv.second); });
    for (int i = 0; i < (int)m.n(d); i++) { if (m.side_of(d, i) != want[i]) { viol(strf("base%d:sideof", u.D), strf("%s dim %d id %d wrong coboundary", u.desc.c_str(), d, i)); break; } count("base_sideof"); }
  }
}
// extruded mesh X over base u; T time steps
template <class X, class G> void extruded_checks(Rng& r, const UMesh& u, X& m, G get, const std::string& K, std::function<bool(int, S, int&)> find, std::set<int> sidesDims, std::set<int> sideofDims) {
  const int D = u.D + 1, T = 3; int N0 = u.nv;
  std::vector<std::map<S, int>> C(D + 1); // all simplices with all vertices in times [0,T]
  for (int d = 0; d <= D; d++) {
    size_t n = m.n(d);
    for (int t = 0; t <= T; t++) for (size_t i = 0; i < n; i++) {
      int id = i + t * n; S s = get(d, id); S sorted = s; std::sort(sorted.begin(), sorted.end());
      S first = get(d, i); for (int& v : first) v += t * N0;
      if (first != s) viol(K + ":stride", strf("%s dim %d id %d t %d is not the shifted first-step simplex", u.desc.c_str(), d, (int)i, t));
      bool inside = true; for (int v : sorted) { if (v < 0) viol(K + ":negative", u.desc); if (v >= (T + 1) * N0) inside = false; }
      for (int q = 0; q + 1 < (int)sorted.size(); q++) if (sorted[q] == sorted[q + 1]) { viol(K + ":degenerate", strf("%s dim %d id %d has a repeated vertex %s", u.desc.c_str(), d, id, str(sorted).c_str())); break; }
      if (!inside) continue;
      if (!C[d].emplace(sorted, id).second) viol(K + ":twice", strf("%s dim %d %s has two ids", u.desc.c_str(), d, str(sorted).c_str()));
      if (find && d > 0) { int got = -7; if (!find(d, sorted, got) || got != id) viol(K + ":find", strf("%s dim %d %s has id %d, lookup gives %d", u.desc.c_str(), d, str(sorted).c_str(), id, got)); count("extruded_lookups"); }
      count("extruded_simplices");
    }
    // in-slice and between-slice enumeration
    if (d < D || K != "ext3") {
    std::set<int> seen; size_t visits = 0;
    for (int t = 0; t < T; t++) for (int part = 0; part < 2; part++) {
      auto f = [&](int id) {
        visits++; if (!seen.insert(id).second) viol(K + ":slice-twice", strf("%s dim %d id %d visited twice", u.desc.c_str(), d, id));
        S s = get(d, id); std::set<int> ts; for (int v : s) ts.insert(v / N0);
        if (part == 0 && !(ts.size() == 1 && *ts.begin() == t)) viol(K + ":ordinal", strf("%s dim %d id %d is not in slice %d", u.desc.c_str(), d, id, t));
        if (part == 1 && !(ts.size() == 2 && *ts.begin() == t && *ts.rbegin() == t + 1)) viol(K + ":interval", strf("%s dim %d id %d does not span %d,%d", u.desc.c_str(), d, id, t, t + 1));
        if (m.is_ordinal(d, id) != (part == 0)) viol(K + ":is_ordinal", strf("%s dim %d id %d", u.desc.c_str(), d, id));
      };
      if constexpr (std::is_same<X, ftk::simplicial_unstructured_extruded_2d_mesh_implicit<>>::value) { if (part == 0) { if (d < D) m.element_for_ordinal(d, t, f, false, ftk::FTK_XL_NONE, 1); } else m.element_for_interval(d, t, f, false, ftk::FTK_XL_NONE, 1); }
      else { if (part == 0) { if (d < D) m.element_for_ordinal(d, t, f, ftk::FTK_XL_NONE, 1); } else m.element_for_interval(d, t, f, ftk::FTK_XL_NONE, 1); }
    }
    if (seen.size() != n * T) viol(K + ":slice-cover", strf("%s dim %d: slices and intervals visit %zu of %zu", u.desc.c_str(), d, seen.size(), n * T));
    std::set<int> all; m.element_for(d, [&](int i) { all.insert(i); }, ftk::FTK_XL_NONE, 1); if (all.size() != n) viol(K + ":element_for", u.desc);
    }
  }
  // the D-simplices are those of the prisms; all their faces are elements
  for (int d = 0; d < D; d++) {
    std::set<S> F; for (auto& kv : C[D]) subsets(kv.first, d + 1, [&](const S& s) { F.insert(s); });
    for (auto& s : F) if (!C[d].count(s)) { viol(K + ":face-missing", strf("%s dim %d face %s has no id", u.desc.c_str(), d, str(s).c_str())); break; }
    size_t isolated = 0; if (d <= 1) { std::set<int> used(u.cells.begin(), u.cells.end()); isolated = (u.nv - used.size()) * (d == 0 ? T + 1 : T); }
    if (F.size() + isolated != C[d].size()) viol(K + ":face-extra", strf("%s dim %d %zu faces, %zu elements, %zu isolated", u.desc.c_str(), d, F.size(), C[d].size(), isolated));
  }
  // geometry: volume of the prisms and point location
  auto P = [&](int v) { std::vector<double> p(D); for (int k = 0; k < u.D; k++) p[k] = u.x[(v % N0) * u.D + k]; p[u.D] = v / N0; return p; };
  double vol = 0, fact = 1; for (int i = 2; i <= D; i++) fact *= i;
  for (auto& kv : C[D]) { std::vector<std::vector<double>> M; auto p0 = P(kv.first[0]); for (int i = 1; i <= D; i++) { auto p = P(kv.first[i]); for (int k = 0; k < D; k++) p[k] -= p0[k]; M.push_back(p); } vol += fabs(det(M)) / fact; }
  double want = 0; for (size_t i = 0; i < u.cells.size() / D; i++) { std::vector<std::vector<double>> M; auto p0 = P(u.cells[i * D]); for (int q = 1; q < D; q++) { auto p = P(u.cells[i * D + q]); std::vector<double> w(u.D); for (int k = 0; k < u.D; k++) w[k] = p[k] - p0[k]; M.push_back(w); } want += fabs(det(M)) / (fact / D) * T; }
  if (fabs(vol - want) > 1e-9 * want) viol(K + ":volume", strf("%s simplices cover %g of %g", u.desc.c_str(), vol, want));
  for (int k = 0; k < 15; k++) { // a generic point of a random prism lies in exactly one simplex
    size_t c = r.below(u.cells.size() / D); std::vector<double> w(D), p(D, 0.); double ws = 0; for (auto& y : w) ws += y = r.real(0.02, 1); for (int q = 0; q < D; q++) { auto v = P(u.cells[c * D + q]); for (int j = 0; j < u.D; j++) p[j] += w[q] / ws * v[j]; } p[u.D] = r.real(0, T);
    int n = 0; for (auto& kv : C[D]) { std::vector<std::vector<double>> M; for (int v : kv.first) { auto q = P(v); q.push_back(1); M.push_back(q); } double dd = det(M); bool in = dd != 0; for (int i = 0; i <= D && in; i++) { auto W = M; for (int j = 0; j < D; j++) W[i][j] = p[j]; if (det(W) / dd < 0) in = false; } n += in; }
    if (n != 1) viol(K + ":point", strf("%s a generic point lies in %d simplices", u.desc.c_str(), n)); count("points_located");
  }
  // sides / coboundary
  std::vector<std::map<int, S>> byid(D + 1); for (int d = 0; d <= D; d++) for (auto& kv : C[d]) byid[d][kv.second] = kv.first;
  for (int d : sidesDims) for (auto& kv : C[d]) { std::set<int> w; subsets(kv.first, d, [&](const S& s) { w.insert(C[d - 1].count(s) ? C[d - 1][s] : -99); }); if (std::set<int> g = m.sides(d, kv.second); g != w) { viol(K + strf(":sides%d", d), strf("%s dim %d id %d %s sides are not its faces", u.desc.c_str(), d, kv.second, str(kv.first).c_str())); break; } count("extruded_sides"); }
  for (int d : sideofDims) {
    std::map<int, std::set<int>> w; for (auto& kv : C[d + 1]) subsets(kv.first, d + 1, [&](const S& s) { w[C[d][s]].insert(kv.second); });
    for (auto& kv : C[d]) { int lo = *std::min_element(kv.first.begin(), kv.first.end()) / N0, hi = *std::max_element(kv.first.begin(), kv.first.end()) / N0; if (hi >= T) continue;
      std::set<int> g = m.side_of(d, kv.second); if (lo == 0) for (auto it = g.begin(); it != g.end();) it = *it < 0 ? g.erase(it) : std::next(it); // cofaces before the first step carry negative ids
      if (g != w[kv.second]) { viol(K + strf(":sideof%d", d), strf("%s dim %d id %d %s has %zu cofaces, %zu reported", u.desc.c_str(), d, kv.second, str(kv.first).c_str(), w[kv.second].size(), g.size())); break; } count("extruded_sideof"); }
  }
}
VH_MAIN({
  group("mesh2", 150, 2500, [](Rng& r, int64_t) {
    UMesh u = gen_mesh2(r); note(u.desc); Complex C = closure(u);
    typedef ftk::simplicial_unstructured_2d_mesh<> M; std::shared_ptr<M> m;
    if (r.coin()) m.reset(new M(u.x, u.cells)); else { int dim = r.coin() ? 2 : 3; ftk::ndarray<double> X; X.reshape({(size_t)dim, (size_t)u.nv}); for (int i = 0; i < u.nv; i++) { X(0, i) = u.x[2 * i]; X(1, i) = u.x[2 * i + 1]; if (dim == 3) X(2, i) = 0; } ftk::ndarray<int> Tn; Tn.reshape({(size_t)3, u.cells.size() / 3}); for (size_t i = 0; i < u.cells.size(); i++) Tn[i] = u.cells[i]; m.reset(new M(X, Tn)); }
    auto get = [&](int d, int i) { S s(d + 1); if (d == 0) s[0] = i; else if (m->get_simplex(d, i, s.data()) != i) viol("base2:gid", u.desc); return s; };
    auto find = [&](int d, const S& s, int& id) { S q = s; r.shuffle(q); return m->find_simplex(d, q.data(), id); };
    base_checks(r, u, C, *m, get, find);
    for (int d = 1; d <= 2; d++) for (auto& kv : C[d]) { std::set<int> w; subsets(kv.first, d, [&](const S& s) { w.insert(d == 1 ? s[0] : C[1][s]); }); if (m->sides(d, kv.second) != w) viol("base2:sides", u.desc + " " + str(kv.first)); }
    for (int v = 0; v < u.nv; v++) { std::set<int> w, t; for (auto& kv : C[1]) { if (kv.first[0] == v) w.insert(kv.first[1]); if (kv.first[1] == v) w.insert(kv.first[0]); } if (m->get_vertex_edge_vertex(v) != w) viol("base2:vev", u.desc); for (auto& kv : C[2]) if (std::count(kv.first.begin(), kv.first.end(), v)) t.insert(kv.second); if (m->get_vertex_triangles()[v] != t) viol("base2:vt", u.desc);
      double c[3]; m->get_coords(v, c); if (c[0] != u.x[2 * v] || c[1] != u.x[2 * v + 1]) viol("base2:coords", u.desc); }
    for (size_t i = 0; i < u.cells.size() / 3; i++) { int a[3] = {u.cells[3 * i], u.cells[3 * i + 1], u.cells[3 * i + 2]}; int inv = (a[0] > a[1]) + (a[0] > a[2]) + (a[1] > a[2]); if (m->get_triangle_chi(i) != (inv % 2 ? -1 : 1)) viol("base2:chi", u.desc); }
    std::vector<int> cnt(3); for (int d = 0; d <= 2; d++) { std::set<int> q; m->element_for(d, [&](int i) { q.insert(i); cnt[d]++; }); if (q.size() != C[d].size() || (size_t)cnt[d] != q.size()) viol("base2:element_for", u.desc); }
    typedef ftk::simplicial_unstructured_extruded_2d_mesh_implicit<> X; X x(m);
    auto xget = [&](int d, int i) { S s(d + 1); int g = x.get_simplex(d, i, s.data()); if (d > 0 && g != i) viol("ext2:gid", strf("%s get_simplex(%d,%d) returns id %d", u.desc.c_str(), d, i, g)); return s; };
    extruded_checks(r, u, x, xget, "ext2", [&](int d, S s, int& id) { return x.find_simplex(d, s.data(), id); }, {3}, {2});
    for (int k = 0; k < 20; k++) { int v = r.below(u.nv), t = r.below(50); double c[4]; x.get_coords(v + t * u.nv, c); if (c[0] != u.x[2 * v] || c[1] != u.x[2 * v + 1] || c[3] != t || x.flat_vertex_id(v + t * u.nv) != v || x.flat_vertex_time(v + t * u.nv) != t) viol("ext2:coords", u.desc); }
    return hmesh(u); });
  group("mesh3", 40, 600, [](Rng& r, int64_t i) {
    UMesh u = gen_mesh3(r, i % 5 ? 3 : 4); note(u.desc); Complex C = closure(u);
    typedef ftk::simplicial_unstructured_3d_mesh<> M; auto m = std::make_shared<M>(u.x, u.cells);
    auto get = [&](int d, int i) { S s(d + 1); if (d == 0) s[0] = i; else m->get_simplex(d, i, s.data()); return s; };
    base_checks(r, u, C, *m, get, [&](int d, const S& s, int& id) { return m->find_simplex(d, s.data(), id); });
    for (int v = 0; v < u.nv; v++) { double c[3]; m->get_coords(v, c); for (int k = 0; k < 3; k++) if (c[k] != u.x[3 * v + k]) viol("base3:coords", u.desc); }
    std::set<int> q; int n = 0; m->element_for(2, [&](int i) { q.insert(i); n++; }); if (q.size() != C[2].size() || (size_t)n != q.size()) viol("base3:element_for", u.desc);
    if (u.cells.size() / 4 > 60) return hmesh(u);
    typedef ftk::simplicial_unstructured_extruded_3d_mesh<> X; X x(m);
    auto xget = [&](int d, int i) { S s(d + 1); x.get_simplex(d, i, s.data()); return s; };
    extruded_checks(r, u, x, xget, "ext3", nullptr, {4, 3}, {3, 2});
    for (int k = 0; k < 20; k++) { int v = r.below(u.nv), t = r.below(50); double c[4]; x.get_coords(v + t * u.nv, c); if (c[0] != u.x[3 * v] || c[3] != t || x.flat_vertex_id(v + t * u.nv) != v || x.flat_vertex_time(v + t * u.nv) != t) viol("ext3:coords", u.desc); }
    return hmesh(u); });
})
