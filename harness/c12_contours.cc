// C12: isocontour tracking in 2D and 3D against an independent model: the crossing space-time edges of the Freudenthal
// mesh, their interpolated positions, and the assembled surfaces/volumes/slices (complete, and without cracks).
#include "vh.hh"
#include "cpmodel.hh"
#include <ftk/numeric/clamp.hh>
#include <ftk/ndarray.hh>
#include <ftk/filters/contour_tracker_2d_regular.hh>
#include <ftk/filters/contour_tracker_3d_regular.hh>
using namespace ftk;
using vh::Rng;
using vh::strf;
typedef std::vector<int> V; // a space-time vertex
typedef std::pair<V, V> E;
struct Case { int D, T, nth, end; V lo, n, an, as; double thr; bool ties; std::vector<std::vector<double>> f; std::string desc; // f[t][x + y*w ...]
  double at(const V& v) const { size_t k = 0; for (int i = D; i-- > 0;) k = k * an[i] + (v[i] - as[i]); return f[v[D]][k]; }
  bool inside(const V& v) const { for (int i = 0; i < D; i++) if (v[i] < lo[i] || v[i] >= lo[i] + n[i]) return false; return v[D] >= 0 && v[D] < T; }
  bool pos(const V& v) const { return (long long)((at(v) - thr) * 2097152.0) > 0; } // a vertex on the threshold counts as below, or as above: see tie
  bool neg(const V& v) const { return (long long)((at(v) - thr) * 2097152.0) < 0; }
  bool side(const V& v, bool tie) const { return tie ? !neg(v) : pos(v); } };
static Case gen(Rng& r, int D, bool T2 = false) {
  Case c; c.D = D; c.T = r.pick({1, 2, 2, 3, 4}); if (T2 && c.T < 2) c.T = 2; if (D == 3 && c.T > 3) c.T = 3;
  for (int i = 0; i < D; i++) { int lo = r.coin(0.3) ? (int)r.below(2) : 0, n = (int)r.range(2, D == 2 ? 7 : 4); c.lo.push_back(lo); c.n.push_back(n); c.an.push_back(lo + n + (r.coin(0.3) ? (int)r.below(3) : 0)); }
  for (auto& a : c.an) if (a < 3) a = 3;
  for (auto& l : c.lo) { c.as.push_back(r.coin(0.2) ? (int)r.below(3) : 0); l += c.as.back(); } // arrays may start away from the origin
  c.nth = r.pick({1, 1, 2, 4}); c.end = r.coin(0.6);
  int kind = r.below(6); size_t N = 1; for (int a : c.an) N *= a;
  c.thr = kind == 0 ? (double)r.range(-1, 1) : kind == 1 ? r.range(-1, 1) + 0.5 : 0.3 * r.gauss();
  double s = r.pick({1.0, 1.0, 100.0, 0.01}); double p[4][5]; for (auto& q : p) for (auto& v : q) v = r.gauss();
  for (int t = 0; t < c.T; t++) {
    std::vector<double> f(N);
    for (size_t k = 0; k < N; k++) {
      double x[4]; size_t q = k; for (int i = 0; i < D; i++) { x[i] = q % c.an[i]; q /= c.an[i]; } x[D] = t; double v = 0;
      switch (kind) {
        case 0: case 1: v = (double)r.range(-2, 2); break;
        case 2: v = s * r.gauss(); break;
        case 3: for (int i = 0; i <= D; i++) v += p[0][i] * x[i]; v -= 2 * p[0][4]; break; // a moving plane
        case 4: { double d = 0; for (int i = 0; i < D; i++) { double e = x[i] - c.an[i] * 0.5 - p[1][i] - 0.4 * p[2][i] * t; d += e * e; } v = std::sqrt(d) - 1.2 - 0.3 * p[1][4] - 0.3 * t * p[1][3]; break; } // a moving, growing sphere
        default: for (int i = 0; i < 3; i++) { double a = p[i][4]; for (int j = 0; j <= D; j++) a += p[i][j] * x[j]; v += std::sin(a); } }
      f[k] = v;
    }
    c.f.push_back(f);
  }
  if (kind == 3 || kind == 4 || kind == 5) c.thr = 0.25 * r.gauss();
  c.ties = kind == 0;
  c.desc = strf("%dD kind %d size", D, kind); for (int i = 0; i < D; i++) c.desc += strf(" [%d,%d)/%d+%d", c.lo[i], c.lo[i] + c.n[i], c.as[i], c.an[i]); c.desc += strf(" T=%d threshold=%.17g threads=%d end=%d", c.T, c.thr, c.nth, (int)c.end);
  return c;
}
struct T2 : contour_tracker_2d_regular { T2() : tracker(diy::mpi::communicator()), contour_tracker_2d_regular(diy::mpi::communicator()) {} auto& mesh() { return m; } };
struct T3 : contour_tracker_3d_regular { T3() : tracker(diy::mpi::communicator()), contour_tracker_3d_regular(diy::mpi::communicator()) {} auto& mesh() { return m; } };
template <class T> static void run(T& t, const Case& c) {
  auto sz = [](const V& v) { return std::vector<size_t>(v.begin(), v.end()); };
  t.set_domain(lattice(sz(c.lo), sz(c.n))); t.set_array_domain(lattice(sz(c.as), sz(c.an)));
  if (c.end) t.set_end_timestep(c.T - 1);
  t.set_number_of_threads(c.nth); t.set_threshold(c.thr); t.initialize();
  for (int k = 0; k < c.T; k++) {
    ndarray<double> a; a.reshape(sz(c.an)); for (size_t i = 0; i < c.f[k].size(); i++) a[i] = c.f[k][i];
    t.push_field_data_snapshot(a); if (k) t.advance_timestep(); if (k == c.T - 1) t.update_timestep();
  }
  t.finalize();
}
// --- the model
static void each(const Case& c, std::function<void(const V&)> f) { V v(c.D + 1); std::function<void(int)> rec = [&](int i) { if (i > c.D) { f(v); return; } int lo = i < c.D ? c.lo[i] : 0, hi = i < c.D ? c.lo[i] + c.n[i] : c.T; for (v[i] = lo; v[i] < hi; v[i]++) rec(i + 1); }; rec(0); }
static std::set<E> model_edges(const Case& c, bool tie) {
  std::set<E> s;
  each(c, [&](const V& v) { for (int d = 1; d < (2 << c.D); d++) { V w = v; for (int i = 0; i <= c.D; i++) w[i] += d >> i & 1; if (c.inside(w) && c.side(v, tie) != c.side(w, tie)) s.insert({v, w}); } });
  return s;
}
// numbers of cells (monotone lattice paths) of the mesh (k = D+1 directions) or of the time slice (k = D) by how they are crossed
static std::map<int, size_t> model_cells(const Case& c, bool tie, int k, int t) {
  std::map<int, size_t> m;
  each(c, [&](const V& v) {
    if (k == c.D && v[c.D] != t) return;
    std::vector<int> p(k); std::iota(p.begin(), p.end(), 0);
    do { V w = v; int up = c.side(v, tie); bool in = true; for (int i : p) { w[i]++; if (!c.inside(w)) { in = false; break; } up += c.side(w, tie); } if (in) m[up * (k + 1 - up)]++; } while (std::next_permutation(p.begin(), p.end()));
  });
  return m;
}
static std::string sv(const V& v) { std::string s = "("; for (int x : v) s += strf("%d ", x); return s + ")"; }
// which faces of the domain a point lies on (bit mask)
static unsigned faces(const Case& c, const feature_point_t& p, bool time = true) {
  unsigned m = 0; for (int i = 0; i < c.D; i++) { if (std::abs(p.x[i] - c.lo[i]) < 1e-9) m |= 1u << (2 * i); if (std::abs(p.x[i] - (c.lo[i] + c.n[i] - 1)) < 1e-9) m |= 2u << (2 * i); }
  if (time) { if (std::abs(p.t) < 1e-9) m |= 1u << (2 * c.D); if (std::abs(p.t - (c.T - 1)) < 1e-9) m |= 2u << (2 * c.D); } return m;
}
template <class TR> static bool judge_edges(const Case& c, TR& t, bool& tie, uint64_t& h, std::vector<E>& order) {
  std::set<E> got; int D = c.D; bool ok = true;
  for (auto& kv : t.get_discrete_intersections()) {
    auto vs = kv.first.vertices(t.mesh()); E e{vs[0], vs[1]}; if (e.second < e.first) std::swap(e.first, e.second); 
    order.push_back(e);
    if (!got.insert(e).second) vh::viol("edge-twice", strf("edge %s%s is reported twice; %s", sv(e.first).c_str(), sv(e.second).c_str(), c.desc.c_str()));
    if (!c.inside(e.first) || !c.inside(e.second)) { vh::viol("edge-outside", strf("intersection on edge %s%s outside the domain; %s", sv(e.first).c_str(), sv(e.second).c_str(), c.desc.c_str())); ok = false; continue; }
    const auto& p = kv.second; double a = c.at(e.first) - c.thr, b = c.at(e.second) - c.thr, mu = a == b ? 0.5 : a / (a - b);
    if (!(mu >= -1e-3 && mu <= 1 + 1e-3)) continue; // judged below: not a crossing
    bool pos = true; for (int i = 0; i < D; i++) if (std::abs(p.x[i] - (e.first[i] + mu * (e.second[i] - e.first[i]))) > 1e-9) pos = false; if (std::abs(p.t - (e.first[D] + mu * (e.second[D] - e.first[D]))) > 1e-9) pos = false;
    VH_CHECK(pos, "edge-location", "edge %s%s with values %g, %g relative to the threshold: reported at (%g %g %g; %g); %s", sv(e.first).c_str(), sv(e.second).c_str(), a, b, p.x[0], p.x[1], p.x[2], p.t, c.desc.c_str());
    VH_CHECK(p.ordinal == (e.first[D] == e.second[D]) && p.timestep == e.first[D], "edge-time", "edge %s%s is reported with timestep %d, ordinal %d; %s", sv(e.first).c_str(), sv(e.second).c_str(), p.timestep, (int)p.ordinal, c.desc.c_str());
    if (D == 3) VH_CHECK(std::abs(p.scalar[0] - c.thr) <= 1e-9 * (1 + std::abs(a) + std::abs(b) + std::abs(c.thr)), "edge-scalar", "intersection has scalar %g, threshold %g", p.scalar[0], c.thr);
    if (D == 3) { // gradients are central differences of the array
      bool in = true, gok = true; for (auto* v : {&e.first, &e.second}) for (int i = 0; i < 3; i++) if ((*v)[i] <= c.as[i] || (*v)[i] >= c.as[i] + c.an[i] - 1) in = false;
      if (in) { double sc = 0; for (int i = 0; i < 3; i++) { double g[2]; int k = 0; for (auto* v : {&e.first, &e.second}) { V u = *v, w = *v; u[i]++; w[i]--; g[k++] = 0.5 * (c.at(u) - c.at(w)); sc += std::abs(c.at(u)) + std::abs(c.at(w)); } if (std::abs(p.v[i] - (g[0] + mu * (g[1] - g[0]))) > 1e-9 * (1 + sc)) gok = false; }
        VH_CHECK(gok, "edge-gradient", "intersection on edge %s%s has gradient %g %g %g; %s", sv(e.first).c_str(), sv(e.second).c_str(), p.v[0], p.v[1], p.v[2], c.desc.c_str()); vh::count("gradients_compared"); }
    }
    h = vh::hcomb(h, vh::mix(vh::dbits(p.x[0]) * 31 + vh::dbits(p.t)));
  }
  auto e0 = model_edges(c, false), e1 = model_edges(c, true);
  tie = got != e0 && got == e1;
  if (got != e0 && got != e1) {
    std::string s; int k = 0; for (auto& e : e0) if (!got.count(e) && k++ < 3) s += " missing " + sv(e.first) + sv(e.second) + strf(" values %g %g", c.at(e.first) - c.thr, c.at(e.second) - c.thr); k = 0; for (auto& e : got) if (!e0.count(e) && k++ < 3) s += " extra " + sv(e.first) + sv(e.second);
    vh::viol("edge-set", strf("%zu edges reported, %zu cross the threshold:%s; %s", got.size(), e0.size(), s.c_str(), c.desc.c_str())); ok = false;
  }
  vh::count("edges_compared", e0.size());
  auto list = t.get_intersections(); VH_CHECK(list.size() == got.size(), "intersections-list", "get_intersections() lists %zu of %zu", list.size(), got.size());
  return ok;
}
// facets of an assembled complex: each is shared by two cells or lies on the boundary
template <int K> static void judge_cracks(const Case& c, const std::vector<feature_point_t>& pts, const std::vector<std::array<int, K>>& cells, const char* what, bool time = true) {
  std::map<std::array<int, K - 1>, int> fac; bool valid = true;
  for (auto& q : cells) {
    for (int i = 0; i < K; i++) { if (q[i] < 0 || q[i] >= (int)pts.size()) valid = false; for (int j = 0; j < i; j++) if (q[i] == q[j]) valid = false; }
    if (!valid) break;
    for (int i = 0; i < K; i++) { std::array<int, K - 1> f; int n = 0; for (int j = 0; j < K; j++) if (j != i) f[n++] = q[j]; std::sort(f.begin(), f.end()); fac[f]++; }
  }
  VH_CHECK(valid, strf("%s-index", what), "%s refers to missing or repeated points; %s", what, c.desc.c_str()); if (!valid) return;
  for (auto& kv : fac) {
    unsigned m = ~0u; for (int i : kv.first) m &= faces(c, pts[i], time);
    bool ok = kv.second == 2 || (kv.second == 1 && m);
    if (ok) continue;
    std::string s; for (int i : kv.first) s += strf(" (%g %g %g; %g)", pts[i].x[0], pts[i].x[1], pts[i].x[2], pts[i].t);
    vh::viol(strf("%s-crack", what), strf("facet%s belongs to %d cells; %s", s.c_str(), kv.second, c.desc.c_str())); return;
  }
  vh::count(strf("%s_facets", what), fac.size());
}
// all points of a cell lie on edges of one mesh cell: the end points of these edges form a chain
template <int K> static void judge_common(const Case& c, const std::vector<feature_point_t>& pts, const std::vector<std::array<int, K>>& cells, const std::vector<E>& order, const char* what) {
  if (order.size() != pts.size()) return;
  // the edge of each point, by position (unique unless values tie with the threshold)
  std::map<std::array<double, 4>, const E*> by; for (auto& e : order) { double a = c.at(e.first) - c.thr, b = c.at(e.second) - c.thr, mu = a / (a - b); std::array<double, 4> k; for (int i = 0; i < 4; i++) k[i] = i <= c.D ? std::round((e.first[i] + mu * (e.second[i] - e.first[i])) * 1e6) : 0; by[k] = &e; }
  if (by.size() != order.size()) return;
  std::vector<const E*> of; for (auto& p : pts) { std::array<double, 4> k{}; for (int i = 0; i < c.D; i++) k[i] = std::round(p.x[i] * 1e6); k[c.D] = std::round(p.t * 1e6); auto it = by.find(k); of.push_back(it == by.end() ? nullptr : it->second); }
  for (auto& q : cells) {
    std::set<V> s; bool ok = true; for (int i : q) { if (!of[i]) { ok = false; break; } s.insert(of[i]->first); s.insert(of[i]->second); } if (!ok) continue;
    std::vector<V> l(s.begin(), s.end()); std::sort(l.begin(), l.end(), [](const V& a, const V& b) { return std::accumulate(a.begin(), a.end(), 0) < std::accumulate(b.begin(), b.end(), 0); });
    for (size_t i = 0; i < l.size(); i++) for (size_t j = i + 1; j < l.size(); j++) { bool lt = false; for (size_t d = 0; d < l[i].size(); d++) { int e = l[j][d] - l[i][d]; if (e < 0 || e > 1) ok = false; if (e) lt = true; } if (!lt) ok = false; }
    VH_CHECK(ok, strf("%s-cell", what), "a cell of the %s joins points of different mesh cells; %s", what, c.desc.c_str()); vh::count(strf("%s_cells_located", what)); if (!ok) return;
  }
}
template <int K> static void judge_ids(const std::vector<feature_point_t>& pts, const std::vector<std::array<int, K>>& cells, const char* what, const Case& c) {
  std::vector<int> p(pts.size()); std::iota(p.begin(), p.end(), 0); std::function<int(int)> fd = [&](int i) { return p[i] == i ? i : p[i] = fd(p[i]); };
  for (auto& q : cells) for (int i = 1; i < K; i++) p[fd(q[i])] = fd(q[0]);
  std::map<int, unsigned long long> m; std::map<unsigned long long, int> w; bool ok = true;
  for (size_t i = 0; i < pts.size(); i++) { auto a = m.insert({fd(i), pts[i].id}); auto b = w.insert({pts[i].id, fd(i)}); if (a.first->second != pts[i].id || b.first->second != fd(i)) ok = false; }
  VH_CHECK(ok, strf("%s-labels", what), "ids of the %s's points are not its connected components; %s", what, c.desc.c_str());
}
static uint64_t t_2d(Rng& r, int64_t) {
  Case c = gen(r, 2); vh::note(c.desc); T2 t; run(t, c); bool tie; uint64_t h = 1; std::vector<E> order;
  if (!judge_edges(c, t, tie, h, order)) return h;
  auto& s = t.get_surfaces(); auto m = model_cells(c, tie, 3, 0); size_t ntri = m[3] + 2 * m[4];
  VH_CHECK(s.pts.size() == order.size(), "surface-points", "surface has %zu points for %zu intersections; %s", s.pts.size(), order.size(), c.desc.c_str());
  VH_CHECK(s.tris.size() == ntri && s.quads.empty() && s.pentagons.empty(), "surface-size", "surface has %zu triangles, the crossed cells make %zu; %s", s.tris.size(), ntri, c.desc.c_str());
  judge_cracks<3>(c, s.pts, s.tris, "surface"); if (!c.ties) judge_common<3>(c, s.pts, s.tris, order, "surface"); judge_ids<3>(s.pts, s.tris, "surface", c);
  if (c.T > 1) for (int k = 0; k < c.T; k++) {
    auto cs = s.slice_time(k); auto mc = model_cells(c, tie, 2, k); size_t np = 0, ns = 0, eo = 0; for (auto& e : order) if (e.first[2] == k && e.second[2] == k) eo++;
    bool ord = true; std::set<std::array<double, 2>> seen; std::set<unsigned long long> tags;
    for (auto& kv : cs) { const auto& q = kv.second; np += q.size(); ns += q.empty() ? 0 : q.loop ? q.size() : q.size() - 1; for (auto& p : q) { if (std::abs(p.t - k) > 1e-9 || !p.ordinal || p.timestep != k) ord = false; if (!tags.insert(p.tag).second) ord = false; }
      if (!q.loop && q.size() > 1) for (auto* p : {&q.front(), &q.back()}) VH_CHECK(faces(c, *p, false), "slice2-open", "contour of slice %d ends at (%g %g) inside the domain; %s", k, p->x[0], p->x[1], c.desc.c_str());
      for (size_t i = 1; i < q.size(); i++) for (int d = 0; d < 2; d++) if (std::abs(q[i].x[d] - q[i - 1].x[d]) > 1 + 1e-9) ord = false; }
    VH_CHECK(ord && np == eo, "slice2-points", "slice %d has %zu points (each once), %zu expected; %s", k, np, eo, c.desc.c_str());
    VH_CHECK(ns == mc[2], "slice2-segments", "contours of slice %d have %zu segments, %zu triangles are crossed; %s", k, ns, mc[2], c.desc.c_str());
    vh::count("slices_2d");
  }
  vh::count(c.ties ? "cases_with_ties" : "cases_2d"); if (r.coin(0.01)) vh::sample("2D", c.desc + strf(": %zu edges, %zu triangles", order.size(), s.tris.size()));
  return order.empty() ? 0 : h;
}
static uint64_t t_3d(Rng& r, int64_t) {
  Case c = gen(r, 3, r.coin(0.9)); vh::note(c.desc); T3 t; run(t, c); bool tie; uint64_t h = 1; std::vector<E> order;
  if (!judge_edges(c, t, tie, h, order)) return h;
  auto& s = t.get_isovolume(); auto m = model_cells(c, tie, 4, 0); size_t nt = m[4] + 3 * m[6];
  VH_CHECK(s.pts.size() == order.size(), "volume-points", "volume has %zu points for %zu intersections; %s", s.pts.size(), order.size(), c.desc.c_str());
  VH_CHECK(s.conn.size() == nt, "volume-size", "volume has %zu tetrahedra, the crossed cells make %zu; %s", s.conn.size(), nt, c.desc.c_str());
  judge_cracks<4>(c, s.pts, s.conn, "volume"); if (!c.ties) judge_common<4>(c, s.pts, s.conn, order, "volume"); judge_ids<4>(s.pts, s.conn, "volume", c);
  if (c.T > 1) for (int k = 0; k < c.T; k++) {
    auto q = s.slice_time(k); auto mc = model_cells(c, tie, 3, k); size_t eo = 0; for (auto& e : order) if (e.first[3] == k && e.second[3] == k) eo++; bool ord = true; for (auto& p : q.pts) if (std::abs(p.t - k) > 1e-9 || !p.ordinal) ord = false;
    VH_CHECK(ord && q.pts.size() == eo, "slice3-points", "slice %d has %zu points, %zu expected; %s", k, q.pts.size(), eo, c.desc.c_str());
    VH_CHECK(q.tris.size() == mc[3] + 2 * mc[4], "slice3-size", "contour of slice %d has %zu triangles, the crossed cells make %zu; %s", k, q.tris.size(), mc[3] + 2 * mc[4], c.desc.c_str());
    judge_cracks<3>(c, q.pts, q.tris, "slice3", false); vh::count("slices_3d");
  }
  vh::count(c.ties ? "cases_with_ties" : "cases_3d"); if (r.coin(0.02)) vh::sample("3D", c.desc + strf(": %zu edges, %zu tetrahedra", order.size(), s.conn.size()));
  return order.empty() ? 0 : h;
}
// a tracker reused after reset() gives what a fresh one gives
static uint64_t t_reset(Rng& r, int64_t) {
  Case a = gen(r, 2), b = gen(r, 2); vh::note(a.desc + " then " + b.desc); T2 t; run(t, a); t.reset(); b.end = 1; run(t, b); bool tie; uint64_t h = 1; std::vector<E> o;
  if (judge_edges(b, t, tie, h, o)) { auto m = model_cells(b, tie, 3, 0); VH_CHECK(t.get_surfaces().tris.size() == m[3] + 2 * m[4], "reset-surface", "after reset: %zu triangles, %zu expected; %s", t.get_surfaces().tris.size(), m[3] + 2 * m[4], b.desc.c_str()); }
  vh::count("resets"); return h;
}
VH_MAIN({
  cpm::quiet();
  vh::group("2d", 500, 8000, t_2d);
  vh::group("3d", 120, 2000, t_3d);
  vh::group("reset", 60, 600, t_reset);
})
