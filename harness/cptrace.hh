// Space-time cases (regular and unstructured) behind one interface, and the monitor of trajectories.
#pragma once
#include "cpmodel.hh"
#include "umesh.hh"

#include <ftk/filters/critical_point_tracker_2d_unstructured.hh>
#include <ftk/filters/critical_point_tracker_3d_unstructured.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
namespace cpm {
typedef unsigned long long Tag;
struct UCase { // a field on an unstructured mesh over time
  UMesh u; int nt = 1, D = 2, nsc = 0; bool jac = false; std::vector<std::vector<double>> S, VV, J; // per step
  std::shared_ptr<ftk::simplicial_unstructured_2d_mesh<>> b2; std::shared_ptr<ftk::simplicial_unstructured_extruded_2d_mesh<>> m2;
  std::shared_ptr<ftk::simplicial_unstructured_3d_mesh<>> b3; std::shared_ptr<ftk::simplicial_unstructured_extruded_3d_mesh<>> m3;
  size_t n(int d) const { return D == 2 ? m2->n(d) : m3->n(d); }
  Face simplex(int d, int id) const { std::vector<int> s(d + 1); if (D == 2) m2->get_simplex(d, id, s.data()); else m3->get_simplex(d, id, s.data()); std::sort(s.begin(), s.end()); Face f; for (int v : s) f.push_back({v % u.nv, v / u.nv}); return f; }
  bool inside(const Face& f) const { for (auto& v : f) if (v[1] < 0 || v[1] >= nt) return false; return true; }
  void each(int d, const std::function<void(int, const Face&)>& fn) const { for (int t = 0; t < nt; t++) for (size_t i = 0; i < n(d); i++) { Face f = simplex(d, i + t * n(d)); if (inside(f)) fn(i + t * n(d), f); } }
};
inline UCase ucase(Rng& r, int D) {
  UCase c; c.D = D; c.u = D == 2 ? gen_mesh2(r, 7) : gen_mesh3(r, 3); c.nt = r.range(1, D == 2 ? 4 : 3);
  if (D == 2) { c.b2.reset(new ftk::simplicial_unstructured_2d_mesh<>(c.u.x, c.u.cells)); c.m2.reset(new ftk::simplicial_unstructured_extruded_2d_mesh_implicit<>(c.b2)); }
  else { c.b3.reset(new ftk::simplicial_unstructured_3d_mesh<>(c.u.x, c.u.cells)); c.m3.reset(new ftk::simplicial_unstructured_extruded_3d_mesh<>(c.b3)); }
  int kind = r.below(NKIND); double R = r.pick({3., 20., 100.}), q = r.pick({1., .5, 2.}); c.nsc = r.coin() ? r.range(1, 3) : 0; c.jac = r.coin(); int nv = c.u.nv;
  double w[6][6]; for (auto& a : w) for (auto& x : a) x = r.real(-1, 1);
  for (int t = 0; t < c.nt; t++) {
    std::vector<double> s(nv * std::max(c.nsc, 0)), v(nv * D), j(c.jac ? nv * D * D : 0);
    for (auto& x : s) x = r.real(-5, 5); for (auto& x : j) x = r.range(-9, 9);
    if (D == 3 || c.nsc) for (int i = 0; i < (c.jac ? nv : 0); i++) for (int a = 0; a < D; a++) for (int b = 0; b < a; b++) j[(i * D + a) * D + b] = j[(i * D + b) * D + a]; // a Hessian
    for (int i = 0; i < nv; i++) for (int k = 0; k < D; k++) { double x = 0;
      if (kind == RANDOM || (kind == CONSTANT_T && !t)) x = r.range(-(int)R, (int)R); else if (kind == CONSTANT_T) x = c.VV[0][i * D + k] / q; else if (kind == SMALL) x = r.range(-1, 1); else if (kind == SPARSE) x = r.coin(.3) ? 0 : r.range(-2, 2);
      else { for (int m = 0; m < 2; m++) { auto* a = w[(k * 2 + m) % 6]; double ph = a[0] * 3 + a[1] * t * 0.7; for (int d = 0; d < D; d++) ph += a[2 + d] * c.u.x[i * D + d]; x += a[5] * sin(ph); } x = std::round(1000 * x); }
      v[i * D + k] = x * q; }
    c.S.push_back(s); c.VV.push_back(v); c.J.push_back(j);
  }
  c.u.desc += strf(" kind %d nt %d scalars %d jac %d", kind, c.nt, c.nsc, c.jac);
  return c;
}
struct UModel { std::map<Tag, Expect> faces; std::map<Tag, Face> all; };
inline void uexpect(const UCase& c, UModel& m) {
  c.each(c.D, [&](int id, const Face& f) {
    m.all[id] = f; Expect e; e.f = f; I v[4][3]; double dv[4][3]; for (int i = 0; i <= c.D; i++) for (int k = 0; k < c.D; k++) { dv[i][k] = c.VV[f[i][1]][f[i][0] * c.D + k]; v[i][k] = (I)llround(dv[i][k] * 4); }
    if (c.D == 2) { I w[3][2]; for (int i = 0; i < 3; i++) for (int k = 0; k < 2; k++) w[i][k] = v[i][k]; e.c = origin2(w); } else e.c = origin3(v);
    if (e.c != NO) { e.well = bary(c.D, dv, e.mu); m.faces[id] = e; }
  });
}
inline ftk::ndarray<double> nd(const std::vector<double>& x, std::vector<size_t> s, int ncd) { ftk::ndarray<double> a; if (x.empty()) return a; a.reshape(s); a.set_multicomponents(ncd); for (size_t i = 0; i < x.size(); i++) a[i] = x[i]; return a; }
template <class T> Run urun_(T& t, const UCase& c, const Opts& o, const std::function<void(T&)>& after = nullptr) {
  t.set_number_of_threads(o.nthreads); if (o.filter >= 0) t.set_type_filter(o.filter);
  t.set_enable_streaming_trajectories(o.streaming); t.set_enable_discarding_interval_points(o.discard); t.set_enable_discarding_degenerate_points(o.discdeg); t.set_enable_computing_degrees(o.degrees);
  if (o.ignore) t.set_enable_ignoring_degenerate_points(true);
  if (c.nsc) { std::vector<std::string> names; for (int i = 0; i < c.nsc; i++) names.push_back("s" + std::to_string(i)); t.set_scalar_components(names); }
  t.initialize(); size_t nv = c.u.nv, D = c.D;
  for (int k = 0; k < c.nt; k++) {
    t.push_field_data_snapshot(nd(c.S[k], {(size_t)c.nsc, nv}, 1), nd(c.VV[k], {D, nv}, 1), nd(c.J[k], {D, D, nv}, 2));
    if (k) { t.advance_timestep(); if (after) after(t); }
    if (k == c.nt - 1) t.update_timestep();
  }
  t.finalize(); Run r; r.cps = t.get_critical_points(); r.trajs = t.get_traced_critical_points(); return r;
}
inline Run urun(const UCase& c, const Opts& o = Opts()) {
  if (c.D == 2) { ftk::critical_point_tracker_2d_unstructured t(diy::mpi::communicator{}, c.m2); return urun_(t, c, o); }
  ftk::critical_point_tracker_3d_unstructured t(diy::mpi::communicator{}, c.b3); return urun_(t, c, o);
}
inline uint64_t hucase(const UCase& c) { uint64_t h = c.D; for (int x : c.u.cells) h = hcomb(h, x); for (auto& v : c.VV) for (double x : v) h = hcomb(h, (uint64_t)(int64_t)(x * 4)); return h; }
// ---- adjacency of detected faces: two faces are adjacent iff they are sides of a common cell
typedef std::map<Tag, std::set<Tag>> Graph;
inline Graph graph(const Grid& g, const std::vector<ftk::feature_point_t>& cps) {
  Decoder dec(g); std::map<Face, Tag> idx; Graph G; for (auto& p : cps) { idx[dec.face(p.tag)] = p.tag; G[p.tag]; }
  cells_of(g, [&](const Face&, const std::vector<Face>& s) { std::vector<Tag> h; for (auto& f : s) { auto it = idx.find(f); if (it != idx.end()) h.push_back(it->second); } for (Tag a : h) for (Tag b : h) if (a != b) G[a].insert(b); });
  return G;
}
inline Graph graph(const UCase& c, const std::vector<ftk::feature_point_t>& cps) {
  std::map<Face, Tag> idx; Graph G; for (auto& p : cps) { idx[c.simplex(c.D, p.tag)] = p.tag; G[p.tag]; }
  c.each(c.D + 1, [&](int, const Face& s) { std::vector<Tag> h; for (int i = 0; i < (int)s.size(); i++) { Face f; for (int j = 0; j < (int)s.size(); j++) if (j != i) f.push_back(s[j]); auto it = idx.find(f); if (it != idx.end()) h.push_back(it->second); } for (Tag a : h) for (Tag b : h) if (a != b) G[a].insert(b); });
  return G;
}
inline bool same_d(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool same_s(const std::array<double, FTK_CP_MAX_NUM_VARS>& a, const std::array<double, FTK_CP_MAX_NUM_VARS>& b) { for (size_t i = 0; i < a.size(); i++) if (!same_d(a[i], b[i])) return false; return true; }
inline bool same_point(const ftk::feature_point_t& a, const ftk::feature_point_t& b) { return a.tag == b.tag && a.x == b.x && a.t == b.t && a.timestep == b.timestep && a.type == b.type && a.ordinal == b.ordinal && same_s(a.scalar, b.scalar); }
inline std::string pstr(const ftk::feature_point_t& p) { return strf("(tag %llu x %.6g %.6g %.6g t %.6g step %d type %u ord %d scalar %.6g %.6g %.6g)", p.tag, p.x[0], p.x[1], p.x[2], p.t, p.timestep, p.type, p.ordinal, p.scalar[0], p.scalar[1], p.scalar[2]); }
inline void stats(const ftk::feature_curve_t& c, const std::string& ctx) {
  if (c.empty()) { viol("empty-curve", ctx + " a trajectory without points"); return; }
  double t0 = 1e300, t1 = -1e300, lo[3], hi[3], s0[FTK_CP_MAX_NUM_VARS], s1[FTK_CP_MAX_NUM_VARS]; for (int k = 0; k < 3; k++) lo[k] = 1e300, hi[k] = -1e300; for (int k = 0; k < FTK_CP_MAX_NUM_VARS; k++) s0[k] = 1e300, s1[k] = -1e300;
  bool same = true, snan[FTK_CP_MAX_NUM_VARS] = {}; double v0 = 1e300, v1 = -1e300;
  for (auto& p : c) { t0 = std::min(t0, p.t); t1 = std::max(t1, p.t); for (int k = 0; k < 3; k++) lo[k] = std::min(lo[k], p.x[k]), hi[k] = std::max(hi[k], p.x[k]); for (int k = 0; k < FTK_CP_MAX_NUM_VARS; k++) snan[k] = snan[k] || !std::isfinite(p.scalar[k]), s0[k] = std::min(s0[k], p.scalar[k]), s1[k] = std::max(s1[k], p.scalar[k]); same = same && p.type == c[0].type; double v = sqrt(p.v[0] * p.v[0] + p.v[1] * p.v[1] + p.v[2] * p.v[2]); v0 = std::min(v0, v); v1 = std::max(v1, v); }
  bool ok = c.tmin == t0 && c.tmax == t1 && c.consistent_type == (same ? c[0].type : 0u); for (int k = 0; k < 3; k++) ok = ok && c.bbmin[k] == lo[k] && c.bbmax[k] == hi[k]; for (int k = 0; k < FTK_CP_MAX_NUM_VARS; k++) if (!snan[k]) ok = ok && c.min[k] == s0[k] && c.max[k] == s1[k] && c.persistence[k] == s1[k] - s0[k];
  ok = ok && fabs(c.vmmin - v0) < 1e-9 * (1 + v0) && fabs(c.vmmax - v1) < 1e-9 * (1 + v1);
  VH_CHECK(ok, "statistics", "%s statistics of a trajectory of %zu points do not match its points: t %g..%g (%g..%g) consistent type %u x %g..%g (%g..%g) scalar %g..%g (%g..%g) speed %g..%g (%g..%g)", ctx.c_str(), c.size(), c.tmin, c.tmax, t0, t1, c.consistent_type, c.bbmin[0], c.bbmax[0], lo[0], hi[0], c.min[0], c.max[0], s0[0], s1[0], c.vmmin, c.vmmax, v0, v1);
  count("trajectory_statistics");
}
// offline: the trajectories are exactly the connected components of the graph, each in path order
inline void check_trajs(const Run& r, const Graph& G, const std::string& ctx, bool exact = true) {
  std::map<Tag, const ftk::feature_point_t*> P; for (auto& p : r.cps) P[p.tag] = &p;
  bool branching = false; for (auto& kv : G) if (kv.second.size() > 2) branching = true;
  if (branching) { count("branching_cases"); }
  std::map<Tag, int> where; int k = 0; std::set<int> ids;
  r.trajs.foreach([&](int label, const ftk::feature_curve_t& c) {
    k++; count("trajectories"); stats(c, ctx); if (!ids.insert(c.id).second || c.id != label) viol("curve-id", strf("%s trajectory ids are not distinct (id %d, label %d)", ctx.c_str(), c.id, label));
    for (auto& p : c) {
      if ((int)p.id != c.id) viol("point-id", strf("%s a point of trajectory %d has id %llu", ctx.c_str(), c.id, p.id));
      auto it = P.find(p.tag); if (it == P.end()) { viol("foreign-point", ctx + " trajectory point was not detected " + pstr(p)); continue; }
      if (!same_point(p, *it->second)) viol("changed-point", ctx + " trajectory point differs from the detected one " + pstr(p) + " " + pstr(*it->second));
      if (!where.emplace(p.tag, k).second) viol("twice", ctx + " point lies on two trajectories (or twice on one) " + pstr(p));
      count("trajectory_points");
    }
    for (size_t i = 0; i + 1 < c.size(); i++) if (G.count(c[i].tag) && !G.at(c[i].tag).count(c[i + 1].tag)) { viol("not-adjacent", ctx + " consecutive points are not on a common cell " + pstr(c[i]) + " " + pstr(c[i + 1])); break; }
    bool cyc = c.size() > 2 && G.count(c.front().tag) && G.at(c.front().tag).count(c.back().tag);
    if (exact) { VH_CHECK(c.loop == cyc, "loop", "%s trajectory of %zu points has loop flag %d, its ends are %sjoined", ctx.c_str(), c.size(), c.loop, cyc ? "" : "not "); if (cyc) count("loops"); if (c.size() == 1) count("single_points"); if (c.size() == 2) count("two_point_curves"); }
  });
  for (auto& kv : G) if (!where.count(kv.first) && kv.second.size() <= 2) { viol("lost-point", ctx + " detected point is on no trajectory " + pstr(*P[kv.first])); break; }
  if (exact) for (auto& kv : G) for (Tag b : kv.second) if (kv.second.size() <= 2 && G.at(b).size() <= 2 && where.count(b) && where.count(kv.first) && where[b] != where[kv.first]) { viol("split-curve", ctx + " points on a common cell are on different trajectories " + pstr(*P[kv.first]) + " " + pstr(*P[b])); return; }
}
// canonical form of a set of curves, up to direction and rotation of loops
inline std::vector<std::vector<Tag>> canon(const ftk::feature_curve_set_t& s) {
  std::vector<std::vector<Tag>> r;
  s.foreach([&](const ftk::feature_curve_t& c) { std::vector<Tag> v; for (auto& p : c) v.push_back(p.tag); if (v.empty()) return;
    if (c.loop) { std::rotate(v.begin(), std::min_element(v.begin(), v.end()), v.end()); if (v.size() > 2 && v[1] > v.back()) std::reverse(v.begin() + 1, v.end()); } else if (v.front() > v.back()) std::reverse(v.begin(), v.end());
    v.push_back(c.loop); r.push_back(v); });
  std::sort(r.begin(), r.end()); return r;
}
inline std::map<Tag, ftk::feature_point_t> bytag(const std::vector<ftk::feature_point_t>& v) { std::map<Tag, ftk::feature_point_t> m; for (auto& p : v) m[p.tag] = p; return m; }
inline bool same_points(const std::vector<ftk::feature_point_t>& a, const std::vector<ftk::feature_point_t>& b, std::string& why) {
  if (a.size() != b.size()) { why = strf("%zu points instead of %zu", b.size(), a.size()); return false; }
  auto A = bytag(a), B = bytag(b); for (auto& kv : A) { auto it = B.find(kv.first); if (it == B.end()) { why = "missing " + pstr(kv.second); return false; } if (!same_point(kv.second, it->second)) { why = "differs " + pstr(kv.second) + " " + pstr(it->second); return false; } }
  return true;
}
inline std::string gdesc(const Grid& g, int kind) { std::string s = strf("%dD %s kind %d nt %d dims", g.nd, g.scalar_input ? "scalar" : "vector", kind, g.nt); for (int d : g.dims) s += strf(" %d", d); s += " domain"; for (int d = 0; d < g.nd; d++) s += strf(" %d..%d", g.dlo[d], g.dhi[d]); return s; }
} // namespace cpm
