// C13: line features in 3D (critical lines, vortex cores, ridges, magnetic vortices) against an independent model: the pierced
// space-time triangles of the Freudenthal mesh, the interpolated zeros, and the curves and surfaces joined from them.
#include "vh.hh"
#include "cpmodel.hh"
#include <ftk/numeric/clamp.hh>
#include <ftk/numeric/fmod.hh>
#include <ftk/ndarray.hh>
#include <ftk/ndarray/grad.hh>
#include <ftk/features/feature_curve_set.hh>
#include <ftk/features/feature_volume.hh>
#include <ftk/filters/critical_line_tracker_3d_regular.hh>
#include <ftk/filters/critical_line_tracker_3d_unstructured.hh>
#include "umesh.hh"
#include <ftk/filters/sujudi_haimes_tracker_3d_regular.hh>
#include <ftk/filters/levy_degani_seginer_tracker_3d_regular.hh>
#include <ftk/filters/ridge_valley_tracker_3d_regular.hh>
#include <ftk/filters/tdgl_vortex_tracker_3d_regular.hh>
using namespace ftk; using cpm::Face; using cpm::I; using cpm::V; using cpm::Cls;
using vh::Rng; using vh::strf;
struct Case { int T, nth; bool end; V an, lo, n, as; std::string desc; // array extents, domain, start of the array
  size_t N() const { return (size_t)an[0] * an[1] * an[2]; }
  size_t at(const V& v) const { return ((size_t)(v[2] - as[2]) * an[1] + (v[1] - as[1])) * an[0] + (v[0] - as[0]); } };
typedef std::vector<std::vector<float>> Fields; // [t][component + ncomp * vertex]
static Case gen(Rng& r, int margin, int lo_n, int hi_n) {
  Case c; c.T = r.pick({1, 2, 2, 3}); c.nth = r.pick({1, 1, 3}); c.end = r.coin(0.6);
  for (int i = 0; i < 3; i++) { int n = r.range(lo_n, hi_n); c.as.push_back(r.coin(0.2) ? (int)r.below(4) : 0); c.lo.push_back(c.as[i] + margin + (r.coin(0.2) ? 1 : 0)); c.n.push_back(n); c.an.push_back(c.lo[i] - c.as[i] + n + margin + (r.coin(0.2) ? 1 : 0)); if (c.an[i] < 3) c.an[i] = 3; }
  c.desc = "size"; for (int i = 0; i < 3; i++) c.desc += strf(" [%d,%d)/%d+%d", c.lo[i], c.lo[i] + c.n[i], c.as[i], c.an[i]); c.desc += strf(" T=%d threads=%d end=%d", c.T, c.nth, (int)c.end);
  return c;
}
static lattice lat(const V& a, const V& b) { return lattice(std::vector<size_t>(a.begin(), a.end()), std::vector<size_t>(b.begin(), b.end())); }
static Fields gen_fields(Rng& r, Case& c, int nc, int kind) {
  Fields F; double p[8][6]; for (auto& q : p) for (auto& x : q) x = r.gauss(); double s = r.pick({1.0, 1.0, 10.0, 0.1}), fr = r.pick({0.4, 0.8, 1.3});
  for (int t = 0; t < c.T; t++) {
    std::vector<float> f(c.N() * nc);
    for (size_t k = 0; k < c.N(); k++) { double x[4] = {double(k % c.an[0]), double(k / c.an[0] % c.an[1]), double(k / c.an[0] / c.an[1]), (double)t};
      for (int j = 0; j < nc; j++) { double v = 0;
        if (kind == 0) v = r.range(-2, 2); else if (kind == 1) v = s * r.gauss();
        else if (kind == 2) { for (int i = 0; i < 4; i++) v += p[j][i] * (x[i] - (i < 3 ? 0.5 * c.an[i] : 0.5 * c.T)); v += 0.3 * p[j][4]; } // a straight, moving line
        else for (int m = 0; m < 3; m++) { double a = 3 * p[m][5] + p[(j * 3 + m) % 8][4]; for (int i = 0; i < 4; i++) a += fr * p[(m + j) % 8][i] * x[i]; v += s * std::sin(a); }
        f[k * nc + j] = (float)v; } }
    F.push_back(f);
  }
  c.desc += strf(" kind %d", kind); return F;
}
static ndarray<float> arr(const Case& c, const std::vector<float>& f, int nc) { ndarray<float> a; std::vector<size_t> s; if (nc > 1) s.push_back(nc); for (int d : c.an) s.push_back(d); a.reshape(s); if (nc > 1) a.set_multicomponents(1); for (size_t i = 0; i < f.size(); i++) a[i] = f[i]; return a; }
#define LINE(name, base) struct name : base { name() : tracker(diy::mpi::communicator()), critical_line_tracker(diy::mpi::communicator()), regular_tracker(diy::mpi::communicator(), 3), base(diy::mpi::communicator()) {} \
  auto& snaps() { return field_data_snapshots; } auto& ints() { return intersections; } auto& curves() { return traced_curves; } auto& surf() { return surfaces; } auto& mesh() { return m; } };
LINE(TL, critical_line_tracker_3d_regular)
LINE(TS, sujudi_haimes_tracker_3d_regular)
LINE(TD, levy_degani_seginer_tracker_3d_regular)
LINE(TR, ridge_valley_tracker_3d_regular)
struct TT : tdgl_vortex_tracker_3d_regular { TT() : tracker(diy::mpi::communicator()), tdgl_vortex_tracker(diy::mpi::communicator()), regular_tracker(diy::mpi::communicator(), 3), tdgl_vortex_tracker_3d_regular(diy::mpi::communicator()) {} auto& ints() { return intersections; } auto& surf() { return surfaces; } auto& mesh() { return m; } };
template <class T> static void setup(T& t, const Case& c) { t.set_domain(lat(c.lo, c.n)); t.set_array_domain(lat(c.as, c.an)); if (c.end) t.set_end_timestep(c.T - 1); t.set_number_of_threads(c.nth); t.initialize(); }
static void box(const Case& c, V& lb, V& ub) { lb = c.lo; lb.push_back(0); ub = c.lo; for (int i = 0; i < 3; i++) ub[i] += c.n[i] - 1; ub.push_back(c.T - 1); }
static std::string sp(const feature_point_t& p) { return strf("(%g %g %g; %g)", p.x[0], p.x[1], p.x[2], p.t); }
// barycentric coordinates of a reported point in its triangle; false if it is not in the plane of the triangle
static bool mu_of(const Face& f, const double x[4], double mu[3], double tol) {
  double m2 = NAN, m12 = NAN; for (int i = 0; i < 4; i++) { if (f[2][i] != f[1][i]) m2 = x[i] - f[1][i]; if (f[1][i] != f[0][i]) m12 = x[i] - f[0][i]; }
  // v0 <= v1 <= v2: coordinates that change between v1 and v2 give mu2, those between v0 and v1 give mu1 + mu2
  mu[2] = m2; mu[1] = m12 - m2; mu[0] = 1 - m12; bool ok = true;
  for (int i = 0; i < 4; i++) { double y = 0; for (int k = 0; k < 3; k++) y += mu[k] * f[k][i]; if (!(std::abs(y - x[i]) <= tol)) ok = false; }
  return ok;
}
struct Found { std::map<Face, feature_point_t> pts; };
template <class TR_> static bool collect(TR_& t, const Case& c, Found& F, uint64_t& h) {
  V lb, ub; box(c, lb, ub); bool ok = true;
  for (auto& kv : t.ints()) {
    Face f = kv.first.vertices(t.mesh()); std::sort(f.begin(), f.end()); auto& p = kv.second;
    for (auto& v : f) for (int i = 0; i < 4; i++) if (v[i] < lb[i] || v[i] > ub[i]) ok = false;
    if (!ok) { vh::viol("outside", strf("triangle %s outside the domain is reported; %s", cpm::fstr(f).c_str(), c.desc.c_str())); return false; }
    if (!F.pts.insert({f, p}).second) vh::viol("twice", strf("triangle %s is reported twice; %s", cpm::fstr(f).c_str(), c.desc.c_str()));
    int t0 = 1 << 30, t1 = -1; for (auto& v : f) t0 = std::min(t0, v[3]), t1 = std::max(t1, v[3]);
    VH_CHECK(p.ordinal == (t0 == t1) && p.timestep == t0, "time", "point on %s has timestep %d and ordinal %d; %s", cpm::fstr(f).c_str(), p.timestep, (int)p.ordinal, c.desc.c_str());
    h = vh::hcomb(h, vh::mix(vh::dbits(p.x[0]) * 31 + vh::dbits(p.t)));
  }
  return true;
}
// joined curves (one timestep) or surfaces, given the pierced triangles
template <class S> static void judge_surfaces(const Case& c, const Found& F, const S& s, const std::map<unsigned long long, Face>& tag2face, bool strict) {
  V lb, ub; box(c, lb, ub);
  std::map<Face, int> idx; std::vector<Face> of; bool once = s.pts.size() == F.pts.size();
  for (auto& p : s.pts) { auto it = tag2face.find(p.tag); if (it == tag2face.end() || !idx.insert({it->second, (int)of.size()}).second) { once = false; break; } of.push_back(it->second); const auto& q = F.pts.at(it->second); if (memcmp(&q.x, &p.x, sizeof q.x) || q.t != p.t) once = false; }
  VH_CHECK(once, "surface-points", "surface has %zu points; %zu triangles are pierced; %s", s.pts.size(), F.pts.size(), c.desc.c_str()); if (!once) return;
  std::vector<int> par(of.size()); std::iota(par.begin(), par.end(), 0); std::function<int(int)> fd = [&](int i) { return par[i] == i ? i : par[i] = fd(par[i]); };
  std::map<std::array<int, 2>, int> dummy; std::set<std::array<int, 3>> tris; bool valid = true;
  for (auto& t : s.tris) { std::array<int, 3> q{t[0], t[1], t[2]}; std::sort(q.begin(), q.end()); if (q[0] < 0 || q[2] >= (int)of.size() || q[0] == q[1] || q[1] == q[2]) { valid = false; break; } tris.insert(q);
    std::set<V> vs; for (int i : q) for (auto& v : of[i]) vs.insert(v); bool common = vs.size() <= 5; std::vector<V> l(vs.begin(), vs.end()); std::sort(l.begin(), l.end(), [](const V& a, const V& b) { return a[0] + a[1] + a[2] + a[3] < b[0] + b[1] + b[2] + b[3]; });
    for (size_t i = 0; i < l.size(); i++) for (size_t j = i + 1; j < l.size(); j++) for (int d = 0; d < 4; d++) if (l[j][d] < l[i][d] || l[j][d] > l[i][d] + 1) common = false;
    VH_CHECK(common, "surface-cell", "a triangle of the surface joins points of different cells: %s %s %s; %s", cpm::fstr(of[q[0]]).c_str(), cpm::fstr(of[q[1]]).c_str(), cpm::fstr(of[q[2]]).c_str(), c.desc.c_str()); }
  VH_CHECK(valid, "surface-index", "surface refers to missing or repeated points; %s", c.desc.c_str()); if (!valid) return;
  std::vector<int> tp(of.size()); std::iota(tp.begin(), tp.end(), 0); std::function<int(int)> tf = [&](int i) { return tp[i] == i ? i : tp[i] = tf(tp[i]); };
  for (auto& q : tris) { tp[tf(q[0])] = tf(q[1]); tp[tf(q[2])] = tf(q[1]); }
  cpm::freudenthal(lb, ub, 4, [&](const Face& cell) {
    std::vector<int> ids; for (int i = 0; i < 5; i++) for (int j = i + 1; j < 5; j++) for (int k = j + 1; k < 5; k++) { Face f{cell[i], cell[j], cell[k]}; auto it = idx.find(f); if (it != idx.end()) ids.push_back(it->second); }
    if (ids.empty()) return; vh::count("cells_judged");
    if (strict) VH_CHECK(ids.size() >= 3 && ids.size() <= 5, "cell-count", "cell %s has %zu pierced triangles; %s", cpm::fstr(cell).c_str(), ids.size(), c.desc.c_str());
    if (ids.size() < 3 || ids.size() > 5) return;
    vh::count(strf("cells_with_%zu", ids.size()));
    for (int i : ids) { VH_CHECK(tf(i) == tf(ids[0]), "cell-joined", "the %zu points of cell %s are not joined by the surface; %s", ids.size(), cpm::fstr(cell).c_str(), c.desc.c_str()); par[fd(i)] = fd(ids[0]); }
    bool any = false; for (size_t i = 0; i < ids.size(); i++) { bool used = false; for (auto& q : tris) { int n = 0; bool has = false; for (int k : q) { if (std::find(ids.begin(), ids.end(), k) != ids.end()) n++; if (k == ids[i]) has = true; } if (n == 3 && has) { used = true; break; } } if (tris.size() > 400) used = true; if (!used) any = true; }
    VH_CHECK(!any, "cell-covered", "a point of cell %s is in no triangle of the cell; %s", cpm::fstr(cell).c_str(), c.desc.c_str());
  });
  bool lab = true; std::map<int, unsigned long long> m1; std::map<unsigned long long, int> m2; if (strict) for (size_t i = 0; i < of.size(); i++) { auto a = m1.insert({fd(i), s.pts[i].id}); auto b = m2.insert({s.pts[i].id, fd(i)}); if (a.first->second != s.pts[i].id || b.first->second != fd(i)) lab = false; }
  VH_CHECK(lab, "surface-labels", "labels of the surface's points are not its connected components; %s", c.desc.c_str());
  vh::count("surfaces"); vh::count("surface_triangles", tris.size());
}
template <class TR_> static void judge_tets(const Case& c, const Found& F) { // closed lines: every tetrahedron is entered as often as it is left
  V lb, ub; box(c, lb, ub);
  cpm::freudenthal(lb, ub, 3, [&](const Face& t) { int n = 0; for (int i = 0; i < 4; i++) { Face f; for (int j = 0; j < 4; j++) if (j != i) f.push_back(t[j]); n += F.pts.count(f); } if (n) vh::count("tetrahedra_judged"); VH_CHECK(n == 0 || n == 2, "tet-count", "tetrahedron %s has %d pierced sides; %s", cpm::fstr(t).c_str(), n, c.desc.c_str()); });
}
static void judge_curves(const Case& c, const Found& F, feature_curve_set_t& cs, int k, const std::map<unsigned long long, Face>& tag2face, bool bytag) {
  V lb, ub; box(c, lb, ub); lb[3] = ub[3] = k; size_t segs = 0, pts = 0; std::map<std::pair<Face, Face>, int> seg;
  cpm::freudenthal(lb, ub, 3, [&](const Face& t) { std::vector<Face> s; for (int i = 0; i < 4; i++) { Face f; for (int j = 0; j < 4; j++) if (j != i) f.push_back(t[j]); if (F.pts.count(f)) s.push_back(f); } if (s.size() == 2) { if (s[1] < s[0]) std::swap(s[0], s[1]); seg[{s[0], s[1]}]++; } });
  for (auto& kv : F.pts) if (kv.second.ordinal && kv.second.timestep == k) pts++;
  size_t gp = 0; bool ok = true; std::set<std::array<double, 4>> seen; std::set<std::pair<Face, Face>> gs;
  std::map<std::array<double, 4>, std::vector<Face>> bypos; for (auto& kv : F.pts) if (kv.second.ordinal && kv.second.timestep == k) bypos[{kv.second.x[0], kv.second.x[1], kv.second.x[2], 0}].push_back(kv.first);
  for (auto& kv : bypos) if (kv.second.size() > 1) return; // points that coincide cannot be told apart
  for (auto& kv : cs) { const auto& q = kv.second; Face prev, first; for (size_t i = 0; i < q.size(); i++) { auto it = bypos.find({q[i].x[0], q[i].x[1], q[i].x[2], 0}); if (it == bypos.end() || !seen.insert(it->first).second) { ok = false; continue; } gp++; Face f = it->second[0]; if (i) gs.insert({std::min(prev, f), std::max(prev, f)}); else first = f; prev = f; }
    if (q.size() > 2 && seg.count({std::min(prev, first), std::max(prev, first)})) gs.insert({std::min(prev, first), std::max(prev, first)}); } // closed curves
  VH_CHECK(ok && gp == pts, "curve-points", "curves of timestep %d hold %zu points, each once: %d; %zu triangles are pierced; %s", k, gp, (int)ok, pts, c.desc.c_str());
  size_t miss = 0, extra = 0; for (auto& s : seg) miss += !gs.count(s.first); for (auto& s : gs) extra += !seg.count(s);
  VH_CHECK(!miss && !extra, "curve-segments", "curves of timestep %d: %zu segments are missing, %zu join points of different tetrahedra; %s", k, miss, extra, c.desc.c_str());
  vh::count("curve_segments", seg.size());
}
static std::vector<std::vector<std::array<double, 3>>> UVof(const std::vector<ndarray<float>>& uv, size_t N) { std::vector<std::vector<std::array<double, 3>>> r; for (auto& a : uv) { int nc = a.dim(0); std::vector<std::array<double, 3>> v(N); for (size_t i = 0; i < N; i++) for (int j = 0; j < 3; j++) v[i][j] = j < nc ? a[i * nc + j] : 0; r.push_back(v); } return r; }
typedef std::vector<std::vector<std::array<double, 3>>> UV_t;
// pierced triangles: exact on the quantised values
template <class T_> static bool judge_pierced(const Case& c, T_& t, const UV_t& U, Found& F, uint64_t& h) {
  if (!collect(t, c, F, h)) return false;
  V lb, ub; box(c, lb, ub); size_t yes = 0, maybe = 0; bool ok = true;
  cpm::freudenthal(lb, ub, 2, [&](const Face& f) {
    I w[3][2]; double d[3][2]; double mx = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) { float u = (float)U[f[i][3]][c.at(f[i])][j]; d[i][j] = u; w[i][j] = (I)(long long)(2097152LL * u); mx = std::max(mx, std::abs(d[i][j])); }
    Cls k = cpm::origin2(w); auto it = F.pts.find(f); yes += k == cpm::YES; maybe += k == cpm::MAYBE;
    if (k == cpm::YES && it == F.pts.end()) { ok = false; vh::viol("missed", strf("triangle %s with values (%g %g)(%g %g)(%g %g) is pierced but not reported; %s", cpm::fstr(f).c_str(), d[0][0], d[0][1], d[1][0], d[1][1], d[2][0], d[2][1], c.desc.c_str())); }
    if (k == cpm::NO && it != F.pts.end()) { ok = false; vh::viol("spurious", strf("triangle %s with values (%g %g)(%g %g)(%g %g) is reported but not pierced; %s", cpm::fstr(f).c_str(), d[0][0], d[0][1], d[1][0], d[1][1], d[2][0], d[2][1], c.desc.c_str())); }
    if (it == F.pts.end()) return;
    const auto& p = it->second; double x[4] = {p.x[0], p.x[1], p.x[2], p.t}, mu[3]; bool fin = std::isfinite(x[0]) && std::isfinite(x[1]) && std::isfinite(x[2]) && std::isfinite(x[3]);
    bool in = fin && mu_of(f, x, mu, 1e-5); if (in) for (double m : mu) if (m < -1e-5 || m > 1 + 1e-5) in = false;
    VH_CHECK(in, "location-plane", "point %s is not on its triangle %s; %s", sp(p).c_str(), cpm::fstr(f).c_str(), c.desc.c_str()); if (!in) return;
    double det = std::abs((d[0][0] - d[2][0]) * (d[1][1] - d[2][1]) - (d[0][1] - d[2][1]) * (d[1][0] - d[2][0]));
    if (det > 1e-2 * mx * mx && mx > 1e-3) { double r0 = 0, r1 = 0; for (int i = 0; i < 3; i++) r0 += mu[i] * d[i][0], r1 += mu[i] * d[i][1]; VH_CHECK(std::max(std::abs(r0), std::abs(r1)) <= 1e-3 * mx + 2e-6, "location-zero", "at %s on %s the interpolated field is (%g %g), values are up to %g; %s", sp(p).c_str(), cpm::fstr(f).c_str(), r0, r1, mx, c.desc.c_str()); vh::count("locations_judged"); }
    for (int i = 0; i < 3; i++) VH_CHECK(std::abs(p.v[i] - mu[i]) <= 2e-5, "weights", "interpolation weights (%g %g %g) differ from the location's (%g %g %g)", p.v[0], p.v[1], p.v[2], mu[0], mu[1], mu[2]);
  });
  vh::count("pierced", yes); vh::count("degenerate", maybe); return ok;
}
template <class T_> static void judge_rest(const Case& c, T_& t, const Found& F) {
  judge_tets<T_>(c, F); std::map<unsigned long long, Face> tf; for (auto& kv : F.pts) tf[kv.second.tag] = kv.first;
  if (c.T == 1) judge_curves(c, F, t.curves(), 0, tf, true);
  else { judge_surfaces(c, F, t.surf(), tf, true); for (int k = 0; k < c.T; k++) { auto s = t.surf().slice_time(k); judge_curves(c, F, s, k, tf, false); } }
}
static uint64_t t_lines(Rng& r, int64_t) {
  Case c = gen(r, 0, 2, 5); int nc = r.pick({2, 2, 3}); auto F = gen_fields(r, c, nc, r.below(4)); vh::note(c.desc); TL t;
  auto go = [&](const Case& c, const Fields& F, int nc, uint64_t& h) { setup(t, c); std::vector<ndarray<float>> uv; for (int k = 0; k < c.T; k++) { uv.push_back(arr(c, F[k], nc)); t.push_field_data_snapshot(uv[k]); if (k) t.advance_timestep(); if (k == c.T - 1) t.update_timestep(); } t.finalize(); Found fo; if (judge_pierced(c, t, UVof(uv, c.N()), fo, h)) judge_rest(c, t, fo); return fo.pts.size(); };
  uint64_t h = 1; size_t n = go(c, F, nc, h);
  if (r.coin(0.15)) { t.reset(); Case d = gen(r, 0, 2, 4); d.end = true; auto G = gen_fields(r, d, 2, r.below(4)); d.desc += " after reset() following " + c.desc; vh::note(d.desc); go(d, G, 2, h); vh::count("resets"); }
  if (r.coin(0.02)) vh::sample("line", c.desc + strf(": %zu triangles", n));
  vh::count("line_cases"); return n ? h : 0;
}
// vortex cores: uv is derived from a velocity field or a scalar field
static double at3(const Case& c, const std::vector<float>& f, int nc, int comp, int x, int y, int z) { return f[(((size_t)z * c.an[1] + y) * c.an[0] + x) * nc + comp]; }
template <class T_> static size_t derived(Rng& r, Case& c, int which, uint64_t& h) {
  int nc = which == 2 ? 1 : 3; auto F = gen_fields(r, c, nc, which == 2 ? r.pick({1, 3, 3}) : r.pick({0, 1, 3, 3})); vh::note(c.desc); T_ t; setup(t, c); critical_line_tracker* base = &t;
  std::vector<ndarray<float>> uv; std::vector<ndarray<float>> Js;
  for (int k = 0; k < c.T; k++) { base->push_field_data_snapshot(arr(c, F[k], nc)); uv.push_back(t.snaps().back().uv); if (k) t.advance_timestep(); if (k == c.T - 1) t.update_timestep(); } t.finalize();
  // own derivation, on the domain (two or three layers inside the array)
  typedef std::array<double, 3> v3; std::vector<std::vector<v3>> vort(c.T), vel(c.T); std::vector<std::vector<std::array<double, 9>>> jac(c.T);
  for (int k = 0; k < c.T; k++) {
    vort[k].resize(c.N()); vel[k].resize(c.N()); jac[k].resize(c.N()); double bad = 0; std::string where;
    auto vec = [&](int x, int y, int z, int j) -> double { if (which != 2) return at3(c, F[k], 3, j, x, y, z); int d[3] = {j == 0, j == 1, j == 2}; return 0.5 * (at3(c, F[k], 1, 0, x + d[0], y + d[1], z + d[2]) - at3(c, F[k], 1, 0, x - d[0], y - d[1], z - d[2])); };
    for (int z = c.lo[2]; z < c.lo[2] + c.n[2]; z++) for (int y = c.lo[1]; y < c.lo[1] + c.n[1]; y++) for (int x = c.lo[0]; x < c.lo[0] + c.n[0]; x++) {
      int X = x - c.as[0], Y = y - c.as[1], Z = z - c.as[2]; double v[3], J[3][3], w[3]; size_t i = c.at({x, y, z});
      for (int a = 0; a < 3; a++) { v[a] = vec(X, Y, Z, a); for (int b = 0; b < 3; b++) { int d[3] = {b == 0, b == 1, b == 2}; J[a][b] = 0.5 * (vec(X + d[0], Y + d[1], Z + d[2], a) - vec(X - d[0], Y - d[1], Z - d[2], a)); jac[k][i][a * 3 + b] = J[a][b]; } vel[k][i][a] = v[a]; }
      if (which == 1) { w[0] = J[2][1] - J[1][2]; w[1] = J[0][2] - J[2][0]; w[2] = J[1][0] - J[0][1]; for (int a = 0; a < 3; a++) vort[k][i][a] = w[a]; } else for (int a = 0; a < 3; a++) w[a] = J[a][0] * v[0] + J[a][1] * v[1] + J[a][2] * v[2];
      double cr[3] = {v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]}, sc = 1e-3; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) sc += std::abs(v[a] * w[b]);
      for (int a = 0; a < 3; a++) { double e = std::abs(uv[k][i * 3 + a] - cr[a]) / sc; if (!(e <= bad)) { bad = e; where = strf("(%d %d %d) component %d: %g instead of %g", x, y, z, a, uv[k][i * 3 + a], cr[a]); } }
    }
    VH_CHECK(bad <= 1e-3, "derived-field", "derived vectors at %s; %s", where.c_str(), c.desc.c_str()); vh::count("derived_fields");
  }
  Found fo; auto U = UVof(uv, c.N()); if (!judge_pierced(c, t, U, fo, h)) return fo.pts.size();
  judge_rest(c, t, fo);
  for (auto& kv : fo.pts) {
    auto& f = kv.first; auto& p = kv.second; double s0 = 0, sc = 1e-6, w[3] = {0, 0, 0}, ws = 0, J[3][3] = {}, S = 0, ss = 1e-6;
    for (int i = 0; i < 3; i++) { size_t q = c.at(f[i]); int k = f[i][3]; s0 += p.v[i] * U[k][q][2]; sc += std::abs(U[k][q][2]); for (int a = 0; a < 3; a++) { w[a] += p.v[i] * vort[k][q][a]; ws += std::abs(vort[k][q][a]); for (int b = 0; b < 3; b++) J[a][b] += p.v[i] * jac[k][q][a * 3 + b]; } if (which == 2) { double x = F[k][q]; S += p.v[i] * x; ss += std::abs(x); } }
    VH_CHECK(std::abs(p.scalar[0] - s0) <= 1e-4 * sc, "residue", "residue %g, %g by interpolation; %s", p.scalar[0], s0, c.desc.c_str());
    if (which == 1) { double n2 = w[0] * w[0] + w[1] * w[1] + w[2] * w[2], n = std::sqrt(n2); VH_CHECK(std::abs(p.scalar[1] - n) <= 1e-4 * (ws + 1e-6) || std::abs(p.scalar[1] - n2) <= 1e-3 * (ws * ws + 1e-6), "vorticity", "vorticity magnitude %g, %g by interpolation; %s", p.scalar[1], n, c.desc.c_str()); vh::count("vorticities"); }
    else {
      double tr = J[0][0] + J[1][1] + J[2][2], m = J[0][0] * J[1][1] - J[0][1] * J[1][0] + J[0][0] * J[2][2] - J[0][2] * J[2][0] + J[1][1] * J[2][2] - J[1][2] * J[2][1], det = J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]);
      double a = 1, b = -tr, cc = m, d = -det, disc = 18 * a * b * cc * d - 4 * b * b * b * d + b * b * cc * cc - 4 * a * cc * cc * cc - 27 * a * a * d * d; double nj = 1e-3; for (auto& row : J) for (double x : row) nj = std::max(nj, std::abs(x));
      VH_CHECK(std::abs(p.scalar[1] * 1e-10 - disc) <= 1e-3 * std::pow(nj * 3, 6), "discriminant", "discriminant %g, %g expected; %s", p.scalar[1] * 1e-10, disc, c.desc.c_str()); vh::count("discriminants");
      if (which == 2) VH_CHECK(std::abs(p.scalar[2] - S) <= 1e-4 * ss, "scalar", "scalar %g, %g by interpolation; %s", p.scalar[2], S, c.desc.c_str());
    }
  }
  return fo.pts.size();
}
static uint64_t t_cores(Rng& r, int64_t i) {
  int which = i % 3; Case c = gen(r, which == 2 ? 3 : 2, 2, 4); c.desc += which == 0 ? " Sujudi-Haimes" : which == 1 ? " Levy-Degani-Seginer" : " ridges"; uint64_t h = 1;
  size_t n = which == 0 ? derived<TS>(r, c, 0, h) : which == 1 ? derived<TD>(r, c, 1, h) : derived<TR>(r, c, 2, h);
  vh::count(which == 0 ? "sujudi_haimes_cases" : which == 1 ? "levy_degani_cases" : "ridge_cases"); return n ? h : 0;
}
// magnetic vortices
static double wrap(double x) { return x - 2 * M_PI * std::floor((x + M_PI) / (2 * M_PI)); }
static uint64_t tdgl(Rng& r, bool strong) {
  Case c = gen(r, 0, 2, strong ? 3 : 5); TT t; setup(t, c); int kind = r.below(3); size_t N = c.N(); Fields rho, phi;
  tdgl_metadata_t m; memset(&m, 0, sizeof m); m.ndims = 3; for (int i = 0; i < 3; i++) { m.dims[i] = c.an[i]; m.cell_lengths[i] = r.pick({1.0, 0.5, 0.25, 0.7}); m.origins[i] = r.pick({0.0, -2.0, 0.5}); m.lengths[i] = m.cell_lengths[i] * (c.an[i] - 1); }
  double B = strong ? r.pick({3.0, 20.0}) : r.pick({0.0, 0.05, 0.3}); for (int i = 0; i < 3; i++) m.B[i] = B * r.gauss(); if (r.coin(0.3)) m.B[1] = 0; m.Kex = (r.coin() ? 0 : 0.3) * r.gauss();
  std::vector<tdgl_metadata_t> ms(c.T, m); double p[3][6]; for (auto& q : p) for (auto& x : q) x = r.gauss();
  std::vector<ndarray<float>> R, P;
  for (int k = 0; k < c.T; k++) {
    ms[k].time = k; if (r.coin(0.3)) ms[k].Kex += 0.1f * k;
    std::vector<float> a(N), b(N), re(N), im(N);
    for (size_t i = 0; i < N; i++) { double x[4] = {double(i % c.an[0]), double(i / c.an[0] % c.an[1]), double(i / c.an[0] / c.an[1]), (double)k}; double u[2];
      if (kind == 0) u[0] = r.gauss(), u[1] = r.gauss(); else for (int j = 0; j < 2; j++) { u[j] = 0; if (kind == 1) { for (int d = 0; d < 4; d++) u[j] += p[j][d] * (x[d] - (d < 3 ? 0.5 * c.an[d] : 0.5)); } else for (int q = 0; q < 3; q++) { double ph = p[q][5] * 3 + j * p[q][4]; for (int d = 0; d < 4; d++) ph += 0.7 * p[q][d] * x[d]; u[j] += std::sin(ph); } }
      re[i] = u[0]; im[i] = u[1]; a[i] = std::hypot(u[0], u[1]); b[i] = std::atan2(u[1], u[0]); }
    rho.push_back(a); phi.push_back(b);
    t.push_field_data_snapshot(ms[k], arr(c, a, 1), arr(c, b, 1), arr(c, re, 1), arr(c, im, 1)); if (k) t.advance_timestep(); if (k == c.T - 1) t.update_timestep();
  }
  t.finalize(); c.desc += strf(" tdgl kind %d B=(%g %g %g) Kex=%g cell=(%g %g %g)", kind, m.B[0], m.B[1], m.B[2], m.Kex, m.cell_lengths[0], m.cell_lengths[1], m.cell_lengths[2]); vh::note(c.desc);
  uint64_t h = 1; Found F; if (!collect(t, c, F, h)) return h;
  V lb, ub; box(c, lb, ub); size_t yes = 0;
  cpm::freudenthal(lb, ub, 2, [&](const Face& f) {
    double X[3][4], A[3][3], ph[3], rh[3]; for (int i = 0; i < 3; i++) { auto& M = ms[f[i][3]]; for (int j = 0; j < 3; j++) X[i][j] = f[i][j] * (double)M.cell_lengths[j] + M.origins[j]; X[i][3] = f[i][3]; size_t q = c.at(f[i]); ph[i] = phi[f[i][3]][q]; rh[i] = rho[f[i][3]][q];
      if (M.B[1] > 0) { A[i][0] = -M.Kex; A[i][1] = X[i][0] * M.B[2]; A[i][2] = -X[i][0] * M.B[1]; } else { A[i][0] = -X[i][1] * M.B[2] - M.Kex; A[i][1] = 0; A[i][2] = X[i][1] * M.B[0]; } }
    double dl[3], sum = 0, close = 0; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3; double li = 0, mag = 0; for (int d = 0; d < 3; d++) { li += 0.5 * (A[i][d] + A[j][d]) * (X[j][d] - X[i][d]); mag += std::abs(A[i][d]) + std::abs(A[j][d]); } dl[i] = wrap(ph[j] - ph[i] - li); sum += dl[i]; if (M_PI - std::abs(dl[i]) < 1e-4 * (1 + mag)) close = 1; }
    double crit = std::abs(sum) / (2 * M_PI); if (std::abs(crit - 0.5) < 1e-3) close = 1; if (close) return;
    auto it = F.pts.find(f); bool want = crit >= 0.5; yes += want;
    if (want != (it != F.pts.end())) { vh::viol(want ? "vortex-missed" : "vortex-spurious", strf("triangle %s has winding %g, reported %d; %s", cpm::fstr(f).c_str(), sum / (2 * M_PI), (int)!want, c.desc.c_str())); return; }
    if (!want) return;
    const auto& q = it->second; double x[4]; for (int d = 0; d < 3; d++) x[d] = (q.x[d] - m.origins[d]) / m.cell_lengths[d]; x[3] = q.t; double u[3][2], a = ph[0], mu[3], mx = 0; for (int i = 0; i < 3; i++) { if (i) a += dl[i - 1]; u[i][0] = rh[i] * cos(a); u[i][1] = rh[i] * sin(a); mx = std::max(mx, rh[i]); }
    double det = std::abs((u[0][0] - u[2][0]) * (u[1][1] - u[2][1]) - (u[0][1] - u[2][1]) * (u[1][0] - u[2][0]));
    if (det < 1e-2 * mx * mx || mx < 1e-3) return;
    bool in = mu_of(f, x, mu, 1e-3); VH_CHECK(in, "vortex-plane", "point %s is not in the plane of %s; %s", sp(q).c_str(), cpm::fstr(f).c_str(), c.desc.c_str()); if (!in) return;
    double r0 = 0, r1 = 0; for (int i = 0; i < 3; i++) r0 += mu[i] * u[i][0], r1 += mu[i] * u[i][1]; VH_CHECK(std::max(std::abs(r0), std::abs(r1)) <= 2e-3 * mx * (strong ? 20 : 1), "vortex-location", "at %s on %s the interpolated order parameter is (%g %g), magnitudes are up to %g; %s", sp(q).c_str(), cpm::fstr(f).c_str(), r0, r1, mx, c.desc.c_str()); vh::count("vortex_locations");
  });
  std::map<unsigned long long, Face> tf; for (auto& kv : F.pts) tf[kv.second.tag] = kv.first;
  judge_surfaces(c, F, t.surf(), tf, false);
  vh::count("vortices", yes); vh::count(strong ? "strong_field_cases" : "tdgl_cases"); if (r.coin(0.02)) vh::sample("tdgl", c.desc + strf(": %zu pierced", F.pts.size()));
  return F.pts.empty() ? 0 : h;
}
static uint64_t t_tdgl(Rng& r, int64_t) { return tdgl(r, false); }
static uint64_t t_strong(Rng& r, int64_t) { return tdgl(r, true); }
// unstructured meshes: pierced triangles at all timesteps and in between; curves for a single timestep
struct TU : critical_line_tracker_3d_unstructured { TU(std::shared_ptr<simplicial_unstructured_3d_mesh<>> p) : tracker(diy::mpi::communicator()), critical_line_tracker(diy::mpi::communicator()), unstructured_3d_tracker(diy::mpi::communicator(), p), critical_line_tracker_3d_unstructured(diy::mpi::communicator(), p) {} auto& ints() { return intersections; } auto& curves() { return traced_curves; } auto& mesh() { return *m; } };
static uint64_t t_uns(Rng& r, int64_t) {
  UMesh u = gen_mesh3(r, 4); int T = r.pick({1, 1, 2, 3}), nth = r.pick({1, 3}); int kind = r.below(3), nc = 2 + r.below(2); auto mp = std::make_shared<simplicial_unstructured_3d_mesh<>>(u.x, u.cells); TU t(mp); t.set_number_of_threads(nth); t.initialize();
  std::string desc = u.desc + strf(" T=%d kind %d", T, kind); vh::note(desc); double p[3][6]; for (auto& q : p) for (auto& x : q) x = r.gauss(); double s = r.pick({1.0, 3000.0});
  UV_t U; for (int k = 0; k < T; k++) { ndarray<float> a; a.reshape({(size_t)nc, (size_t)u.nv}); a.set_multicomponents(1); std::vector<std::array<double, 3>> v(u.nv); for (int i = 0; i < u.nv; i++) for (int j = 0; j < nc; j++) { double y = kind == 0 ? (double)r.range(-2, 2) : kind == 1 ? s * r.gauss() : p[j][0] * (u.x[3 * i] - 1) + p[j][1] * (u.x[3 * i + 1] - 1) + p[j][2] * (u.x[3 * i + 2] - 1) + 0.3 * p[j][3] + 0.3 * p[j][4] * k; a(j, i) = (float)y; v[i][j] = (float)y; } U.push_back(v); t.push_field_data_snapshot(a); if (k) t.advance_timestep(); if (k == T - 1) t.update_timestep(); }
  t.finalize();
  typedef std::vector<std::array<int, 2>> UF; // (vertex, time)
  std::map<UF, const feature_point_t*> got; uint64_t h = 1; for (auto& kv : t.ints()) { int v[3]; t.mesh().get_simplex(2, kv.first, v); UF f; for (int x : v) f.push_back({x % u.nv, x / u.nv}); std::sort(f.begin(), f.end()); VH_CHECK(got.insert({f, &kv.second}).second, "u-twice", "a triangle is reported twice; %s", desc.c_str()); VH_CHECK(kv.second.tag == kv.first, "u-tag", "tag"); h = vh::hcomb(h, vh::mix(kv.first)); }
  std::set<std::vector<int>> tri, edg; for (size_t i = 0; i < u.cells.size(); i += 4) { int q[4] = {u.cells[i], u.cells[i + 1], u.cells[i + 2], u.cells[i + 3]}; std::sort(q, q + 4); for (int a = 0; a < 4; a++) for (int b = a + 1; b < 4; b++) { edg.insert({q[a], q[b]}); for (int c = b + 1; c < 4; c++) tri.insert({q[a], q[b], q[c]}); } }
  std::vector<UF> faces; for (int k = 0; k < T; k++) { for (auto& f : tri) { faces.push_back({{f[0], k}, {f[1], k}, {f[2], k}}); if (k + 1 < T) { faces.push_back({{f[0], k}, {f[1], k}, {f[2], k + 1}}); faces.push_back({{f[0], k}, {f[1], k + 1}, {f[2], k + 1}}); } } if (k + 1 < T) for (auto& e : edg) { faces.push_back({{e[0], k}, {e[1], k}, {e[1], k + 1}}); faces.push_back({{e[0], k}, {e[0], k + 1}, {e[1], k + 1}}); } }
  std::set<UF> all; size_t yes = 0; for (auto f : faces) { std::sort(f.begin(), f.end()); all.insert(f); I w[3][2]; double d[3][2]; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) { d[i][j] = U[f[i][1]][f[i][0]][j]; w[i][j] = (I)(long long)(2097152.0 * d[i][j]); } Cls c = cpm::origin2(w); auto it = got.find(f); yes += c == cpm::YES;
    if ((c == cpm::YES && it == got.end()) || (c == cpm::NO && it != got.end())) { vh::viol(c == cpm::YES ? "u-missed" : "u-spurious", strf("triangle (%d@%d %d@%d %d@%d): values (%g %g)(%g %g)(%g %g); %s", f[0][0], f[0][1], f[1][0], f[1][1], f[2][0], f[2][1], d[0][0], d[0][1], d[1][0], d[1][1], d[2][0], d[2][1], desc.c_str())); continue; }
    if (it == got.end()) continue; auto& q = *it->second; int t0 = std::min(f[0][1], std::min(f[1][1], f[2][1])), t1 = std::max(f[0][1], std::max(f[1][1], f[2][1])); VH_CHECK(q.ordinal == (t0 == t1) && q.timestep == t0, "u-time", "timestep %d ordinal %d; %s", q.timestep, (int)q.ordinal, desc.c_str());
    long double D[3], S = 0; double mx = 0; for (int i = 0; i < 3; i++) { int a = (i + 1) % 3, b = (i + 2) % 3; D[i] = (long double)d[a][0] * d[b][1] - (long double)d[a][1] * d[b][0]; S += D[i]; mx = std::max(mx, std::max(std::abs(d[i][0]), std::abs(d[i][1]))); }
    if (std::abs((double)S) < 1e-6 * mx * mx || mx < 1e-2) continue; double P[4] = {q.x[0], q.x[1], q.x[2], q.t}; for (int k = 0; k < 4; k++) { double x = 0; for (int i = 0; i < 3; i++) x += (double)(D[i] / S) * (k < 3 ? u.x[3 * f[i][0] + k] : f[i][1]); VH_CHECK(std::abs(P[k] - x) <= 1e-4 * (1 + std::abs(x)), "u-location", "coordinate %d is %g, the zero is at %g; %s", k, P[k], x, desc.c_str()); } vh::count("u_locations"); }
  for (auto& g : got) VH_CHECK(all.count(g.first), "u-outside", "a triangle outside the time range or mesh is reported; %s", desc.c_str());
  if (T == 1) { // every tetrahedron with two pierced sides is a segment of a curve
    std::map<std::array<double, 3>, int> pos; int k = 0; std::map<UF, int> id; bool uniq = true; for (auto& g : got) { id[g.first] = k; if (!pos.insert({{g.second->x[0], g.second->x[1], g.second->x[2]}, k++}).second) uniq = false; }
    std::set<std::pair<int, int>> want, have; for (size_t i = 0; i < u.cells.size(); i += 4) { std::vector<int> s; for (int a = 0; a < 4; a++) { UF f; for (int b = 0; b < 4; b++) if (b != a) f.push_back({u.cells[i + b], 0}); std::sort(f.begin(), f.end()); auto it = id.find(f); if (it != id.end()) s.push_back(it->second); } VH_CHECK(s.empty() || s.size() == 2, "u-tet", "a tetrahedron has %zu pierced sides; %s", s.size(), desc.c_str()); if (s.size() == 2) want.insert({std::min(s[0], s[1]), std::max(s[0], s[1])}); }
    if (uniq) { std::vector<int> seen(k, 0); bool ok = true; for (auto& kv : t.curves()) { int first = -1, prev = -1; for (auto& q : kv.second) { auto it = pos.find({q.x[0], q.x[1], q.x[2]}); if (it == pos.end()) { ok = false; continue; } seen[it->second]++; if (prev >= 0) have.insert({std::min(prev, it->second), std::max(prev, it->second)}); else first = it->second; prev = it->second; } std::pair<int, int> cl{std::min(first, prev), std::max(first, prev)}; if (kv.second.size() > 2 && want.count(cl)) have.insert(cl); }
      for (int n : seen) if (n != 1) ok = false; VH_CHECK(ok, "u-curve-points", "curves do not hold each of the %d points once; %s", k, desc.c_str()); VH_CHECK(want == have, "u-curve-segments", "%zu segments expected, %zu found; %s", want.size(), have.size(), desc.c_str()); vh::count("u_curve_segments", want.size()); } }
  vh::count("u_pierced", yes); vh::count("unstructured_cases"); return yes ? h : 0;
}
VH_MAIN({
  cpm::quiet();
  vh::group("lines", 120, 3000, t_lines);
  vh::group("cores", 90, 2400, t_cores);
  vh::group("unstructured", 150, 3000, t_uns);
  vh::group("tdgl", 60, 1500, t_tdgl);
  vh::group("strong", 40, 800, t_strong);
})
