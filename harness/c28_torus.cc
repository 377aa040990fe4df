// C28: toroidal (poloidal-plane) meshes, magnetic field lines, field-aligned interpolation, regions of interest and blob labels.
#include "vh.hh"
#include <bits/stdc++.h>
#include <ftk/numeric/clamp.hh>
#include <ftk/numeric/fmod.hh>
#include <ftk/ndarray.hh>
#include <ftk/numeric/rk4.hh>
#include <ftk/features/feature_curve_set.hh>
#include <ftk/features/feature_volume.hh>
#include <ftk/filters/xgc_tracker.hh>
#include <ftk/filters/xgc_blob_threshold_tracker.hh>
#include <ftk/mesh/simplicial_xgc_2d_mesh.hh>
#include <ftk/mesh/simplicial_xgc_3d_mesh.hh>
#if FTK_HAVE_VTK
#include <vtkXMLUnstructuredGridReader.h>
#endif
#include "umesh.hh"
using namespace ftk; using vh::Rng; using vh::strf;
typedef std::vector<double> D; typedef std::array<double, 3> P3; typedef std::vector<int> V;
static ndarray<double> arr(const D& f, std::vector<size_t> s, int nc) { ndarray<double> a; a.reshape(s); if (nc) a.set_multicomponents(nc); for (size_t i = 0; i < f.size(); i++) a[i] = f[i]; return a; }
static double maxabs(const D& v) { double m = 0; for (double x : v) m = std::max(m, std::abs(x)); return m; }
struct X2 : simplicial_xgc_2d_mesh<> { using simplicial_xgc_2d_mesh<>::simplicial_xgc_2d_mesh; void set_b(const D& B) { bfield = arr(B, {3, B.size() / 3}, 1); derive_curl_bfield0(); } };
// a poloidal mesh with a linear magnetic field around an axis; field lines stay in the mesh for a while
struct Torus {
  UMesh m; double s, R0, Z0, RA, ZA, lin[9]; D B, psi; V next; std::shared_ptr<X2> x2; std::string desc;
  void b(const double* x, double* o) const { for (int k = 0; k < 3; k++) o[k] = lin[3 * k] + lin[3 * k + 1] * (x[0] - RA) + lin[3 * k + 2] * (x[1] - ZA); }
  bool slope(double R, double Z, double* v) const { double x[2] = {R, Z}, o[3]; b(x, o); v[0] = R * o[0] / o[2]; v[1] = R * o[1] / o[2]; return true; }
  // largest smallest barycentric coordinate, its triangle and coordinates
  int find(double R, double Z, double* mu) const { int best = -1; double bv = -1e300; for (size_t t = 0; t < m.cells.size() / 3; t++) { const int* c = &m.cells[3 * t]; double x0 = m.x[2 * c[0]], y0 = m.x[2 * c[0] + 1], x1 = m.x[2 * c[1]] - x0, y1 = m.x[2 * c[1] + 1] - y0, x2 = m.x[2 * c[2]] - x0, y2 = m.x[2 * c[2] + 1] - y0, A = x1 * y2 - x2 * y1, w1 = ((R - x0) * y2 - (Z - y0) * x2) / A, w2 = ((Z - y0) * x1 - (R - x0) * y1) / A, w0 = 1 - w1 - w2, w = std::min({w0, w1, w2}); if (w > bv) { bv = w; best = t; mu[0] = w0; mu[1] = w1; mu[2] = w2; } } return bv > -1e-9 ? best : -1; }
  bool inside(double R, double Z, double d) const { double mu[3]; for (int k = 0; k < 5; k++) if (find(R + (k == 1 ? d : k == 2 ? -d : 0), Z + (k == 3 ? d : k == 4 ? -d : 0), mu) < 0) return false; return true; }
  // reference field line; false when it comes near the border of the mesh
  bool line(double& R, double& Z, double dphi, int n = 60) const { double h = dphi / n; for (int i = 0; i < n; i++) { if (!inside(R, Z, 0.02 * s)) return false; double k1[2], k2[2], k3[2], k4[2]; slope(R, Z, k1); slope(R + h / 2 * k1[0], Z + h / 2 * k1[1], k2); slope(R + h / 2 * k2[0], Z + h / 2 * k2[1], k3); slope(R + h * k3[0], Z + h * k3[1], k4); R += h / 6 * (k1[0] + 2 * k2[0] + 2 * k3[0] + k4[0]); Z += h / 6 * (k1[1] + 2 * k2[1] + 2 * k3[1] + k4[1]); } return inside(R, Z, 0.02 * s); }
  double at(const double* f, double R, double Z) const { double mu[3]; int t = find(R, Z, mu); double v = 0; for (int k = 0; k < 3; k++) v += mu[k] * f[m.cells[3 * t + k]]; return v; }
};
static Torus torus(Rng& r, int maxn, bool geometry = true) {
  Torus T; T.m = gen_mesh2(r, maxn, true, geometry ? true : r.coin()); for (size_t c = 0; geometry && c < T.m.cells.size(); c += 3) {} T.s = r.pick({0.05, 0.1, 0.3}); T.R0 = r.real(1, 3); T.Z0 = r.real(-1, 1); double mx = 0, my = 0; for (int i = 0; i < T.m.nv; i++) { double jx = T.m.x[2 * i], jy = T.m.x[2 * i + 1]; T.m.x[2 * i] = T.R0 + T.s * jx; T.m.x[2 * i + 1] = T.Z0 + T.s * jy; mx += T.m.x[2 * i]; my += T.m.x[2 * i + 1]; }
  T.RA = mx / T.m.nv + r.real(-.3, .3) * T.s; T.ZA = my / T.m.nv + r.real(-.3, .3) * T.s; double q = r.real(.2, 1.0) * (r.coin() ? 1 : -1), b = r.pick({1.0, -1.0, 2.5, -0.4}), e = r.real(-.1, .1) * T.s; double l[9] = {e, r.real(-.1, .1), -q, e * .5, q, r.real(-.1, .1), b, 0, 0}; for (int k = 0; k < 6; k++) l[k] *= b; if (r.coin(.4)) { l[7] = b * r.real(-.1, .1); l[8] = b * r.real(-.1, .1); } std::copy(l, l + 9, T.lin);
  T.B.resize(3 * T.m.nv); T.psi.resize(T.m.nv); T.next.resize(T.m.nv); for (int i = 0; i < T.m.nv; i++) { T.b(&T.m.x[2 * i], &T.B[3 * i]); T.psi[i] = std::hypot(T.m.x[2 * i] - T.RA, T.m.x[2 * i + 1] - T.ZA) * r.real(.99, 1.01); T.next[i] = r.below(T.m.nv); }
  ndarray<int> tri; tri.reshape({3, T.m.cells.size() / 3}); for (size_t i = 0; i < T.m.cells.size(); i++) tri[i] = T.m.cells[i]; ndarray<int> nn; nn.reshape((size_t)T.m.nv); for (int i = 0; i < T.m.nv; i++) nn[i] = T.next[i];
  T.x2 = std::make_shared<X2>(arr(T.m.x, {2, (size_t)T.m.nv}, 1), tri, arr(T.psi, {(size_t)T.m.nv}, 0), nn); T.x2->set_b(T.B); T.x2->initialize_point_locator(); T.desc = T.m.desc + strf(" scale %g at (%g %g), field %g/%g", T.s, T.R0, T.Z0, q, b); return T;
}
static bool sliver(const UMesh& m, int c) { double x[3], y[3], L = 0; for (int k = 0; k < 3; k++) x[k] = m.x[2 * m.cells[3 * c + k]], y[k] = m.x[2 * m.cells[3 * c + k] + 1]; double A = std::abs((x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0])); for (int k = 0; k < 3; k++) L = std::max(L, std::hypot(x[k] - x[(k + 1) % 3], y[k] - y[(k + 1) % 3])); return A < 0.05 * L * L; }
static Torus good(Rng& r, int maxn) { for (;;) { Torus T = torus(r, maxn); bool ok = true; for (size_t c = 0; c < T.m.cells.size() / 3; c++) if (sliver(T.m, c)) ok = false; if (ok) return T; } }
// --- the periodic mesh
static uint64_t g_topology(Rng& r, int64_t) {
  Torus T = torus(r, r.pick({2, 3, 4}), false); int nphi = r.range(1, 6), iphi = r.pick({1, 1, 2, 3}), vphi = r.pick({1, 1, 2, 3}), np = nphi * iphi * vphi; if (np < 3) { nphi = 3; iphi = vphi = 1; np = 3; } int nv = T.m.nv, N = nv * np; std::string d = T.m.desc + strf(" planes %dx%dx%d", nphi, iphi, vphi); vh::sample("case", d);
  simplicial_xgc_3d_mesh<> m3(T.x2, nphi, iphi, vphi); VH_CHECK((int)m3.np() == np && m3.get_nphi() == nphi && m3.get_iphi() == iphi && m3.get_vphi() == vphi, "planes", "np %zu; %s", m3.np(), d.c_str());
  std::set<V> S[4]; std::vector<std::set<int>> nb(nv);
  for (size_t c = 0; c < T.m.cells.size() / 3; c++) { V t(T.m.cells.begin() + 3 * c, T.m.cells.begin() + 3 * c + 3); std::sort(t.begin(), t.end()); for (int a : t) for (int b : t) if (a != b) nb[a].insert(b); for (int p = 0; p < np; p++) { int q = (p + 1) % np; int a = t[0] + p * nv, b = t[1] + p * nv, e = t[2] + p * nv, A = t[0] + q * nv, B = t[1] + q * nv, E = t[2] + q * nv; for (V x : {V{a, b, e, E}, V{a, b, B, E}, V{a, A, B, E}}) { std::sort(x.begin(), x.end()); S[3].insert(x); } } }
  for (int k = 3; k > 0; k--) for (auto& x : S[k]) for (size_t i = 0; i < x.size(); i++) { V f = x; f.erase(f.begin() + i); S[k - 1].insert(f); }
  std::map<V, int> id[4]; std::vector<V> list[4];
  for (int k = 0; k <= 3; k++) { VH_CHECK(m3.n(k) == S[k].size(), "count", "%zu %d-simplices instead of %zu; %s", m3.n(k), k, S[k].size(), d.c_str()); list[k].resize(m3.n(k));
    for (int i = 0; i < (int)m3.n(k); i++) { int v[4]; m3.get_simplex(k, i, v); V x(v, v + k + 1); list[k][i] = x; vh::count("simplices"); bool sorted = std::is_sorted(x.begin(), x.end()); std::sort(x.begin(), x.end()); VH_CHECK(sorted, "sorted", "the vertices of %d-simplex %d are not in order; %s", k, i, d.c_str()); VH_CHECK(S[k].count(x), "simplex", "%d-simplex %d has vertices that do not form one of the torus; %s", k, i, d.c_str()); VH_CHECK(id[k].insert({x, i}).second, "twice", "%d-simplices %d and %d have the same vertices; %s", k, i, id[k][x], d.c_str()); list[k][i] = x;
      int w[4]; m3.get_simplex(k, i + (int)m3.n(k) * r.range(-1, 1), w); V y(w, w + k + 1); std::sort(y.begin(), y.end()); VH_CHECK(y == x, "periodic", "%d-simplex %d differs one turn away; %s", k, i, d.c_str()); VH_CHECK(m3.transform(k, i + (int)m3.n(k) * r.range(-3, 3)) == i, "transform", "%d-simplex %d is not itself after whole turns; %s", k, i, d.c_str());
      if (k > 0) { V z = x; r.shuffle(z); int j = -1; bool ok = m3.find_simplex(k, z.data(), j); vh::count("lookups"); VH_CHECK(ok && j == i, "find", "%d-simplex %d of %zu is found as %d (%d); %s", k, i, m3.n(k), j, ok, d.c_str()); }
      std::set<int> pl; for (int v : x) pl.insert(v / nv); bool one = pl.size() == 1; int p = *pl.begin(); if (!one && pl.count(0) && pl.count(np - 1)) p = np - 1; VH_CHECK(m3.is_poloidal(k, i) == one, "poloidal", "%d-simplex %d lies in %zu planes, is_poloidal is %d; %s", k, i, pl.size(), m3.is_poloidal(k, i), d.c_str()); VH_CHECK(m3.is_actual_poloidal(k, i) == (one && p % vphi == 0), "actual", "%d-simplex %d lies in %zu planes from %d on, is_actual_poloidal is %d; %s", k, i, pl.size(), p, m3.is_actual_poloidal(k, i), d.c_str()); VH_CHECK(m3.get_poloidal(k, i) == p, "plane-of", "%d-simplex %d of plane %d is said to be of plane %d; %s", k, i, p, m3.get_poloidal(k, i), d.c_str()); } }
  for (int p = 0; p < np; p++) VH_CHECK(m3.is_poloidal(p) == (p % vphi == 0), "plane", "is_poloidal(%d) with %d virtual planes", p, vphi);
  std::vector<std::set<int>> co(list[2].size());
  for (int i = 0; i < (int)list[3].size(); i++) { std::set<int> w; for (int k = 0; k < 4; k++) { V f = list[3][i]; f.erase(f.begin() + k); if (id[2].count(f)) { w.insert(id[2][f]); co[id[2][f]].insert(i); } } auto g = m3.sides(3, i); vh::count("sides"); VH_CHECK(g == w, "sides", "tetrahedron %d has %zu sides that are not its faces; %s", i, g.size(), d.c_str()); }
  for (int i = 0; i < (int)list[2].size(); i++) { auto g = m3.side_of(2, i); vh::count("cofaces"); VH_CHECK(g == co[i], "side-of", "triangle %d has %zu tetrahedra instead of %zu; %s", i, g.size(), co[i].size(), d.c_str()); }
  std::vector<std::set<int>> ad(N); for (auto& e : list[1]) ad[e[0]].insert(e[1]), ad[e[1]].insert(e[0]);
  for (int i = 0; i < N; i++) { auto g = m3.get_vertex_edge_vertex(i); int p = i / nv; std::set<int> need{i % nv + (p + 1) % np * nv, i % nv + (p + np - 1) % np * nv}; for (int j : nb[i % nv]) need.insert(j + p * nv); bool a = std::includes(g.begin(), g.end(), need.begin(), need.end()), b = std::includes(ad[i].begin(), ad[i].end(), g.begin(), g.end()); vh::count("neighbours", g.size()); VH_CHECK(a && b, "neighbours", "the neighbours of vertex %d %s; %s", i, a ? "include vertices without an edge to it" : "miss some", d.c_str()); }
  return vh::mix(nv * 1009 + np * 31 + vphi + (uint64_t)T.m.cells[0] * 77 + T.m.cells.size());
}
static uint64_t g_coords(Rng& r, int64_t) {
  Torus T = torus(r, 5); int nphi = r.range(2, 7), iphi = r.pick({1, 1, 2}), vphi = r.pick({1, 2, 3}), np = nphi * iphi * vphi, nv = T.m.nv; std::string d = T.desc + strf(" planes %dx%dx%d", nphi, iphi, vphi); simplicial_xgc_3d_mesh<> m3(T.x2, nphi, iphi, vphi); vh::sample("case", d);
  auto want = [&](int i) { double phi = 2 * M_PI * (i / nv) / np, R = T.m.x[2 * (i % nv)]; return P3{R * std::cos(phi), R * std::sin(phi), T.m.x[2 * (i % nv) + 1]}; };
  for (int i = 0; i < nv * np; i++) { double x[5] = {7, 7, 7, 7, 7}, y[3] = {0, 0, 0}; m3.get_coords_rzp(i, y); m3.get_coords(i, x); P3 w = want(i); double e = 0; for (int k = 0; k < 3; k++) e = std::max(e, std::abs(x[k] - w[k])); vh::count("coordinates"); VH_CHECK(y[0] == T.m.x[2 * (i % nv)] && y[1] == T.m.x[2 * (i % nv) + 1] && y[2] == i / nv, "rzp", "vertex %d of plane %d is at (%g %g %g); %s", i % nv, i / nv, y[0], y[1], y[2], d.c_str()); VH_CHECK(e <= 1e-12 * (std::abs(w[0]) + std::abs(w[1]) + 1), "xyz", "vertex %d of plane %d is at (%g %g %g) instead of (%g %g %g); %s", i % nv, i / nv, x[0], x[1], x[2], w[0], w[1], w[2], d.c_str()); VH_CHECK(x[3] == 7 && x[4] == 7, "xyz-overrun", "more than three coordinates are written"); }
#if FTK_HAVE_VTK
  { auto grid = m3.to_vtu_slices(); vh::count("grids"); bool ok = grid->GetNumberOfPoints() == nv * np && grid->GetNumberOfCells() == (long)T.m.cells.size() / 3 * np; VH_CHECK(ok, "slices", "the grid has %lld points and %lld cells; %s", (long long)grid->GetNumberOfPoints(), (long long)grid->GetNumberOfCells(), d.c_str()); for (int i = 0; ok && i < nv * np; i++) { double* x = grid->GetPoint(i); P3 w = want(i); for (int k = 0; k < 3; k++) ok &= std::abs(x[k] - w[k]) < 1e-5 * (1 + std::abs(w[k])); } std::multiset<V> a, b; for (long i = 0; ok && i < grid->GetNumberOfCells(); i++) { V v; for (int k = 0; k < 3; k++) v.push_back(grid->GetCell(i)->GetPointId(k)); std::sort(v.begin(), v.end()); a.insert(v); } for (int p = 0; p < np; p++) for (size_t c = 0; c < T.m.cells.size() / 3; c++) { V v; for (int k = 0; k < 3; k++) v.push_back(T.m.cells[3 * c + k] + p * nv); std::sort(v.begin(), v.end()); b.insert(v); } VH_CHECK(ok && a == b, "slices", "the points or triangles of the grid are wrong; %s", d.c_str());
    if (np >= 3) { auto g3 = m3.to_vtu_solid(); std::multiset<V> t3, w3; for (long i = 0; i < g3->GetNumberOfCells(); i++) { V v; for (int k = 0; k < (int)g3->GetCell(i)->GetNumberOfPoints(); k++) v.push_back(g3->GetCell(i)->GetPointId(k)); std::sort(v.begin(), v.end()); t3.insert(v); } for (int i = 0; i < (int)m3.n(3); i++) { int v[4]; m3.get_simplex(3, i, v); V x(v, v + 4); std::sort(x.begin(), x.end()); w3.insert(x); } bool pos = g3->GetNumberOfPoints() == nv * np; for (int i = 0; pos && i < nv * np; i++) { double* x = g3->GetPoint(i); P3 w = want(i); for (int k = 0; k < 3; k++) pos &= std::abs(x[k] - w[k]) < 1e-5 * (1 + std::abs(w[k])); } VH_CHECK(pos && t3 == w3, "solid", "the points or tetrahedra of the solid grid are wrong (%lld points, %lld cells); %s", (long long)g3->GetNumberOfPoints(), (long long)g3->GetNumberOfCells(), d.c_str()); } }
#endif
  return vh::mix(nv * 1009 + np * 31 + vh::dbits(T.m.x[0]));
}
// --- field lines
static uint64_t g_lines(Rng& r, int64_t) {
  Torus T = good(r, r.pick({5, 8, 11})); auto& M = *T.x2; int nv = T.m.nv; vh::sample("case", T.desc); uint64_t h = nv; double bm = maxabs(T.B);
  xgc_units_t u; u.psi_x = r.pick({0.25, 1.0, -0.7}); u.eq_axis_r = T.RA; u.eq_axis_z = T.ZA; M.set_units(u);
  for (int q = 0; q < 30; q++) { int c = r.below(T.m.cells.size() / 3); double w[3] = {r.real(.02, 1), r.real(.02, 1), r.real(.02, 1)}, ws = w[0] + w[1] + w[2], x[3] = {0, 0, r.real(-7, 7)}, ps = 0; for (int k = 0; k < 3; k++) { w[k] /= ws; for (int l = 0; l < 2; l++) x[l] += w[k] * T.m.x[2 * T.m.cells[3 * c + k] + l]; ps += w[k] * T.psi[T.m.cells[3 * c + k]]; } double B[3], e[3]; T.b(x, e); bool ok = M.eval_b(x, B); vh::count("field_points"); VH_CHECK(ok && std::abs(B[0] - e[0]) + std::abs(B[1] - e[1]) + std::abs(B[2] - e[2]) <= 1e-6 * bm, "eval-b", "the field at (%g %g) is (%g %g %g) instead of (%g %g %g); %s", x[0], x[1], B[0], B[1], B[2], e[0], e[1], e[2], T.desc.c_str()); VH_CHECK(std::abs(M.eval_psi(x) - ps) <= 1e-6 * maxabs(T.psi) && std::abs(M.eval_psin(x) - ps / u.psi_x) <= 1e-6 * maxabs(T.psi) / std::abs(u.psi_x), "eval-psi", "psi at (%g %g) is %g (normalised %g) instead of %g; %s", x[0], x[1], M.eval_psi(x), M.eval_psin(x), ps, T.desc.c_str()); VH_CHECK(std::abs(M.theta(x[0], x[1]) - std::atan2(x[1] - T.ZA, x[0] - T.RA)) < 1e-12, "theta", "the poloidal angle of (%g %g) around (%g %g) is %g", x[0], x[1], T.RA, T.ZA, M.theta(x[0], x[1])); }
  { double x[3] = {T.R0 + 1e3, T.Z0, 0}, B[3] = {1, 1, 1}; VH_CHECK(!M.eval_b(x, B), "eval-outside", "the field is evaluated outside the mesh"); x[0] = T.R0 + 1e3; VH_CHECK(!M.magnetic_map(x, 1.0), "map-outside", "a field line outside the mesh is followed"); VH_CHECK(std::isnan(M.eval_psi(x)), "psi-outside", "psi is evaluated outside the mesh"); }
  for (int i = 0; i < nv; i++) { VH_CHECK(std::abs(M.psin(i) - T.psi[i] / u.psi_x) <= 1e-12 * std::abs(T.psi[i] / u.psi_x), "psin", "normalised psi of vertex %d", i); auto b0 = M.get_bfield0(); double n = std::sqrt(T.B[3 * i] * T.B[3 * i] + T.B[3 * i + 1] * T.B[3 * i + 1] + T.B[3 * i + 2] * T.B[3 * i + 2]); for (int k = 0; k < 3; k++) VH_CHECK(std::abs(b0(k, i) - T.B[3 * i + k] / n) < 1e-12, "unit-field", "component %d of the unit field at vertex %d is %g instead of %g; %s", k, i, b0(k, i), T.B[3 * i + k] / n, T.desc.c_str()); }
  { // curl of the unit field, from gradients bounded by those of the incident triangles
    std::vector<std::array<double, 12>> bd(nv); for (auto& b : bd) for (int k = 0; k < 6; k++) b[2 * k] = 1e300, b[2 * k + 1] = -1e300; auto b0 = M.get_bfield0(); auto& C = M.get_curl_bfield0(); double gm = 0;
    for (size_t c = 0; c < T.m.cells.size() / 3; c++) { const int* t = &T.m.cells[3 * c]; double x[3], y[3]; for (int k = 0; k < 3; k++) x[k] = T.m.x[2 * t[k]], y[k] = T.m.x[2 * t[k] + 1]; double A = (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]); for (int comp = 0; comp < 3; comp++) { double g[2] = {0, 0}; for (int k = 0; k < 3; k++) { int a = (k + 1) % 3, b = (k + 2) % 3; g[0] += b0(comp, t[k]) * (y[a] - y[b]) / A; g[1] += b0(comp, t[k]) * (x[b] - x[a]) / A; } for (int l = 0; l < 2; l++) { gm = std::max(gm, std::abs(g[l])); for (int k = 0; k < 3; k++) { auto& b = bd[t[k]]; int o = 2 * (2 * comp + l); b[o] = std::min(b[o], g[l]); b[o + 1] = std::max(b[o + 1], g[l]); } } } }
    for (int i = 0; i < nv; i++) { auto& b = bd[i]; auto lo = [&](int comp, int l) { return b[2 * (2 * comp + l)]; }; auto hi = [&](int comp, int l) { return b[2 * (2 * comp + l) + 1]; }; double t = 1e-9 * (gm + 1), f = b0(2, i) / T.m.x[2 * i]; bool ok = C(0, i) >= -hi(2, 1) - t && C(0, i) <= -lo(2, 1) + t && C(1, i) >= f + lo(2, 0) - t && C(1, i) <= f + hi(2, 0) + t && C(2, i) >= lo(0, 1) - hi(1, 0) - t && C(2, i) <= hi(0, 1) - lo(1, 0) + t; vh::count("curls"); VH_CHECK(ok, "curl", "the curl of the unit field at vertex %d is (%g %g %g), not among those of its triangles; %s", i, C(0, i), C(1, i), C(2, i), T.desc.c_str()); } }
  for (int q = 0; q < 12; q++) { int v = r.below(nv); double R = T.m.x[2 * v] + r.real(-.4, .4) * T.s, Z = T.m.x[2 * v + 1] + r.real(-.4, .4) * T.s, p0 = r.pick({0.0, 0.0, r.real(-7, 7)}), dp = r.real(-1.5, 1.5); double R1 = R, Z1 = Z; if (!T.line(R1, Z1, dp)) { vh::count("lines_leaving"); continue; } int ns = r.pick({100, 100, 60, 200}); double x[3] = {R, Z, p0}; bool ok = ns == 100 ? M.magnetic_map(x, p0 + dp) : M.magnetic_map(x, p0 + dp, ns); vh::count("lines"); h = vh::hcomb(h, vh::dbits(R1)); double tol = 1e-5 * T.s;
    VH_CHECK(ok, "map-lost", "a field line inside the mesh from (%g %g) over %g is lost; %s", R, Z, dp, T.desc.c_str()); if (!ok) continue; VH_CHECK(std::abs(x[0] - R1) <= tol && std::abs(x[1] - Z1) <= tol, "map", "the field line from (%g %g) reaches (%.9g %.9g) instead of (%.9g %.9g) after %g (%d steps); %s", R, Z, x[0], x[1], R1, Z1, dp, ns, T.desc.c_str()); VH_CHECK(std::abs(x[2] - p0 - dp) < 1e-9, "map-angle", "a field line from angle %g ends at %g instead of %g", p0, x[2], p0 + dp);
    double y[3] = {R, Z, p0}, mid = p0 + dp * r.real(.1, .9); bool a = M.magnetic_map(y, mid, 150) && M.magnetic_map(y, p0 + dp, 150); VH_CHECK(a && std::abs(y[0] - R1) <= tol && std::abs(y[1] - Z1) <= tol, "map-compose", "a field line followed in two pieces ends at (%g %g) instead of (%g %g); %s", y[0], y[1], R1, Z1, T.desc.c_str()); bool b = M.magnetic_map(x, p0, 150); VH_CHECK(b && std::abs(x[0] - R) <= tol && std::abs(x[1] - Z) <= tol, "map-back", "a field line followed back ends at (%g %g) instead of (%g %g); %s", x[0], x[1], R, Z, T.desc.c_str()); double z[3] = {R, Z, p0}; M.magnetic_map(z, p0); VH_CHECK(z[0] == R && z[1] == Z, "map-null", "a field line of no length moves"); }
  return vh::mix(h);
}
// --- interpolation between poloidal planes
static uint64_t g_planes(Rng& r, int64_t idx) {
  Torus T = good(r, r.pick({5, 7, 9})); int nphi = r.range(3, 10), iphi = r.pick({1, 1, 2}), vphi = r.range(2, 5), nv = T.m.nv, np = nphi * vphi * iphi; std::string d = T.desc + strf(" planes %dx%dx%d", nphi, iphi, vphi); vh::sample("case", d); auto m3 = std::make_shared<simplicial_xgc_3d_mesh<>>(T.x2, nphi, iphi, vphi); m3->initialize_interpolants();
  if (r.coin(.4)) { std::string fn = vh::opt().dir + strf("/interp%d", (int)idx); m3->write_interpolants(fn); m3 = std::make_shared<simplicial_xgc_3d_mesh<>>(T.x2, nphi, iphi, vphi); m3->read_interpolants(fn); remove(fn.c_str()); vh::count("reloaded_interpolants"); }
  bool konst = r.coin(.15); D f((size_t)nv * nphi), g(2 * f.size()), J(4 * f.size()); for (auto& x : f) x = konst ? 2.5 : r.gauss(); for (auto& x : g) x = r.gauss(); for (auto& x : J) x = r.gauss(); auto A = arr(f, {(size_t)nv, (size_t)nphi}, 0), G = arr(g, {2, (size_t)nv, (size_t)nphi}, 1), H = arr(J, {2, 2, (size_t)nv, (size_t)nphi}, 2); auto W = m3->interpolate(A); double fm = maxabs(f), dphi = 2 * M_PI / (nphi * iphi);
  VH_CHECK(W.nelem() == (size_t)nv * nphi * vphi, "interp-size", "%zu interpolated values; %s", W.nelem(), d.c_str()); if (W.nelem() != (size_t)nv * nphi * vphi) return 1;
  std::vector<std::vector<std::array<double, 5>>> pos(vphi, std::vector<std::array<double, 5>>(nv)); for (int v = 1; v < vphi; v++) for (int i = 0; i < nv; i++) { auto& q = pos[v][i]; double b = (double)v / vphi; q[0] = q[2] = T.m.x[2 * i]; q[1] = q[3] = T.m.x[2 * i + 1]; q[4] = T.line(q[0], q[1], -b * dphi, 25) && T.line(q[2], q[3], (1 - b) * dphi, 25); vh::count(q[4] ? "lines_inside" : "lines_at_border"); }
  auto gc = [&](const D& a, int n, int c, int p) { D o(nv); for (int i = 0; i < nv; i++) o[i] = a[((size_t)p * nv + i) * n + c]; return o; };
  uint64_t h = nv; for (int P = 0; P < np; P++) { int p = P % (nphi * vphi), p0 = p / vphi, p1 = (p0 + 1) % nphi, v = p % vphi; double b = (double)v / vphi; D f0 = gc(f, 1, 0, p0), f1 = gc(f, 1, 0, p1), g0[2], g1[2], j0[4], j1[4]; for (int c = 0; c < 2; c++) g0[c] = gc(g, 2, c, p0), g1[c] = gc(g, 2, c, p1); for (int c = 0; c < 4; c++) j0[c] = gc(J, 4, c, p0), j1[c] = gc(J, 4, c, p1);
    double lo = 1e300, hi = -1e300; for (int i = 0; i < nv; i++) lo = std::min({lo, f0[i], f1[i]}), hi = std::max({hi, f0[i], f1[i]});
    for (int i = 0; i < nv; i++) { int id = P * nv + i; double s = m3->interpolate(A, id), fv[1], gv[2], jv[2][2]; m3->interpolate(A, G, H, id, fv, gv, jv); double w = W[(size_t)p * nv + i]; vh::count("interpolated"); VH_CHECK(std::abs(s - w) <= 1e-10 * fm && std::abs(fv[0] - w) <= 1e-10 * fm, "interp-agree", "vertex %d of plane %d is interpolated as %g alone, %g with derivatives and %g in the whole; %s", i, P, s, fv[0], w, d.c_str()); h = vh::hcomb(h, (uint64_t)(int64_t)(w * 1e5));
      if (v == 0) { bool same = w == f0[i] && gv[0] == g0[0][i] && gv[1] == g0[1][i]; for (int c = 0; c < 4; c++) same &= jv[c / 2][c % 2] == j0[c][i]; VH_CHECK(same, "interp-plane", "vertex %d of plane %d differs from its own value; %s", i, P, d.c_str()); continue; }
      VH_CHECK(w >= lo - 1e-6 * fm && w <= hi + 1e-6 * fm, "interp-range", "vertex %d of plane %d is interpolated as %g from values in [%g %g]; %s", i, P, w, lo, hi, d.c_str()); auto& q = pos[v][i]; if (!q[4]) continue;
      auto want = [&](const D& a, const D& c) { return (1 - b) * T.at(a.data(), q[0], q[1]) + b * T.at(c.data(), q[2], q[3]); }; double e = want(f0, f1); vh::count("along_lines"); VH_CHECK(std::abs(w - e) <= 1e-4 * fm, "interp-line", "vertex %d of plane %d (%d of %d between %d and %d) is interpolated as %g instead of %g along the field line; %s", i, P, v, vphi, p0, p1, w, e, d.c_str()); if (r.coin(.3)) { bool ok = true; for (int c = 0; c < 2; c++) ok &= std::abs(gv[c] - want(g0[c], g1[c])) <= 1e-3; for (int c = 0; c < 4; c++) ok &= std::abs(jv[c / 2][c % 2] - want(j0[c], j1[c])) <= 1e-3; VH_CHECK(ok, "interp-derivatives", "the derivatives of vertex %d of plane %d are not those along the field line; %s", i, P, d.c_str()); } } }
  return vh::mix(h);
}
// --- perturbed fields
static uint64_t g_perturb(Rng& r, int64_t) {
  Torus T = good(r, r.pick({5, 7})); auto& M = *T.x2; int nv = T.m.nv, np = r.pick({2, 4, 6, 3, 5}); std::string d = T.desc + strf(" planes %d", np); vh::sample("case", d); uint64_t h = nv * 10 + np; auto b0 = M.get_bfield0(); auto C = M.get_curl_bfield0();
  { // linear potentials; in even numbers of alternating planes the toroidal derivative vanishes
    int per = np % 2 ? 1 : 2; D a(3 * np); for (int p = 0; p < np; p++) for (int k = 0; k < 3; k++) a[3 * p + k] = p < per ? r.gauss() : a[3 * (p % per) + k]; D A((size_t)nv * np); for (int p = 0; p < np; p++) for (int i = 0; i < nv; i++) A[(size_t)p * nv + i] = a[3 * p] + a[3 * p + 1] * T.m.x[2 * i] + a[3 * p + 2] * T.m.x[2 * i + 1]; auto As = arr(A, {(size_t)nv, (size_t)np}, 0); auto dB = M.derive_delta_B(As), tB = M.derive_total_B(As); bool size = dB.nelem() == (size_t)3 * nv * np && tB.nelem() == dB.nelem(); VH_CHECK(size, "delta-size", "%zu values; %s", dB.nelem(), d.c_str());
    if (size) for (int p = 0; p < np; p++) for (int i = 0; i < nv; i++) { double g[3] = {a[3 * p + 1], a[3 * p + 2], 0}, A0 = A[(size_t)p * nv + i], w[3] = {g[1] * b0(2, i) - g[2] * b0(1, i), g[2] * b0(0, i) - g[0] * b0(2, i), g[0] * b0(1, i) - g[1] * b0(0, i)}; vh::count("perturbations"); for (int k = 0; k < 3; k++) { double e = w[k] + A0 * C(k, i), t = 1e-6 * (maxabs(a) + maxabs(A)) * (1 + std::abs(C(k, i))); VH_CHECK(std::abs(dB(k, i, p) - e) <= t, "delta", "component %d of the perturbation at vertex %d of plane %d of %d is %g instead of %g; %s", k, i, p, np, dB(k, i, p), e, d.c_str()); VH_CHECK(std::abs(tB(k, i, p) - e - T.B[3 * i + k]) <= t + 1e-12 * maxabs(T.B), "total", "component %d of the total field at vertex %d of plane %d is %g instead of %g; %s", k, i, p, tB(k, i, p), e + T.B[3 * i + k], d.c_str()); } } }
  if (np >= 3) { // toroidal differences enter the perturbation across the field in the plane (with or without the factor 1/R)
    D a(3 * np); for (auto& x : a) x = r.gauss(); D A((size_t)nv * np); for (int p = 0; p < np; p++) for (int i = 0; i < nv; i++) A[(size_t)p * nv + i] = a[3 * p] + a[3 * p + 1] * T.m.x[2 * i] + a[3 * p + 2] * T.m.x[2 * i + 1]; auto dB = M.derive_delta_B(arr(A, {(size_t)nv, (size_t)np}, 0)); double t = 1e-6 * (maxabs(a) + maxabs(A)); int which[2] = {0, 0};
    for (int p = 0; p < np; p++) for (int i = 0; i < nv; i++) { double g[2] = {a[3 * p + 1], a[3 * p + 2]}, A0 = A[(size_t)p * nv + i], w[3] = {g[1] * b0(2, i), -g[0] * b0(2, i), g[0] * b0(1, i) - g[1] * b0(0, i)}, dA = (A[(size_t)((p + 1) % np) * nv + i] - A[(size_t)((p + np - 1) % np) * nv + i]) / (4 * M_PI / np), R = T.m.x[2 * i]; double e[2] = {0, 0}; for (int k = 0; k < 3; k++) { double u = k == 0 ? -b0(1, i) : k == 1 ? b0(0, i) : 0, x = dB(k, i, p) - w[k] - A0 * C(k, i); double s = 1 + std::abs(C(k, i)) ; e[0] = std::max(e[0], std::abs(x - dA * u) / s); e[1] = std::max(e[1], std::abs(x - dA * u / R) / s); } vh::count("toroidal"); for (int k = 0; k < 2; k++) which[k] += e[k] <= t; }
    VH_CHECK(which[0] == nv * np || which[1] == nv * np, "delta-toroidal", "toroidal differences enter the perturbation as expected for %d (or, divided by R, %d) of %d vertices only; %s", which[0], which[1], nv * np, d.c_str()); }
  { // numbering the planes from another one turns the result
    D A((size_t)nv * np), B(A.size()); int k = r.range(1, np - 1); for (auto& x : A) x = r.gauss(); for (int p = 0; p < np; p++) for (int i = 0; i < nv; i++) B[(size_t)((p + k) % np) * nv + i] = A[(size_t)p * nv + i]; auto x = M.derive_delta_B(arr(A, {(size_t)nv, (size_t)np}, 0)), y = M.derive_delta_B(arr(B, {(size_t)nv, (size_t)np}, 0)); double m = 0, e = 0; for (int p = 0; p < np; p++) for (int i = 0; i < nv; i++) for (int c = 0; c < 3; c++) { m = std::max(m, std::abs(x(c, i, p))); e = std::max(e, std::abs(x(c, i, p) - y(c, i, (p + k) % np))); } vh::count("turned"); VH_CHECK(e <= 1e-9 * m, "delta-turn", "the perturbation of a field turned by %d of %d planes differs by %g of %g from the turned perturbation; %s", k, np, e, m, d.c_str()); }
  { // the total field between planes, along field lines
    int n = std::max(np, 4); D B((size_t)3 * nv * n); for (auto& x : B) x = r.gauss(); auto tB = arr(B, {3, (size_t)nv, (size_t)n}, 2); for (int q = 0; q < 10; q++) { int v = r.below(nv); double R = T.m.x[2 * v] + r.real(-.4, .4) * T.s, Z = T.m.x[2 * v + 1] + r.real(-.4, .4) * T.s; int p = q % n; double b = r.pick({r.real(.05, .95), .5}), dphi = 2 * M_PI / n, phi = (p + b) * dphi + 2 * M_PI * r.pick({0, 0, 0, 1, -1}); double R0 = R, Z0 = Z, R1 = R, Z1 = Z; if (!T.line(R0, Z0, -b * dphi) || !T.line(R1, Z1, (1 - b) * dphi)) continue; double x[3] = {R, Z, phi}, o[3] = {0, 0, 0}; bool ok = M.eval_total_B(tB, x, o); vh::count("total_points"); if (p == n - 1) vh::count("total_wrapped"); VH_CHECK(ok, "total-lost", "the total field at (%g %g %g) of %d planes cannot be evaluated; %s", R, Z, phi, n, d.c_str()); if (!ok) continue; for (int c = 0; c < 3; c++) { D a(nv), e(nv); for (int i = 0; i < nv; i++) a[i] = B[3 * ((size_t)p * nv + i) + c], e[i] = B[3 * ((size_t)((p + 1) % n) * nv + i) + c]; double w = (1 - b) * T.at(a.data(), R0, Z0) + b * T.at(e.data(), R1, Z1); VH_CHECK(std::abs(o[c] - w) <= 1e-4 * maxabs(B), "total-point", "component %d of the total field at (%g %g) and angle %g (after plane %d of %d) is %g instead of %g; %s", c, R, Z, phi, p, n, o[c], w, d.c_str()); h = vh::hcomb(h, (uint64_t)(int64_t)(w * 1e5)); } } }
  return vh::mix(h);
}
// --- smoothing, normalised fluctuations and rotation plane by plane
static uint64_t g_derive(Rng& r, int64_t) {
  Torus T = good(r, r.pick({5, 7})); auto& M = *T.x2; int nv = T.m.nv, nphi = r.range(3, 8), iphi = r.pick({1, 1, 2}), vphi = r.pick({1, 1, 2}); std::string d = T.desc + strf(" planes %dx%dx%d", nphi, iphi, vphi); vh::sample("case", d); simplicial_xgc_3d_mesh<> m3(T.x2, nphi, iphi, vphi); D f((size_t)nv * nphi); for (auto& x : f) x = r.gauss(); auto A = arr(f, {(size_t)nv, (size_t)nphi}, 0); double fm = maxabs(f); auto plane = [&](const D& a, int p) { return arr(D(a.begin() + (size_t)p * nv, a.begin() + (size_t)(p + 1) * nv), {(size_t)nv}, 0); };
  M.build_smoothing_kernel(T.s * r.pick({.4, .8, 1.5})); { auto S0 = m3.smooth_scalar(A); ndarray<double> S, G, H; if (r.coin(.3)) m3.smooth_scalar_gradient_jacobian(arr(D(f.size(), 3.0), {(size_t)nv, (size_t)nphi}, 0), S, G, H); m3.smooth_scalar_gradient_jacobian(A, S, G, H); bool size = S0.nelem() == f.size() && S.nelem() == f.size() && G.nelem() == 2 * f.size() && H.nelem() == 4 * f.size(); VH_CHECK(size, "smooth-size", "%zu %zu %zu %zu values; %s", S0.nelem(), S.nelem(), G.nelem(), H.nelem(), d.c_str());
    if (size) for (int p = 0; p < nphi; p++) { ndarray<double> s, g, j; M.smooth_scalar_gradient_jacobian(plane(f, p), s, g, j); double sm = 1e-300, gm = sm, jm = sm; for (size_t i = 0; i < s.nelem(); i++) sm = std::max(sm, std::abs(s[i])); for (size_t i = 0; i < g.nelem(); i++) gm = std::max(gm, std::abs(g[i])); for (size_t i = 0; i < j.nelem(); i++) jm = std::max(jm, std::abs(j[i])); bool ok = true; for (int i = 0; i < nv; i++) { size_t q = (size_t)p * nv + i; vh::count("smoothed"); ok &= std::abs(S0[q] - s[i]) <= 1e-9 * sm && std::abs(S[q] - s[i]) <= 1e-9 * sm; for (int c = 0; c < 2; c++) ok &= std::abs(G[2 * q + c] - g[2 * i + c]) <= 1e-9 * gm; for (int c = 0; c < 4; c++) ok &= std::abs(H[4 * q + c] - j[4 * i + c]) <= 1e-9 * jm; } VH_CHECK(ok, "smooth-plane", "plane %d of %d is not smoothed like the same field on a single plane; %s", p, nphi, d.c_str()); } }
  { // fluctuations of the potential about its toroidal mean in units of the interpolated temperature
    int n = r.range(2, 12); double lo = *std::min_element(T.psi.begin(), T.psi.end()), hi = *std::max_element(T.psi.begin(), T.psi.end()), w = hi - lo + 1e-9; D ps; double a = lo + w * r.real(-.3, .4), b = hi - w * r.real(-.3, .4); for (int k = 0; k < n; k++) ps.push_back(a + (b - a) * (k + (k && k < n - 1 ? r.real(-.3, .3) : 0)) / (n - 1)); D t1, t2, de, ed(f.size()); for (int k = 0; k < n; k++) t1.push_back(r.real(1, 5)), t2.push_back(r.real(1, 5)), de.push_back(r.real(1, 5)); for (auto& x : ed) x = r.gauss(); D z(nv, 0); for (auto& x : z) x = r.gauss(); auto a1 = [&](const D& v) { return arr(v, {v.size()}, 0); };
    if (a < b) { auto W = m3.derive_turbulence(A, a1(z), a1(z), arr(ed, {(size_t)nv, (size_t)nphi}, 0), a1(ps), a1(de), a1(t1), a1(t2)); VH_CHECK(W.nelem() == f.size(), "turbulence-size", "%zu values", W.nelem()); if (W.nelem() == f.size()) for (int i = 0; i < nv; i++) { double te, x = T.psi[i], mean = 0; auto T0 = [&](int k) { return 2 * (t1[k] + t2[k]) / 3; }; if (x < ps[0]) te = T0(0), vh::count("below_profile"); else if (x >= ps[n - 1]) te = T0(n - 1), vh::count("above_profile"); else { int k = std::upper_bound(ps.begin(), ps.end(), x) - ps.begin() - 1; te = T0(k) + (T0(k + 1) - T0(k)) * (x - ps[k]) / (ps[k + 1] - ps[k]); } for (int p = 0; p < nphi; p++) mean += f[(size_t)p * nv + i] / nphi; for (int p = 0; p < nphi; p++) { double e = (f[(size_t)p * nv + i] - mean) / te; vh::count("fluctuations"); VH_CHECK(std::abs(W[(size_t)p * nv + i] - e) <= 1e-6 * fm, "turbulence", "the normalised fluctuation at vertex %d of plane %d is %g instead of %g; %s", i, p, W[(size_t)p * nv + i], e, d.c_str()); } } } }
  { // every plane seen from the first along field lines
    m3.initialize_rotational_interpolants(); auto W = m3.rotate(A); double dphi = 2 * M_PI / (nphi * iphi); VH_CHECK(W.nelem() == f.size(), "rotate-size", "%zu values", W.nelem()); if (W.nelem() == f.size()) for (int i = 0; i < nv; i++) { double R = T.m.x[2 * i], Z = T.m.x[2 * i + 1]; bool in = true; for (int p = 0; p < nphi; p++) { D g(f.begin() + (size_t)p * nv, f.begin() + (size_t)(p + 1) * nv); double w = W[(size_t)p * nv + i]; if (p == 0) { VH_CHECK(w == g[i], "rotate-first", "vertex %d of the first plane changes; %s", i, d.c_str()); continue; } in = in && T.line(R, Z, dphi); if (in) { double e = T.at(g.data(), R, Z); vh::count("rotated"); VH_CHECK(std::abs(w - e) <= 1e-4 * fm, "rotate", "vertex %d of plane %d of %d is rotated to %g instead of %g; %s", i, p, nphi, w, e, d.c_str()); } else VH_CHECK(std::isnan(w) || (w >= *std::min_element(g.begin(), g.end()) - 1e-6 * fm && w <= *std::max_element(g.begin(), g.end()) + 1e-6 * fm), "rotate-range", "vertex %d of plane %d is rotated to %g; %s", i, p, w, d.c_str()); } } }
  return vh::mix(nv * 31 + nphi * 7 + vh::dbits(f[0]));
}
// --- regions of interest
static uint64_t g_roi(Rng& r, int64_t) {
  Torus T = torus(r, 8); auto& M = *T.x2; int nv = T.m.nv; xgc_units_t u; u.psi_x = T.s * r.real(.5, 4); u.eq_axis_r = T.RA; u.eq_axis_z = T.ZA; M.set_units(u); double p0 = r.real(0, .8), p1 = p0 + r.real(0, 1.5), t0 = r.pick({-180.0, -60.0, r.real(-180, 90)}), t1 = t0 + r.real(5, 180); M.initialize_roi(p0, p1, t0, t1); if (r.coin(.3)) { M.initialize_roi(); p0 = .9; p1 = 1.05; t0 = -60; t1 = 60; } std::string d = T.desc + strf(" psi %g..%g theta %g..%g", p0, p1, t0, t1); vh::sample("case", d);
  std::set<int> want, got(M.get_roi_nodes().begin(), M.get_roi_nodes().end()), near; for (int i = 0; i < nv; i++) { double th = std::atan2(T.m.x[2 * i + 1] - T.ZA, T.m.x[2 * i] - T.RA) * 180 / M_PI, ps = T.psi[i] / u.psi_x; if (th >= t0 && th <= t1 && ps >= p0 && ps <= p1) want.insert(i); if (std::min({std::abs(th - t0), std::abs(th - t1), std::abs(ps - p0), std::abs(ps - p1)}) < 1e-9) near.insert(i); } if (!near.empty()) return 1;
  vh::count("roi_nodes", want.size()); VH_CHECK(got == want && M.get_roi_nodes().size() == want.size(), "roi", "the region has %zu vertices instead of %zu; %s", M.get_roi_nodes().size(), want.size(), d.c_str()); V n2r, r2n; std::multiset<V> tw; for (size_t c = 0; c < T.m.cells.size() / 3; c++) { V t(T.m.cells.begin() + 3 * c, T.m.cells.begin() + 3 * c + 3); std::sort(t.begin(), t.end()); if (want.count(t[0]) && want.count(t[1]) && want.count(t[2])) tw.insert(t); } auto R = M.new_roi_mesh(n2r, r2n);
  if (tw.empty()) { vh::count("roi_without_triangles"); } else vh::count("roi_meshes");
  VH_CHECK((int)n2r.size() == nv && r2n.size() == want.size(), "roi-maps", "node maps of %zu and %zu; %s", n2r.size(), r2n.size(), d.c_str()); if ((int)n2r.size() != nv || r2n.size() != want.size()) return 1;
  for (int i = 0; i < nv; i++) { bool in = want.count(i); VH_CHECK(in == (n2r[i] >= 0) && (!in || (n2r[i] < (int)r2n.size() && r2n[n2r[i]] == i)), "roi-maps", "vertex %d maps to %d and back to another; %s", i, n2r[i], d.c_str()); }
  if (tw.empty()) return vh::mix(nv + want.size());
  VH_CHECK(R->n(0) == want.size() && R->n(2) == tw.size(), "roi-mesh", "the region's mesh has %zu vertices and %zu triangles instead of %zu and %zu; %s", R->n(0), R->n(2), want.size(), tw.size(), d.c_str()); std::multiset<V> tg; for (int i = 0; i < (int)R->n(2); i++) { int t[3]; R->get_simplex(2, i, t); V v; for (int k : t) v.push_back(r2n.at(k)); std::sort(v.begin(), v.end()); tg.insert(v); } VH_CHECK(tg == tw, "roi-mesh", "the region's triangles are not those of the mesh; %s", d.c_str());
  for (int i = 0; i < (int)r2n.size(); i++) { double x[3]; R->get_coords(i, x); int o = r2n[i]; bool ok = x[0] == T.m.x[2 * o] && x[1] == T.m.x[2 * o + 1] && R->get_psifield()[i] == T.psi[o]; for (int k = 0; k < 3; k++) ok &= R->get_bfield()(k, i) == T.B[3 * o + k]; vh::count("roi_vertices"); VH_CHECK(ok, "roi-data", "vertex %d of the region does not carry the position, psi and field of vertex %d; %s", i, o, d.c_str()); }
  return vh::mix(nv * 37 + want.size() * 3 + tw.size() + vh::dbits(p0));
}
// --- blobs
struct TT : xgc_blob_threshold_tracker { TT(std::shared_ptr<simplicial_xgc_3d_mesh<>> m) : xgc_blob_threshold_tracker(diy::mpi::communicator(), m) {} };
static int root(V& p, int i) { while (p[i] != i) i = p[i] = p[p[i]]; return i; }
static uint64_t g_blobs(Rng& r, int64_t) {
  Torus T = good(r, r.pick({4, 6, 8})); int nphi = r.range(3, 6), vphi = r.pick({1, 1, 2, 3}), nv = T.m.nv, np = nphi * vphi, N = nv * np, nt = r.range(1, 4); bool smooth = r.coin(.25); std::string d = T.desc + strf(" planes %dx%d timesteps %d smoothed %d", nphi, vphi, nt, smooth); vh::sample("case", d);
  xgc_units_t u; u.psi_x = T.s * r.real(1, 4); u.eq_axis_r = T.RA; u.eq_axis_z = T.ZA; T.x2->set_units(u); double sg = T.s * .6; if (smooth) T.x2->build_smoothing_kernel(sg);
  auto m3 = std::make_shared<simplicial_xgc_3d_mesh<>>(T.x2, nphi, 1, vphi); m3->initialize_interpolants(); TT tr(m3); double th = r.coin(.3) ? 0 : r.real(-.5, 1.2); tr.set_threshold(th); tr.set_number_of_threads(r.pick({1, 2, 5, 8})); tr.initialize(); bool ints = r.coin(.3); if (ints) th = r.range(-1, 1), tr.set_threshold(th);
  std::vector<ndarray<double>> F; for (int t = 0; t < nt; t++) { D f((size_t)nv * nphi); for (auto& x : f) x = ints ? r.range(-2, 2) : r.gauss(); auto A = arr(f, {(size_t)nv, (size_t)nphi}, 0); tr.push_field_data_snapshot(A); F.push_back(smooth ? m3->smooth_scalar(A) : A); if (t) tr.advance_timestep(); if (t + 1 == nt) tr.update_timestep();
    double sum = 0, n = 0, va = 0; auto nodes = T.x2->get_roi_nodes(); for (int p = 0; p < nphi; p++) for (int i : nodes) sum += f[p * nv + i], n++; for (int p = 0; p < nphi; p++) for (int i : nodes) va += std::pow(f[p * nv + i] - sum / n, 2); if (n > 1) { double e = 2 * std::sqrt(va / n), g = tr.derive_threshold(A, 2.0); vh::count("deviations"); VH_CHECK(std::abs(g - e) <= 1e-9 * (e + 1), "sigma", "two standard deviations over %d planes of %zu vertices are %g instead of %g; %s", nphi, nodes.size(), g, e, d.c_str()); } }
  tr.finalize();
  std::vector<char> above((size_t)N * nt); std::vector<std::set<int>> nb(nv); for (size_t c = 0; c < T.m.cells.size(); c += 3) for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) if (a != b) nb[T.m.cells[c + a]].insert(T.m.cells[c + b]);
  for (int t = 0; t < nt; t++) { auto W = vphi == 1 ? F[t] : m3->interpolate(F[t]); for (int i = 0; i < N; i++) { double x = m3->interpolate(F[t], i); if (std::abs(x - th) < 1e-9 && vphi > 1 && i / nv % vphi) return 1; above[(size_t)t * N + i] = W[i] >= th; } }
  V lo(N * nt), hi(N * nt); std::iota(lo.begin(), lo.end(), 0); std::iota(hi.begin(), hi.end(), 0); std::vector<char> linked(N * nt, 0); auto join = [&](int a, int b, bool prism) { if (!above[a] || !above[b]) return; hi[root(hi, a)] = root(hi, b); if (prism) lo[root(lo, a)] = root(lo, b), linked[a] = linked[b] = 1; };
  for (int t = 0; t < nt; t++) for (int p = 0; p < np; p++) for (int i = 0; i < nv; i++) { int a = t * N + p * nv + i; for (int j : nb[i]) { join(a, t * N + p * nv + j, true); int q = (p + 1) % np; if (j > i) join(a, t * N + q * nv + j, false); } join(a, t * N + (p + 1) % np * nv + i, true); if (t + 1 < nt) join(a, a + N, true); }
  std::map<int, int> l2r; std::map<int, int> r2l; std::set<int> labels; for (int t = 0; t < nt; t++) { auto L = tr.get_sliced(t); VH_CHECK((int)L.nelem() == N, "labels", "%zu labels for %d vertices", L.nelem(), N); if ((int)L.nelem() != N) return 1; for (int i = 0; i < N; i++) { int a = t * N + i; vh::count("labels"); if (!above[a]) { VH_CHECK(L[i] == -1, "label-below", "vertex %d below the threshold at timestep %d has label %d; %s", i, t, L[i], d.c_str()); continue; } if (!linked[a] && L[i] == -1) { vh::count("isolated"); continue; } VH_CHECK(L[i] >= 0, "label-missing", "vertex %d above the threshold at timestep %d of %d has no label; %s", i, t, nt, d.c_str()); if (L[i] < 0) continue; vh::count("labelled"); labels.insert(L[i]); int c = root(lo, a), k = root(hi, a);
      auto x = r2l.insert({c, L[i]}); VH_CHECK(x.first->second == L[i], "label-split", "connected vertices above the threshold have labels %d and %d (timestep %d, vertex %d of plane %d); %s", x.first->second, L[i], t, i % nv, i / nv, d.c_str()); auto y = l2r.insert({L[i], k}); VH_CHECK(y.first->second == k, "label-joined", "label %d is given to vertices that are not connected (timestep %d, vertex %d); %s", L[i], t, i, d.c_str()); } }
  if (nt > 1) vh::count("tracked"); vh::count("blobs", labels.size()); if (labels.size() > 1) vh::count("several_blobs"); return vh::mix(N * 7 + nt + labels.size() * 1009 + vh::dbits(th));
}
// --- files
#if FTK_HAVE_HDF5
template <class Tp> static void h5put(hid_t f, const std::string& name, const std::vector<Tp>& v, std::vector<hsize_t> dims, hid_t ty) { size_t s = name.find_last_of('/'); if (s != std::string::npos && s > 0) { hid_t g = H5Gcreate2(f, name.substr(0, s).c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); if (g >= 0) H5Gclose(g); } hid_t sp = H5Screate_simple(dims.size(), dims.data(), NULL), d = H5Dcreate2(f, name.c_str(), ty, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dwrite(d, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()); H5Dclose(d); H5Sclose(sp); }
static uint64_t g_files(Rng& r, int64_t idx) {
  Torus T = torus(r, 6); int nv = T.m.nv; hsize_t n = nv, nc = T.m.cells.size() / 3; std::string b = vh::opt().dir + strf("/x%d", (int)idx), mf = b + ".mesh.h5", bf = b + ".bfield.h5", uf = b + ".units.m", ff = b + ".3d.h5"; vh::sample("case", T.desc); int nphi = r.range(1, 64), iphi = r.range(0, 3);
  { hid_t f = H5Fcreate(mf.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); h5put(f, "/cell_set[0]/node_connect_list", T.m.cells, {nc, 3}, H5T_NATIVE_INT); h5put(f, "/coordinates/values", T.m.x, {n, 2}, H5T_NATIVE_DOUBLE); h5put(f, "/psi", T.psi, {n}, H5T_NATIVE_DOUBLE); h5put(f, "/nextnode", T.next, {n}, H5T_NATIVE_INT); H5Fclose(f); f = H5Fcreate(bf.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); h5put(f, "/node_data[0]/values", T.B, {n, 3}, H5T_NATIVE_DOUBLE); H5Fclose(f); f = H5Fcreate(ff.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); h5put(f, "/nphi", V{nphi}, {1}, H5T_NATIVE_INT); h5put(f, "/iphi", V{iphi}, {1}, H5T_NATIVE_INT); H5Fclose(f); }
  double px = r.real(.1, 1), ar = r.real(1, 2), az = r.real(-1, 1); { FILE* f = fopen(uf.c_str(), "w"); fprintf(f, " sml_totalpe = 512;\n psi_x = %.16e;\n eq_axis_r =%.16e;\neq_axis_z= %.16e;\n sml_dt = 1.0E-7;\n", px, ar, az); fclose(f); }
  auto M = simplicial_xgc_2d_mesh<>::from_xgc_mesh_file(mf); M->initialize_point_locator(); M->read_bfield(bf); bool un = M->read_units_m(uf); vh::count("meshes_read"); VH_CHECK(M->n(0) == (size_t)nv && M->n(2) == (size_t)nc, "file-mesh", "%zu vertices and %zu triangles read", M->n(0), M->n(2)); bool ok = M->n(0) == (size_t)nv; for (int i = 0; ok && i < nv; i++) { double x[3]; M->get_coords(i, x); ok = x[0] == T.m.x[2 * i] && x[1] == T.m.x[2 * i + 1] && M->get_psifield()[i] == T.psi[i] && M->nextnode(i) == T.next[i]; for (int k = 0; k < 3; k++) ok &= M->get_bfield()(k, i) == T.B[3 * i + k]; } VH_CHECK(ok, "file-data", "a vertex differs from the file; %s", T.desc.c_str()); std::multiset<V> a, c; for (int i = 0; i < (int)nc; i++) { int t[3]; M->get_simplex(2, i, t); V v(t, t + 3), w(T.m.cells.begin() + 3 * i, T.m.cells.begin() + 3 * i + 3); std::sort(v.begin(), v.end()); std::sort(w.begin(), w.end()); a.insert(v); c.insert(w); } VH_CHECK(a == c, "file-triangles", "the triangles differ from the file; %s", T.desc.c_str());
  VH_CHECK(un && M->get_units().psi_x == px && M->get_units().eq_axis_r == ar && M->get_units().eq_axis_z == az && M->get_units().sml_totalpe == 512, "file-units", "units read as psi_x %g axis (%g %g)", M->get_units().psi_x, M->get_units().eq_axis_r, M->get_units().eq_axis_z); VH_CHECK(!M->read_units_m(uf + "-missing"), "file-units", "a missing units file is read"); simplicial_xgc_3d_mesh<> m3(M); m3.set_vphi(2); m3.probe_nphi_iphi(ff); VH_CHECK(m3.get_nphi() == nphi && m3.get_iphi() == std::max(1, iphi), "file-planes", "%d planes and %d periods read instead of %d and %d", m3.get_nphi(), m3.get_iphi(), nphi, iphi); VH_CHECK((int)m3.np() == nphi * std::max(1, iphi) * 2, "file-planes", "%zu planes", m3.np());
  for (auto& f : {mf, bf, uf, ff}) remove(f.c_str()); return vh::mix(nv + nc * 31 + nphi * 7 + vh::dbits(px));
}
#endif
VH_MAIN({
  vh::group("topology", 500, 8000, g_topology); vh::group("coords", 300, 5000, g_coords); vh::group("lines", 500, 12000, g_lines); vh::group("planes", 250, 5000, g_planes); vh::group("perturb", 300, 6000, g_perturb); vh::group("derive", 250, 5000, g_derive); vh::group("roi", 1200, 20000, g_roi); vh::group("blobs", 400, 8000, g_blobs);
#if FTK_HAVE_HDF5
  vh::group("files", 150, 2000, g_files);
#endif
})
