// C29: MPAS ocean meshes: a Voronoi mesh of the sphere is generated (own convex hull), written to NetCDF and read by ftk; the mesh's cell
// location, interpolation and derived vectors, and the particles traced through its layers are compared with an independent model.
#include "vh.hh"
#include <ftk/numeric/clamp.hh>
#include <ftk/numeric/fmod.hh>
#include <ftk/ndarray.hh>
#include <ftk/numeric/inverse_linear_interpolation_solver.hh>
#include <ftk/numeric/vector_normalization.hh>
#include <ftk/numeric/rk4.hh>
#include <ftk/features/feature_curve_set.hh>
#if FTK_HAVE_VTK
#include <vtkUnstructuredGrid.h>
#include <vtkXMLUnstructuredGridWriter.h>
#include <vtkCell.h>
#include <vtkPolyData.h>
#include <vtkPointData.h>
#include <vtkXMLPolyDataReader.h>
#include <vtkSmartPointer.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include "c26_shim.cc"
#endif
#include <ftk/mesh/mpas_mesh.hh>
#include <ftk/filters/particle_tracer_mpas_ocean.hh>
#include <ftk/io/mpas_stream.hh>
#include <netcdf.h>
using namespace ftk; using vh::Rng; using vh::strf;
typedef std::array<double, 3> V3; typedef std::vector<double> D;
static V3 operator+(V3 a, V3 b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static V3 operator-(V3 a, V3 b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static V3 operator*(double s, V3 a) { return {s * a[0], s * a[1], s * a[2]}; }
static double dot(V3 a, V3 b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V3 cross(V3 a, V3 b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static double len(V3 a) { return std::sqrt(dot(a, a)); }
static V3 unit(V3 a) { return (1 / len(a)) * a; }
static double R0 = 6371229.0, FILL = -1e34;
struct Tri { int a, b, c; };
static std::vector<Tri> hull(const std::vector<V3>& p) { // convex hull of points on the sphere: their Delaunay triangulation
  std::vector<Tri> f; int n = p.size(); auto vol = [&](Tri t, V3 q) { return dot(cross(p[t.b] - p[t.a], p[t.c] - p[t.a]), q - p[t.a]); };
  int i3 = 3; while (i3 < n && std::abs(vol({0, 1, 2}, p[i3])) < 1e-6) i3++; if (i3 == n) return {};
  for (Tri t : std::vector<Tri>{{0, 1, 2}, {0, 1, i3}, {0, 2, i3}, {1, 2, i3}}) { V3 c = 0.25 * (p[0] + p[1] + p[2] + p[i3]); if (vol(t, c) > 0) std::swap(t.b, t.c); f.push_back(t); }
  for (int q = 3; q < n; q++) { if (q == i3) continue; std::vector<Tri> keep; std::map<std::pair<int, int>, int> e; for (Tri t : f) if (vol(t, p[q]) > 1e-13) { e[{t.a, t.b}]++; e[{t.b, t.c}]++; e[{t.c, t.a}]++; } else keep.push_back(t);
    for (auto& k : e) if (!e.count({k.first.second, k.first.first})) keep.push_back({k.first.first, k.first.second, q}); f = keep; }
  return f;
}
struct Mesh { std::vector<V3> c, v, e; std::vector<std::array<int, 3>> vc; std::vector<std::vector<int>> cv, cc, ce; std::vector<std::array<int, 2>> ec; // -1: none
  std::vector<int> cid, vid, eid; int maxe; bool simple, land; int nl; std::vector<D> rest; std::vector<char> vb; std::vector<V3> mu; std::vector<V3> drop; std::string desc; };
static bool mesh(Rng& r, Mesh& m) {
  int n = r.pick({12, 20, 30, 42, 60, 90}); std::vector<V3> p; for (int i = 0; i < n; i++) p.push_back(unit({r.gauss(), r.gauss(), r.gauss()})); std::vector<Tri> t;
  for (int it = 0;; it++) { t = hull(p); if ((int)t.size() != 2 * n - 4) return false; if (it == 40) break; std::vector<V3> s(n, V3{0, 0, 0}); // towards a centroidal mesh
    for (Tri f : t) { V3 g = p[f.a] + p[f.b] + p[f.c]; double w = len(cross(p[f.b] - p[f.a], p[f.c] - p[f.a])); for (int k : {f.a, f.b, f.c}) s[k] = s[k] + w * (g); } for (int i = 0; i < n; i++) p[i] = unit(s[i]); }
  V3 hole = unit({r.gauss(), r.gauss(), r.gauss()}); m.land = r.coin(0.6); double cap = m.land ? r.real(0.2, 0.9) : 9; std::vector<int> keep, back(n, -1); for (int i = 0; i < n; i++) if (std::acos(dot(p[i], hole)) > cap || !m.land) keep.push_back(i);
  m.drop.clear(); for (int i = 0; i < n; i++) if (!std::count(keep.begin(), keep.end(), i)) m.drop.push_back(p[i]);
  r.shuffle(keep); for (size_t i = 0; i < keep.size(); i++) back[keep[i]] = i; int nc = keep.size(); if (nc < 4) return false; m.land = nc < n;
  m.c.clear(); m.v.clear(); m.e.clear(); m.vc.clear(); m.ec.clear(); m.vb.clear(); m.mu.clear(); for (int i : keep) m.c.push_back(R0 * p[i]); r.shuffle(t); m.cv.assign(nc, {}); m.cc.assign(nc, {}); m.ce.assign(nc, {});
  for (Tri f : t) { int k[3] = {f.a, f.b, f.c}; int o = r.below(3); std::array<int, 3> a; bool any = false, all = true; for (int j = 0; j < 3; j++) { a[j] = back[k[(j + o) % 3]]; any |= a[j] >= 0; all &= a[j] >= 0; } if (!any) continue;
    V3 A = p[k[o]], B = p[k[(o + 1) % 3]], C = p[k[(o + 2) % 3]]; double x = dot(B - C, B - C), y = dot(C - A, C - A), z = dot(A - B, A - B); V3 q = {x * (y + z - x), y * (z + x - y), z * (x + y - z)}; double s = q[0] + q[1] + q[2];
    for (int j = 0; j < 3; j++) { q[j] /= s; if (all && q[j] < 0.02) return false; } m.mu.push_back(q); m.vb.push_back(!all);
    int id = m.v.size(); m.v.push_back(R0 * unit(cross(B - A, C - A))); m.vc.push_back(a); for (int j = 0; j < 3; j++) if (a[j] >= 0) m.cv[a[j]].push_back(id); }
  m.maxe = 0; for (int i = 0; i < nc; i++) { auto& w = m.cv[i]; V3 z = unit(m.c[i]), x = unit(cross(z, std::abs(z[0]) < 0.5 ? V3{1, 0, 0} : V3{0, 1, 0})), y = cross(z, x); std::sort(w.begin(), w.end(), [&](int a, int b) { return std::atan2(dot(m.v[a], y), dot(m.v[a], x)) < std::atan2(dot(m.v[b], y), dot(m.v[b], x)); });
    int o = r.below(w.size()); std::rotate(w.begin(), w.begin() + o, w.end()); m.maxe = std::max(m.maxe, (int)w.size()); }
  if (m.maxe > 9) return false;
  std::map<std::pair<int, int>, int> em; std::vector<std::pair<int, int>> el; // an edge is a pair of Voronoi vertices
  for (int i = 0; i < nc; i++) for (size_t j = 0; j < m.cv[i].size(); j++) { int a = m.cv[i][j], b = m.cv[i][(j + 1) % m.cv[i].size()]; auto k = std::minmax(a, b); if (!em.count(k)) { em[k] = 0; el.push_back(k); } }
  r.shuffle(el); for (size_t i = 0; i < el.size(); i++) { em[el[i]] = i; m.ec.push_back({-1, -1}); m.e.push_back({0, 0, 0}); }
  for (int i = 0; i < nc; i++) for (size_t j = 0; j < m.cv[i].size(); j++) { int a = m.cv[i][j], b = m.cv[i][(j + 1) % m.cv[i].size()]; int e = em[std::minmax(a, b)]; m.ce[i].push_back(e); if (m.ec[e][0] < 0) m.ec[e][0] = i; else m.ec[e][1] = i; m.e[e] = R0 * unit(m.v[a] + m.v[b]); }
  for (auto& e : m.ec) if (r.coin()) std::swap(e[0], e[1]);
  for (int i = 0; i < nc; i++) for (int e : m.ce[i]) m.cc[i].push_back(m.ec[e][0] == i ? m.ec[e][1] : m.ec[e][0]);
  m.maxe += r.below(3); m.simple = r.coin(0.6); int kinds = m.simple ? 0 : r.pick({1, 2, 4, 3, 7, 7}), kind = 1; // which of the three id maps are not 1, 2, 3, ...
  auto ids = [&](int k) { std::vector<int> o(k); for (int i = 0; i < k; i++) o[i] = i + 1; bool other = kinds & kind; kind <<= 1; if (other) { r.shuffle(o); int s = r.pick({1, 1, 3}), q = r.pick({0, 5, 1000}); for (int& x : o) x = x * s + q; } return o; };
  m.cid = ids(nc); m.vid = ids(m.v.size()); m.eid = ids(m.e.size());
  m.nl = r.pick({2, 3, 5, 10, 30}); m.rest.assign(nc, D(m.nl)); double dz = r.pick({10.0, 100.0, 500.0}); for (auto& a : m.rest) for (auto& b : a) b = dz * r.real(0.5, 1.5);
  m.desc = strf("mesh of %d cells, %zu vertices, %zu edges, %d layers, %d edges at most%s%s", nc, m.v.size(), m.e.size(), m.nl, m.maxe, m.simple ? "" : ", other ids", m.land ? ", with land" : "");
  return true;
}
struct Fields { int T; std::vector<D> X, Y, Z, S, Te, zt, vv; std::vector<std::string> when; std::vector<double> sec; std::vector<int> bottom; }; // [t][cell * levels + level]
static Fields fields(Rng& r, const Mesh& m, int T) {
  Fields f; f.T = T; int nc = m.c.size(), nl = m.nl; V3 w = 1e-6 * V3{r.gauss(), r.gauss(), r.gauss()}; double speed = r.pick({0.0, 1.0, 20.0, 100.0, 300.0}), vs = r.pick({0.0, 1e-5, 1e-3, 1e-2}); int kind = r.pick({0, 1, 1, 1, 2, 3}); bool bathy = r.coin(0.5);
  for (int i = 0; i < nc; i++) f.bottom.push_back(bathy && r.coin(0.3) ? (int)r.below(nl + 1) : nl);
  int year = r.pick({1, 6, 1958, 1999, 2001, 2020, 2023}), shift = year < 1900 ? 2000 : 0; std::tm q0{}; q0.tm_year = year + shift - 1900; q0.tm_mon = r.below(12); q0.tm_mday = 1 + r.below(28); q0.tm_hour = r.below(24); std::time_t base = timegm(&q0); double now = 0;
  for (int t = 0; t < T; t++) { std::time_t q = base + (std::time_t)now; std::tm g; gmtime_r(&q, &g); int y = g.tm_year + 1900 - shift;
    f.when.push_back(strf("%04d-%02d-%02d_%02d:%02d:%02d", y, g.tm_mon + 1, g.tm_mday, g.tm_hour, g.tm_min, g.tm_sec)); f.sec.push_back(now); now += r.pick({86400.0, 86400.0, 5 * 86400.0, 21600.0, 3600.0, 30 * 86400.0, 43200.0});
    D X(nc * nl), Y(nc * nl), Z(nc * nl), S(nc * nl), Te(nc * nl), zt(nc * nl), vv(nc * (nl + 1));
    for (int i = 0; i < nc; i++) { double z = kind == 3 ? 0.0 : r.real(0.0, 2.0); V3 u = unit(m.c[i]), own = speed * V3{r.gauss(), r.gauss(), r.gauss()};
      for (int l = 0; l <= nl; l++) { bool dry = l >= f.bottom[i]; V3 v = kind == 0 ? cross(w, m.c[i]) : kind == 1 ? (1 - 0.5 * l / nl) * own : speed * V3{r.gauss(), r.gauss(), r.gauss()}; if (kind == 2) v = (1 + 0.1 * t) * cross(w, m.c[i]) + 0.1 * speed * V3{r.gauss(), r.gauss(), r.gauss()}; v = v - dot(v, u) * u;
        vv[i * (nl + 1) + l] = dry ? FILL : vs * r.gauss(); if (l == nl) continue; size_t k = i * nl + l;
        X[k] = dry ? FILL : v[0]; Y[k] = dry ? FILL : v[1]; Z[k] = dry ? FILL : v[2]; S[k] = dry ? FILL : 35 + r.gauss(); Te[k] = dry ? FILL : 10 + 5 * r.gauss(); zt[k] = dry ? FILL : z; z -= m.rest[i][l] * r.real(0.9, 1.1); } }
    f.X.push_back(X); f.Y.push_back(Y); f.Z.push_back(Z); f.S.push_back(S); f.Te.push_back(Te); f.zt.push_back(zt); f.vv.push_back(vv); }
  return f;
}
#define NC(x) do { int e_ = (x); if (e_) { vh::viol("harness-netcdf", strf("%s: %s", #x, nc_strerror(e_))); return; } } while (0)
static void save(const Mesh& m, const Fields& f, const std::string& path) {
  int nc, dt, dc, dv, de, d2, d3, dm, dl, dl1, ds; NC(nc_create(path.c_str(), NC_CLOBBER | NC_64BIT_OFFSET, &nc)); size_t C = m.c.size(), V = m.v.size(), E = m.e.size();
  NC(nc_def_dim(nc, "Time", NC_UNLIMITED, &dt)); NC(nc_def_dim(nc, "nCells", C, &dc)); NC(nc_def_dim(nc, "nVertices", V, &dv)); NC(nc_def_dim(nc, "nEdges", E, &de)); NC(nc_def_dim(nc, "TWO", 2, &d2)); NC(nc_def_dim(nc, "vertexDegree", 3, &d3)); NC(nc_def_dim(nc, "maxEdges", m.maxe, &dm)); NC(nc_def_dim(nc, "nVertLevels", m.nl, &dl)); NC(nc_def_dim(nc, "nVertLevelsP1", m.nl + 1, &dl1)); NC(nc_def_dim(nc, "StrLen", 64, &ds));
  std::vector<std::function<int()>> later; std::list<std::vector<int>> keepi; std::list<D> keepd;
  auto ints = [&](const char* name, std::vector<int> dims, std::vector<int> v) { int q; nc_def_var(nc, name, NC_INT, dims.size(), dims.data(), &q); keepi.push_back(v); int* p = keepi.back().data(); later.push_back([=] { return nc_put_var_int(nc, q, p); }); };
  auto dbls = [&](const char* name, std::vector<int> dims, D v) { int q; nc_def_var(nc, name, NC_DOUBLE, dims.size(), dims.data(), &q); keepd.push_back(v); double* p = keepd.back().data(); later.push_back([=] { return nc_put_var_double(nc, q, p); }); };
  auto rows = [&](const auto& tab, const std::vector<int>& ids, size_t width, int none) { std::vector<int> o; for (auto& row : tab) for (size_t j = 0; j < width; j++) o.push_back(j < row.size() && row[j] >= 0 ? ids[row[j]] : none); return o; };
  ints("cellsOnVertex", {dv, d3}, rows(m.vc, m.cid, 3, 0)); ints("cellsOnEdge", {de, d2}, rows(m.ec, m.cid, 2, 0)); ints("cellsOnCell", {dc, dm}, rows(m.cc, m.cid, m.maxe, 0)); ints("edgesOnCell", {dc, dm}, rows(m.ce, m.eid, m.maxe, 0)); ints("verticesOnCell", {dc, dm}, rows(m.cv, m.vid, m.maxe, 0));
  { std::vector<int> k; for (auto& w : m.cv) k.push_back(w.size()); ints("nEdgesOnCell", {dc}, k); } ints("indexToCellID", {dc}, m.cid); ints("indexToVertexID", {dv}, m.vid); ints("indexToEdgeID", {de}, m.eid);
  for (int k = 0; k < 3; k++) { const char* nm[3][3] = {{"xCell", "xVertex", "xEdge"}, {"yCell", "yVertex", "yEdge"}, {"zCell", "zVertex", "zEdge"}}; D a, b, c; for (auto& p : m.c) a.push_back(p[k]); for (auto& p : m.v) b.push_back(p[k]); for (auto& p : m.e) c.push_back(p[k]); dbls(nm[k][0], {dc}, a); dbls(nm[k][1], {dv}, b); dbls(nm[k][2], {de}, c); }
  { D a; for (auto& q : m.rest) a.insert(a.end(), q.begin(), q.end()); dbls("restingThickness", {dc, dl}, a); }
  auto series = [&](const char* name, std::vector<int> dims, const std::vector<D>& s) { int q; nc_def_var(nc, name, NC_DOUBLE, 3, dims.data(), &q); size_t L = dims[2] == dl1 ? m.nl + 1 : m.nl; for (int t = 0; t < f.T; t++) { const double* p = s[t].data(); later.push_back([=] { size_t st[3] = {(size_t)t, 0, 0}, sz[3] = {1, C, L}; return nc_put_vara_double(nc, q, st, sz, p); }); } };
  series("velocityX", {dt, dc, dl}, f.X); series("velocityY", {dt, dc, dl}, f.Y); series("velocityZ", {dt, dc, dl}, f.Z); series("salinity", {dt, dc, dl}, f.S); series("temperature", {dt, dc, dl}, f.Te); series("zTop", {dt, dc, dl}, f.zt); series("vertVelocityTop", {dt, dc, dl1}, f.vv);
  { int dims[2] = {dt, ds}, q; nc_def_var(nc, "xtime", NC_CHAR, 2, dims, &q); for (int t = 0; t < f.T; t++) { std::string s = f.when[t]; s.resize(64, ' '); later.push_back([=] { size_t st[2] = {(size_t)t, 0}, sz[2] = {1, 64}; return nc_put_vara_text(nc, q, st, sz, s.c_str()); }); } }
  NC(nc_enddef(nc)); for (auto& g : later) NC(g()); NC(nc_close(nc));
}
// --- model
struct Loc { int cell; bool near; };
static Loc locate(const Mesh& m, V3 x) { Loc o{-1, false}; V3 u = unit(x); double b = -2, b2 = -2; int i = -1; for (size_t k = 0; k < m.c.size(); k++) { double d = dot(u, m.c[k]) / R0; if (d > b) { b2 = b; b = d; i = k; } else b2 = std::max(b2, d); }
  for (auto& q : m.drop) { double d = dot(u, q); if (std::abs(d - b) < 1e-9) o.near = true; if (d > b) return o; } if (b - b2 < 1e-9) o.near = true; o.cell = i; return o; }
static double area(V3 a, V3 b, V3 c) { return 0.5 * len(cross(b - a, c - a)); }
static D wach(const Mesh& m, int c, V3 x) { auto& w = m.cv[c]; int n = w.size(); D o(n); double s = 0; for (int i = 0; i < n; i++) { V3 p = m.v[w[(i + n - 1) % n]], q = m.v[w[i]], t = m.v[w[(i + 1) % n]]; o[i] = area(p, q, t) / (area(x, p, q) * area(x, q, t)); s += o[i]; } for (double& y : o) y /= s; return o; }
struct VF { std::vector<D> a[7]; int nl; }; // vertex fields per time: vx vy vz zTop vv S T; [t][v * levels + l]
static D c2v(const Mesh& m, const D& a, int L) { D o(m.v.size() * L); for (size_t v = 0; v < m.v.size(); v++) for (int l = 0; l < L; l++) { double s = 0; bool bad = false; if (!m.vb[v]) for (int j = 0; j < 3; j++) { double q = a[m.vc[v][j] * L + l]; if (q < -1e33) bad = true; s += m.mu[v][j] * q; } o[v * L + l] = bad ? NAN : s; } return o; }
struct Ev { bool ok, near; V3 v; double vv, S, T; int cell, layer; };
static Ev ev1(const Mesh& m, const VF& f, int t, V3 x) {
  Ev e{false, false, {0, 0, 0}, 0, 0, 0, -1, -1}; Loc c = locate(m, x); e.near = c.near; e.cell = c.cell; if (c.cell < 0) return e; D w = wach(m, c.cell, x); int L = m.nl; double z = len(x) - R0; D top(L, 0);
  for (int l = 0; l < L; l++) { for (size_t i = 0; i < w.size(); i++) top[l] += w[i] * f.a[3][t][m.cv[c.cell][i] * L + l]; if (std::abs(z - top[l]) < 1e-5) e.near = true; }
  for (int l = 0; l + 1 < L; l++) if (z <= top[l] && z > top[l + 1]) e.layer = l; if (e.layer < 0) return e; int l = e.layer; double al = (z - top[l + 1]) / (top[l] - top[l + 1]); if (top[l] - top[l + 1] < 1e-3) e.near = true; double o[7] = {0};
  for (int k = 0; k < 7; k++) { int K = k == 4 ? L + 1 : L; for (size_t i = 0; i < w.size(); i++) { auto& g = f.a[k][t]; int v = m.cv[c.cell][i]; o[k] += w[i] * (al * g[v * K + l] + (1 - al) * g[v * K + l + 1]); } }
  e.ok = true; e.v = {o[0], o[1], o[2]}; e.vv = o[4]; e.S = o[5]; e.T = o[6]; return e; }
struct P { V3 x; double t; V3 v; double s[3]; };
struct Tr { std::vector<P> p; bool near = false; int moved = 0, cells = 0, layers = 0, evals = 0; Ev first; };
struct Run { const Mesh& m; const VF& f; const Fields& F; int day, cd, cm; };
static V3 stepto(V3 x, V3 v, double vv, double h) { double R = len(x), sp = len(v); V3 y = x, a = cross(x, v); if (len(a) > 0) { V3 k = unit(a); double th = h * sp / R; y = std::cos(th) * x + std::sin(th) * cross(k, x); } return ((R + vv * h) / R) * y; }
static Tr trace(const Run& r, V3 x0, double t0, double streamdt, double eps = 0) {
  Tr o; V3 x = x0; double t = t0; o.p.push_back({x, t, {0, 0, 0}, {0, 0, 0}}); int T = r.F.T; std::set<int> cells, layers; int n = std::max(1, T - 1);
  for (int i = 0; i < n; i++) { double a = T == 1 ? 0 : r.F.sec[i] , dt = T == 1 ? streamdt : r.F.sec[i + 1] - a; int N = std::max(1, (int)std::lround(r.day * dt / 86400)), C = r.cd ? r.day * r.cd : r.cm ? r.day * 30 * r.cm : N; double h = dt / N;
    auto ev = [&](V3 y, double s) { Ev q; if (T == 1) q = ev1(r.m, r.f, 0, y); else { double u = (s - a) / dt; if (u < -1e-8 || u > 1 + 1e-8) { q.ok = false; q.near = false; return q; } u = std::min(1.0, std::max(0.0, u)); Ev A = ev1(r.m, r.f, i, y), B = ev1(r.m, r.f, i + 1, y); q = A; q.near |= B.near; q.ok = A.ok && B.ok; q.v = (1 - u) * A.v + u * B.v; q.vv = (1 - u) * A.vv + u * B.vv; q.S = (1 - u) * A.S + u * B.S; q.T = (1 - u) * A.T + u * B.T; }
      o.near |= q.near; o.evals++; if (q.ok) { cells.insert(q.cell); layers.insert(q.layer); } return q; };
    Ev e0 = ev(x, t); if (i == 0) o.first = e0; bool moved = false;
    for (int k = 0; k < N; k++) { if (k % C == 0) o.p.push_back({x, t, {0, 0, 0}, {0, 0, 0}}); if (t > a + dt * (1 - 1e-8)) { if (T > 1) break; }
      Ev k1 = ev(x, t); if (!k1.ok) break; Ev k2 = ev(stepto(x, k1.v, k1.vv, h / 2), t + h / 2); if (!k2.ok) break; Ev k3 = ev(stepto(x, k2.v, k2.vv, h / 2), t + h / 2); if (!k3.ok) break; Ev k4 = ev(stepto(x, k3.v, k3.vv, h), t + h); if (!k4.ok) break;
      V3 v = (1. / 6) * (k1.v + 2. * k2.v + 2. * k3.v + k4.v); double vv = (k1.vv + 2 * k2.vv + 2 * k3.vv + k4.vv) / 6; V3 y = stepto(x, v, vv, h); if (len(y - x) > 0) moved = true; x = y; if (eps) { int q = k % 3; x[q] += x[q] > 0 == (k % 2 == 0) ? eps : -eps; } t += h; }
    o.moved += moved; o.p.push_back({x, t, {0, 0, 0}, {0, 0, 0}}); }
  o.cells = cells.size(); o.layers = layers.size(); return o;
}
// --- ftk
struct PT : particle_tracer_mpas_ocean { PT(std::shared_ptr<mpas_mesh<>> m) : tracker(diy::mpi::communicator()), particle_tracer_mpas_ocean(diy::mpi::communicator(), m) {} feature_curve_set_t& traj() { return trajectories; } };
static std::shared_ptr<mpas_stream> opened(const std::string& path, std::vector<std::shared_ptr<ndarray_group>>& gs) {
  std::shared_ptr<mpas_stream> s(new mpas_stream(path, diy::mpi::communicator())); s->initialize(); s->set_callback([&](int, std::shared_ptr<ndarray_group> g) { gs.push_back(g); }); while (s->advance_timestep()) ; nc_close(s->ncid); return s; }
struct Seeds { int kind; std::vector<V3> x; int sh, sv; int nlat, nlon, nz; double la0, la1, lo0, lo1, z0, z1; };
typedef std::vector<std::vector<P>> Out;
static std::string wrote; static bool wrote_geo; // where to write trajectories
static Out go(std::shared_ptr<mpas_stream> s, const std::vector<std::shared_ptr<ndarray_group>>& gs, const Run& r, const Seeds& q, int nth, double streamdt, const std::vector<int>* sub = nullptr) {
  PT p(s->mesh()); int T = r.F.T; p.set_number_of_threads(nth); p.set_ntimesteps(T); p.set_end_timestep(T - 1); p.set_nsteps_per_day(r.day); if (r.cd) p.set_checkpoint_days(r.cd); if (r.cm) p.set_checkpoint_months(r.cm); if (T == 1) p.set_delta_t(streamdt); p.initialize();
  if (q.kind == 1 && !sub) p.initialize_particles_at_grid_points({q.sh, q.sv}); else if (q.kind == 2 && !sub) p.initialize_particles_latlonz(q.nlat, q.la0, q.la1, q.nlon, q.lo0, q.lo1, q.nz, q.z0, q.z1);
  else { D b; size_t n = 0; for (size_t i = 0; i < q.x.size(); i++) { if (sub && !std::count(sub->begin(), sub->end(), (int)i)) continue; for (double y : q.x[i]) b.push_back(y); n++; } p.initialize_particles(n, b.data(), 3, false); }
  for (int k = 0; k < T; k++) { p.push_field_data_snapshot(gs[k]); if (k > 0) p.advance_timestep(); if (k == T - 1) p.update_timestep(); }
  p.finalize(); if (!wrote.empty()) { if (wrote_geo) p.write_geo_trajectories(wrote); else p.write_trajectories(wrote); } Out o; for (auto& kv : p.traj()) { std::vector<P> t; for (auto& a : kv.second) t.push_back({{a.x[0], a.x[1], a.x[2]}, a.t, {a.v[0], a.v[1], a.v[2]}, {a.scalar[0], a.scalar[1], a.scalar[2]}}); o.push_back(t); } return o;
}
static VF vfields(const Mesh& m, const Fields& F) { VF f; f.nl = m.nl; for (int t = 0; t < F.T; t++) { f.a[0].push_back(c2v(m, F.X[t], m.nl)); f.a[1].push_back(c2v(m, F.Y[t], m.nl)); f.a[2].push_back(c2v(m, F.Z[t], m.nl)); f.a[3].push_back(c2v(m, F.zt[t], m.nl)); f.a[4].push_back(c2v(m, F.vv[t], m.nl + 1)); f.a[5].push_back(c2v(m, F.S[t], m.nl)); f.a[6].push_back(c2v(m, F.Te[t], m.nl)); } return f; }
static V3 sphere(Rng& r, const Mesh& m, double z) { V3 u = r.coin(0.15) ? unit(m.c[r.below(m.c.size())]) : unit({r.gauss(), r.gauss(), r.gauss()}); if (m.land && r.coin(0.15) && m.drop.size()) u = m.drop[r.below(m.drop.size())]; return (R0 + z) * u; }
static bool setup(Rng& r, Mesh& m) { for (int k = 0; k < 30; k++) if (mesh(r, m)) return true; return false; }
static std::string file() { return vh::opt().dir + strf("/mpas-%d-%d.nc", (int)getpid(), (int)vh::opt().shard); }
static uint64_t g_mesh(Rng& r, int64_t idx) {
  Mesh m; if (!setup(r, m)) return 0; Fields F = fields(r, m, 1 + r.below(2)); vh::sample("mesh", m.desc); std::string path = file(); save(m, F, path); std::vector<std::shared_ptr<ndarray_group>> gs; auto s = opened(path, gs); unlink(path.c_str()); auto M = s->mesh(); const char* d = m.desc.c_str(); uint64_t h = vh::hash_str(m.desc + F.when[0]);
  if (M->n_cells() != m.c.size() || M->n_vertices() != m.v.size() || M->n_edges() != m.e.size() || (int)M->n_layers() != m.nl || (int)gs.size() != F.T) { vh::viol("sizes", strf("the mesh has %zu cells, %zu vertices, %zu edges, %zu layers and %zu timesteps; %s, %d timesteps", M->n_cells(), M->n_vertices(), M->n_edges(), M->n_layers(), gs.size(), d, F.T)); return h; }
  for (size_t i = 0; i < m.c.size(); i++) { int vi[64]; int n = M->verts_i_on_cell_i(i, vi); VH_CHECK(std::vector<int>(vi, vi + n) == m.cv[i], "cell-vertices", "cell %zu has other vertices; %s", i, d); VH_CHECK(M->cid2i(m.cid[i]) == (int)i && M->i2cid(i) == m.cid[i], "cell-id", "cell %zu of id %d: index %d, id %d; %s", i, m.cid[i], M->cid2i(m.cid[i]), M->i2cid(i), d); double x[3]; M->cell_i_coords(i, x); VH_CHECK(V3({x[0], x[1], x[2]}) == m.c[i], "cell-position", "cell %zu; %s", i, d); }
  for (size_t i = 0; i < m.v.size(); i++) { VH_CHECK(M->vid2i(m.vid[i]) == (int)i && M->i2vid(i) == m.vid[i], "vertex-id", "vertex %zu of id %d; %s", i, m.vid[i], d); double x[3]; M->vert_i_coords(i, x); VH_CHECK(V3({x[0], x[1], x[2]}) == m.v[i], "vertex-position", "vertex %zu; %s", i, d); }
  for (size_t i = 0; i < m.e.size(); i++) VH_CHECK(M->eid2i(m.eid[i]) == (int)i, "edge-id", "edge %zu of id %d has index %d; %s", i, m.eid[i], M->eid2i(m.eid[i]), d);
  // location, from anywhere and from a previous cell
  for (int k = 0; k < 80; k++) { V3 x = sphere(r, m, r.real(-3000, 100)); Loc e = locate(m, x); if (e.near) continue; int a = M->locate_cell_i(x.data()); vh::count("locations"); if (e.cell < 0) vh::count("outside");
    VH_CHECK(a == e.cell, "locate", "(%.17g, %.17g, %.17g) is found in cell %d instead of %d; %s", x[0], x[1], x[2], a, e.cell, d);
    int prev = r.coin(0.2) ? -1 : (int)r.below(m.c.size()); if (e.cell >= 0 && r.coin()) { prev = e.cell; if (r.coin()) { int j = m.cc[prev][r.below(m.cc[prev].size())]; if (j >= 0) prev = j; } } int b = M->locate_cell_i(x.data(), prev); vh::count("hinted_locations");
    VH_CHECK(b == e.cell, "locate-hint", "(%.17g, %.17g, %.17g) is found in cell %d instead of %d when coming from cell %d; %s", x[0], x[1], x[2], b, e.cell, prev, d);
    int q = e.cell >= 0 && r.coin() ? e.cell : (int)r.below(m.c.size()); VH_CHECK(M->point_in_cell_i(q, x.data()) == (q == e.cell), "inside", "(%.17g, %.17g, %.17g) is in cell %d, but reported %s cell %d; %s", x[0], x[1], x[2], e.cell, q == e.cell ? "outside" : "inside", q, d);
    if (e.cell >= 0) { double X[10][3], w[10]; int n = m.cv[e.cell].size(); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) X[i][j] = m.v[m.cv[e.cell][i]][j]; wachspress_weights(n, X, x.data(), w); D o = wach(m, e.cell, x); double s = 0; vh::count("weights", n); for (int i = 0; i < n; i++) { s += w[i]; VH_CHECK(std::abs(w[i] - o[i]) < 1e-9 && w[i] >= 0, "weights", "weight %d of (%.17g, %.17g, %.17g) in cell %d is %.17g instead of %.17g; %s", i, x[0], x[1], x[2], e.cell, w[i], o[i], d); } VH_CHECK(std::abs(s - 1) < 1e-12, "weights-sum", "the weights add up to %.17g; %s", s, d); } }
  // cell fields brought to the vertices
  const char* nm[7] = {"velocity", "velocity", "velocity", "zTop", "vertVelocityTop", "salinity", "temperature"}; VF f = vfields(m, F);
  for (int t = 0; t < F.T; t++) { for (int k = 0; k < 7; k++) { auto a = gs[t]->get_ptr<double>(nm[k]); int L = k == 4 ? m.nl + 1 : m.nl, nv = k < 3 ? 3 : 1; if (!a || a->nd() < 3 || (int)a->dim(0) != nv || (int)a->dim(1) != L || a->dim(2) != m.v.size()) { vh::viol("field-shape", strf("%s at the vertices has the wrong shape; %s", nm[k], d)); continue; }
      for (size_t v = 0; v < m.v.size(); v++) for (int l = 0; l < L; l++) { double x = (*a)(k < 3 ? k : 0, l, v), e = f.a[k][t][v * L + l]; vh::count("vertex_values"); if (m.vb[v]) vh::count("border_values"); if (e != e) vh::count("missing_values"); VH_CHECK((e != e && x != x) || std::abs(x - e) <= 1e-7 * (1 + std::abs(e)) + 1e-6 * (k < 3 ? 300 : k == 3 ? 100 : 1), "to-vertices", "%s%s at vertex %zu layer %d step %d is %.17g instead of %.17g; %s", nm[k], k < 3 ? k == 0 ? "X" : k == 1 ? "Y" : "Z" : "", v, l, t, x, e, d); } }
    auto q = gs[t]->get_ptr<char>("xtime"); VH_CHECK(q && q->size() == 64 && std::string(q->data(), 19) == F.when[t], "xtime", "step %d has another time stamp than %s; %s", t, F.when[t].c_str(), d); }
  // derived vectors
  for (size_t e = 0; e < m.e.size(); e++) { int a = m.ec[e][0], b = m.ec[e][1]; V3 n = unit(a < 0 ? m.c[b] - m.e[e] : b < 0 ? m.e[e] - m.c[a] : m.c[b] - m.c[a]); double w = 0; for (int k = 0; k < 3; k++) w += std::abs(M->edgeNormalVectors(k, e) - n[k]); vh::count("edge_normals"); VH_CHECK(w < 1e-9, "edge-normal", "the normal of edge %zu is (%g, %g, %g) instead of (%g, %g, %g); %s", e, M->edgeNormalVectors(0, e), M->edgeNormalVectors(1, e), M->edgeNormalVectors(2, e), n[0], n[1], n[2], d); }
  for (size_t c = 0; c < m.c.size(); c++) { V3 X, Y; for (int k = 0; k < 3; k++) { X[k] = M->cellTangentPlane(k, 0, c); Y[k] = M->cellTangentPlane(k, 1, c); } int e = m.ce[c][0]; int a = m.ec[e][0], b = m.ec[e][1]; V3 n = unit(a < 0 ? m.c[b] - m.e[e] : b < 0 ? m.e[e] - m.c[a] : m.c[b] - m.c[a]), u = unit(m.c[c]), x = unit(n - dot(n, u) * u), y = cross(u, x); vh::count("tangent_planes"); VH_CHECK(len(X - x) < 1e-9 && len(Y - y) < 1e-9, "tangent", "the tangent plane of cell %zu is (%g %g %g), (%g %g %g) instead of (%g %g %g), (%g %g %g); %s", c, X[0], X[1], X[2], Y[0], Y[1], Y[2], x[0], x[1], x[2], y[0], y[1], y[2], d); }
  { int with = 0, without = 0; // the accumulated thickness of the layers above, or of those after the first
    for (size_t c = 0; c < m.c.size(); c++) { double a = 0, b = 0; for (int l = 0; l < m.nl; l++) { VH_CHECK(M->restingThickness(l, c) == m.rest[c][l], "thickness", "cell %zu layer %d; %s", c, l, d); if (l) { a += m.rest[c][l - 1]; b += m.rest[c][l]; } double g = M->accRestingThickness(l, c); if (std::abs(g - a) > 1e-9 * (1 + a)) with++; if (std::abs(g - b) > 1e-9 * (1 + b)) without++; } }
    vh::count("depths", m.c.size() * m.nl); VH_CHECK(!with || !without, "depth", "accumulated thicknesses differ from the sums; %s", d); }
#if FTK_HAVE_VTK
  { auto g = M->surface_cells_to_vtu(); VH_CHECK(g->GetNumberOfPoints() == (vtkIdType)m.v.size() && g->GetNumberOfCells() == (vtkIdType)m.c.size(), "vtk-size", "%lld points and %lld cells; %s", (long long)g->GetNumberOfPoints(), (long long)g->GetNumberOfCells(), d);
    for (vtkIdType i = 0; i < g->GetNumberOfCells() && i < (vtkIdType)m.c.size(); i++) { auto c = g->GetCell(i); std::vector<int> w; for (int j = 0; j < c->GetNumberOfPoints(); j++) w.push_back(c->GetPointId(j)); vh::count("vtk_cells"); VH_CHECK(w == m.cv[i], "vtk-cell", "cell %lld has other vertices; %s", (long long)i, d); }
    for (vtkIdType i = 0; i < g->GetNumberOfPoints() && i < (vtkIdType)m.v.size(); i++) { double x[3]; g->GetPoint(i, x); VH_CHECK(len(V3{x[0], x[1], x[2]} - m.v[i]) <= 1e-6 * R0, "vtk-point", "vertex %lld is elsewhere; %s", (long long)i, d); } g->Delete(); }
#endif
  // layers of one column
  for (int k = 0; k < 10; k++) { int n = 2 + r.below(30); D z(n + 1); z[0] = r.real(-1, 1); for (int i = 1; i <= n; i++) z[i] = z[i - 1] - r.real(0.1, 50); for (int j = 0; j < 10; j++) { double q = r.coin(0.2) ? z[r.below(n)] : r.real(z[n] - 5, z[0] + 5); int e = -1; for (int i = 0; i + 1 < n; i++) if (q <= z[i] && q > z[i + 1]) e = i; int b = locate_mpas_layer_bisection(n, z.data(), q); vh::count("layers"); VH_CHECK(b == e, "layer", "depth %.17g lies in layer %d, not %d of %d; %s", q, e, b, n, d); int a = locate_mpas_layer_brute_force(n, z.data(), q); if (e >= 0) VH_CHECK(a == e, "layer", "depth %.17g lies in layer %d, not %d of %d (exhaustive search); %s", q, e, a, n, d); } }
  return h;
}
static bool same(V3 a, V3 b, double tol) { return len(a - b) <= tol; }
static bool seeds(Rng& r, const Mesh& m, mpas_mesh<>* M, int kind, Seeds& q) { q.kind = kind; double depth = 0; for (double a : m.rest[0]) depth += a;
  if (q.kind == 0) { int n = r.pick({0, 1, 3, 10, 25}); for (int i = 0; i < n; i++) q.x.push_back(sphere(r, m, r.coin(0.3) ? -r.real(0, m.rest[0][0]) : r.coin(0.1) ? r.real(-2 * depth, 50) : -r.real(0, depth))); }
  else if (q.kind == 1) { q.sh = r.pick({1, 2, 7}); q.sv = r.pick({1, 2, 5}); for (size_t i = 0; i < m.c.size(); i += q.sh) { double a = 0; for (int l = 0; l < m.nl; l++) { a = M->accRestingThickness(l, i); if (l % q.sv == 0) q.x.push_back((1 - a / R0) * m.c[i]); } } }
  else { q.nlat = r.pick({1, 2, 5}); q.nlon = r.pick({1, 3, 6}); q.nz = r.pick({1, 2, 4}); q.la0 = r.real(-80, 60); q.la1 = q.la0 + r.real(1, 25); q.lo0 = r.real(-180, 180); q.lo1 = q.lo0 + r.real(1, 200); q.z0 = -r.real(0.5, depth); q.z1 = r.coin(0.2) ? 0 : -r.real(0.5, depth);
    for (int i = 0; i < q.nlat; i++) for (int j = 0; j < q.nlon; j++) for (int k = 0; k < q.nz; k++) { auto at = [](double a, double b, int n, int i) { return n == 1 ? a : a + i * (b - a) / (n - 1); }; double la = at(q.la0, q.la1, q.nlat, i) * M_PI / 180, lo = at(q.lo0, q.lo1, q.nlon, j) * M_PI / 180, z = at(q.z0, q.z1, q.nz, k); V3 x = (R0 + z) * V3{std::cos(lo) * std::cos(la), std::sin(lo) * std::cos(la), std::sin(la)}; Loc c = locate(m, x); if (c.near) return false; if (c.cell >= 0) q.x.push_back(x); else vh::count("seeds_on_land"); } vh::count("geo_seeds", q.x.size()); }
  return true;
}
static uint64_t g_trace(Rng& r, int64_t idx) {
  Mesh m; if (!setup(r, m)) return 0; int T = r.pick({1, 2, 2, 3, 4}); Fields F = fields(r, m, T); Run R{m, *new VF(vfields(m, F)), F, r.pick({24, 48, 96}), 0, 0}; std::unique_ptr<VF> own(const_cast<VF*>(&R.f)); if (r.coin(0.4)) R.cd = r.pick({1, 2, 3}); else if (r.coin(0.2)) R.cm = 1; double sdt = r.pick({86400.0, 43200.0, 3 * 86400.0});
  std::string path = file(); save(m, F, path); std::vector<std::shared_ptr<ndarray_group>> gs; auto s = opened(path, gs); unlink(path.c_str()); if ((int)gs.size() != T) { vh::viol("sizes", "wrong number of timesteps; " + m.desc); return 1; }
  Seeds q; if (!seeds(r, m, s->mesh().get(), r.pick({0, 0, 0, 1, 2}), q)) return 0;
  std::string d = m.desc + strf("; %d timesteps from %s, %d steps per day, checkpoints every %d days %d months, %zu seeds of kind %d", T, F.when[0].c_str(), R.day, R.cd, R.cm, q.x.size(), q.kind); if (T > 1) { d += ", intervals"; for (int t = 1; t < T; t++) d += strf(" %gd", (F.sec[t] - F.sec[t - 1]) / 86400); } vh::sample("trace", d); uint64_t h = vh::hash_str(d);
  { double st = 0; for (int t = 1; t < T; t++) st += R.day * (F.sec[t] - F.sec[t - 1]) / 86400; st *= q.x.size(); if (st > 60000) R.day = 24; for (int t = 1; t < T; t++) if (F.sec[t] - F.sec[t - 1] > 20 * 86400) R.day = 24; }
  int nth = r.pick({1, 1, 2, 4, 7}); Out o = go(s, gs, R, q, nth, sdt);
  if (o.size() != q.x.size()) { vh::viol("count", strf("%zu particles give %zu trajectories; %s", q.x.size(), o.size(), d.c_str())); return h; }
  vh::count("trajectories", o.size()); if (T == 1) vh::count("streamlines", o.size()); if (!m.simple) vh::count("other_ids", o.size());
  for (size_t i = 0; i < o.size(); i++) { auto& tr = o[i]; if (tr.empty()) { vh::viol("empty", "trajectory without points; " + d); continue; }
    VH_CHECK(same(tr[0].x, q.x[i], 1e-6) && tr[0].t == 0, "seed", "trajectory %zu starts at (%.17g, %.17g, %.17g) instead of (%.17g, %.17g, %.17g); %s", i, tr[0].x[0], tr[0].x[1], tr[0].x[2], q.x[i][0], q.x[i][1], q.x[i][2], d.c_str());
    Tr e = trace(R, q.x[i], 0, sdt); if (e.near) { vh::count("near_tie"); continue; } { bool ok = true; for (double eps : {1e-7, -1e-6, 3e-6}) { V3 y = q.x[i] + eps * V3{1, -1, 1}; Tr e2 = trace(R, y, 0, sdt, eps); ok = ok && e2.p.size() == e.p.size(); for (size_t k = 0; ok && k < e.p.size(); k++) ok = same(e2.p[k].x, e.p[k].x, 1e4 * std::abs(eps)) && e2.p[k].t == e.p[k].t; } if (!ok) { vh::count("sensitive"); continue; } }
    auto dedup = [](const std::vector<P>& a) { std::vector<P> b; for (auto& p : a) if (b.empty() || !(std::abs(b.back().t - p.t) < 1e-6 && same(b.back().x, p.x, 1e-6))) b.push_back(p); return b; };
    auto a = dedup(tr), b = dedup(e.p); bool ok = a.size() == b.size(); for (size_t k = 0; ok && k < a.size(); k++) ok = same(a[k].x, b[k].x, 0.05) && std::abs(a[k].t - b[k].t) < 1e-3; vh::count("judged"); vh::count("points", a.size()); if (e.moved) vh::count("moved"); if (e.cells > 1) vh::count("several_cells"); if (e.layers > 1) vh::count("several_layers"); if (T > 2 && e.moved > 1) vh::count("several_intervals"); if (!e.first.ok) vh::count("outside_seeds"); else if (e.first.layer == 0) vh::count("top_layer");
    if (T > 1 && e.p.back().t < F.sec.back() - 1) vh::count("stopped");
    if (!ok) { std::string w; for (size_t k = 0; k < std::max(a.size(), b.size()) && k < 6; k++) { w += strf(" #%zu", k); if (k < a.size()) w += strf(" (%.9g %.9g %.9g; %.9g)", a[k].x[0], a[k].x[1], a[k].x[2], a[k].t); if (k < b.size()) w += strf(" expected (%.9g %.9g %.9g; %.9g)", b[k].x[0], b[k].x[1], b[k].x[2], b[k].t); } vh::viol("trajectory", strf("trajectory %zu has %zu positions, expected %zu:%s; starts in cell %d layer %d; %s", i, a.size(), b.size(), w.c_str(), e.first.cell, e.first.layer, d.c_str())); }
    if (e.first.ok && tr.size() > 1) { auto& p = tr[1]; V3 v = e.first.v; double sc[3] = {e.first.vv, e.first.S, e.first.T}; bool nan = v[0] != v[0]; vh::count("velocities"); if (!nan) { VH_CHECK(len(p.v - v) <= 1e-6 * (1 + len(v)), "velocity", "trajectory %zu starts with velocity (%g %g %g) instead of (%g %g %g); %s", i, p.v[0], p.v[1], p.v[2], v[0], v[1], v[2], d.c_str()); for (int k = 0; k < 3; k++) VH_CHECK(std::abs(p.s[k] - sc[k]) <= 1e-6 * (1 + std::abs(sc[k])), "scalar", "trajectory %zu starts with %s %g instead of %g; %s", i, k == 0 ? "vertical velocity" : k == 1 ? "salinity" : "temperature", p.s[k], sc[k], d.c_str()); } }
    for (auto& p : tr) for (double y : p.x) { VH_CHECK(y == y, "nan", "trajectory %zu has a position that is not a number; %s", i, d.c_str()); } }
  // others and threads do not matter
  auto bits = [](const std::vector<P>& a, const std::vector<P>& b) { if (a.size() != b.size()) return false; for (size_t k = 0; k < a.size(); k++) if (memcmp(&a[k].x, &b[k].x, sizeof(V3)) || a[k].t != b[k].t) return false; return true; };
  if (o.size() && r.coin(0.6)) { int n2 = nth == 1 ? 3 : 1; Out o2 = go(s, gs, R, q, n2, sdt); vh::count("thread_runs"); bool ok = o2.size() == o.size(); size_t k = 0; for (; ok && k < o.size(); k++) ok = bits(o[k], o2[k]); VH_CHECK(ok, "threads", "trajectory %zu differs between %d and %d threads; %s", k, nth, n2, d.c_str()); }
  if (o.size() > 1 && q.kind == 0) { std::vector<int> sub; for (size_t i = 0; i < o.size(); i++) if (r.coin(0.4)) sub.push_back(i); if (sub.size()) { Out o2 = go(s, gs, R, q, 1, sdt, &sub); bool ok = o2.size() == sub.size(); size_t k = 0; for (; ok && k < sub.size(); k++) ok = bits(o[sub[k]], o2[k]); vh::count("subset_trajectories", sub.size()); VH_CHECK(ok, "others", "trajectory %zu depends on the other particles; %s", k, d.c_str()); } }
  return h;
}
#if FTK_HAVE_VTK
static std::string slurp(const std::string& f) { std::ifstream t(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(t)), {}); }
static std::vector<std::vector<double>> vtp(const std::string& f) { // lines as rows of coordinates and attributes
  std::vector<std::vector<double>> o; auto rd = vtkSmartPointer<vtkXMLPolyDataReader>::New(); rd->SetFileName(f.c_str()); rd->Update(); auto d = rd->GetOutput(); if (!d) return o;
  for (vtkIdType i = 0; i < d->GetNumberOfCells(); i++) { auto c = d->GetCell(i); std::vector<double> row; for (int j = 0; j < c->GetNumberOfPoints(); j++) { vtkIdType k = c->GetPointId(j); double x[3]; d->GetPoint(k, x); row.insert(row.end(), x, x + 3); for (int a = 0; a < d->GetPointData()->GetNumberOfArrays(); a++) { auto q = d->GetPointData()->GetArray(a); for (int n = 0; q && n < q->GetNumberOfComponents(); n++) row.push_back(q->GetComponent(k, n)); } row.push_back(-1e300); } o.push_back(row); }
  return o; }
static uint64_t g_cli(Rng& r, int64_t idx) {
  const char* exe = getenv("VH_EXE_ftk"); if (!exe) return 0; Mesh m; if (!setup(r, m)) return 0; int T = idx % 4 == 0 ? 1 : r.pick({2, 2, 3}); Fields F = fields(r, m, T); VF vf = vfields(m, F); Run R{m, vf, F, r.pick({24, 48}), 0, 0}; if (r.coin(0.4)) R.cd = r.pick({1, 2}); else if (r.coin(0.2)) R.cm = 1; double sdt = r.pick({86400.0, 43200.0});
  std::string dir = vh::opt().dir + strf("/cli-%d-%d", (int)getpid(), (int)vh::opt().shard), in = dir + "/in.nc", lib = dir + "/lib.vtp", out = dir + "/out.vtp", lg = dir + "/log"; mkdir(dir.c_str(), 0755); save(m, F, in); std::vector<std::shared_ptr<ndarray_group>> gs; auto s = opened(in, gs);
  auto clean = [&] { for (auto& f : {in, lib, out, lg}) unlink(f.c_str()); rmdir(dir.c_str()); }; Seeds q; if (!seeds(r, m, s->mesh().get(), r.pick({1, 2, 2}), q)) { clean(); return 0; }
  wrote = lib; wrote_geo = r.coin(); Out o = go(s, gs, R, q, 1, sdt); wrote.clear(); int nth = r.pick({1, 2, 4});
  std::vector<std::string> a{exe, "-f", "mpas-o-pt", "--input", in, "--output", out, "--ptgeo-nsteps-per-day", strf("%d", R.day), "--nthreads", strf("%d", nth)}; if (R.cd) { a.push_back("--ptgeo-checkpoint-days"); a.push_back(strf("%d", R.cd)); } if (R.cm) { a.push_back("--ptgeo-checkpoint-months"); a.push_back(strf("%d", R.cm)); } if (wrote_geo) a.push_back("--geo"); if (T == 1) { a.push_back("--pt-delta-t"); a.push_back(strf("%g", sdt)); }
  if (q.kind == 1) { a.push_back("--pt-seed-strides"); a.push_back(strf("%d,%d", q.sh, q.sv)); } else { a.push_back("--ptgeo-seeds"); a.push_back(strf("%d,%.17g,%.17g,%d,%.17g,%.17g,%d,%.17g,%.17g", q.nlat, q.la0, q.la1, q.nlon, q.lo0, q.lo1, q.nz, q.z0, q.z1)); }
  std::string cmd; for (auto& x : a) cmd += x + " "; vh::note(cmd); pid_t p = fork(); if (!p) { struct rlimit lim = {8ull << 30, 8ull << 30}; setrlimit(RLIMIT_AS, &lim); int fd = open(lg.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1); dup2(fd, 2); if (chdir(dir.c_str())) _exit(9); std::vector<char*> v; for (auto& x : a) v.push_back((char*)x.c_str()); v.push_back(nullptr); execv(exe, v.data()); _exit(127); }
  int st = 0; waitpid(p, &st, 0); std::string tail = slurp(lg); if (tail.size() > 400) tail = tail.substr(tail.size() - 400); vh::count("cli_runs"); vh::sample("cli", cmd);
  if (st != 0) vh::viol("cli-status", strf("%s ends with status %d: %s; %s", cmd.c_str(), st, tail.c_str(), m.desc.c_str()));
  else { auto A = vtp(lib), B = vtp(out); size_t n = 0; bool ok = A.size() == B.size(); for (size_t i = 0; ok && i < A.size(); i++) { ok = A[i].size() == B[i].size(); for (size_t k = 0; ok && k < A[i].size(); k++) { n++; ok = A[i][k] == B[i][k] || std::abs(A[i][k] - B[i][k]) <= 1e-5 * (1e-2 + std::abs(A[i][k])) || (A[i][k] != A[i][k] && B[i][k] != B[i][k]); } }
    vh::count("cli_lines", A.size()); vh::count("cli_values", n); if (wrote_geo) vh::count("cli_geo"); if (T == 1) vh::count("cli_streamlines"); VH_CHECK(ok, "cli-output", "%s writes %zu lines that differ from the library's %zu; %s", cmd.c_str(), B.size(), A.size(), m.desc.c_str());
    if (!wrote_geo) { size_t pts = 0, e = 0; for (auto& t : o) e += t.size() > 1 ? t.size() : t.size(); for (auto& row : A) for (double x : row) pts += x == -1e300; VH_CHECK(pts <= e, "cli-points", "%zu points are written of %zu; %s", pts, e, cmd.c_str()); } }
  clean(); return vh::hash_str(cmd + m.desc);
}
#endif
int main(int argc, char** argv) { vh::init(argc, argv); vh::group("mesh", 240, 6000, g_mesh); setenv("TZ", "EST5EDT,M3.2.0,M11.1.0", 1); tzset(); vh::group("trace", 480, 12000, g_trace);
#if FTK_HAVE_VTK
  vh::group("cli", 36, 400, g_cli);
#endif
  return vh::finish(); }
