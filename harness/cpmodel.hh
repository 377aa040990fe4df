// Independent model of critical points of piecewise-linear space-time vector fields on Freudenthal (regular) and staircase-prism (extruded) meshes.
#pragma once
#include "vh.hh"
#include <ftk/numeric/clamp.hh>
#include <ftk/filters/critical_point_tracker_2d_regular.hh>
#include <ftk/filters/critical_point_tracker_3d_regular.hh>
namespace cpm {
using namespace vh;
typedef __int128 I;
typedef std::vector<int> V; // a space-time vertex (x, y, [z,] t) or (id, t)
typedef std::vector<V> Face; // sorted vertices
enum Cls { NO, YES, MAYBE };
// exact: does the convex hull of n+1 integer n-vectors contain the origin? YES: strictly inside; MAYBE: on the boundary
inline Cls origin2(const I v[3][2]) {
  I d[3]; for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; d[i] = v[j][0] * v[k][1] - v[j][1] * v[k][0]; }
  int p = 0, n = 0; for (int i = 0; i < 3; i++) { p += d[i] > 0; n += d[i] < 0; }
  if (p == 3 || n == 3) return YES;
  if (p && n) return NO;
  if (p || n) return MAYBE;
  for (int i = 0; i < 3; i++) { if (!v[i][0] && !v[i][1]) return MAYBE; int j = (i + 1) % 3; if (v[i][0] * v[j][0] + v[i][1] * v[j][1] < 0) return MAYBE; }
  return NO;
}
inline I det3(const I* a, const I* b, const I* c) { return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]); }
inline Cls origin3(const I v[4][3]) {
  I d[4] = {det3(v[1], v[2], v[3]), -det3(v[0], v[2], v[3]), det3(v[0], v[1], v[3]), -det3(v[0], v[1], v[2])};
  int p = 0, n = 0; for (int i = 0; i < 4; i++) { p += d[i] > 0; n += d[i] < 0; }
  if (p == 4 || n == 4) return YES;
  if (p && n) return NO;
  return MAYBE; // on the boundary, or a flat simplex: not decided here
}
// barycentric coordinates of the zero (well defined when the determinant is not zero)
inline bool bary(int n, const double v[][3], double mu[]) {
  long double d[4], s = 0;
  if (n == 2) { for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; d[i] = (long double)v[j][0] * v[k][1] - (long double)v[j][1] * v[k][0]; s += d[i]; } }
  else {
    auto D = [&](int a, int b, int c) { auto *A = v[a], *B = v[b], *C = v[c]; return (long double)A[0] * ((long double)B[1] * C[2] - (long double)B[2] * C[1]) - (long double)A[1] * ((long double)B[0] * C[2] - (long double)B[2] * C[0]) + (long double)A[2] * ((long double)B[0] * C[1] - (long double)B[1] * C[0]); };
    d[0] = D(1, 2, 3); d[1] = -D(0, 2, 3); d[2] = D(0, 1, 3); d[3] = -D(0, 1, 2); for (int i = 0; i < 4; i++) s += d[i];
  }
  if (s == 0) return false;
  for (int i = 0; i <= n; i++) mu[i] = d[i] / s;
  return true;
}
// all k-simplices of the Freudenthal triangulation of the box [lb, ub]
inline void freudenthal(const V& lb, const V& ub, int k, const std::function<void(const Face&)>& f) {
  int n = lb.size(); std::vector<std::vector<int>> chains; std::vector<int> cur;
  std::function<void(int)> rec = [&](int m) { if ((int)cur.size() == k) { chains.push_back(cur); return; } for (int x = m + 1; x < (1 << n); x++) if ((x & m) == m) { cur.push_back(x); rec(x); cur.pop_back(); } };
  rec(0);
  V c = lb;
  while (1) {
    for (auto& ch : chains) {
      bool ok = true; for (int d = 0; d < n; d++) if ((ch.back() >> d & 1) && c[d] + 1 > ub[d]) ok = false;
      if (!ok) continue;
      Face s{c}; for (int m : ch) { V v = c; for (int d = 0; d < n; d++) v[d] += m >> d & 1; s.push_back(v); }
      std::sort(s.begin(), s.end()); f(s);
    }
    int d = 0; for (; d < n; d++) { if (++c[d] <= ub[d]) break; c[d] = lb[d]; }
    if (d == n) break;
  }
}
inline std::string fstr(const Face& f) { std::string s; for (auto& v : f) { s += "("; for (int x : v) s += std::to_string(x) + ","; s.back() = ')'; } return s; }
// A case of tracking on a regular grid
struct Grid {
  int nd = 2; std::vector<int> dims; int nt = 1; // array extents (array starts at `org`)
  std::vector<int> org; // origin of the array domain
  std::vector<int> dlo, dhi; // spatial domain (inclusive), absolute indices
  bool scalar_input = false; int W = 0;
  std::vector<std::vector<double>> S, VV, JJ; // per time step; scalar [n], vector [n*nd], jacobian [n*nd*nd] (empty: not used); NaN allowed
  size_t n() const { size_t r = 1; for (int d : dims) r *= d; return r; }
  size_t at(const int* x) const { size_t r = 0; for (int d = nd - 1; d >= 0; d--) r = r * dims[d] + (x[d] - org[d]); return r; }
  bool inside(const int* x) const { for (int d = 0; d < nd; d++) if (x[d] < org[d] || x[d] >= org[d] + dims[d]) return false; return true; }
  // central differences by definition (array neighbours exist wherever this is called); 2D is scaled to the unit domain
  double scale(int d) const { return nd == 2 ? dims[d] - 1 : 1; }
  double dS(int t, const int* x, int d) const { int a[3], b[3]; for (int i = 0; i < nd; i++) a[i] = b[i] = x[i]; a[d]++; b[d]--; return 0.5 * (S[t][at(a)] - S[t][at(b)]) * scale(d); }
  double vec(int t, const int* x, int c) const { return scalar_input ? dS(t, x, c) : VV[t][at(x) * nd + c]; }
  double jac(int t, const int* x, int c, int d) const { // d v_c / d x_d
    if (!JJ.empty()) return JJ[t][(at(x) * nd + c) * nd + d];
    int a[3], b[3]; for (int i = 0; i < nd; i++) a[i] = b[i] = x[i]; a[d]++; b[d]--; return 0.5 * (vec(t, a, c) - vec(t, b, c)) * scale(d);
  }
  bool jac_defined(const int* x) const { int m = scalar_input ? 2 : 1; if (!JJ.empty()) return true; for (int d = 0; d < nd; d++) if (x[d] - m < org[d] || x[d] + m >= org[d] + dims[d]) return false; return true; }
};
struct Expect { Face f; Cls c; double mu[4]; bool well = false; };
struct Model {
  std::map<Face, Expect> faces; // only YES / MAYBE
  std::set<Face> nan_faces;
  size_t nfaces = 0;
};
inline double unit(const Grid& g) { return 4; } // all vector values are multiples of 1/4
inline Expect classify(const Grid& g, const Face& f, bool* isnan_) {
  Expect e; e.f = f; I v[4][3]; double dv[4][3]; *isnan_ = false;
  for (int i = 0; i <= g.nd; i++) for (int c = 0; c < g.nd; c++) { double x = g.vec(f[i].back(), f[i].data(), c); if (!std::isfinite(x)) { *isnan_ = true; e.c = NO; return e; } dv[i][c] = x; v[i][c] = (I)(long long)llround(x * unit(g)); }
  if (g.nd == 2) { I w[3][2]; for (int i = 0; i < 3; i++) for (int c = 0; c < 2; c++) w[i][c] = v[i][c]; e.c = origin2(w); }
  else e.c = origin3(v);
  e.well = e.c != NO && bary(g.nd, dv, e.mu);
  return e;
}
inline void expect(const Grid& g, Model& m) {
  V lb(g.dlo), ub(g.dhi); lb.push_back(0); ub.push_back(g.nt - 1);
  freudenthal(lb, ub, g.nd, [&](const Face& f) { m.nfaces++; bool nn; Expect e = classify(g, f, &nn); if (nn) m.nan_faces.insert(f); if (e.c != NO) m.faces[f] = e; });
}
// cells ((nd+1)-simplices) containing each face of a set: returns the cells with the listed faces among their sides
inline void cells_of(const Grid& g, const std::function<void(const Face& cell, const std::vector<Face>& sides)>& fn) {
  V lb(g.dlo), ub(g.dhi); lb.push_back(0); ub.push_back(g.nt - 1);
  freudenthal(lb, ub, g.nd + 1, [&](const Face& c) { std::vector<Face> s; for (int i = 0; i < (int)c.size(); i++) { Face f; for (int j = 0; j < (int)c.size(); j++) if (j != i) f.push_back(c[j]); s.push_back(f); } fn(c, s); });
}
// ---- type of a critical point from its Jacobian; -1: too close to a boundary between types
inline int type2(const double J[2][2], bool sym) {
  double m = 1e-300; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) m = std::max(m, fabs(J[i][j]));
  double a = J[0][0] / m, d = J[1][1] / m, b = J[0][1] / m, c = J[1][0] / m; double E = 1e-6;
  if (sym) { double o = 0.5 * (b + c), det = a * d - o * o, tr = a + d; if (fabs(det) < E) return -1; return det < 0 ? 4 : tr > 0 ? 2 : 8; }
  double det = a * d - b * c, tr = a + d, disc = tr * tr - 4 * det;
  if (fabs(det) < E || fabs(disc) < E) return -1;
  if (disc > 0) return det < 0 ? 4 : tr > 0 ? 2 : 8;
  if (fabs(tr) < E) return -1;
  return tr > 0 ? 32 : 16;
}
inline int type3(const double J[3][3]) { // symmetric: signs of eigenvalues from leading principal minors
  double m = 1e-300; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m = std::max(m, fabs(J[i][j]));
  double A[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) A[i][j] = 0.5 * (J[i][j] + J[j][i]) / m;
  double d1 = A[0][0], d2 = A[0][0] * A[1][1] - A[0][1] * A[0][1], d3 = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[1][2]) - A[0][1] * (A[0][1] * A[2][2] - A[1][2] * A[0][2]) + A[0][2] * (A[0][1] * A[1][2] - A[1][1] * A[0][2]);
  double E = 1e-4; if (fabs(d3) < E || fabs(d1) < E || fabs(d2) < E) return -1; // the smallest eigenvalue is bounded away from 0
  if (d1 > 0 && d2 > 0 && d3 > 0) return 2; if (d1 < 0 && d2 > 0 && d3 < 0) return 8; return 4;
}
// ---- field generators: integer-valued (exact in every arithmetic the trackers use)
enum Kind { RANDOM, SMOOTH, SPARSE, SMALL, CONSTANT_T, NKIND };
inline void fill(Rng& r, Grid& g, int kind, double pnan = 0) {
  size_t n = g.n(); g.S.clear(); g.VV.clear();
  int nc = g.scalar_input ? 1 : g.nd;
  double q = r.pick({1., 1., 2., .5}); if (g.scalar_input && q < 1) q = 1; // vectors may be half-integers
  double R = r.pick({3., 20., 100.});
  std::vector<std::array<double, 8>> w; for (int k = 0; k < 6 * nc; k++) { std::array<double, 8> a; for (auto& x : a) x = r.real(-1, 1); w.push_back(a); }
  double freq = r.pick({0.5, 0.8, 1.3}), tf = r.pick({0.2, 0.6, 1.2});
  std::vector<double> base(n * nc);
  for (int t = 0; t < g.nt; t++) {
    std::vector<double> f(n * nc);
    for (size_t i = 0; i < n; i++) {
      int x[3]; size_t k = i; for (int d = 0; d < g.nd; d++) { x[d] = k % g.dims[d]; k /= g.dims[d]; }
      for (int c = 0; c < nc; c++) {
        double val = 0;
        if (kind == RANDOM || (kind == CONSTANT_T && t == 0)) val = r.range(-(int)R, (int)R);
        else if (kind == CONSTANT_T) val = base[i * nc + c];
        else if (kind == SMALL) val = r.range(-1, 1);
        else if (kind == SPARSE) val = r.coin(0.3) ? 0 : r.range(-2, 2);
        else { for (int m = 0; m < 6; m++) { auto& a = w[c * 6 + m]; double ph = 3 * a[0] + tf * a[1] * t; for (int d = 0; d < g.nd; d++) ph += freq * a[2 + d] * x[d]; val += a[5] * sin(ph); } val = std::round(val * 1000 + r.range(-3, 3)); }
        f[i * nc + c] = val * q;
      }
    }
    if (t == 0) base = f; if (kind == CONSTANT_T && t == 0) for (auto& x : base) x /= 1; 
    if (kind == CONSTANT_T && t > 0) f = base;
    if (pnan > 0) for (auto& x : f) if (r.coin(pnan)) x = r.pick({(double)NAN, (double)INFINITY, -(double)INFINITY});
    if (g.scalar_input) g.S.push_back(f); else g.VV.push_back(f);
  }
}
inline uint64_t hgrid(const Grid& g) { uint64_t h = g.nd * 7 + g.scalar_input; for (auto* A : {&g.S, &g.VV}) for (auto& s : *A) for (double x : s) h = hcomb(h, vh::dbits(x)); for (int d : g.dlo) h = hcomb(h, d); return h; }
inline ftk::ndarray<double> sarr(const Grid& g, int t) { ftk::ndarray<double> a(std::vector<size_t>(g.dims.begin(), g.dims.end())); for (size_t i = 0; i < g.n(); i++) a[i] = g.S[t][i]; return a; }
inline ftk::ndarray<double> varr(const Grid& g, int t) { std::vector<size_t> s{(size_t)g.nd}; for (int d : g.dims) s.push_back(d); ftk::ndarray<double> a; a.reshape(s); a.set_multicomponents(1); for (size_t i = 0; i < g.n() * g.nd; i++) a[i] = g.VV[t][i]; return a; }
inline ftk::lattice lat(const std::vector<int>& lo, const std::vector<int>& hi) { std::vector<size_t> st, sz; for (size_t d = 0; d < lo.size(); d++) { st.push_back(lo[d]); sz.push_back(hi[d] - lo[d] + 1); } return ftk::lattice(st, sz); }
inline ftk::lattice alat(const Grid& g) { std::vector<size_t> st, sz; for (int d = 0; d < g.nd; d++) { st.push_back(g.org[d]); sz.push_back(g.dims[d]); } return ftk::lattice(st, sz); }
struct Run {
  std::vector<ftk::feature_point_t> cps; ftk::feature_curve_set_t trajs;
};
struct Opts { int nthreads = 1; int backend = 0; bool streaming = false, discard = false, discdeg = false, degrees = false, nonrobust = false, nojac = false; int filter = -1; int ignore = 0; std::function<void(ftk::critical_point_tracker_regular&)> extra; bool reuse = false; };
template <class T> void configure(T& t, const Grid& g, const Opts& o) {
  t.set_domain(lat(g.dlo, g.dhi)); t.set_array_domain(alat(g));
  if (g.scalar_input) { t.set_scalar_field_source(ftk::SOURCE_GIVEN); t.set_vector_field_source(ftk::SOURCE_DERIVED); t.set_jacobian_field_source(ftk::SOURCE_DERIVED); t.set_jacobian_symmetric(true); }
  else { t.set_scalar_field_source(ftk::SOURCE_NONE); t.set_vector_field_source(ftk::SOURCE_GIVEN); t.set_jacobian_field_source(o.nojac ? ftk::SOURCE_NONE : ftk::SOURCE_DERIVED); t.set_jacobian_symmetric(false); }
  t.set_number_of_threads(o.nthreads); if (o.backend) t.use_thread_backend(o.backend);
  if (o.filter >= 0) t.set_type_filter(o.filter);
  t.set_enable_streaming_trajectories(o.streaming); t.set_enable_discarding_interval_points(o.discard); t.set_enable_discarding_degenerate_points(o.discdeg); t.set_enable_computing_degrees(o.degrees);
  if (o.nonrobust) t.set_enable_robust_detection(false);
  if (o.extra) o.extra(t);
}
template <class T> void feed(T& t, const Grid& g, const std::function<ftk::ndarray<double>(int)>& in, const std::function<void(int)>& after = nullptr) {
  for (int k = 0; k < g.nt; k++) {
    if (g.scalar_input) t.push_scalar_field_snapshot(in(k)); else t.push_vector_field_snapshot(in(k));
    if (k) { t.advance_timestep(); if (after) after(k); }
    if (k == g.nt - 1) t.update_timestep();
  }
}
inline ftk::ndarray<double> input(const Grid& g, int k) { return g.scalar_input ? sarr(g, k) : varr(g, k); }
template <class T> Run run_(const Grid& g, const Opts& o) {
  T t(diy::mpi::communicator{}); configure(t, g, o); t.initialize(); feed(t, g, [&](int k) { return input(g, k); }); t.finalize();
  Run r; r.cps = t.get_critical_points(); r.trajs = t.get_traced_critical_points(); return r;
}
inline Run run(const Grid& g, const Opts& o = Opts()) { return g.nd == 2 ? run_<ftk::critical_point_tracker_2d_regular>(g, o) : run_<ftk::critical_point_tracker_3d_regular>(g, o); }
// the mesh face of a reported point, decoded from its tag with a mesh of the same bounds
struct Decoder {
  ftk::simplicial_regular_mesh m; int nd;
  Decoder(const Grid& g) : m(g.nd + 1), nd(g.nd) { V lb(g.dlo), ub(g.dhi); lb.push_back(0); ub.push_back(std::numeric_limits<int>::max()); m.set_lb_ub(lb, ub); }
  Face face(unsigned long long tag) { ftk::simplicial_regular_mesh_element e(m, nd, tag); Face f = e.vertices(m); std::sort(f.begin(), f.end()); return f; }
};
inline Grid grid(Rng& r, int nd, bool scalar, bool thorough) {
  Grid g; g.nd = nd; g.scalar_input = scalar; int m = scalar ? 2 : 1; int hi = nd == 2 ? 9 : 4;
  g.nt = r.pick({1, 2, 2, 3, 4}); if (nd == 3 && g.nt > 3) g.nt = 3;
  for (int d = 0; d < nd; d++) { int core = r.range(nd == 2 ? 2 : 2, hi); g.dims.push_back(core + 2 * m); g.org.push_back(0); g.dlo.push_back(m); g.dhi.push_back(m + core - 1); }
  if (r.coin(0.25)) for (int d = 0; d < nd; d++) { int o = r.range(0, 7); g.org[d] += o; g.dlo[d] += o; g.dhi[d] += o; } // arrays that do not start at the origin
  if (r.coin(0.25)) for (int d = 0; d < nd; d++) if (g.dhi[d] - g.dlo[d] >= 2) { if (r.coin()) g.dlo[d]++; else g.dhi[d]--; } // a sub-region of the data
  return g;
}
inline void quiet() { static bool once = false; if (once) return; once = true; if (!getenv("VH_LOUD")) { if (freopen("/dev/null", "w", stderr)) {} std::cerr.setstate(std::ios::failbit); } }
} // namespace cpm
