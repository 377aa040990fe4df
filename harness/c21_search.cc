#include "umesh.hh"
#include <ftk/config.hh>
#include <ftk/numeric/clamp.hh>
#include <ftk/basic/kd.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include <ftk/mesh/point_locator_2d_quad.hh>
using namespace vh;
template <class F, size_t n> uint64_t kd_case(Rng& r, int64_t) {
  int np = r.coin(.15) ? 1 + r.below(3) : 1 + r.below(r.coin(.1) ? 400 : 60), mode = r.below(5); double sc = r.pick({1., 1000., 1e-3});
  std::vector<std::array<F, n>> pts(np); for (auto& p : pts) for (size_t k = 0; k < n; k++) p[k] = mode == 0 ? r.real(-1, 1) * sc : mode == 1 ? (double)r.range(-3, 3) : mode == 2 ? (k == 0 ? r.real(-1, 1) : .25) : mode == 3 ? r.gauss() * (k + 1) : 0.5 * r.range(0, 1);
  if (mode == 3 && r.coin()) std::sort(pts.begin(), pts.end());
  ftk::kd_t<F, n> t; size_t stride = n;
  if (r.coin()) { stride = n + r.below(3); std::vector<F> b(np * stride, (F)77); for (int i = 0; i < np; i++) for (size_t k = 0; k < n; k++) b[i * stride + k] = pts[i][k]; t.set_inputs(np, b.data(), stride); }
  else { ftk::ndarray<F> a; a.reshape({n, (size_t)np}); for (int i = 0; i < np; i++) for (size_t k = 0; k < n; k++) a(k, (size_t)i) = pts[i][k]; t.set_inputs(a); }
  int lim = r.coin(.75) ? -1 : (int)r.below(6); if (lim < 0) t.build(); else t.build(lim);
  uint64_t h = hcomb(np, mode); for (auto& p : pts) for (auto x : p) h = hcomb(h, (uint64_t)(int64_t)(x * 1e6));
  std::string D = strf("%d points in %zuD mode %d stride %zu depth %d", np, n, mode, stride, lim); note(D);
  for (int q = 0; q < 25; q++) {
    std::array<F, n> x; int qm = r.below(5); for (size_t k = 0; k < n; k++) x[k] = qm == 0 ? pts[r.below(np)][k] : qm == 1 ? (double)r.range(-4, 4) * .5 : qm == 2 ? r.real(-50, 50) * sc : r.real(-1.5, 1.5) * sc; if (qm == 4) x = pts[r.below(np)];
    size_t i = r.coin() ? t.find_nearest(x) : t.find_nearest(x.data()), j = t.find_nearest_naive(x); if (i >= (size_t)np || j >= (size_t)np) { viol("kd:id", D); continue; }
    auto d2 = [&](size_t a) { F s = 0; for (size_t k = 0; k < n; k++) { F d = x[k] - pts[a][k]; s += d * d; } return s; };
    F best = std::numeric_limits<F>::max(); for (int a = 0; a < np; a++) best = std::min(best, d2(a));
    if (d2(i) != best) viol("kd:nearest", strf("%s query %d: returned point %zu at squared distance %.9g, minimum %.9g", D.c_str(), q, i, (double)d2(i), (double)best));
    if (d2(j) != best) viol("kd:naive", D); count("kd_queries"); if (lim >= 0) count("kd_limited");
  }
  return h;
}
static uint64_t loc_case(Rng& r, int64_t) {
  UMesh u = gen_mesh2(r, r.coin(.1) ? 12 : 6, false, r.coin(.6)); note(u.desc); size_t nt = u.cells.size() / 3; double sc = r.pick({1., 1., 4., .125}), ox = r.pick({0., 0., -100., 3.}); for (size_t i = 0; i < u.x.size(); i++) u.x[i] = u.x[i] * sc + ox;
  typedef ftk::simplicial_unstructured_2d_mesh<> M; std::shared_ptr<M> m; int dim = 2; double z = r.real(-5, 5);
  if (r.coin()) m.reset(new M(u.x, u.cells)); else { dim = r.coin() ? 2 : 3; ftk::ndarray<double> X; X.reshape({(size_t)dim, (size_t)u.nv}); for (int i = 0; i < u.nv; i++) { X(0, i) = u.x[2 * i]; X(1, i) = u.x[2 * i + 1]; if (dim == 3) X(2, i) = z; } ftk::ndarray<int> T; T.reshape({(size_t)3, nt}); for (size_t i = 0; i < u.cells.size(); i++) T[i] = u.cells[i]; m.reset(new M(X, T)); }
  ftk::point_locator_2d_quad<> loc(*m);
  auto bary = [&](size_t t, const double* x, double* mu) { long double p[3][2]; for (int k = 0; k < 3; k++) for (int c = 0; c < 2; c++) p[k][c] = u.x[2 * u.cells[3 * t + k] + c]; long double d = (p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[2][0] - p[0][0]) * (p[1][1] - p[0][1]); for (int k = 0; k < 3; k++) { auto a = p[(k + 1) % 3], b = p[(k + 2) % 3]; mu[k] = ((a[0] - x[0]) * (b[1] - x[1]) - (b[0] - x[0]) * (a[1] - x[1])) / d; } };
  double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9}; for (int v : u.cells) for (int c = 0; c < 2; c++) { lo[c] = std::min(lo[c], u.x[2 * v + c]); hi[c] = std::max(hi[c], u.x[2 * v + c]); }
  std::set<int> used(u.cells.begin(), u.cells.end()); int nq = 40 + used.size();
  for (int q = 0; q < nq; q++) {
    double x[3] = {0, 0, 0}, mu[3] = {-9, -9, -9}; bool vertex = false; std::string what;
    if (q >= 40) { auto it = used.begin(); std::advance(it, q - 40); x[0] = u.x[2 * *it]; x[1] = u.x[2 * *it + 1]; vertex = true; what = strf("vertex %d", *it); }
    else { int qm = r.below(6); size_t t = r.below(nt); double w[3] = {r.real(), r.real(), r.real()}; if (qm == 0) w[0] *= 1e-4; if (qm == 1) { w[0] *= 1e-5; w[1] *= 1e-5; } double s = w[0] + w[1] + w[2]; if (qm < 3) for (int c = 0; c < 2; c++) x[c] = (w[0] * u.x[2 * u.cells[3 * t] + c] + w[1] * u.x[2 * u.cells[3 * t + 1] + c] + w[2] * u.x[2 * u.cells[3 * t + 2] + c]) / s; else for (int c = 0; c < 2; c++) { double e = qm == 3 ? 0 : qm == 4 ? .3 * (hi[c] - lo[c]) : 10 * (hi[c] - lo[c]); x[c] = r.real(lo[c] - e, hi[c] + e); } what = "point"; }
    double margin = -1e30; std::vector<size_t> in; for (size_t t = 0; t < nt; t++) { double b[3]; bary(t, x, b); double m3 = std::min({b[0], b[1], b[2]}); margin = std::max(margin, m3); if (m3 >= -1e-9) in.push_back(t); }
    bool viaMesh = false; int id = loc.locate(x, mu); (void)viaMesh; std::string D = strf("%s %d-component coordinates, %s (%.17g,%.17g)", u.desc.c_str(), dim, what.c_str(), x[0], x[1]);
    if (id >= (int)nt || id < -1) { viol("locate:id", D); continue; }
    if (id < 0) { if (vertex || margin > 1e-9) viol("locate:missed", strf("%s lies in triangle %zu but is not located", D.c_str(), in.empty() ? 0 : in[0])); else count("located_outside"); }
    else { double b[3]; bary(id, x, b); if (std::min({b[0], b[1], b[2]}) < -1e-9) viol("locate:wrong", strf("%s: triangle %d does not contain it", D.c_str(), id)); int tv[3]; m->get_simplex(2, id, tv); double bm[3] = {9, 9, 9}; for (int k = 0; k < 3; k++) for (int e = 0; e < 3; e++) if (u.cells[3 * id + e] == tv[k]) bm[k] = b[e]; /* barycentric coordinates are in the vertex order of the mesh */ for (int k = 0; k < 3; k++) if (std::abs(bm[k] - mu[k]) > 1e-9) viol("locate:barycentric", strf("%s: mu[%d]=%g expected %g", D.c_str(), k, mu[k], bm[k])); if (margin > 1e-9 && in.size() == 1 && id != (int)in[0]) viol("locate:wrong", D); count("located_inside"); if (vertex) count("located_vertices"); }
    if (loc.ftk::point_locator_2d<int, double>::locate(x) != id) viol("locate:overload", D);
  }
  auto bvh = loc.to_bvh(); std::set<int> tri; for (auto& nd : bvh) if (nd.triangleId >= 0) { if (!tri.insert(nd.triangleId).second) viol("bvh:twice", u.desc); double c[3][2] = {{nd.x0, nd.y0}, {nd.x1, nd.y1}, {nd.x2, nd.y2}}; int iv[3] = {nd.i0, nd.i1, nd.i2}; for (int k = 0; k < 3; k++) { if (c[k][0] != u.x[2 * iv[k]] || c[k][1] != u.x[2 * iv[k] + 1]) viol("bvh:coords", u.desc); int p = &nd - &bvh[0]; while (p >= 0) { auto& a = bvh[p]; if (c[k][0] < a.Ax || c[k][0] > a.Bx || c[k][1] < a.Ay || c[k][1] > a.By) { viol("bvh:bounds", u.desc); break; } p = a.parentId; } } }
  if (tri.size() != nt) viol("bvh:missing", u.desc);
  for (size_t i = 0; i < bvh.size(); i++) for (int k = 0; k < 4; k++) if (bvh[i].childrenIds[k] >= 0 && bvh[bvh[i].childrenIds[k]].parentId != (int)i) viol("bvh:parent", u.desc);
  uint64_t h = u.nv; for (int c : u.cells) h = hcomb(h, c); return h;
}
VH_MAIN({ group("kd2", 400, 10000, (kd_case<double, 2>)); group("kd3", 400, 10000, (kd_case<double, 3>)); group("kd1", 100, 2000, (kd_case<float, 1>)); group("kd3f", 150, 3000, (kd_case<float, 3>)); group("kd4", 100, 2000, (kd_case<double, 4>)); group("locate", 300, 6000, loc_case); })
