// C27: gradients, Jacobians, Gaussian smoothing and interpolation on triangle (and tetrahedral) meshes, against the mesh geometry.
#include "vh.hh"
#include <bits/stdc++.h>
#include <ftk/numeric/clamp.hh>
#include <ftk/numeric/fmod.hh>
#include <ftk/ndarray.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_3d_mesh.hh>
#include <ftk/mesh/simplicial_xgc_2d_mesh.hh>
#include <ftk/mesh/simplicial_xgc_3d_mesh.hh>
#include "umesh.hh"
using namespace ftk; using vh::Rng; using vh::strf;
typedef std::vector<double> D; typedef simplicial_unstructured_2d_mesh<> M2; typedef simplicial_unstructured_3d_mesh<> M3;
// meshes in which every vertex belongs to a cell, scaled and shifted
// a wheel: one vertex in many triangles
static UMesh wheel(Rng& r) { UMesh m; int n = r.range(3, 20); bool open = r.coin(.3); m.nv = n + 1 + open; std::vector<int> id(m.nv); std::iota(id.begin(), id.end(), 0); for (int i = m.nv - 1; i > 0; i--) std::swap(id[i], id[r.below(i + 1)]); m.x.resize(2 * m.nv); m.x[2 * id[0]] = m.x[2 * id[0] + 1] = 0; for (int k = 0; k < m.nv - 1; k++) { double a = 2 * M_PI * (k + r.real(-.2, .2)) / (n + open), q = r.real(.8, 1.2); m.x[2 * id[1 + k]] = q * std::cos(a); m.x[2 * id[1 + k] + 1] = q * std::sin(a); } for (int k = 0; k < n; k++) { int t[3] = {id[0], id[1 + k], id[1 + (k + 1) % (n + open)]}; int s = r.below(3); for (int j = 0; j < 3; j++) m.cells.push_back(t[(s + j) % 3]); } m.desc = strf("wheel of %d triangles", n); return m; }
static UMesh mesh2(Rng& r, int maxn) { UMesh m = maxn > 2 && r.coin(.15) ? wheel(r) : gen_mesh2(r, maxn, true, true); double s = r.pick({1.0, 1.0, 1e-3, 250.0}), a = r.real(0, 6), ox = r.coin() ? 0 : r.real(-3, 3), oy = r.coin() ? 0 : r.real(-3, 3); for (int i = 0; i < m.nv; i++) { double x = m.x[2 * i], y = m.x[2 * i + 1] * (r.coin(0) ? 1 : 1); m.x[2 * i] = s * (std::cos(a) * x - std::sin(a) * y + ox); m.x[2 * i + 1] = s * (std::sin(a) * x + std::cos(a) * y + oy); } m.desc += strf(" scale %g", s); return m; }
static double maxabs(const D& v) { double m = 0; for (double x : v) m = std::max(m, std::abs(x)); return m; }
static ndarray<double> arr(const D& f, std::vector<size_t> s, int nc) { ndarray<double> a; a.reshape(s); if (nc) a.set_multicomponents(nc); for (size_t i = 0; i < f.size(); i++) a[i] = f[i]; return a; }
static ndarray<double> sc(const D& f) { return arr(f, std::vector<size_t>(1, f.size()), 0); }
struct Cells { std::vector<std::array<double, 6>> inv; std::vector<double> q; }; // barycentric gradients; shape
static void bgrad(const UMesh& m, int c, double g[3][2], double& quality) { const int* t = &m.cells[3 * c]; double x[3], y[3]; for (int k = 0; k < 3; k++) x[k] = m.x[2 * t[k]], y[k] = m.x[2 * t[k] + 1]; double A = (x[1] - x[0]) * (y[2] - y[0]) - (x[2] - x[0]) * (y[1] - y[0]), L = 0; for (int k = 0; k < 3; k++) { int a = (k + 1) % 3, b = (k + 2) % 3; g[k][0] = (y[a] - y[b]) / A; g[k][1] = (x[b] - x[a]) / A; L = std::max(L, std::hypot(x[a] - x[b], y[a] - y[b])); } quality = std::abs(A) / (L * L); }
static std::shared_ptr<M2> make(const UMesh& m) { return std::make_shared<M2>(m.x, m.cells); }
static uint64_t g_gradients(Rng& r, int64_t idx) {
  UMesh m = mesh2(r, r.pick({3, 6, 9})); auto M = make(m); int nc = r.pick({1, 2, 2, 3, 4}); bool lin = idx % 2 == 0; vh::sample("case", m.desc);
  if (r.coin(0.3)) { std::string fn = vh::opt().dir + "/mesh.bin"; diy::serializeToFile(*M, fn); M = M2::from_file(fn); vh::count("reloaded_meshes"); }
  D a(nc * 3); for (auto& v : a) v = r.coin(0.2) ? r.range(-3, 3) : r.gauss() * r.pick({1.0, 100.0, 1e-3}); D f((size_t)nc * m.nv); for (int i = 0; i < m.nv; i++) for (int c = 0; c < nc; c++) f[i * nc + c] = lin ? a[3 * c] * m.x[2 * i] + a[3 * c + 1] * m.x[2 * i + 1] + a[3 * c + 2] : r.gauss() * r.pick({1.0, 10.0});
  double fm = maxabs(f), h = 1e300, L = maxabs(m.x); for (size_t c = 0; c < m.cells.size() / 3; c++) for (int k = 0; k < 3; k++) { int p = m.cells[3 * c + k], q = m.cells[3 * c + (k + 1) % 3]; h = std::min(h, std::hypot(m.x[2 * p] - m.x[2 * q], m.x[2 * p + 1] - m.x[2 * q + 1])); }
  ndarray<double> G = M->vector_gradient(arr(f, {(size_t)nc, (size_t)m.nv}, 1)); D f0(m.nv); for (int i = 0; i < m.nv; i++) f0[i] = f[i * nc]; ndarray<double> S = M->scalar_gradient(sc(f0)); ndarray<double> g2, j2; M->scalar_gradient_jacobian(sc(f0), g2, j2); ndarray<double> jj = M->vector_gradient(S);
  if (G.nelem() != (size_t)2 * nc * m.nv || S.nelem() != (size_t)2 * m.nv || j2.nelem() != (size_t)4 * m.nv || g2.nelem() != S.nelem()) { vh::viol("shape", strf("derived arrays have %zu, %zu, %zu, %zu elements for %d vertices and %d components; %s", G.nelem(), S.nelem(), g2.nelem(), j2.nelem(), m.nv, nc, m.desc.c_str())); return 1; }
  // bounds from the incident triangles
  std::vector<std::array<double, 4>> B((size_t)m.nv * nc, {1e300, -1e300, 1e300, -1e300}); D worst(m.nv, 1); for (size_t t = 0; t < m.cells.size() / 3; t++) { double g[3][2], q; bgrad(m, t, g, q); for (int c = 0; c < nc; c++) { double gx = 0, gy = 0; for (int k = 0; k < 3; k++) { double v = f[m.cells[3 * t + k] * nc + c]; gx += v * g[k][0]; gy += v * g[k][1]; } for (int k = 0; k < 3; k++) { auto& b = B[(size_t)m.cells[3 * t + k] * nc + c]; b[0] = std::min(b[0], gx); b[1] = std::max(b[1], gx); b[2] = std::min(b[2], gy); b[3] = std::max(b[3], gy); worst[m.cells[3 * t + k]] = std::min(worst[m.cells[3 * t + k]], q); } } }
  uint64_t hh = m.nv; for (int i = 0; i < m.nv; i++) { if (worst[i] < 0.02) { vh::count("slivers"); continue; } vh::count("vertices"); double tol = 1e-10 * (fm + 1e-300) / h / worst[i] * (1 + L / h);
    for (int c = 0; c < nc; c++) { double gx = G(0, c, i), gy = G(1, c, i); auto& b = B[(size_t)i * nc + c]; hh = vh::hcomb(hh, (uint64_t)(int64_t)(gx * 1e6));
      if (lin) { vh::count("linear_gradients"); VH_CHECK(std::abs(gx - a[3 * c]) <= tol && std::abs(gy - a[3 * c + 1]) <= tol, "linear", "gradient of component %d of %d at vertex %d is (%g %g) instead of (%g %g) for a linear function; %s", c, nc, i, gx, gy, a[3 * c], a[3 * c + 1], m.desc.c_str()); }
      else { vh::count("bounded_gradients"); VH_CHECK(gx >= b[0] - tol && gx <= b[1] + tol && gy >= b[2] - tol && gy <= b[3] + tol, "bounds", "gradient of component %d at vertex %d is (%g %g), but the gradients of its triangles lie in [%g %g]x[%g %g]; %s", c, i, gx, gy, b[0], b[1], b[2], b[3], m.desc.c_str()); }
      if (c == 0) for (int k = 0; k < 2; k++) { VH_CHECK(std::abs(S(k, i) - G(k, 0, i)) <= tol && std::abs(g2(k, i) - S(k, i)) <= tol, "scalar", "scalar gradient at vertex %d is %g, as the gradient of a vector's component %g, with the Jacobian %g; %s", i, S(k, i), G(k, 0, i), g2(k, i), m.desc.c_str()); for (int l = 0; l < 2; l++) VH_CHECK(j2(k, l, i) == jj(k, l, i) || std::abs(j2(k, l, i) - jj(k, l, i)) <= 1e-9 * std::abs(jj(k, l, i)), "jacobian", "the Jacobian differs from the gradient of the gradient at vertex %d; %s", i, m.desc.c_str()); } } }
  return hh;
}
// --- smoothing
typedef std::map<int, double> Kern;
static std::vector<Kern> kernels(const UMesh& m, double sg, std::vector<char>& near) {
  std::vector<std::set<int>> nb(m.nv); int K = m.D + 1; for (size_t c = 0; c < m.cells.size() / K; c++) for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) if (i != j) nb[m.cells[K * c + i]].insert(m.cells[K * c + j]);
  std::vector<Kern> R(m.nv); near.assign(m.nv, 0);
  for (int i = 0; i < m.nv; i++) { auto d = [&](int j) { double s = 0; for (int k = 0; k < m.D; k++) s += std::pow(m.x[m.D * i + k] - m.x[m.D * j + k], 2); return std::sqrt(s); }; std::vector<int> st{i}; std::set<int> seen{i}; while (!st.empty()) { int u = st.back(); st.pop_back(); R[i][u] = std::exp(-d(u) * d(u) / 2 / sg / sg) / (sg * std::sqrt(2 * M_PI)); for (int v : nb[u]) { double q = d(v) / (3 * sg); if (std::abs(q - 1) < 1e-9) near[i] = 1; if (q < 1 && seen.insert(v).second) st.push_back(v); } } }
  return R;
}
template <class KER> static void judge_kernel(const UMesh& m, const KER& got, const std::vector<Kern>& want, const std::vector<char>& near, const std::string& d) {
  if (got.size() != (size_t)m.nv) { vh::viol("kernel-size", strf("the kernel has %zu entries for %d vertices; %s", got.size(), m.nv, d.c_str())); return; }
  for (int i = 0; i < m.nv; i++) { if (near[i]) continue; Kern k; bool dup = false; for (auto& t : got[i]) if (!k.insert({(int)std::get<0>(t), std::get<1>(t)}).second) dup = true; vh::count("kernels"); vh::count("kernel_entries", k.size());
    VH_CHECK(!dup, "kernel-twice", "a neighbour appears twice in the kernel of vertex %d; %s", i, d.c_str());
    bool same = k.size() == want[i].size(); for (auto& kv : want[i]) if (!k.count(kv.first)) same = false; VH_CHECK(same, "kernel-neighbours", "the kernel of vertex %d has %zu neighbours, %zu lie within the radius; %s", i, k.size(), want[i].size(), d.c_str());
    if (same) for (auto& kv : want[i]) if (!(std::abs(k[kv.first] - kv.second) <= 1e-10 * want[i].at(i))) { vh::viol("kernel-weight", strf("weight of vertex %d in the kernel of %d is %g instead of %g; %s", kv.first, i, k[kv.first], kv.second, d.c_str())); break; } }
}
struct SGJ { D s, g, j; };
static SGJ smooth(const UMesh& m, const std::vector<Kern>& K, double sg, const D& f) { int n = m.D; SGJ o; o.s.assign(m.nv, 0); o.g.assign((size_t)n * m.nv, 0); o.j.assign((size_t)n * n * m.nv, 0); for (int i = 0; i < m.nv; i++) for (auto& kv : K[i]) { double w = kv.second * f[kv.first], d[3]; for (int a = 0; a < n; a++) d[a] = m.x[n * kv.first + a] - m.x[n * i + a]; o.s[i] += w; for (int a = 0; a < n; a++) { o.g[n * i + a] += w * d[a] / (sg * sg); for (int b = 0; b < n; b++) o.j[(size_t)(i * n + b) * n + a] += w * (d[a] * d[b] / (sg * sg) - (a == b)) / (sg * sg); } } return o; }
static void judge_sgj(const UMesh& m, const SGJ& w, const ndarray<double>& s, const ndarray<double>& g, const ndarray<double>& j, const std::vector<char>& near, double sg, const std::vector<Kern>& K, const D& f, const std::string& d) {
  size_t n = m.D; if (s.nelem() != (size_t)m.nv || g.nelem() != n * m.nv || j.nelem() != n * n * m.nv) { vh::viol("smooth-shape", strf("smoothed arrays have %zu, %zu, %zu elements; %s", s.nelem(), g.nelem(), j.nelem(), d.c_str())); return; }
  for (int i = 0; i < m.nv; i++) { if (near[i]) continue; double mag = 0; for (auto& kv : K[i]) mag += kv.second * std::abs(f[kv.first]); double t = 1e-10 * mag; vh::count("smoothed"); VH_CHECK(std::abs(s[i] - w.s[i]) <= t, "smooth-scalar", "smoothed scalar at vertex %d is %g instead of %g; %s", i, s[i], w.s[i], d.c_str());
    for (size_t a = 0; a < n; a++) { VH_CHECK(std::abs(g(a, i) - w.g[n * i + a]) <= 4 * t / sg, "smooth-gradient", "smoothed gradient %zu at vertex %d is %g instead of %g; %s", a, i, g(a, i), w.g[n * i + a], d.c_str()); for (size_t b = 0; b < n; b++) VH_CHECK(std::abs(j(a, b, i) - w.j[(i * n + b) * n + a]) <= 12 * t / sg / sg, "smooth-jacobian", "smoothed Jacobian (%zu,%zu) at vertex %d is %g instead of %g; %s", a, b, i, j(a, b, i), w.j[(i * n + b) * n + a], d.c_str()); } }
}
static bool identical(const M2& a, const M2& b) { return a.get_smoothing_kernel() == b.get_smoothing_kernel() && a.get_smoothing_kernel_size() == b.get_smoothing_kernel_size(); }
static uint64_t g_smoothing(Rng& r, int64_t idx) {
  UMesh m = r.coin(0.3) ? gen_mesh2(r, 6) : mesh2(r, r.pick({3, 6, 10})); double h = 0; int e = 0; for (size_t c = 0; c < m.cells.size() / 3; c++) { int p = m.cells[3 * c], q = m.cells[3 * c + 1]; h += std::hypot(m.x[2 * p] - m.x[2 * q], m.x[2 * p + 1] - m.x[2 * q + 1]); e++; } h /= e;
  double sg = h * r.pick({0.1, 0.3, 0.5, 0.8, 1.5, 4.0}); std::string d = m.desc + strf(" sigma %g (edges %g)", sg, h); vh::sample("case", d); auto M = make(m); std::string base = vh::opt().dir + strf("/k%d", (int)idx);
  if (r.coin(0.3)) { M->build_smoothing_kernel(h * r.real(0.2, 2)); vh::count("rebuilt_kernels"); d += " after another kernel"; }
  M->build_smoothing_kernel(sg); VH_CHECK(M->has_smoothing_kernel() && M->get_smoothing_kernel_size() == sg, "kernel-sigma", "kernel size %g instead of %g", M->get_smoothing_kernel_size(), sg);
  std::vector<char> near; auto K = kernels(m, sg, near); judge_kernel(m, M->get_smoothing_kernel(), K, near, d);
  { M->write_smoothing_kernel(base); auto N = make(m); if (r.coin()) N->build_smoothing_kernel(h * 0.7); bool ok = N->read_smoothing_kernel(base); vh::count("reloaded_kernels"); VH_CHECK(ok && identical(*M, *N), "kernel-reload", "the reloaded kernel differs from the saved one; %s", d.c_str()); if (ok) M = N; VH_CHECK(!N->read_smoothing_kernel(base + "-missing"), "kernel-missing", "reading a missing kernel file succeeds"); remove(base.c_str()); }
  ndarray<double> s, g, j; for (int rep = 0; rep < 2; rep++) { D f(m.nv); bool konst = r.coin(0.2); for (auto& v : f) v = konst ? 1 : r.gauss() * r.pick({1.0, 1.0, 50.0}); M->smooth_scalar_gradient_jacobian(sc(f), s, g, j); SGJ w = smooth(m, K, sg, f); judge_sgj(m, w, s, g, j, near, sg, K, f, d + (rep ? " (arrays used before)" : "")); ndarray<double> s2 = M->smooth_scalar(sc(f)); for (int i = 0; i < m.nv; i++) VH_CHECK(std::abs(s2[i] - s[i]) <= 1e-12 * (std::abs(s[i]) + maxabs(f) * K[i][i]), "smooth-two", "smooth_scalar gives %g, with derivatives %g at vertex %d; %s", s2[i], s[i], i, d.c_str()); }
  return vh::mix(m.nv * 1000 + (uint64_t)(sg / h * 10) + (uint64_t)(std::abs(m.x[0]) * 1e6));
}
// kernels cached in files: each mesh and kernel size gets its own
static uint64_t g_cache(Rng& r, int64_t idx) {
  std::string wd = vh::opt().dir + strf("/cache%d", (int)idx); mkdir(wd.c_str(), 0777); char old[4096]; if (!getcwd(old, sizeof old) || chdir(wd.c_str())) return 0;
  UMesh m = mesh2(r, 5); std::vector<UMesh> ms{m}; for (int k = 0; k < 2; k++) { UMesh q = m; if (k == 0) for (double& x : q.x) x *= 1.25; else { int v = r.below(q.nv); q.x[2 * v] += 0.01 * (std::abs(q.x[0] - q.x[2]) + 1e-3); } ms.push_back(q); } { UMesh q = m; std::swap(q.cells[0], q.cells[1]); std::vector<int> t(q.cells.begin(), q.cells.begin() + 3); q.cells.erase(q.cells.begin(), q.cells.begin() + 3); q.cells.insert(q.cells.end(), t.begin(), t.end()); ms.push_back(q); }
  double h = std::hypot(m.x[2 * m.cells[0]] - m.x[2 * m.cells[1]], m.x[2 * m.cells[0] + 1] - m.x[2 * m.cells[1] + 1]); vh::sample("case", m.desc + " and variations of it");
  for (int k = 0; k < 14; k++) { auto& q = ms[r.below(ms.size())]; double sg = h * r.pick({0.5, 0.8, 0.80001}); if (r.coin(.5)) sg = std::ldexp(std::max(1.0, std::round(std::ldexp(h * r.pick({0.4, 0.6, 0.8}), 8))), -8); auto M = make(q); M->build_smoothing_kernel_cached(sg); auto R = make(q); R->build_smoothing_kernel(sg); vh::count("cached_kernels"); VH_CHECK(identical(*M, *R), "kernel-cache", "the cached kernel is not the kernel of the mesh (step %d, sigma %g); %s", k, sg, q.desc.c_str()); }
  if (chdir(old)) {} std::string cmd = "rm -rf '" + wd + "'"; if (system(cmd.c_str())) {} return vh::mix(m.nv + 7 * idx);
}
static uint64_t g_tets(Rng& r, int64_t) {
  UMesh m = gen_mesh3(r, 4); double s = r.pick({1.0, 0.01, 30.0}); for (double& x : m.x) x *= s; double sg = s * r.pick({0.2, 0.4, 0.6, 1.2}); std::string d = m.desc + strf(" scale %g sigma %g", s, sg); vh::sample("case", d); auto M = std::make_shared<M3>(m.x, m.cells); if (r.coin(0.3)) M->build_smoothing_kernel(sg * 1.5); M->build_smoothing_kernel(sg);
  std::vector<char> near; auto K = kernels(m, sg, near); ndarray<double> S, G, J; for (int rep = 0; rep < 2; rep++) { D f(m.nv); for (auto& v : f) v = r.gauss(); M->smooth_scalar_gradient_jacobian(sc(f), sg, S, G, J); vh::count("tet_fields"); judge_sgj(m, smooth(m, K, sg, f), S, G, J, near, sg, K, f, d + (rep ? " (arrays used before)" : "")); }
  return vh::mix(m.nv + vh::dbits(m.x[0]));
}
// poloidal planes and interpolation
static uint64_t g_planes(Rng& r, int64_t) {
  UMesh m = mesh2(r, 7); int nc = r.pick({0, 1, 2, 3, 5}), nphi = r.range(1, 4); vh::sample("case", m.desc + strf(" planes %d components %d", nphi, nc));
  ndarray<double> X = arr(m.x, {2, (size_t)m.nv}, 1); ndarray<int> T; T.reshape({3, m.cells.size() / 3}); for (size_t i = 0; i < m.cells.size(); i++) T[i] = m.cells[i]; auto mx = std::make_shared<simplicial_xgc_2d_mesh<>>(X, T); mx->initialize_point_locator();
  { int c = std::max(1, nc); D a(3 * c), f((size_t)c * m.nv); bool lin = r.coin(); for (auto& v : a) v = r.gauss(); for (int i = 0; i < m.nv; i++) for (int k = 0; k < c; k++) f[i * c + k] = lin ? a[3 * k] * m.x[2 * i] + a[3 * k + 1] * m.x[2 * i + 1] + a[3 * k + 2] : r.gauss(); ndarray<double> F = nc ? arr(f, {(size_t)c, (size_t)m.nv}, 1) : sc(f); double fm = maxabs(f);
    for (int q = 0; q < 40; q++) { int t = r.below(m.cells.size() / 3); double w[3] = {r.real(0.02, 1), r.real(0.02, 1), r.real(0.02, 1)}, ws = w[0] + w[1] + w[2], x[3] = {0, 0, 0}; for (int k = 0; k < 3; k++) { w[k] /= ws; for (int l = 0; l < 2; l++) x[l] += w[k] * m.x[2 * m.cells[3 * t + k] + l]; } D val(c + 2, 1e30); double g[3][2], ql; bgrad(m, t, g, ql); if (ql < 0.02) continue; bool ok = mx->eval(F, x, val.data()); vh::count("interpolations"); VH_CHECK(ok, "eval-inside", "a point inside triangle %d is not found; %s", t, m.desc.c_str()); if (!ok) continue; for (int k = 0; k < c; k++) { double e = 0; for (int l = 0; l < 3; l++) e += w[l] * f[m.cells[3 * t + l] * c + k]; VH_CHECK(std::abs(val[k] - e) <= 1e-6 * fm, "eval", "component %d of %d interpolates to %g instead of %g in triangle %d; %s", k, nc, val[k], e, t, m.desc.c_str()); } VH_CHECK(val[c] == 1e30, "eval-overrun", "interpolation of %d components writes more", c); }
    double far[3] = {m.x[0] + 1e5, m.x[1], 0}; D v(c + 2); VH_CHECK(!mx->eval(F, far, v.data()), "eval-outside", "a point outside the mesh is interpolated; %s", m.desc.c_str()); }
  double h = std::hypot(m.x[2 * m.cells[0]] - m.x[2 * m.cells[1]], m.x[2 * m.cells[0] + 1] - m.x[2 * m.cells[1] + 1]), sg = h * r.pick({0.4, 0.9}); mx->build_smoothing_kernel(sg); simplicial_xgc_3d_mesh<> m3(mx, nphi, 1, 1); D f((size_t)m.nv * nphi); for (auto& v : f) v = r.gauss(); ndarray<double> A = arr(f, {(size_t)m.nv, (size_t)nphi}, 0), S, G, J; for (int rep = 0; rep < 2; rep++) m3.smooth_scalar_gradient_jacobian(A, S, G, J); ndarray<double> S2 = m3.smooth_scalar(A);
  for (int p = 0; p < nphi; p++) { D fp(f.begin() + (size_t)p * m.nv, f.begin() + (size_t)(p + 1) * m.nv); ndarray<double> s, g, j; mx->smooth_scalar_gradient_jacobian(sc(fp), s, g, j); bool ok = true; for (int i = 0; i < m.nv; i++) { ok &= S(i, p) == s[i] && S2(i, p) == s[i]; for (int a = 0; a < 2; a++) { ok &= G(a, i, p) == g(a, i); for (int b = 0; b < 2; b++) ok &= J(a, b, i, p) == j(a, b, i); } } vh::count("planes"); VH_CHECK(ok, "planes", "smoothing on plane %d of %d differs from smoothing the plane alone; %s", p, nphi, m.desc.c_str()); }
  return vh::mix(m.nv * 31 + nphi * 7 + nc + (uint64_t)(std::abs(m.x[0]) * 1e6));
}
VH_MAIN({vh::group("gradients", 800, 20000, g_gradients); vh::group("smoothing", 500, 12000, g_smoothing); vh::group("cache", 40, 600, g_cache); vh::group("tets", 150, 3000, g_tets); vh::group("planes", 300, 6000, g_planes);})
