// C17: data streams deliver every time step once, in order, with the right data and transformations.
#include "vh.hh"
#if FTK_HAVE_HDF5
#include <hdf5.h>
#endif
#include <ftk/ndarray/stream.hh>
#include <dlfcn.h>
#include <future>
#include <atomic>
#include <thread>
#if FTK_HAVE_NETCDF
#include <netcdf.h>
#endif
#if FTK_HAVE_VTK
#include <vtkImageData.h>
#include <vtkPointData.h>
#include <vtkDoubleArray.h>
#include <vtkFloatArray.h>
#include <vtkUnstructuredGrid.h>
#include <vtkXMLImageDataWriter.h>
#include <vtkXMLUnstructuredGridWriter.h>
#endif
using namespace vh;
using nlohmann::json;
typedef std::vector<size_t> Sz;

// reading is slowed down where the data files are opened
static std::atomic<int> delay_us(0);
static std::string slow_prefix = "\1";
extern "C" FILE* fopen(const char* f, const char* m) { static FILE* (*real)(const char*, const char*) = (FILE * (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen"); int d = delay_us; if (d && *m == 'r' && !strncmp(f, slow_prefix.c_str(), slow_prefix.size())) std::this_thread::sleep_for(std::chrono::microseconds((mix((uint64_t)d + f[strlen(f) - 5]) % 4) * d / 3)); return real(f, m); }

static std::string sd(const Sz& d) { std::string s = "("; for (size_t i = 0; i < d.size(); i++) s += strf(i ? ",%zu" : "%zu", d[i]); return s + ")"; }
static size_t prod(const Sz& d) { size_t n = 1; for (auto x : d) n *= x; return n; }

struct M { Sz d; int nc = 1; std::vector<double> v; // spatial dimensions, components, values with the component running fastest
  Sz shape() const { Sz s = d; if (nc > 1) s.insert(s.begin(), nc); return s; } size_t n() const { return prod(d); } };
template <class T> struct Frame { int k; ftk::ndarray<T> a; };

// the transformations of a stream, by their definition
static M smooth(const M& m, double sigma, int ks) {
  M r = m; int nd = m.d.size(), h = ks / 2; std::vector<double> w; double sum = 0; int tot = 1; for (int i = 0; i < nd; i++) tot *= ks;
  for (int q = 0; q < tot; q++) { double e = 0; int z = q; for (int i = 0; i < nd; i++, z /= ks) { double x = z % ks - h; e += x * x; } w.push_back(std::exp(-e / (2 * sigma * sigma))); sum += w.back(); }
  for (size_t p = 0; p < m.n(); p++) for (int c = 0; c < m.nc; c++) { double s = 0;
      for (int q = 0; q < tot; q++) { size_t off = 0, st = 1, pp = p; int z = q; bool in = true; for (int i = 0; i < nd; i++, z /= ks) { long x = (long)(pp % m.d[i]) + z % ks - h; pp /= m.d[i]; if (x < 0 || x >= (long)m.d[i]) in = false; off += x * st; st *= m.d[i]; } if (in) s += w[q] / sum * m.v[off * m.nc + c]; }
      r.v[p * m.nc + c] = s / tot; } // convolutions of the library average over the entries of the kernel
  return r; }
static std::vector<M> temporal(const std::vector<M>& a, double sigma, int ks) {
  std::vector<double> w; double sum = 0; int h = ks / 2, n = a.size(); for (int i = 0; i < ks; i++) w.push_back(std::exp(-(i - h) * (i - h) / (2 * sigma * sigma))), sum += w.back();
  std::vector<M> r = a; for (int t = 0; t < n; t++) for (size_t q = 0; q < a[t].v.size(); q++) { double s = 0; for (int i = 0; i < ks; i++) s += w[i] / sum * a[std::max(0, std::min(n - 1, t + i - h))].v[q]; r[t].v[q] = s; } return r; }

template <class T> struct Result { std::vector<Frame<T>> f; Sz shape; size_t nt, nc; bool overlap = false; std::set<std::thread::id> threads; };
// runs a stream to its end; a stream which does not end is reported
template <class T> Result<T> run(const json& j, const std::vector<int>& consumer_us, const std::string& ctx, std::function<void(ftk::ndarray_stream<T>&)> prep = nullptr) {
  auto res = std::make_shared<Result<T>>(); auto pr = std::make_shared<std::promise<int>>(); auto fut = pr->get_future();
  std::thread th([res, pr, j, consumer_us, prep]() { ftk::ndarray_stream<T> s{diy::mpi::communicator()}; s.configure(j); if (prep) prep(s); res->shape = s.shape(); res->nt = s.n_timesteps(); res->nc = s.n_components(); std::atomic<int> busy(0);
    s.set_callback([&](int k, const ftk::ndarray<T>& a) { if (busy++) res->overlap = true; ftk::ndarray<T> b = a; size_t n = res->f.size(); int us = consumer_us.empty() ? 0 : consumer_us[n % consumer_us.size()]; if (us) std::this_thread::sleep_for(std::chrono::microseconds(us));
      if (b.shape() == a.shape() && b.nelem() == a.nelem()) for (size_t i = 0; i < b.nelem(); i++) if (!(b[i] == a[i]) && b[i] == b[i]) { b[i] = std::numeric_limits<T>::quiet_NaN(); res->overlap = true; break; } // the data must not change while it is used
      res->f.push_back({k, b}); busy--; }); s.start(); s.finish(); pr->set_value(1); });
  if (fut.wait_for(std::chrono::seconds(40)) != std::future_status::ready) { viol("stream-does-not-end", strf("%s: no end of the stream within 40 s after %zu calls", ctx.c_str(), res->f.size())); finish(); _exit(1); }
  th.join(); return *res; }
struct Cmp { double rel = 1e-11, abs = 1e-12; };
template <class T> void judge(const Result<T>& r, const std::vector<M>& e, const std::string& key, const std::string& ctx, Cmp c = Cmp()) {
  if (r.overlap) viol(key + "-unsafe", strf("%s: the data of a step changes while the consumer uses it, or two steps are delivered at once", ctx.c_str()));
  std::string ks; for (auto& f : r.f) ks += strf(" %d", f.k); if (r.f.size() != e.size()) { viol(key + "-count", strf("%s: %zu steps delivered instead of %zu:%s", ctx.c_str(), r.f.size(), e.size(), ks.c_str())); return; }
  for (size_t i = 0; i < e.size(); i++) if (r.f[i].k != (int)i) { viol(key + "-order", strf("%s: steps delivered in the order%s", ctx.c_str(), ks.c_str())); return; }
  for (size_t i = 0; i < e.size(); i++) { auto& a = r.f[i].a; Sz w = e[i].shape(); if (a.shape() != w) { viol(key + "-shape", strf("%s: step %zu has shape %s instead of %s", ctx.c_str(), i, sd(a.shape()).c_str(), sd(w).c_str())); return; }
    size_t ncd = a.multicomponents(); if (ncd != (size_t)(e[i].nc > 1)) { viol(key + "-components", strf("%s: step %zu has %zu component axes instead of %d", ctx.c_str(), i, ncd, e[i].nc > 1)); return; }
    for (size_t q = 0; q < e[i].v.size(); q++) { double x = a[q], y = e[i].v[q]; if (!(std::fabs(x - y) <= c.abs + c.rel * std::fabs(y)) && !(std::isnan(x) && std::isnan(y))) { viol(key + "-data", strf("%s: step %zu value %zu is %.17g instead of %.17g", ctx.c_str(), i, q, x, y)); return; } } count("values", e[i].v.size()); }
  count("steps", e.size()); if (e.empty()) count("empty_streams"); }

static std::vector<int> consumer(Rng& r) { std::vector<int> v; int mode = r.below(4); if (mode == 0) return v; int n = r.range(1, 5); for (int i = 0; i < n; i++) v.push_back(mode == 1 ? r.below(300) : mode == 2 ? (r.coin(0.3) ? 4000 : 0) : r.range(500, 2000)); return v; }
// adds transformations to a stream and applies them to the expected steps
static std::string transform(Rng& r, json& j, std::vector<M>& e) {
  std::string s; if (r.coin(0.4)) { j["async"] = true; s += " async"; count("async"); }
  bool sp = !e.empty() && e[0].d.size() >= 2 && e[0].d.size() <= 3 && e[0].n() < 400; 
  if (sp && r.coin(0.3)) { int ks = 3; double g = r.real(0.3, 3); j["spatial-smoothing-kernel"] = g; if (r.coin()) { ks = r.pick({1, 3, 5}); j["spatial-smoothing-kernel-size"] = ks; } for (auto& m : e) m = smooth(m, g, ks); s += strf(" spatial(%g,%d)", g, ks); count("spatial"); if (e[0].nc > 1) count("spatial_vectors"); }
  if (r.coin(0.3)) { double lo = 0, hi = 0; if (e.size()) { auto& m = e[r.below(e.size())]; lo = m.v[r.below(m.v.size())]; hi = m.v[r.below(m.v.size())]; if (std::isnan(lo) || std::isnan(hi)) lo = 0, hi = 1; if (lo > hi) std::swap(lo, hi); } j["clamp"] = {lo, hi}; for (auto& m : e) for (auto& x : m.v) if (!std::isnan(x)) x = std::min(std::max(x, lo), hi); s += strf(" clamp(%g,%g)", lo, hi); count("clamped"); }
  if (r.coin(0.35)) { int ks = 5; double g = r.real(0.3, 4); j["temporal-smoothing-kernel"] = g; if (r.coin(0.7)) { ks = r.pick({1, 3, 5, 7, 9}); j["temporal-smoothing-kernel-size"] = ks; } size_t n = e.size(); e = temporal(e, g, ks); s += strf(" temporal(%g,%d)", g, ks); count("temporal"); if (n && (int)n < ks) count("temporal_short"); }
  return s; }

// ---- synthetic sources ----
typedef std::function<double(int c, const int* x, int k)> Fun;
static std::vector<M> frames(const Sz& d, int nc, int nt, Fun f) { std::vector<M> e; for (int k = 0; k < nt; k++) { M m; m.d = d; m.nc = nc; for (size_t p = 0; p < m.n(); p++) { int x[4] = {0}; size_t q = p; for (size_t i = 0; i < d.size(); i++) x[i] = q % d[i], q /= d[i]; for (int c = 0; c < nc; c++) m.v.push_back(f(c, x, k)); } e.push_back(m); } return e; }
template <class T> void synthetic(Rng& r, int64_t i, const char* tn) {
  static const char* names[] = {"woven", "moving_extremum_2d", "moving_extremum_3d", "moving_ramp_3d", "moving_dual_ramp_3d", "double_gyre", "merger_2d", "volcano_2d", "tornado"};
  std::string name = names[i % 9]; json j = {{"type", "synthetic"}, {"name", name}}; int nd = name.find("3d") != std::string::npos || name == "tornado" ? 3 : 2; Sz d; int nt, nc = name == "tornado" ? 3 : name == "double_gyre" ? 2 : 1; Fun f;
  bool defd = r.coin(0.08); if (defd) { if (name == "woven" || name == "merger_2d" || name == "tornado") d.assign(nd, 32); else if (name == "double_gyre") d = {64, 32}; else d.assign(nd, 21); count("default_sizes"); } else { for (int q = 0; q < nd; q++) d.push_back(r.range(2, nd == 2 ? 14 : 7)); j["dimensions"] = d; }
  if (r.coin(0.05) && !defd) { nt = name == "double_gyre" ? 50 : name == "merger_2d" ? 100 : 32; count("default_steps"); } else { nt = r.pick({0, 1, 1, 2, 2, 3, 4, 5, 7, 11}); j["n_timesteps"] = nt; }
  double x0[3] = {10, 10, 10}, dir[3] = {0.1, nd == 3 ? 0.11 : 0.1, 0.1}; 
  if (name.find("extremum") != std::string::npos || name == "volcano_2d") { if (r.coin()) { json a = json::array(); for (int q = 0; q < nd; q++) x0[q] = r.real(-2, 12), a.push_back(x0[q]); j["x0"] = a; } if (name != "volcano_2d" && r.coin()) { json a = json::array(); for (int q = 0; q < nd; q++) dir[q] = r.real(-1, 1), a.push_back(dir[q]); j["dir"] = a; } }
  if (name == "woven") f = [=](int, const int* x, int k) { double X = (x[0] / (d[0] - 1.0) - 0.5) * 15, Y = (x[1] / (d[1] - 1.0) - 0.5) * 15, t = nt == 1 ? 0 : k / (nt - 1.0); return std::cos(X * std::cos(t) - Y * std::sin(t)) * std::sin(X * std::sin(t) + Y * std::cos(t)); };
  else if (name.find("extremum") != std::string::npos) f = [=](int, const int* x, int k) { double s = 0; for (int q = 0; q < nd; q++) { double u = x[q] - x0[q] - dir[q] * k; s += u * u; } return s; };
  else if (name == "moving_ramp_3d") { double a = 10, rate = 0.1; if (r.coin()) j["x0"] = a = r.real(0, 12); if (r.coin()) j["rate"] = rate = r.real(-1, 1); f = [=](int, const int* x, int k) { return x[0] - (a + rate * k); }; }
  else if (name == "moving_dual_ramp_3d") { double a = 10, rate = 0.7, off = 2; if (r.coin()) j["x0"] = a = r.real(0, 12); if (r.coin()) j["rate"] = rate = r.real(-1, 1); if (r.coin()) j["offset"] = off = r.real(-3, 3); f = [=](int, const int* x, int k) { return std::fabs(x[0] - a) - rate * (k + off); }; }
  else if (name == "volcano_2d") { double rad = 3; if (r.coin()) j["radius"] = rad = r.real(0, 6); f = [=](int, const int* x, int k) { double e = std::sqrt((x[0] - x0[0]) * (x[0] - x0[0]) + (x[1] - x0[1]) * (x[1] - x0[1])) - (rad + k); return std::exp(-e * e); }; }
  else if (name == "double_gyre") { double ts = 0.1; if (r.coin()) j["time_scale"] = ts = r.real(0, 1); f = [=](int c, const int* x, int k) { double A = 0.1, e = 0.25, s = std::sin(2 * M_PI * k * ts), X = x[0] / (d[0] - 1.0) * 2, Y = x[1] / (d[1] - 1.0), g = e * s * X * X + (1 - 2 * e * s) * X, gx = 2 * e * s * X + 1 - 2 * e * s; return c == 0 ? -M_PI * A * std::sin(M_PI * g) * std::cos(M_PI * Y) : M_PI * A * std::cos(M_PI * g) * std::sin(M_PI * Y) * gx; }; }
  else if (name == "merger_2d") f = [=](int, const int* x, int k) { double t = 0.1 * k, X = (x[0] / (d[0] - 1.0) - 0.5) * 4, Y = (x[1] / (d[1] - 1.0) - 0.5) * 4, a = X * std::cos(t) - Y * std::sin(t), b = X * std::sin(t) + Y * std::cos(t); auto g = [&](double cx) { return std::exp(-((a - cx) * (a - cx) + (b - 1e-4) * (b - 1e-4))); }; return std::max(g(-std::cos(t)), g(std::cos(t))); };
  else f = [=](int c, const int* x, int k) { double X = x[0] / (d[0] - 1.0), Y = x[1] / (d[1] - 1.0), z = x[2] / (d[2] - 1.0), xc = 0.5 + 0.1 * std::sin(0.04 * k + 10 * z), yc = 0.5 + 0.1 * std::cos(0.03 * k + 3 * z), ra = 0.1 + 0.4 * z * z + 0.1 * z * std::sin(8 * z), r2 = 0.2 + 0.1 * z, w = std::sqrt((Y - yc) * (Y - yc) + (X - xc) * (X - xc)), s = std::fabs(ra - w); s = s > r2 ? 0.8 - s : 1; double z0 = std::max(0.0, 0.1 * (0.1 - w * z)); w = std::sqrt(w * w + z0 * z0); s = (ra + r2 - w) * s / (w + 1e-11) / (1 + z); return c == 0 ? s * (Y - yc) + 0.1 * (X - xc) : c == 1 ? -s * (X - xc) + 0.1 * (Y - yc) : s * z0; };
  auto e = frames(d, nc, nt, f); std::string ctx = strf("synthetic %s %s %s x %d", tn, name.c_str(), sd(d).c_str(), nt); bool fl = std::is_same<T, float>::value; if (!fl) ctx += transform(r, j, e); else if (name == "tornado") return;
  note(ctx + " " + j.dump()); sample("synthetic", ctx); auto res = run<T>(j, consumer(r), ctx); Sz sh = d; if (nc > 1) sh.insert(sh.begin(), nc); VH_CHECK(res.shape == sh, "stream-shape", "%s: shape %s", ctx.c_str(), sd(res.shape).c_str()); VH_CHECK(res.nt == (size_t)nt, "stream-steps", "%s: %zu steps announced", ctx.c_str(), res.nt); VH_CHECK(res.nc == (size_t)nc, "stream-components", "%s: %zu components announced", ctx.c_str(), res.nc);
  judge(res, e, "synthetic", ctx, fl ? Cmp{2e-4, 2e-3} : Cmp{1e-8, 1e-8}); count("synthetic"); seen_state(std::hash<std::string>()(ctx)); }
static uint64_t g_synthetic(Rng& r, int64_t i) { uint64_t h = r.s; if (i % 7 == 6) synthetic<float>(r, i, "float"); else synthetic<double>(r, i, "double"); return h; }

// noise and limits: the noise has the requested spread, is limited afterwards, and steps stay in order
static uint64_t g_noise(Rng& r, int64_t) {
  uint64_t h = r.s; int nt = r.range(1, 4); size_t n = r.range(30, 50); double sg = r.pick({1e-3, 0.1, 2.0}); json j = {{"type", "synthetic"}, {"name", "moving_extremum_2d"}, {"dimensions", {n, n}}, {"n_timesteps", nt}, {"perturbation", sg}}; if (r.coin()) j["async"] = true; double lo = 5, hi = 60; bool cl = r.coin(); if (cl) j["clamp"] = {lo, hi};
  std::string ctx = strf("noise %g on %zu^2 x %d%s", sg, n, nt, cl ? " limited" : ""); note(ctx); auto res = run<double>(j, consumer(r), ctx); VH_CHECK(res.f.size() == (size_t)nt, "noise-count", "%s: %zu steps", ctx.c_str(), res.f.size());
  for (size_t k = 0; k < res.f.size(); k++) { VH_CHECK(res.f[k].k == (int)k, "noise-order", "%s: step %d at %zu", ctx.c_str(), res.f[k].k, k); auto& a = res.f[k].a; if (a.shape() != Sz({n, n})) { viol("noise-shape", ctx); return h; } double s = 0, s2 = 0; size_t m = 0;
    for (size_t y = 0; y < n; y++) for (size_t x = 0; x < n; x++) { double v = a(x, y), dx = x - 10.0 - 0.1 * k, dy = y - 10.0 - 0.1 * k, e = dx * dx + dy * dy; if (cl) { VH_CHECK(v >= lo && v <= hi, "noise-limits", "%s: value %g", ctx.c_str(), v); if (e < lo + 8 * sg || e > hi - 8 * sg) continue; } s += v - e; s2 += (v - e) * (v - e); m++; }
    if (m > 150) { double mean = s / m, sd = std::sqrt(s2 / m); { VH_CHECK(std::fabs(mean) < 7 * sg / std::sqrt(m), "noise-mean", "%s: mean %g of %zu values", ctx.c_str(), mean, m); VH_CHECK(std::fabs(sd / sg - 1) < 7 / std::sqrt(2.0 * m), "noise-spread", "%s: spread %g of %zu values", ctx.c_str(), sd, m); } count("noise"); } }
  return h; }

// ---- the temporal filter on its own, with any kernel ----
static uint64_t g_filter(Rng& r, int64_t) {
  uint64_t h = r.s; int ks = 2 * r.below(5) + 1, n = r.coin(0.3) ? r.below(ks + 1) : r.below(25); std::vector<double> k, x, got; std::vector<int> idx; for (int i = 0; i < ks; i++) k.push_back(r.real(-1, 1)); for (int i = 0; i < n; i++) x.push_back(r.real(-10, 10));
  std::string ctx = strf("filter of %d entries, %d steps", ks, n); note(ctx); ftk::streaming_filter<double, double> f; f.set_kernel(k); bool early = r.coin(); size_t after = 0; f.set_callback([&](int i, const double& v) { idx.push_back(i); got.push_back(v); }); for (auto v : x) { f.push(v); after = got.size(); } f.finish(); (void)early;
  if ((int)got.size() != n) { viol("filter-count", strf("%s: %zu results", ctx.c_str(), got.size())); return h; }
  for (int t = 0; t < n; t++) { double e = 0; for (int i = 0; i < ks; i++) e += k[i] * x[std::max(0, std::min(n - 1, t + i - ks / 2))]; VH_CHECK(idx[t] == t, "filter-order", "%s: result %d has number %d", ctx.c_str(), t, idx[t]); VH_CHECK(std::fabs(e - got[t]) < 1e-9, "filter-data", "%s: result %d is %g instead of %g", ctx.c_str(), t, got[t], e); }
  VH_CHECK((int)after >= std::min(n, n - ks / 2), "filter-late", "%s: only %zu results before the end", ctx.c_str(), after); count("filter"); if (n < ks) count("filter_short"); if (!n) count("filter_empty"); count("filter_steps", n); return h; }

// ---- files ----
static double val(int salt, int k, int c, size_t p) { return ((int)(mix(((uint64_t)salt * 977 + k) * 7919 + c * 104729 + p * 31) % 20001) - 10000) / 8.0; }
static std::vector<M> stepsOf(const Sz& d, int nc, int nt, int salt) { std::vector<M> e; for (int k = 0; k < nt; k++) { M m; m.d = d; m.nc = nc; for (size_t p = 0; p < m.n(); p++) for (int c = 0; c < nc; c++) m.v.push_back(val(salt, k, c, p)); e.push_back(m); } return e; }
static std::string P(const std::string& s) { return opt().dir + "/" + s; }
static void cleardir(const std::string& d) { if (d.compare(0, opt().dir.size(), opt().dir)) return; std::string c = "find '" + d + "' -maxdepth 1 -type f -delete"; if (system(c.c_str())) {} }
static void steps(Rng& r, json& j, std::vector<M>& e) { int n = e.size(); if (r.coin(0.4)) { int q = r.coin(0.7) ? r.range(1, n) : n + r.range(1, 5); j["n_timesteps"] = q; if (q < n) e.resize(q); } }
static void names(Rng& r, json& j, const std::vector<std::string>& f, const std::string& pat) { if (r.coin()) j["filenames"] = P(pat); else j["filenames"] = f; }
template <class T> void check(const json& j, Rng& r, const std::vector<M>& e, const std::string& key, std::string ctx, Cmp c = Cmp()) { note(ctx + " " + j.dump()); sample(key, ctx); auto res = run<T>(j, consumer(r), ctx); judge(res, e, key, ctx, c); VH_CHECK(res.nt == e.size(), "stream-steps", "%s: %zu steps announced instead of %zu", ctx.c_str(), res.nt, e.size()); count(key); }

template <class T1, class T> void binary(Rng& r, const char* tn) {
  cleardir(opt().dir); int nd = r.range(1, 4), nc = r.coin(0.7) ? 1 : r.range(2, 3), nf = r.range(1, 9), salt = r.below(1000); Sz d; for (int i = 0; i < nd; i++) d.push_back(r.coin(0.1) ? 1 : r.range(2, nd > 3 ? 4 : 8)); auto e = stepsOf(d, nc, nf, salt); json j; std::vector<std::string> f;
  for (int k = 0; k < nf; k++) { std::string n = P(strf("s-%03d.raw", k)); std::vector<T1> b(e[k].v.begin(), e[k].v.end()); FILE* fp = ::fopen(n.c_str(), "wb"); fwrite(b.data(), sizeof(T1), b.size(), fp); fclose(fp); f.push_back(n); }
  if (r.coin()) j["type"] = "file"; j["format"] = sizeof(T1) == 4 ? "float32" : "float64"; j["dimensions"] = d; names(r, j, f, "s-*.raw"); if (nc > 1) { std::vector<std::string> v; for (int c = 0; c < nc; c++) v.push_back(strf("v%d", c)); j["variables"] = v; } else if (r.coin()) j["variables"] = std::vector<std::string>{"v"}; steps(r, j, e);
  std::string ctx = strf("%s files %s, %d variables, %d files", tn, sd(d).c_str(), nc, nf); ctx += transform(r, j, e); slow_prefix = opt().dir; if (r.coin()) { delay_us = r.range(100, 3000); ctx += strf(" slow(%d)", (int)delay_us); count("slow_reading"); } check<T>(j, r, e, "binary", ctx, sizeof(T) == 4 ? Cmp{1e-4, 1e-4} : Cmp()); delay_us = 0; }
static uint64_t g_binary(Rng& r, int64_t i) { uint64_t h = r.s; switch (i % 4) { case 0: case 1: binary<double, double>(r, "float64"); break; case 2: binary<float, double>(r, "float32"); break; default: binary<float, float>(r, "float32 as float"); } return h; }

// a short file ends the stream or not, but nothing is delivered twice
#if FTK_HAVE_NETCDF
static uint64_t g_netcdf(Rng& r, int64_t) {
  uint64_t h = r.s; cleardir(opt().dir); int kind = r.below(4), nd = r.range(1, 3), nc = r.coin(0.6) ? 1 : r.range(2, 3), nf = r.range(1, 4), salt = r.below(1000); // kind: 0,1 unlimited time axis, 2 time axis of fixed length, 3 no time axis
  if (kind == 2) nd = 3; if (kind == 3 && nd == 1) nd = 2; Sz d; for (int i = 0; i < nd; i++) d.push_back(r.coin(0.1) ? 1 : r.range(2, 6)); std::vector<int> per; int nt = 0; for (int k = 0; k < nf; k++) per.push_back(kind == 3 ? 1 : kind == 2 ? (r.coin() ? 1 : r.range(1, 3)) : r.coin(0.15) && nf > 1 ? 0 : r.range(1, 5)), nt += per.back(); if (!nt) per[0] = 1, nt = 1; bool extra = kind == 3 && r.coin(0.3); // an unlimited axis the variable does not use
  auto e = stepsOf(d, nc, nt, salt); std::vector<std::string> f; int t0 = 0; bool classic = r.coin(); std::string fl;
  for (int k = 0; k < nf; k++) { std::string n = P(strf("s-%03d.nc", k)); int id, td = -1; nc_create(n.c_str(), classic ? NC_CLOBBER : NC_CLOBBER | NC_NETCDF4, &id); std::vector<int> ids; if (kind < 3 || extra) { nc_def_dim(id, "time", kind == 2 ? (size_t)per[k] : NC_UNLIMITED, &td); if (kind < 3) ids.push_back(td); } for (int q = nd - 1; q >= 0; q--) { int x; nc_def_dim(id, strf("d%d", q).c_str(), d[q], &x); ids.push_back(x); }
    std::vector<int> vs(nc); for (int c = 0; c < nc; c++) nc_def_var(id, strf("v%d", c).c_str(), r.coin() ? NC_DOUBLE : NC_FLOAT, ids.size(), ids.data(), &vs[c]); if (extra) { int x; nc_def_var(id, "clock", NC_DOUBLE, 1, &td, &x); } nc_enddef(id);
    for (int c = 0; c < nc; c++) for (int t = 0; t < per[k]; t++) { std::vector<double> b; for (size_t p = 0; p < prod(d); p++) b.push_back(e[t0 + t].v[p * nc + c]); std::vector<size_t> st(ids.size(), 0), sz; if (kind < 3) { st[0] = t; sz.push_back(1); } for (int q = nd - 1; q >= 0; q--) sz.push_back(d[q]); nc_put_vara_double(id, vs[c], st.data(), sz.data(), b.data()); }
    nc_close(id); t0 += per[k]; f.push_back(n); fl += strf(" %d", per[k]); }
  json j; j["type"] = "file"; if (r.coin()) j["format"] = "nc"; names(r, j, f, "s-*.nc"); std::vector<std::string> v; for (int c = 0; c < nc; c++) v.push_back(strf("v%d", c)); j["variables"] = v; if (r.coin(0.3)) j["dimensions"] = d; steps(r, j, e);
  static const char* kn[] = {"unlimited time", "unlimited time", "fixed time", "no time"}; std::string ctx = strf("NetCDF %s, %s%s, %d variables, steps per file%s", sd(d).c_str(), kn[kind], extra ? " (unused unlimited axis)" : "", nc, fl.c_str());
  if (r.coin(0.25)) { json q = j; Sz st, sz; for (auto n : d) { size_t s = r.below(n); st.push_back(s); sz.push_back(r.range(1, n - s)); } auto es = e; for (auto& m : es) { M p; p.d = sz; p.nc = nc; for (size_t i = 0; i < p.n(); i++) { size_t o = 0, s = 1, x = i; for (int a = 0; a < nd; a++) { o += (x % sz[a] + st[a]) * s; x /= sz[a]; s *= d[a]; } for (int c = 0; c < nc; c++) p.v.push_back(m.v[o * nc + c]); } m = p; }
    std::string cx = ctx + strf(" part at %s of size %s", sd(st).c_str(), sd(sz).c_str()); note(cx); auto res = run<double>(q, {}, cx, [&](ftk::ndarray_stream<double>& s) { s.set_part(ftk::lattice(st, sz)); }); judge(res, es, "netcdf-part", cx); count("netcdf_parts"); }
  ctx += transform(r, j, e); check<double>(j, r, e, "netcdf", ctx); return h; }
#endif
#if FTK_HAVE_HDF5
static uint64_t g_hdf5(Rng& r, int64_t) {
  uint64_t h = r.s; cleardir(opt().dir); int nd = r.range(1, 4), nc = r.coin(0.6) ? 1 : r.range(2, 3), nf = r.range(1, 6), salt = r.below(1000); Sz d; for (int i = 0; i < nd; i++) d.push_back(r.coin(0.1) ? 1 : r.range(2, 6)); auto e = stepsOf(d, nc, nf, salt); std::vector<std::string> f; std::vector<hsize_t> hd(d.rbegin(), d.rend());
  for (int k = 0; k < nf; k++) { std::string n = P(strf("s-%03d.h5", k)); hid_t fi = H5Fcreate(n.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), sp = H5Screate_simple(nd, hd.data(), NULL); for (int c = 0; c < nc; c++) { std::vector<double> b; for (size_t p = 0; p < prod(d); p++) b.push_back(e[k].v[p * nc + c]); hid_t ds = H5Dcreate2(fi, strf("v%d", c).c_str(), r.coin() ? H5T_NATIVE_DOUBLE : H5T_NATIVE_FLOAT, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()); H5Dclose(ds); } H5Sclose(sp); H5Fclose(fi); f.push_back(n); }
  json j; j["type"] = "file"; if (r.coin()) j["format"] = "h5"; names(r, j, f, "s-*.h5"); std::vector<std::string> v; for (int c = 0; c < nc; c++) v.push_back(strf("v%d", c)); j["variables"] = v; steps(r, j, e); std::string ctx = strf("HDF5 %s, %d variables, %d files", sd(d).c_str(), nc, nf); ctx += transform(r, j, e); check<double>(j, r, e, "hdf5", ctx);
  long open = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_ALL); VH_CHECK(open == 0, "hdf5-left-open", "%s: %ld handles are left open", ctx.c_str(), open); return h; }
#endif
#if FTK_HAVE_VTK
template <class A> static void addArrays(A* pd, const std::vector<int>& comps, const M& m, Rng& r) { int c0 = 0; for (size_t v = 0; v < comps.size(); v++) { vtkSmartPointer<vtkDataArray> a; if (r.coin()) a = vtkSmartPointer<vtkDoubleArray>::New(); else a = vtkSmartPointer<vtkFloatArray>::New(); a->SetName(strf("v%zu", v).c_str()); a->SetNumberOfComponents(comps[v]); a->SetNumberOfTuples(m.n()); for (size_t p = 0; p < m.n(); p++) for (int c = 0; c < comps[v]; c++) a->SetComponent(p, c, m.v[p * m.nc + c0 + c]); pd->AddArray(a); c0 += comps[v]; } }
static void vtkfiles(Rng& r, bool grid) {
  cleardir(opt().dir); int nd = r.range(2, 3), nf = r.range(1, 6), salt = r.below(1000), nc = 0; Sz d; for (int i = 0; i < nd; i++) d.push_back(r.coin(0.1) && i < 2 ? 1 : r.range(2, 6)); if (!grid) d = {(size_t)r.range(1, 40)}; std::vector<int> comps(r.coin(0.6) ? 1 : r.range(2, 3)); for (auto& c : comps) nc += c = r.coin(0.6) ? 1 : r.range(2, 3); if (comps.size() > 1) count("vtk_variables"); if (nc > (int)comps.size()) count("vtk_vectors"); auto e = stepsOf(d, nc, nf, salt); std::vector<std::string> f; const char* ext = grid ? "vti" : "vtu"; bool shuffled = r.coin();
  for (int k = 0; k < nf; k++) { std::string n = P(strf("s-%03d.%s", k, ext)); if (grid) { auto im = vtkSmartPointer<vtkImageData>::New(); im->SetDimensions(d[0], d[1], nd == 3 ? d[2] : 1); addArrays(im->GetPointData(), comps, e[k], r); auto w = vtkSmartPointer<vtkXMLImageDataWriter>::New(); w->SetFileName(n.c_str()); w->SetInputData(im); w->Write(); }
    else { auto g = vtkSmartPointer<vtkUnstructuredGrid>::New(); auto pt = vtkSmartPointer<vtkPoints>::New(); for (size_t p = 0; p < d[0]; p++) pt->InsertNextPoint(p, p * p % 7, 0); g->SetPoints(pt); for (size_t p = 0; p < d[0]; p++) { vtkIdType q = p; g->InsertNextCell(VTK_VERTEX, 1, &q); } addArrays(g->GetPointData(), comps, e[k], r); auto w = vtkSmartPointer<vtkXMLUnstructuredGridWriter>::New(); w->SetFileName(n.c_str()); w->SetInputData(g); w->Write(); } f.push_back(n); }
  json j; j["type"] = "file"; if (r.coin()) j["format"] = ext; names(r, j, f, strf("s-*.%s", ext)); if (comps.size() > 1 || shuffled) { std::vector<std::string> v; for (size_t c = 0; c < comps.size(); c++) v.push_back(strf("v%zu", c)); j["variables"] = v; } steps(r, j, e); std::string cs; for (auto c : comps) cs += strf(" %d", c); std::string ctx = strf("%s %s, components%s, %d files", ext, sd(d).c_str(), cs.c_str(), nf);
  if (grid && r.coin(0.25)) { Sz st, sz; for (auto n : d) { size_t s = r.below(n); st.push_back(s); sz.push_back(r.range(1, n - s)); } auto es = e; for (auto& m : es) { M p; p.d = sz; p.nc = nc; for (size_t i = 0; i < p.n(); i++) { size_t o = 0, s = 1, x = i; for (int a = 0; a < nd; a++) { o += (x % sz[a] + st[a]) * s; x /= sz[a]; s *= d[a]; } for (int c = 0; c < nc; c++) p.v.push_back(m.v[o * nc + c]); } m = p; } std::string cx = ctx + strf(" part at %s of size %s", sd(st).c_str(), sd(sz).c_str()); note(cx); auto res = run<double>(j, {}, cx, [&](ftk::ndarray_stream<double>& s) { s.set_part(ftk::lattice(st, sz)); }); judge(res, es, "vti-part", cx); count("vti_parts"); }
  ctx += transform(r, j, e); check<double>(j, r, e, ext, ctx); }
static uint64_t g_vti(Rng& r, int64_t) { uint64_t h = r.s; vtkfiles(r, true); return h; }
static uint64_t g_vtu(Rng& r, int64_t) { uint64_t h = r.s; vtkfiles(r, false); return h; }
#endif
VH_MAIN({
#if FTK_HAVE_NETCDF
  group("netcdf", 300, 4000, g_netcdf);
#endif
#if FTK_HAVE_HDF5
  group("hdf5", 200, 3000, g_hdf5);
#endif
#if FTK_HAVE_VTK
  group("vti", 200, 2500, g_vti); group("vtu", 120, 1500, g_vtu);
#endif
#if defined(VH_ALL) || (!FTK_HAVE_NETCDF && !FTK_HAVE_HDF5 && !FTK_HAVE_VTK)
  group("filter", 3000, 60000, g_filter); group("synthetic", 500, 7000, g_synthetic); group("noise", 40, 400, g_noise); group("binary", 400, 5000, g_binary);
#endif
})
