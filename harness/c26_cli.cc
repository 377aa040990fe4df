// C26: the command line tool against the library: every output form, input format and option, 1-3 processes; unusable requests; archives fed back in
#include "vh.hh"
#include <hdf5.h>
#include <netcdf.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <dlfcn.h>
#include <ftk/numeric/clamp.hh>
#include <ftk/numeric/fmod.hh>
#include <ftk/ndarray.hh>
#include <ftk/numeric/rk4.hh>
#include <ftk/features/feature_curve_set.hh>
#include <ftk/features/feature_volume.hh>
#include <ftk/ndarray/stream.hh>
#include <ftk/ndarray/synthetic.hh>
#include <ftk/filters/critical_point_tracker_2d_regular.hh>
#include <ftk/filters/critical_point_tracker_3d_regular.hh>
#include <ftk/filters/critical_point_tracker_2d_unstructured.hh>
#include <ftk/filters/critical_point_tracker_3d_unstructured.hh>
#include <ftk/filters/contour_tracker_2d_regular.hh>
#include <ftk/filters/contour_tracker_3d_regular.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
#include <ftk/filters/critical_line_tracker_3d_regular.hh>
#include <ftk/filters/sujudi_haimes_tracker_3d_regular.hh>
#include <ftk/filters/levy_degani_seginer_tracker_3d_regular.hh>
#include <ftk/filters/ridge_valley_tracker_3d_regular.hh>
#include <ftk/filters/particle_tracer_regular.hh>
#include <ftk/filters/feature_curve_set_post_processor.hh>
#include <vtkXMLPolyDataReader.h>
#include <vtkXMLUnstructuredGridReader.h>
#include <vtkXMLImageDataWriter.h>
#include <vtkXMLUnstructuredGridWriter.h>
#include <vtkImageData.h>
#include <vtkDoubleArray.h>
#include <vtkPointData.h>
#include <vtkCellData.h>
#include <vtkCellArray.h>
#include <vtkIdList.h>
#include "c26_shim.cc"
using namespace vh; using D = double; using Sz = std::vector<size_t>; using ftk::ndarray; using json = nlohmann::json; using Args = std::vector<std::string>;
static std::string P(const std::string& f) { return opt().dir + "/w/" + f; }
static void cleardir() { std::string d = opt().dir + "/w"; if (DIR* p = opendir(d.c_str())) { while (auto* e = readdir(p)) if (e->d_name[0] != '.') unlink((d + "/" + e->d_name).c_str()); closedir(p); } mkdir(d.c_str(), 0755); }
static std::vector<std::string> list() { std::vector<std::string> r; if (DIR* p = opendir((opt().dir + "/w").c_str())) { while (auto* e = readdir(p)) if (e->d_name[0] != '.') r.push_back(e->d_name); closedir(p); } std::sort(r.begin(), r.end()); return r; }
static bool exists(const std::string& f) { struct stat s; return stat(P(f).c_str(), &s) == 0; }
static std::string slurp(const std::string& f) { std::ifstream t(P(f)); return std::string((std::istreambuf_iterator<char>(t)), {}); }
static std::string join(const Args& a) { std::string s; for (auto& x : a) s += (s.empty() ? "" : " ") + x; return s; }
static int cli(Args a, int np = 0) { // status of the tool; 1000+n: ended by signal n
  Args c; if (np) c = {"mpiexec", "-n", std::to_string(np)}; c.push_back(getenv("VH_EXE_ftk")); for (auto& x : a) c.push_back(x);
  note(join(c)); count(np ? "mpi_runs" : "runs");
  pid_t p = fork(); if (!p) {
    struct rlimit m = {8ull << 30, 8ull << 30}; setrlimit(RLIMIT_AS, &m);
    int fd = open((opt().dir + "/cli.log").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 1); dup2(fd, 2); if (chdir((opt().dir + "/w").c_str())) _exit(9);
    std::vector<char*> v; for (auto& x : c) v.push_back((char*)x.c_str()); v.push_back(nullptr); execvp(v[0], v.data()); _exit(127); }
  int st = 0; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static std::string tail() { std::ifstream t(opt().dir + "/cli.log"); std::string s((std::istreambuf_iterator<char>(t)), {}); return s.size() > 500 ? s.substr(s.size() - 500) : s; }

// ---- canonical contents
using Canon = std::multiset<std::string>;
static std::string g(D x) { return strf("%.10g", x == 0 ? 0. : x); }
static std::string row(const ftk::feature_point_t& p) { std::string s = strf("tag %llu type %u ordinal %d step %d at", p.tag, p.type, (int)p.ordinal, p.timestep); for (D x : p.x) s += " " + g(x); s += " t " + g(p.t) + " scalar"; for (D x : p.scalar) s += " " + g(x); s += " v"; for (D x : p.v) s += " " + g(x); return s + "\n"; }
static Canon canon(const ftk::feature_curve_set_t& c) { Canon r; for (auto& kv : c) { auto& t = kv.second; std::string s = strf("curve loop %d complete %d type %u times ", t.loop, t.complete, t.consistent_type) + g(t.tmin) + " " + g(t.tmax) + " vmmax " + g(t.vmmax) + "\n"; for (auto& p : t) s += row(p); r.insert(s); } return r; }
static Canon canon(const std::vector<ftk::feature_point_t>& c) { Canon r; for (auto& p : c) r.insert(row(p)); return r; }
static Canon canon_text(const std::string& s) { // curves or points, without their running numbers
  Canon r; std::string blk; std::istringstream in(s); std::string l; static const std::regex id("(id|label|curve|trajectory)( *[=:]? *)-?[0-9]+|^-+[0-9]+");
  bool curves = s.rfind("--", 0) == 0 || s.find("\n--") != std::string::npos; // without curves: one point per line
  while (std::getline(in, l)) { bool head = !curves || l.find("x=") == std::string::npos && l.find("t=") == std::string::npos ? true : l.rfind("--", 0) == 0 && l.rfind("---", 0) != 0; l = std::regex_replace(l, id, "$1#"); if (head) { if (!blk.empty()) r.insert(blk); blk.clear(); } blk += l + "\n"; }
  if (!blk.empty()) r.insert(blk); return r; }
template <class DS> static Canon canon_ds(DS* d) { // cells with the coordinates and attributes of their points
  Canon r; auto pd = d->GetPointData(); std::vector<std::string> pt(d->GetNumberOfPoints());
  for (vtkIdType i = 0; i < d->GetNumberOfPoints(); i++) { D x[3]; d->GetPoint(i, x); std::string s = g(x[0]) + " " + g(x[1]) + " " + g(x[2]);
    for (int a = 0; a < pd->GetNumberOfArrays(); a++) { auto* A = pd->GetArray(a); std::string n = A && A->GetName() ? A->GetName() : ""; if (!A || n == "id" || n == "ID" || n == "label" || n == "trajID") continue; s += " " + n; for (int c = 0; c < A->GetNumberOfComponents(); c++) s += " " + g(A->GetComponent(i, c)); } pt[i] = s + "\n"; }
  for (vtkIdType i = 0; i < d->GetNumberOfCells(); i++) { auto l = vtkSmartPointer<vtkIdList>::New(); d->GetCellPoints(i, l); int ct = d->GetCellType(i); std::vector<std::string> v; for (vtkIdType k = 0; k < l->GetNumberOfIds(); k++) v.push_back(pt[l->GetId(k)]); if (ct != VTK_POLY_LINE) std::sort(v.begin(), v.end()); std::string s = strf("cell type %d: ", ct); for (auto& x : v) s += x; r.insert(s); }
  if (d->GetNumberOfCells() == 0) for (auto& x : pt) r.insert(x); r.insert(strf("%lld points, %lld cells", (long long)d->GetNumberOfPoints(), (long long)d->GetNumberOfCells())); return r; }
static Canon canon_file(const std::string& f) {
  auto ends = [&](const char* e) { return f.size() > strlen(e) && f.compare(f.size() - strlen(e), strlen(e), e) == 0; };
  if (!exists(f)) return {"no such file"};
  if (ends(".vtp")) { auto r = vtkSmartPointer<vtkXMLPolyDataReader>::New(); r->SetFileName(P(f).c_str()); r->Update(); return canon_ds(r->GetOutput()); }
  if (ends(".vtu")) { auto r = vtkSmartPointer<vtkXMLUnstructuredGridReader>::New(); r->SetFileName(P(f).c_str()); r->Update(); return canon_ds(r->GetOutput()); }
  return canon_text(slurp(f)); }
static bool same(const std::string& key, const Canon& want, const Canon& have, const std::string& ctx) {
  count("compared"); count("items", want.size()); if (want == have) return true;
  std::string a, b; for (auto& x : want) if (!have.count(x)) { a = x; break; } for (auto& x : have) if (!want.count(x)) { b = x; break; }
  viol(key, strf("%s: the library gives %zu items, the tool %zu; only from the library: %s; only from the tool: %s", ctx.c_str(), want.size(), have.size(), a.substr(0, 500).c_str(), b.substr(0, 500).c_str())); return false; }
static void same_files(const std::string& key, const std::vector<std::string>& lib, const std::string& pre, const std::string& ctx) { // files lib-*, written by the library, and the tool's
  for (auto f : lib) { same(key, canon_file("lib-" + f), canon_file(pre + f), ctx + " file " + f); count("files"); } }

// ---- data
struct Data { Sz d; int nv; std::vector<ndarray<D>> s; std::string ctx; Args args; std::vector<D> bounds; bool mpi_ok = true; };
static size_t prod(const Sz& d) { size_t n = 1; for (auto x : d) n *= x; return n; }
static Data field(Rng& r, Sz d, int nv, int nt, bool f32) {
  Data a; a.d = d; a.nv = nv; D sp = r.real(0.3, 1.2); std::vector<std::array<D, 6>> w(nv * 4); for (auto& x : w) for (auto& y : x) y = r.real(-1, 1);
  for (int t = 0; t < nt; t++) { Sz sh; if (nv > 1) sh.push_back(nv); for (auto x : d) sh.push_back(x); ndarray<D> q(sh); if (nv > 1) q.set_multicomponents(1);
    for (size_t i = 0; i < prod(d); i++) { D x[3] = {0, 0, 0}; size_t k = i; for (size_t j = 0; j < d.size(); j++) x[j] = k % d[j], k /= d[j];
      for (int c = 0; c < nv; c++) { D v = 0; for (int m = 0; m < 4; m++) { auto& u = w[c * 4 + m]; v += u[0] * std::sin(sp * (u[1] * x[0] + u[2] * x[1] + u[3] * x[2]) + u[4] * 3 + u[5] * t * 1.3); } v = std::round(v * 4096) / 4096; q[i * nv + c] = f32 ? (float)v : v; } }
    a.s.push_back(q); }
  return a; }
static std::string sd(const Sz& d) { std::string s; for (auto x : d) s += (s.empty() ? "" : "x") + std::to_string(x); return s; }
static void dimargs(Args& a, const Sz& d) { static const char* n[2][3] = {{"-w", "-h", "-d"}, {"--width", "--height", "--depth"}}; for (size_t i = 0; i < d.size(); i++) { a.push_back(n[0][i]); a.push_back(std::to_string(d[i])); } }
static void write_data(Rng& r, Data& a, int fmt) { // 0 float32, 1 float64, 2 nc, 3 h5, 4 vti
  int nt = a.s.size(), nv = a.nv; static const char* F[] = {"float32", "float64", "nc", "h5", "vti"}; static const char* E[] = {"raw", "bin", "nc", "h5", "vti"}; std::string vars; for (int c = 0; c < nv; c++) vars += strf("%sv%d", c ? "," : "", c);
  bool one = fmt == 2 && r.coin(); // all steps in one file
  for (int t = 0; t < nt; t++) { auto& s = a.s[t]; std::string f = P(one ? "in.nc" : strf("in-%03d.%s", t, E[fmt])); size_t n = prod(a.d);
    if (fmt < 2) { FILE* o = fopen(f.c_str(), "wb"); for (size_t i = 0; i < n * nv; i++) { if (fmt == 0) { float x = s[i]; fwrite(&x, 4, 1, o); } else { D x = s[i]; fwrite(&x, 8, 1, o); } } fclose(o); }
    else if (fmt == 2) { if (one && t) continue; int id, td; nc_create(f.c_str(), NC_CLOBBER | NC_NETCDF4, &id); nc_def_dim(id, "time", NC_UNLIMITED, &td); std::vector<int> ids{td}, vs(nv); for (int q = a.d.size() - 1; q >= 0; q--) { int x; nc_def_dim(id, strf("d%d", q).c_str(), a.d[q], &x); ids.push_back(x); } for (int c = 0; c < nv; c++) nc_def_var(id, strf("v%d", c).c_str(), NC_DOUBLE, ids.size(), ids.data(), &vs[c]); nc_enddef(id);
      for (int k = one ? 0 : t; k < (one ? nt : t + 1); k++) for (int c = 0; c < nv; c++) { std::vector<D> b(n); for (size_t i = 0; i < n; i++) b[i] = a.s[k][i * nv + c]; Sz st(ids.size(), 0), sz{1}; st[0] = one ? k : 0; for (int q = a.d.size() - 1; q >= 0; q--) sz.push_back(a.d[q]); nc_put_vara_double(id, vs[c], st.data(), sz.data(), b.data()); } nc_close(id); }
    else if (fmt == 3) { std::vector<hsize_t> hd(a.d.rbegin(), a.d.rend()); hid_t fi = H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), sp = H5Screate_simple(hd.size(), hd.data(), NULL); for (int c = 0; c < nv; c++) { std::vector<D> b(n); for (size_t i = 0; i < n; i++) b[i] = s[i * nv + c]; hid_t ds = H5Dcreate2(fi, strf("v%d", c).c_str(), H5T_NATIVE_DOUBLE, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data()); H5Dclose(ds); } H5Sclose(sp); H5Fclose(fi); }
    else { auto im = vtkSmartPointer<vtkImageData>::New(); im->SetDimensions(a.d[0], a.d[1], a.d.size() > 2 ? a.d[2] : 1); if (t == 0) { a.bounds.resize(6); for (auto& x : a.bounds) x = r.range(-8, 8); for (int k = 0; k < 3; k++) a.bounds[2 * k + 1] = a.bounds[2 * k]; for (int k = 0; k < 3; k++) { D h = r.pick({0.25, 0.5, 1.0, 2.0}); a.bounds[2 * k + 1] += h * ((k < (int)a.d.size() ? a.d[k] : 1) - 1.0); } }
      D sp[3], og[3]; for (int k = 0; k < 3; k++) { og[k] = a.bounds[2 * k]; size_t m = k < (int)a.d.size() ? a.d[k] : 1; sp[k] = m > 1 ? (a.bounds[2 * k + 1] - og[k]) / (m - 1) : 1; } im->SetSpacing(sp); im->SetOrigin(og);
      for (int c = 0; c < nv; c++) { auto v = vtkSmartPointer<vtkDoubleArray>::New(); v->SetName(strf("v%d", c).c_str()); v->SetNumberOfTuples(n); for (size_t i = 0; i < n; i++) v->SetValue(i, s[i * nv + c]); im->GetPointData()->AddArray(v); }
      auto w = vtkSmartPointer<vtkXMLImageDataWriter>::New(); w->SetFileName(f.c_str()); w->SetInputData(im); w->Write(); }
  }
  bool abs = r.coin(); a.args = {r.coin() ? "-i" : "--input", (abs ? P("") : std::string()) + (one ? "in.nc" : nt == 1 && r.coin() ? strf("in-000.%s", E[fmt]) : strf("in-*.%s", E[fmt]))};
  if (fmt < 2 || r.coin()) { a.args.push_back("--input-format"); a.args.push_back(F[fmt]); } if (fmt < 2) dimargs(a.args, a.d);
  if (fmt >= 2 || nv > 1) { a.args.push_back("--var"); a.args.push_back(vars); }
  a.ctx = strf("%s %s, %d components, %d steps%s", F[fmt], sd(a.d).c_str(), nv, nt, one ? " in one file" : ""); count(strf("format_%s", F[fmt]));
  if (r.coin(0.3) && nt > 1) { int m = r.range(1, nt); a.args.push_back(r.coin() ? "-n" : "--timesteps"); a.args.push_back(std::to_string(m)); a.s.resize(m); a.ctx += strf(", first %d", m); count("limited"); }
}
static json stream_json(const Args& a) { json j; j["type"] = "file"; for (size_t i = 0; i + 1 < a.size(); i += 2) { auto& k = a[i]; auto& v = a[i + 1]; Sz d; if (j.contains("dimensions")) d = j["dimensions"].get<Sz>();
    if (k == "-i" || k == "--input") j["filenames"] = v[0] == '/' ? v : P(v); else if (k == "--input-format") j["format"] = v; else if (k == "-w" || k == "-h" || k == "-d") { d.push_back(std::stoul(v)); j["dimensions"] = d; } else if (k == "--var") { std::vector<std::string> q; std::istringstream in(v); std::string x; while (std::getline(in, x, ',')) q.push_back(x); j["variables"] = q; }
    else if (k == "-n" || k == "--timesteps") j["n_timesteps"] = std::stoul(v); else if (k == "--synthetic") j["type"] = "synthetic", j["name"] = v; else if (k.find("smoothing-kernel-size") != std::string::npos) j[k.substr(2)] = std::stoul(v); else if (k.find("smoothing-kernel") != std::string::npos) j[k.substr(2)] = std::stod(v); }
  return j; }
static void through_stream(Data& a) { // smoothed and synthetic data come from the library's own streams (judged by C17)
  ftk::ndarray_stream<D> s; s.set_input_source_json(stream_json(a.args)); a.s.clear(); s.set_callback([&](int, const ndarray<D>& x) { a.s.push_back(x); }); s.start(); s.finish(); auto js = s.get_json(); a.d.clear(); for (auto& x : js["dimensions"]) a.d.push_back(x); a.nv = s.n_components(); a.bounds.clear(); if (js.contains("bounds")) a.bounds = js["bounds"].get<std::vector<D>>(); }

// ---- critical points
struct CP2 : ftk::critical_point_tracker_2d_regular { CP2() : tracker(diy::mpi::communicator()), critical_point_tracker_2d_regular(diy::mpi::communicator()) {} };
struct CP3 : ftk::critical_point_tracker_3d_regular { CP3() : tracker(diy::mpi::communicator()), critical_point_tracker_3d_regular(diy::mpi::communicator()) {} };
static ftk::lattice lat(const std::vector<int>& o, const std::vector<int>& s) { return ftk::lattice(Sz(o.begin(), o.end()), Sz(s.begin(), s.end())); }
struct CpOpt { bool stream = false, degrees = false, fast = false; std::string filter, post; };
template <class T> static void cp_options(T& t, const CpOpt& o) {
  t.set_number_of_threads(1); t.set_enable_robust_detection(!o.fast); t.set_enable_computing_degrees(o.degrees); t.set_enable_streaming_trajectories(o.stream);
  unsigned f = 0; if (o.filter.find("min") != std::string::npos) f |= ftk::CRITICAL_POINT_2D_MINIMUM; if (o.filter.find("max") != std::string::npos) f |= ftk::CRITICAL_POINT_2D_MAXIMUM; if (o.filter.find("saddle") != std::string::npos) f |= ftk::CRITICAL_POINT_2D_SADDLE; if (f) t.set_type_filter(f); }
static std::shared_ptr<ftk::critical_point_tracker> cp_library(const Data& a, const CpOpt& o) {
  std::shared_ptr<ftk::critical_point_tracker_regular> t; int nd = a.d.size(); if (nd == 2) t.reset(new CP2()); else t.reset(new CP3());
  std::vector<int> z(nd, 0), n(a.d.begin(), a.d.end()), lo(nd, a.nv == 1 ? 2 : 1), sz; for (auto x : n) sz.push_back(x - (a.nv == 1 ? 3 : 2));
  t->set_array_domain(lat(z, n)); t->set_domain(lat(lo, sz)); if (a.bounds.size()) t->set_coords_bounds(a.bounds);
  t->set_scalar_field_source(a.nv == 1 ? ftk::SOURCE_GIVEN : ftk::SOURCE_NONE); t->set_vector_field_source(a.nv == 1 ? ftk::SOURCE_DERIVED : ftk::SOURCE_GIVEN); t->set_jacobian_field_source(ftk::SOURCE_DERIVED); t->set_jacobian_symmetric(a.nv == 1);
  cp_options(*t, o); t->initialize();
  for (size_t k = 0; k < a.s.size(); k++) { if (a.nv == 1) t->push_scalar_field_snapshot(a.s[k]); else t->push_vector_field_snapshot(a.s[k]); if (k) t->advance_timestep(); if (k + 1 == a.s.size()) t->update_timestep(); }
  t->finalize(); return t; }
static std::string outopt(Rng& r, const char* k) { return r.coin() ? std::string("--output-") + k : std::string("--output-") + k; }
// runs the tool and compares what it writes with the library's results in `t`
static void cp_compare(Rng& r, const Args& base, std::shared_ptr<ftk::critical_point_tracker> t, const CpOpt& o, int nt, const std::string& ctx0, int np, int nthreads) {
  static const char* T[] = {"traced", "discrete", "sliced", "intercepted"}; static const char* E[] = {"json", "txt", "vtp", "dat"}; static const char* F[] = {"json", "text", "vtp", "binary"};
  int ty = r.below(10); ty = ty < 5 ? 0 : ty < 7 ? 1 : ty < 9 ? 2 : 3; int fm = ty >= 2 ? r.range(1, 2) : r.below(4); if (ty == 3) fm = 2; if (o.stream && ty == 3) ty = 0;
  bool auto_ = r.coin() || fm == 3; std::string ext = auto_ ? E[fm] : r.pick({"out", "json", "vtp", "txt"}), name = (ty >= 2 ? "out-%04d." : "out.") + ext;
  Args a{r.coin() ? "-f" : "--feature", r.pick({"cp", "critical_point"})}; a.insert(a.end(), base.begin(), base.end()); a.push_back(r.coin() ? "-o" : "--output"); a.push_back(r.coin() ? name : P(name)); if (ty || r.coin()) { a.push_back("--output-type"); a.push_back(T[ty]); } if (!auto_) { a.push_back("--output-format"); a.push_back(F[fm]); }
  int ilen = 2; if (ty == 3 && r.coin()) { ilen = r.range(1, 4); a.push_back("--intercept-length"); a.push_back(std::to_string(ilen)); }
  if (o.stream) a.push_back("--stream"); if (o.degrees) a.push_back("--compute-degrees"); if (o.fast) a.push_back("--no-robust-detection"); if (o.filter.size()) { a.push_back("--type-filter"); a.push_back(o.filter); } if (o.post.size()) { a.push_back("--post-process"); a.push_back(o.post); }
  if (nthreads || np > 1) { a.push_back("--nthreads"); a.push_back(std::to_string(std::max(1, nthreads))); } if (r.coin(0.2)) a.push_back("--timing"); if (r.coin(0.1)) { a.push_back("--thread-backend"); a.push_back("pthread"); }
  std::string ctx = ctx0 + strf(" | %s %s np %d: ", T[ty], F[fm], np) + join(a); int st = cli(a, np); if (st) { viol("status", strf("%s: the tool ends with status %d: %s", ctx.c_str(), st, tail().c_str())); return; }
  count(strf("cp_%s_%s", T[ty], F[fm])); ftk::feature_curve_set_t cs = t->get_traced_critical_points(); if (o.post.size()) { ftk::feature_curve_set_post_processor_t pp(o.post); pp.filter(t->get_traced_critical_points()); cs = t->get_traced_critical_points(); }
  if (ty == 0) { count("trajectories", cs.size()); if (fm == 0 || fm == 3) { CP2 q; if (!exists(name)) { viol("missing", ctx + ": no output file"); return; } if (fm == 0) q.read_traced_critical_points_json(P(name)); else q.read_traced_critical_points_binary(P(name)); same("traced", canon(cs), canon(q.get_traced_critical_points()), ctx);
      if (o.post.empty() && np <= 1 && r.coin(0.5)) { // fed back in, the archive gives the same output
        Args b{"-f", "cp"}; b.insert(b.end(), base.begin(), base.end()); for (auto x : Args{"--archived-traced", name, "-o", fm ? "again.dat" : "again.json"}) b.push_back(x); std::string cn = name; if (fm == 0 && ext != "json") { rename(P(name).c_str(), P("arch.json").c_str()); b[b.size() - 3] = "arch.json"; } else if (fm == 3 && ext == "json") return;
        int s2 = cli(b); count("archives"); if (s2) viol("archive-status", strf("%s: status %d: %s", join(b).c_str(), s2, tail().c_str())); else { CP2 q2; if (fm == 0) q2.read_traced_critical_points_json(P("again.json")); else q2.read_traced_critical_points_binary(P("again.dat")); same("archive", canon(cs), canon(q2.get_traced_critical_points()), ctx + " fed back in"); } } }
    else { if (fm == 1) t->write_traced_critical_points_text(P("lib-" + name)); else t->write_traced_critical_points_vtk(P("lib.vtp")); if (fm == 2) { rename(P(name).c_str(), P("cli.vtp").c_str()); same("traced", canon_file("lib.vtp"), canon_file("cli.vtp"), ctx); } else same("traced", canon_text(slurp("lib-" + name)), canon_text(slurp(name)), ctx); } }
  else if (ty == 1) { auto ps = t->get_critical_points(); if (o.stream) {} count("discrete_points", ps.size()); if (fm == 0 || fm == 3) { CP2 q; if (!exists(name)) { viol("missing", ctx + ": no output file"); return; } std::vector<ftk::feature_point_t> have; if (fm == 0) { std::ifstream f(P(name)); json j; f >> j; have = j.get<std::vector<ftk::feature_point_t>>(); } else diy::unserializeFromFile(P(name), have); same("discrete", canon(ps), canon(have), ctx);
      if (np <= 1 && !o.stream && r.coin(0.5) && (fm == 3) == (ext != "json")) { Args b{"-f", "cp"}; b.insert(b.end(), base.begin(), base.end()); for (auto x : Args{"--archived-intersections", fm == 0 && ext != "json" ? "arch.json" : name, "-o", "again.json"}) b.push_back(x); if (fm == 0 && ext != "json") rename(P(name).c_str(), P("arch.json").c_str()); int s2 = cli(b); count("archives"); if (s2) viol("archive-status", strf("%s: status %d: %s", join(b).c_str(), s2, tail().c_str())); else { CP2 q2; q2.read_traced_critical_points_json(P("again.json")); if (o.post.empty()) same("archive", canon(cs), canon(q2.get_traced_critical_points()), ctx + " fed back in"); } } }
    else { if (fm == 1) t->write_critical_points_text(P("lib.txt")); else t->write_critical_points_vtk(P("lib.vtp")); rename(P(name).c_str(), P(fm == 1 ? "cli.txt" : "cli.vtp").c_str()); std::string e = fm == 1 ? "txt" : "vtp"; same("discrete", canon_file("lib." + e), canon_file("cli." + e), ctx); } }
  else { if (ty == 2) t->slice_traced_critical_points(); std::set<int> steps; if (ty == 2) for (auto& kv : t->get_sliced_critical_points()) steps.insert(kv.first); else for (int k = 0; k < nt; k++) steps.insert(k);
    std::set<int> files; for (auto& f : list()) { int k; if (sscanf(f.c_str(), "out-%d.", &k) == 1) files.insert(k); } std::string fl, sl; for (int k : files) fl += strf(" %d", k); for (int k : steps) sl += strf(" %d", k); if (o.stream && ty == 2) for (int k : std::set<int>(files)) if (!steps.count(k)) { std::string f = strf("out-%04d.", k) + ext, e = fm == 1 ? "txt" : "vtp"; rename(P(f).c_str(), P("cli." + e).c_str()); Canon c = canon_file("cli." + e); if (c.empty() || c == Canon{"0 points, 0 cells"}) files.erase(k); } // steps without points, written on the way
    if (files != steps) viol("slices", strf("%s: files for steps%s instead of%s", ctx.c_str(), fl.c_str(), sl.c_str()));
    for (int k : steps) if (files.count(k)) { std::string f = strf("out-%04d.", k) + ext; std::string e = fm == 1 ? "txt" : "vtp"; if (ty == 2) { if (fm == 1) t->write_sliced_critical_points_text(k, P("lib.txt")); else t->write_sliced_critical_points_vtk(k, P("lib.vtp")); } else t->write_intercepted_critical_points_vtk(k - ilen, k, P("lib.vtp")); rename(P(f).c_str(), P("cli." + e).c_str()); same(T[ty], canon_file("lib." + e), canon_file("cli." + e), ctx + strf(" step %d", k)); } }
}
static CpOpt cpopt(Rng& r, int nd, int nv) { CpOpt o; o.stream = r.coin(0.15); o.degrees = nd == 2 && r.coin(0.1); o.fast = r.coin(0.1); if (r.coin(0.2) && nv == 1) o.filter = r.pick({"min", "max", "saddle", "min|max", "saddle|min"}); if (r.coin(0.2)) o.post = r.pick({"split", "smooth_types,rotate,split", "discard_interval_points", "duration_pruning:1", "reorder,adjust_time"}); return o; }
static uint64_t t_cp(Rng& r, int64_t i) {
  cleardir(); uint64_t h = r.s; int nd = r.coin(0.8) ? 2 : 3, nv = r.coin(0.6) ? 1 : nd, fmt = r.below(5), nt = nd == 2 ? r.range(1, 5) : r.range(1, 3); Sz d; for (int k = 0; k < nd; k++) d.push_back(nd == 2 ? r.range(8, 18) : r.range(7, 9)); Data a = field(r, d, nv, nt, fmt == 0); write_data(r, a, fmt);
  if (r.coin(0.15) && nd == 2) { for (auto x : r.coin() ? Args{"--temporal-smoothing-kernel", "0.8", "--temporal-smoothing-kernel-size", "3"} : Args{"--spatial-smoothing-kernel", "0.9", "--spatial-smoothing-kernel-size", "3"}) a.args.push_back(x); through_stream(a); count("smoothed"); }
  if (r.coin(0.15)) { // the same request as a JSON file
    json j = stream_json(a.args); std::ofstream(P("input.json")) << j; a.args = {"-i", r.coin() ? "input.json" : P("input.json")}; count("json_input"); }
  if (r.coin(0.15)) { a.args.push_back("--async"); count("async"); }
  CpOpt o = cpopt(r, nd, nv); auto t = cp_library(a, o); sample("cp", a.ctx + " " + join(a.args)); cp_compare(r, a.args, t, o, a.s.size(), a.ctx, 0, r.pick({0, 1, 2, 5})); return h; }
static uint64_t t_mpi(Rng& r, int64_t i) {
  cleardir(); uint64_t h = r.s; int nd = i % 4 == 3 ? 3 : 2, nv = r.coin(0.6) ? 1 : nd, fmt = r.below(5), nt = nd == 2 ? r.range(1, 5) : r.range(1, 2); Sz d; for (int k = 0; k < nd; k++) d.push_back(nd == 2 ? r.range(12, 20) : r.range(9, 11)); Data a = field(r, d, nv, nt, fmt == 0); write_data(r, a, fmt);
  CpOpt o = cpopt(r, nd, nv); auto t = cp_library(a, o); cp_compare(r, a.args, t, o, a.s.size(), a.ctx, r.range(2, 3), r.range(1, 2)); return h; }
static uint64_t t_synthetic(Rng& r, int64_t i) {
  cleardir(); uint64_t h = r.s; static const char* N[] = {"woven", "double_gyre", "merger_2d", "moving_extremum_2d", "moving_extremum_3d"}; std::string n = N[i % 5]; Data a; a.args = {"--synthetic", n}; if (n == "moving_extremum_3d") { dimargs(a.args, {9, 8, 10}); a.args.push_back("-n"); a.args.push_back("2"); } else { dimargs(a.args, {(size_t)r.range(12, 24), (size_t)r.range(12, 20)}); a.args.push_back("-n"); a.args.push_back(std::to_string(r.range(1, 4))); }
  json j = stream_json(a.args); { ftk::ndarray_stream<D> s; try { s.set_input_source_json(j); } catch (...) { return 0; } } through_stream(a); a.ctx = "synthetic " + n; count("synthetic"); CpOpt o = cpopt(r, a.d.size(), a.nv); auto t = cp_library(a, o); cp_compare(r, a.args, t, o, a.s.size(), a.ctx, 0, r.pick({0, 1, 3})); return h; }

// ---- unstructured
static uint64_t t_vtu(Rng& r, int64_t i) {
  cleardir(); uint64_t h = r.s; int nd = i % 3 == 2 ? 3 : 2, nt = nd == 2 ? r.range(1, 4) : r.range(1, 2), n = nd == 2 ? r.range(3, 6) : 3; auto pts = vtkSmartPointer<vtkPoints>::New(); pts->SetDataTypeToDouble(); std::vector<std::array<D, 3>> X; std::vector<std::vector<int>> C; int nz = nd == 2 ? 1 : n;
  for (int k = 0; k < nz; k++) for (int j = 0; j < n; j++) for (int q = 0; q < n; q++) { std::array<D, 3> x{q + r.real(-.2, .2), j + r.real(-.2, .2), nd == 2 ? 0 : k + r.real(-.2, .2)}; X.push_back(x); pts->InsertNextPoint(x[0], x[1], x[2]); }
  for (int k = 0; k < (nd == 2 ? 1 : n - 1); k++) for (int j = 0; j + 1 < n; j++) for (int q = 0; q + 1 < n; q++) { auto id = [&](int a, int b, int c) { return (q + a) + n * (j + b) + n * n * (k + c); }; if (nd == 2) { C.push_back({id(0, 0, 0), id(1, 0, 0), id(1, 1, 0)}); C.push_back({id(0, 0, 0), id(1, 1, 0), id(0, 1, 0)}); } else { int p[3] = {0, 1, 2}; do { int c[3] = {0, 0, 0}; std::vector<int> v{id(0, 0, 0)}; for (int s = 0; s < 3; s++) { c[p[s]] = 1; v.push_back(id(c[0], c[1], c[2])); } C.push_back(v); } while (std::next_permutation(p, p + 3)); } }
  std::vector<ndarray<D>> S; for (int t = 0; t < nt; t++) { auto gr = vtkSmartPointer<vtkUnstructuredGrid>::New(); gr->SetPoints(pts); for (auto& c : C) { vtkIdType v[4]; for (size_t k = 0; k < c.size(); k++) v[k] = c[k]; gr->InsertNextCell(nd == 2 ? VTK_TRIANGLE : VTK_TETRA, c.size(), v); } Sz sh{(size_t)nd, X.size()}; ndarray<D> s(sh); s.set_multicomponents(1); for (int c = 0; c < nd; c++) { auto v = vtkSmartPointer<vtkDoubleArray>::New(); v->SetName(strf("v%d", c).c_str()); v->SetNumberOfTuples(X.size()); for (size_t k = 0; k < X.size(); k++) { D y = std::round(r.real(-1, 1) * 1024) / 1024; s[k * nd + c] = y; v->SetValue(k, y); } gr->GetPointData()->AddArray(v); } S.push_back(s); auto w = vtkSmartPointer<vtkXMLUnstructuredGridWriter>::New(); w->SetFileName(P(strf("in-%03d.vtu", t)).c_str()); w->SetInputData(gr); w->Write(); }
  CpOpt o; o.stream = r.coin(0.2); if (r.coin(0.2)) o.post = "split"; std::shared_ptr<ftk::critical_point_tracker> t; auto rd = vtkSmartPointer<vtkXMLUnstructuredGridReader>::New(); rd->SetFileName(P("in-000.vtu").c_str()); rd->Update(); vtkSmartPointer<vtkUnstructuredGrid> gr = rd->GetOutput();
  if (nd == 2) { std::shared_ptr<ftk::simplicial_unstructured_2d_mesh<>> m(new ftk::simplicial_unstructured_2d_mesh<>()); m->from_vtu(gr); std::shared_ptr<ftk::simplicial_unstructured_extruded_2d_mesh<>> m3(new ftk::simplicial_unstructured_extruded_2d_mesh_implicit<>(m)); t.reset(new ftk::critical_point_tracker_2d_unstructured(diy::mpi::communicator(), m3)); } else { std::shared_ptr<ftk::simplicial_unstructured_3d_mesh<>> m(new ftk::simplicial_unstructured_3d_mesh<>()); m->from_vtu(gr); t.reset(new ftk::critical_point_tracker_3d_unstructured(diy::mpi::communicator(), m)); }
  cp_options(*t, o); t->initialize(); for (int k = 0; k < nt; k++) { t->push_vector_field_snapshot(S[k]); if (k) t->advance_timestep(); if (k + 1 == nt) t->update_timestep(); } t->finalize();
  std::string vars = nd == 2 ? "v0,v1" : "v0,v1,v2"; count("unstructured"); cp_compare(r, {"-i", "in-*.vtu", "--var", vars}, t, o, nt, strf("vtu %dD %zu vertices %d steps", nd, X.size(), nt), 0, r.pick({0, 1, 2})); return h; }

// ---- contours, lines, particles
template <class T> struct Own : T { Own() : ftk::tracker(diy::mpi::communicator()), T(diy::mpi::communicator()) {} };
template <class T> struct OwnL : T { OwnL() : ftk::tracker(diy::mpi::communicator()), ftk::critical_line_tracker(diy::mpi::communicator()), ftk::regular_tracker(diy::mpi::communicator(), 3), T(diy::mpi::communicator()) {} };
static uint64_t t_contour(Rng& r, int64_t i) {
  cleardir(); uint64_t h = r.s; int nd = i % 3 == 2 ? 3 : 2, fmt = r.below(5), nt = nd == 2 ? r.range(1, 4) : r.range(1, 3); Sz d; for (int k = 0; k < nd; k++) d.push_back(nd == 2 ? r.range(4, 10) : r.range(5, 6)); Data a = field(r, d, 1, nt, fmt == 0); write_data(r, a, fmt); nt = a.s.size(); D thr = r.coin(0.3) ? 0 : std::round(r.real(-.5, .5) * 100) / 100;
  static const char* T[] = {"traced", "sliced", "intersections"}; int ty = r.below(3); if (nd == 2 && ty == 1) ty = 0; std::string ext = ty == 2 ? "vtp" : "vtu", name = ty == 1 ? "out-%03d." + ext : "out." + ext;
  std::shared_ptr<ftk::contour_tracker_regular> t; std::vector<int> z(nd, 0), n(d.begin(), d.end()), m = n; if (nd == 2) t.reset(new Own<ftk::contour_tracker_2d_regular>()); else { t.reset(new Own<ftk::contour_tracker_3d_regular>()); for (auto& x : m) x -= 2; }
  t->set_domain(lat(z, m)); t->set_array_domain(lat(z, n)); t->set_end_timestep(nt - 1); t->set_number_of_threads(1); t->set_threshold(thr); t->initialize(); for (int k = 0; k < nt; k++) { t->push_field_data_snapshot(a.s[k]); if (k) t->advance_timestep(); if (k + 1 == nt) t->update_timestep(); } t->finalize();
  if (ty == 2) t->write_intersections_vtp(P("lib-" + name)); else if (ty == 1) t->write_sliced_vtu(P("lib-" + name)); else t->write_isovolume_vtu(P("lib-" + name));
  std::vector<std::string> files; for (auto& f : list()) if (f.rfind("lib-", 0) == 0) files.push_back(f.substr(4));
  Args c{"-f", r.pick({"iso", "isosurface", "isovolume"})}; for (auto& x : a.args) c.push_back(x); c.push_back("-o"); c.push_back(name); if (thr != 0 || r.coin()) { c.push_back("--threshold"); c.push_back(strf("%.2f", thr)); if (thr < 0) { c.pop_back(); c.pop_back(); c.push_back(strf("--threshold=%.2f", thr)); } } if (ty) { c.push_back("--output-type"); c.push_back(T[ty]); } c.push_back("--nthreads"); c.push_back(std::to_string(r.range(1, 4)));
  int np = i % 5 == 4 ? 2 : 0; std::string ctx = a.ctx + strf(" | contour %s np %d: ", T[ty], np) + join(c); int st = cli(c, np); if (st) { viol("contour-status", strf("%s: status %d: %s", ctx.c_str(), st, tail().c_str())); return h; } same_files("contour", files, "", ctx); VH_CHECK(files.size() == (ty == 1 ? (size_t)nt : 1), "contour-files", "%s: the library writes %zu files for %d steps", ctx.c_str(), files.size(), nt); count(strf("contour_%s", T[ty])); return h; }
static uint64_t t_line(Rng& r, int64_t i) {
  cleardir(); uint64_t h = r.s; static const char* N[] = {"critical_line", "sujudi_haimes", "levy_degani_seginer", "ridge_valley"}; int which = i % 4, fmt = r.below(5), nt = r.range(1, 3), nv = which == 0 ? 2 : which == 3 ? 1 : 3; Sz d; for (int k = 0; k < 3; k++) d.push_back(r.range(7, 8)); Data a = field(r, d, nv, nt, fmt == 0); write_data(r, a, fmt); nt = a.s.size();
  std::shared_ptr<ftk::critical_line_tracker_3d_regular> t; if (which == 0) t.reset(new OwnL<ftk::critical_line_tracker_3d_regular>()); else if (which == 1) t.reset(new OwnL<ftk::sujudi_haimes_tracker_3d_regular>()); else if (which == 2) t.reset(new OwnL<ftk::levy_degani_seginer_tracker_3d_regular>()); else t.reset(new OwnL<ftk::ridge_valley_tracker_3d_regular>());
  std::vector<int> z(3, 0), n(d.begin(), d.end()), lo(3, 2), sz; for (auto x : n) sz.push_back(x - 2); static const char* T[] = {"traced", "sliced", "intersections"}; int ty = r.below(3); std::string ext = ty == 0 ? "vtu" : "vtp", name = ty == 1 ? "out-%03d." + ext : "out." + ext;
  t->set_domain(lat(lo, sz)); t->set_array_domain(lat(z, n)); t->set_end_timestep(nt - 1); t->set_number_of_threads(1); t->initialize(); for (int k = 0; k < nt; k++) { t->push_field_data_snapshot(a.s[k]); if (k) t->advance_timestep(); if (k + 1 == nt) t->update_timestep(); }
  if (ty == 2) t->write_intersections(P("lib-" + name)); t->finalize(); if (ty == 1) t->write_sliced(P("lib-" + name)); else if (ty == 0) t->write_surfaces(P("lib-" + name));
  std::vector<std::string> files; for (auto& f : list()) if (f.rfind("lib-", 0) == 0) files.push_back(f.substr(4));
  Args c{"-f", N[which]}; for (auto& x : a.args) c.push_back(x); c.push_back("-o"); c.push_back(name); if (ty) { c.push_back("--output-type"); c.push_back(T[ty]); } c.push_back("--nthreads"); c.push_back(std::to_string(r.range(1, 4)));
  std::string ctx = a.ctx + strf(" | %s %s: ", N[which], T[ty]) + join(c); int st = cli(c); if (st) { viol("line-status", strf("%s: status %d: %s", ctx.c_str(), st, tail().c_str())); return h; } same_files("line", files, "", ctx); VH_CHECK(files.size() == (ty == 1 ? (size_t)nt : 1), "line-files", "%s: the library writes %zu files for %d steps", ctx.c_str(), files.size(), nt); count(strf("line_%s", N[which])); count(strf("line_%s", T[ty])); return h; }
static uint64_t t_particle(Rng& r, int64_t i) {
  cleardir(); uint64_t h = r.s; int nd = i % 2 ? 3 : 2, fmt = r.below(5), nt = r.range(2, 4); Sz d; for (int k = 0; k < nd; k++) d.push_back(r.range(3, nd == 2 ? 8 : 5)); Data a = field(r, d, nd, nt, fmt == 0); write_data(r, a, fmt); nt = a.s.size(); int ni = r.pick({8, 16, 128}), nc = r.pick({1, 4, 16}); D dt = r.pick({1.0, 0.5, 2.0});
  ftk::particle_tracer_regular t(diy::mpi::communicator(), nd); std::vector<int> z(nd, 0), n(d.begin(), d.end()), m = n; for (auto& x : m) x--; t.set_ntimesteps(nt); t.set_nsteps_per_interval(ni); t.set_nsteps_per_checkpoint(nc); t.set_delta_t(dt); t.set_domain(lat(z, m)); t.set_array_domain(lat(z, n)); t.set_end_timestep(nt - 1); t.set_number_of_threads(1); t.initialize(); t.initialize_particles_at_grid_points({});
  for (int k = 0; k < nt; k++) { t.push_field_data_snapshot("vector", a.s[k]); if (k) t.advance_timestep(); if (k + 1 == nt) t.update_timestep(); } t.finalize(); t.write_trajectories(P("lib-out.vtp"));
  Args c{"-f", r.pick({"particle", "pt"})}; for (auto& x : a.args) c.push_back(x); for (auto x : Args{"-o", "out.vtp", "--pt-nsteps-per-interval", std::to_string(ni), "--pt-nsteps-per-checkpoint", std::to_string(nc), "--pt-delta-t", strf("%g", dt), "--nthreads", std::to_string(r.range(1, 4))}) c.push_back(x);
  std::string ctx = a.ctx + " | particle: " + join(c); int st = cli(c); if (st) { viol("particle-status", strf("%s: status %d: %s", ctx.c_str(), st, tail().c_str())); return h; } same("particle", canon_file("lib-out.vtp"), canon_file("out.vtp"), ctx); count("particles"); return h; }

// ---- unusable requests
static uint64_t t_bad(Rng& r, int64_t i) {
  cleardir(); uint64_t h = i + 1; Data a = field(r, {9, 8}, 1, 2, false); write_data(r, a, 1); Args in = {"-i", "in-*.bin", "--input-format", "float64", "-w", "9", "-h", "8"}; auto with = [&](Args x) { Args c = in; c.insert(c.end(), x.begin(), x.end()); return c; }; auto vt = field(r, {9, 8}, 1, 1, false); 
  struct B { const char* why; Args a; }; std::ofstream(P("bad.json")) << "{ \"type\": "; std::ofstream(P("short.bin")) << "abcdefgh"; std::ofstream(P("empty.json")) << ""; std::ofstream(P("cut.dat")) << "abc"; std::ofstream(P("not.nc")) << "no netcdf"; std::ofstream(P("not.h5")) << "no hdf5"; std::ofstream(P("not.vti")) << "no vti"; std::ofstream(P("not.vtu")) << "no vtu";
  std::vector<B> b = {
    {"no output", with({"-f", "cp"})}, {"no feature", with({"-o", "o.json"})}, {"unknown feature", with({"-f", "nothing", "-o", "o.json"})}, {"unknown option", with({"-f", "cp", "-o", "o.json", "--no-such-option", "1"})}, {"unknown accelerator", with({"-f", "cp", "-o", "o.json", "-a", "gpu"})}, {"missing accelerator", with({"-f", "cp", "-o", "o.json", "-a", "cuda"})},
    {"unknown output type", with({"-f", "cp", "-o", "o.json", "--output-type", "whatever"})}, {"no input", {"-f", "cp", "-o", "o.json"}}, {"missing input", {"-f", "cp", "-o", "o.json", "-i", "none-*.bin", "--input-format", "float64", "-w", "9", "-h", "8"}}, {"missing file", {"-f", "cp", "-o", "o.json", "-i", "none.nc", "--var", "v0"}}, {"unknown synthetic", {"-f", "cp", "-o", "o.json", "--synthetic", "nothing"}}, {"malformed number", with({"-f", "cp", "-o", "o.json", "-n", "two"})},
    {"malformed JSON", {"-f", "cp", "-o", "o.json", "-i", "bad.json"}}, {"missing JSON", {"-f", "cp", "-o", "o.json", "-i", "none.json"}}, {"empty JSON", {"-f", "cp", "-o", "o.json", "-i", "empty.json"}}, {"unknown format", {"-f", "cp", "-o", "o.json", "-i", "in-*.bin", "--input-format", "whatever", "-w", "9", "-h", "8"}}, {"raw without dimensions", {"-f", "cp", "-o", "o.json", "-i", "in-*.bin", "--input-format", "float64"}},
    {"not NetCDF", {"-f", "cp", "-o", "o.json", "-i", "not.nc", "--var", "v0"}}, {"not HDF5", {"-f", "cp", "-o", "o.json", "-i", "not.h5", "--var", "v0"}}, {"not a VTK image", {"-f", "cp", "-o", "o.json", "-i", "not.vti", "--var", "v0"}}, {"not a VTK grid", {"-f", "cp", "-o", "o.json", "-i", "not.vtu", "--var", "v0"}},
    {"missing traced archive", with({"-f", "cp", "-o", "o.json", "--archived-traced", "none.dat"})}, {"missing traced JSON archive", with({"-f", "cp", "-o", "o.json", "--archived-traced", "none.json"})}, {"missing archive", with({"-f", "cp", "-o", "o.json", "--archived-intersections", "none.dat"})}, {"missing JSON archive", with({"-f", "cp", "-o", "o.json", "--archived-intersections", "none.json"})}, {"cut archive", with({"-f", "cp", "-o", "o.json", "--archived-traced", "cut.dat"})},
    {"output in a missing directory", with({"-f", "cp", "-o", "no/such/dir/o.json"})}, {"vtk output in a missing directory", with({"-f", "cp", "-o", "no/such/dir/o.vtp"})}, {"text output in a missing directory", with({"-f", "cp", "-o", "no/such/dir/o.txt"})}, {"binary output in a missing directory", with({"-f", "cp", "-o", "no/such/dir/o.dat"})},
    {"mesh file missing", with({"-f", "cp", "-o", "o.json", "-m", "none.vtu"})}, {"mesh file of another format", with({"-f", "cp", "-o", "o.json", "-m", "in-000.bin"})}, {"contours of missing input", {"-f", "iso", "-o", "o.vtu", "-i", "none-*.bin", "--input-format", "float64", "-w", "9", "-h", "8"}}, {"sliced contours in 2D", with({"-f", "iso", "-o", "o-%03d.vtu", "--output-type", "sliced"})}, {"unknown output type for contours", with({"-f", "iso", "-o", "o.vtu", "--output-type", "whatever"})}, {"discrete lines", with({"-f", "critical_line", "-o", "o.vtu", "--output-type", "discrete"})},
    {"missing variable in NetCDF", {"-f", "cp", "-o", "o.json", "-i", "ok.nc", "--var", "nothing"}}, {"missing variable in HDF5", {"-f", "cp", "-o", "o.json", "-i", "ok.h5", "--var", "nothing"}}, {"missing variable in a VTK image", {"-f", "cp", "-o", "o.json", "-i", "ok.vti", "--var", "nothing"}}, {"intercepted text", with({"-f", "cp", "-o", "o-%03d.txt", "--output-type", "intercepted"})}, {"missing TDGL files", {"-f", "tdgl", "-o", "o.vtu", "-i", "none-*.bin"}} };
  auto& q = b[i % b.size()]; { int fm = strstr(q.why, "NetCDF") ? 2 : strstr(q.why, "HDF5") ? 3 : 4; if (strstr(q.why, "missing variable")) { Data v = field(r, {9, 8}, 1, 1, false); write_data(r, v, fm); const char* e[] = {"", "", "nc", "h5", "vti"}; rename(P(exists(strf("in-000.%s", e[fm])) ? strf("in-000.%s", e[fm]) : strf("in.%s", e[fm])).c_str(), P(strf("ok.%s", e[fm])).c_str()); } }
  int st = cli(q.a); count("unusable"); VH_CHECK(st != 0, std::string("accepted:") + q.why, "the tool ends with status 0 (%s): %s", q.why, join(q.a).c_str());
  VH_CHECK(st < 1000 || st == 1000 + SIGABRT, std::string("killed:") + q.why, "the tool is ended by signal %d (%s): %s", st - 1000, q.why, join(q.a).c_str());
  if (st) for (auto& f : list()) if (f.rfind("o.", 0) == 0 || f.rfind("o-", 0) == 0) viol(std::string("written:") + q.why, strf("the tool fails but leaves %s (%s)", f.c_str(), q.why)); return h; }
VH_MAIN({
  H5Eset_auto2(H5E_DEFAULT, NULL, NULL); vtkObject::GlobalWarningDisplayOff(); if (!getenv("VH_LOUD")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); dup2(fd, 1); }
  group("cp", 200, 3000, t_cp); group("mpi", 48, 600, t_mpi); group("synthetic", 30, 300, t_synthetic); group("vtu", 30, 400, t_vtu); group("contour", 48, 600, t_contour); group("line", 32, 400, t_line); group("particle", 24, 300, t_particle); group("unusable", 41, 41, t_bad);
})
