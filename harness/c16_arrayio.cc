// C16: arrays written to and read from files. Every file is also produced or inspected with the format's own library (or plain stdio),
// so that a pair of compensating errors does not go unnoticed.
#include "vh.hh"
#include <ftk/config.hh>
#if FTK_HAVE_VTK
#include <vtkXMLImageDataReader.h>
#include <vtkXMLImageDataWriter.h>
#include <vtkImageData.h>
#include <vtkPointData.h>
#include <vtkDoubleArray.h>
#include <vtkFloatArray.h>
#include <vtkIntArray.h>
#endif
#include <ftk/ndarray.hh>
#include <ftk/ndarray/writer.hh>
#if FTK_HAVE_VTK
// VTK 9.1 cannot read its own XML files through expat 2.6 unless reparse deferral is off (as the project's tests do)
#include <dlfcn.h>
extern "C" void* XML_ParserCreate(const char* e) {
  static auto next = (void* (*)(const char*))dlsym(RTLD_NEXT, "XML_ParserCreate"); void* p = next(e);
  auto set = (unsigned char (*)(void*, unsigned char))dlsym(RTLD_DEFAULT, "XML_SetReparseDeferralEnabled"); if (p && set) set(p, 0);
  return p;
}
#endif
using namespace vh;
typedef std::vector<size_t> Sz;
static std::string file(const std::string& n) { return opt().dir + "/" + n; }
static Sz dims(Rng& r, int nd, int big = 7) { Sz d; for (int i = 0; i < nd; i++) d.push_back(r.coin(0.15) ? 1 : r.range(1, i ? big : 2 * big)); return d; }
static size_t prod(const Sz& d) { size_t n = 1; for (auto x : d) n *= x; return n; }
template <class T> T val(Rng& r) { if (std::is_floating_point<T>::value) { switch (r.below(8)) { case 0: return (T)r.gauss(); case 1: return (T)0; case 2: return std::numeric_limits<T>::max(); case 3: return -std::numeric_limits<T>::denorm_min(); case 4: return -std::numeric_limits<T>::infinity(); default: return (T)r.real(-1e6, 1e6); } }
  return r.coin(0.1) ? std::numeric_limits<T>::max() : r.coin(0.1) ? std::numeric_limits<T>::min() : (T)r.u64(); }
template <class T> ftk::ndarray<T> arr(Rng& r, const Sz& d, int ncd = 0) { ftk::ndarray<T> a; a.reshape(d); for (size_t i = 0; i < a.nelem(); i++) a[i] = val<T>(r); a.set_multicomponents(ncd); return a; }
static std::string sd(const Sz& d) { std::string s = "("; for (size_t i = 0; i < d.size(); i++) s += strf(i ? ",%zu" : "%zu", d[i]); return s + ")"; }
template <class A, class B> bool same(const ftk::ndarray<A>& a, const ftk::ndarray<B>& b, std::string& why, bool ncd = true) {
  if (a.shape() != b.shape()) { why = "shape " + sd(b.shape()) + " instead of " + sd(a.shape()); return false; }
  if (ncd && a.multicomponents() != b.multicomponents()) { why = strf("number of component axes %zu instead of %zu", b.multicomponents(), a.multicomponents()); return false; }
  for (size_t i = 0; i < a.nelem(); i++) if (!((B)a[i] == b[i] || ((B)a[i] != (B)a[i] && b[i] != b[i]))) { why = strf("element %zu of %s is %.17g instead of %.17g", i, sd(a.shape()).c_str(), (double)b[i], (double)a[i]); return false; }
  count("values", a.nelem()); return true;
}
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
template <class T> ftk::ndarray<T> sub(const ftk::ndarray<T>& a, const Sz& st, const Sz& sz) { // independent of slice()
  ftk::ndarray<T> b; b.reshape(sz); Sz k(sz.size(), 0);
  for (size_t i = 0; i < b.nelem(); i++) { size_t off = 0, stride = 1; for (size_t d = 0; d < sz.size(); d++) off += (st[d] + k[d]) * stride, stride *= a.shape(d); b[i] = a[off]; for (size_t d = 0; d < sz.size(); d++) { if (++k[d] < sz[d]) break; k[d] = 0; } }
  return b; }
static void box(Rng& r, const Sz& d, Sz& st, Sz& sz) { st.clear(); sz.clear(); for (auto n : d) { size_t s = r.below(n); st.push_back(s); sz.push_back(r.range(1, n - s)); } }
static Sz rev(Sz a) { std::reverse(a.begin(), a.end()); return a; }

#if defined(VH_ALL) || (!FTK_HAVE_NETCDF && !FTK_HAVE_HDF5 && !FTK_HAVE_VTK)
template <class T> void bin(Rng& r, const Sz& d, const char* tn) {
  auto a = arr<T>(r, d), b = arr<T>(r, dims(r, r.range(1, 3))); std::string ctx = strf("%s ", tn) + sd(d), why;
  a.to_binary_file(file("a.bin")); std::string s = slurp(file("a.bin"));
  VH_CHECK(s.size() == a.nelem() * sizeof(T) && !memcmp(s.data(), a.data(), s.size()), "binary-bytes", "%s raw file has %zu bytes or wrong contents", ctx.c_str(), s.size());
  ftk::ndarray<T> c; c.reshape(d); c.read_binary_file(file("a.bin")); VH_CHECK(same(a, c, why), "binary-read", "%s %s", ctx.c_str(), why.c_str());
  a.to_binary_file(file("a.bin")); VH_CHECK(slurp(file("a.bin")) == s, "binary-bytes", "%s rewritten file differs", ctx.c_str());
  { FILE* fp = fopen(file("b.bin").c_str(), "wb"); a.to_binary_file(fp); b.to_binary_file(fp); a.to_binary_file(fp); fclose(fp);
    fp = fopen(file("b.bin").c_str(), "rb"); ftk::ndarray<T> x, y, z; x.reshape(a); y.reshape(b); z.reshape(a); x.read_binary_file(fp); y.read_binary_file(fp); z.read_binary_file(fp); fclose(fp);
    VH_CHECK(same(a, x, why) && same(b, y, why) && same(a, z, why), "binary-consecutive", "%s arrays one after another in a file: %s", ctx.c_str(), why.c_str()); }
  { ftk::ndarray<double> e; e.reshape(d); a.template to_binary_file2<double>(file("d.bin")); e.read_binary_file(file("d.bin")); VH_CHECK(same(a, e, why), "binary-converted", "%s written as double: %s", ctx.c_str(), why.c_str()); }
  { // a sequence of files, one per time step
    int nt = r.pick({1, 2, 5, 11}); std::vector<ftk::ndarray<T>> st; std::string pre = strf("q%d_", (int)r.below(1000)); for (int t = 0; t < nt; t++) { st.push_back(arr<T>(r, d)); st.back().to_binary_file(file(pre + strf("%03d.raw", t))); }
    ftk::ndarray<T> q; Sz qd = d; qd.push_back(r.range(1, 3)); q.reshape(qd); q.read_binary_file_sequence(file(pre + "*.raw"));
    ftk::ndarray<T> m; qd.back() = nt; m.reshape(qd); for (int t = 0; t < nt; t++) for (size_t i = 0; i < st[t].nelem(); i++) m[t * st[t].nelem() + i] = st[t][i];
    VH_CHECK(same(m, q, why), "binary-sequence", "%s sequence of %d files: %s", ctx.c_str(), nt, why.c_str()); for (int t = 0; t < nt; t++) unlink(file(pre + strf("%03d.raw", t)).c_str()); }
  count("binary");
}
static uint64_t g_binary(Rng& r, int64_t i) {
  Sz d = dims(r, r.range(1, 6), 5); note(sd(d)); sample("binary", sd(d));
  switch (i % 8) { case 0: bin<double>(r, d, "double"); break; case 1: bin<float>(r, d, "float"); break; case 2: bin<int>(r, d, "int"); break; case 3: bin<unsigned char>(r, d, "uchar"); break; case 4: bin<short>(r, d, "short"); break; case 5: bin<unsigned int>(r, d, "uint"); break; case 6: bin<char>(r, d, "char"); break; default: bin<unsigned short>(r, d, "ushort"); }
  if (i % 8 == 0) { auto a = arr<double>(r, d); std::string why; ftk::ndarray<float> f; f.reshape(d); a.to_binary_file2<float>(file("f.bin")); f.read_binary_file(file("f.bin")); VH_CHECK(same(a, f, why), "binary-converted", "double %s written as float: %s", sd(d).c_str(), why.c_str()); }
  return hcomb(i % 8, hash_str(sd(d)));
}
static uint64_t g_amira(Rng& r, int64_t) {
  int nc = r.range(1, 4); Sz d = dims(r, 3, 9); Sz fd = d; fd.insert(fd.begin(), nc); auto a = arr<float>(r, fd, 1); std::string f = file("a.am"), why; note(sd(fd)); sample("amira", sd(fd));
  FILE* fp = fopen(f.c_str(), "wb"); fprintf(fp, "# AmiraMesh BINARY-LITTLE-ENDIAN 2.1\n\n\ndefine Lattice %zu %zu %zu\n\nParameters {\n    Content \"%zux%zux%zu float[%d], uniform coordinates\",\n    BoundingBox 0 %zu 0 %zu 0 %zu,\n    CoordType \"uniform\"\n}\n\n", d[0], d[1], d[2], d[0], d[1], d[2], nc, d[0], d[1], d[2]);
  if (nc == 1) fprintf(fp, "Lattice { float Data } @1\n\n# Data section follows\n@1\n"); else fprintf(fp, "Lattice { float[%d] Data } @1\n\n# Data section follows\n@1\n", nc);
  fwrite(a.data(), 4, a.nelem(), fp); fclose(fp);
  ftk::ndarray<float> b; bool ok = b.read_amira(f); VH_CHECK(same(a, b, why), "amira-read", "%s: %s", sd(fd).c_str(), why.c_str()); VH_CHECK(ok, "amira-status", "%s: reading succeeded but reported a failure", sd(fd).c_str());
  { ftk::ndarray<float> c; FILE* g = fopen(f.c_str(), "wb"); fprintf(g, "# something else\n"); fclose(g); VH_CHECK(!c.read_amira(f), "amira-status", "a file of another format was accepted"); VH_CHECK(!c.read_amira(file("does_not_exist")), "amira-status", "a missing file was accepted"); }
  count("amira"); return hash_str(sd(fd));
}
struct W : ftk::ndarray_writer<double> { using ftk::ndarray_writer<double>::write; };
static uint64_t g_wbin(Rng& r, int64_t) {
  int nd = r.range(2, 3), nt = r.range(1, 4); bool f32 = r.coin(), mc = r.coin(0.3); Sz d = dims(r, nd); if (mc) d.insert(d.begin(), nd); nlohmann::json j; j["nd"] = nd; j["filename"] = file("w-%03d.bin"); j["format"] = f32 ? "float32" : "float64"; if (mc) j["n_components"] = nd;
  W w; w.configure(j); std::string ctx = sd(d) + j.dump(), why; note(ctx); sample("writer", ctx); std::vector<ftk::ndarray<double>> as; for (int t = 0; t < nt; t++) { as.push_back(arr<double>(r, d, mc)); w.write(t, as[t]); }
  for (int t = 0; t < nt; t++) { std::string f = file(strf("w-%03d.bin", t)); if (f32) { ftk::ndarray<float> b; b.reshape(d); b.set_multicomponents(mc); b.read_binary_file(f); VH_CHECK(same(as[t], b, why), "writer-binary", "%s step %d: %s", ctx.c_str(), t, why.c_str()); } else { ftk::ndarray<double> b; b.reshape(d); b.set_multicomponents(mc); b.read_binary_file(f); VH_CHECK(same(as[t], b, why), "writer-binary", "%s step %d: %s", ctx.c_str(), t, why.c_str()); }
    VH_CHECK(slurp(f).size() == prod(d) * (f32 ? 4 : 8), "writer-binary", "%s size of %s", ctx.c_str(), f.c_str()); unlink(f.c_str()); }
  count("writer_files", nt); return hash_str(ctx);
}
static void run_binary() { group("binary", 400, 6000, g_binary); group("amira", 100, 1500, g_amira); group("writer", 100, 1500, g_wbin); }
#define HAS_binary
#endif

#if FTK_HAVE_NETCDF
namespace netcdf_files {
#define NC(x) do { int e_ = (x); if (e_) { viol("netcdf-error", strf("%s: %s (%s)", #x, nc_strerror(e_), state()->note)); return; } } while (0)
template <class T> int nctype(); template <> int nctype<double>() { return NC_DOUBLE; } template <> int nctype<float>() { return NC_FLOAT; } template <> int nctype<int>() { return NC_INT; } template <> int nctype<char>() { return NC_CHAR; } template <> int nctype<unsigned long>() { return NC_UINT64; }
static int put(int nc, int v, const double* p) { return nc_put_var_double(nc, v, p); } static int put(int nc, int v, const float* p) { return nc_put_var_float(nc, v, p); } static int put(int nc, int v, const int* p) { return nc_put_var_int(nc, v, p); } static int put(int nc, int v, const char* p) { return nc_put_var_text(nc, v, p); } static int put(int nc, int v, const unsigned long* p) { return nc_put_var_ulonglong(nc, v, (const unsigned long long*)p); }
static int get(int nc, int v, double* p) { return nc_get_var_double(nc, v, p); } static int get(int nc, int v, float* p) { return nc_get_var_float(nc, v, p); } static int get(int nc, int v, int* p) { return nc_get_var_int(nc, v, p); }
static int create(Rng& r, const std::string& f, bool classic_ok = true) { int nc = -1; nc_create(f.c_str(), classic_ok && r.coin() ? NC_CLOBBER | NC_64BIT_OFFSET : NC_CLOBBER | NC_NETCDF4, &nc); return nc; }
// defines dimensions (named per call) in reverse order of d and a variable over them
template <class T> int def(int nc, const std::string& name, const Sz& d, bool unlimited = false) { std::vector<int> ids; if (unlimited) { int id; if (nc_inq_dimid(nc, "time", &id)) nc_def_dim(nc, "time", NC_UNLIMITED, &id); ids.push_back(id); } for (size_t i = d.size(); i-- > 0;) { int id; nc_def_dim(nc, (name + strf("_d%zu", i)).c_str(), d[i], &id); ids.push_back(id); } int v = -1; nc_def_var(nc, name.c_str(), nctype<T>(), ids.size(), ids.data(), &v); return v; }
template <class T> void nc_read(Rng& r, const Sz& d, const char* tn) {
  auto a = arr<T>(r, d), o = arr<T>(r, dims(r, r.range(1, 4))); std::string f = file("r.nc"), ctx = strf("%s ", tn) + sd(d), why; note(ctx);
  int nc = create(r, f, !std::is_same<T, unsigned long>::value), other = -1; if (r.coin()) other = def<T>(nc, "other", o.shape()); int v = def<T>(nc, "a", d); if (other < 0) other = def<T>(nc, "other", o.shape()); NC(nc_enddef(nc)); NC(put(nc, v, a.data())); NC(put(nc, other, o.data())); NC(nc_close(nc));
  { ftk::ndarray<T> b; b.read_netcdf(f, "a"); VH_CHECK(same(a, b, why), "netcdf-read", "%s whole variable: %s", ctx.c_str(), why.c_str()); b.read_netcdf(f, "other"); VH_CHECK(same(o, b, why), "netcdf-read", "%s other variable into the same array: %s", ctx.c_str(), why.c_str()); }
  { auto b = ftk::ndarray<T>::from_file(f, "a"); VH_CHECK(same(a, b, why), "netcdf-read", "%s from_file: %s", ctx.c_str(), why.c_str()); ftk::ndarray<T> c; VH_CHECK(c.read_file(f, "other"), "read-status", "%s read_file failed", ctx.c_str()); VH_CHECK(same(o, c, why), "netcdf-read", "%s read_file: %s", ctx.c_str(), why.c_str()); }
  NC(nc_open(f.c_str(), NC_NOWRITE, &nc));
  { ftk::ndarray<T> b, c; b.read_netcdf(nc, "a"); c.read_netcdf(nc, v); VH_CHECK(same(a, b, why) && same(a, c, why), "netcdf-read", "%s by handle: %s", ctx.c_str(), why.c_str()); }
  for (int k = 0; k < 4; k++) { Sz st, sz; box(r, d, st, sz); auto m = sub(a, st, sz); Sz rs = rev(st), rz = rev(sz); ftk::ndarray<T> b;
    if (k == 0) b.read_netcdf(f, "a", rs.data(), rz.data()); else if (k == 1) b.read_netcdf(nc, std::string("a"), rs.data(), rz.data()); else if (k == 2) b.read_netcdf(nc, v, rs.data(), rz.data()); else b.read_netcdf(nc, v, (int)d.size(), rs.data(), rz.data());
    VH_CHECK(same(m, b, why), "netcdf-part", "%s variant %d part at %s of %s: %s", ctx.c_str(), k, sd(st).c_str(), sd(sz).c_str(), why.c_str()); count("parts"); }
  NC(nc_close(nc)); count("netcdf_read");
}
template <class T> void nc_write(Rng& r, const Sz& d, const char* tn) {
  auto a = arr<T>(r, d), o = arr<T>(r, dims(r, r.range(1, 4))), z = arr<T>(r, d); std::string f = file("w.nc"), ctx = strf("%s ", tn) + sd(d), why; note(ctx); for (size_t i = 0; i < a.nelem(); i++) z[i] = 0;
  int nc = create(r, f), v1 = def<T>(nc, "other", o.shape()), v2 = def<T>(nc, "a", d), v3 = def<T>(nc, "part", d), v4 = def<T>(nc, "t", d, true); NC(nc_enddef(nc)); NC(put(nc, v3, z.data()));
  o.to_netcdf(nc, v1); a.to_netcdf(nc, v2); Sz st, sz; box(r, d, st, sz); auto s = sub(a, st, sz); Sz rs = rev(st), rz = rev(sz); s.to_netcdf(nc, v3, rs.data(), rz.data()); a.to_netcdf_unlimited_time(nc, v4); NC(nc_close(nc));
  NC(nc_open(f.c_str(), NC_NOWRITE, &nc)); ftk::ndarray<T> b, c; b.reshape(d); NC(get(nc, v2, b.data())); VH_CHECK(same(a, b, why), "netcdf-write", "%s: %s", ctx.c_str(), why.c_str()); c.reshape(o); NC(get(nc, v1, c.data())); VH_CHECK(same(o, c, why), "netcdf-write", "%s second variable: %s", ctx.c_str(), why.c_str());
  NC(get(nc, v3, b.data())); { ftk::ndarray<T> m = z; Sz k(d.size(), 0); for (size_t i = 0; i < m.nelem(); i++) { bool in = true; for (size_t q = 0; q < d.size(); q++) in &= k[q] >= st[q] && k[q] < st[q] + sz[q]; if (in) m[i] = a[i]; for (size_t q = 0; q < d.size(); q++) { if (++k[q] < d[q]) break; k[q] = 0; } } VH_CHECK(same(m, b, why), "netcdf-write-part", "%s part at %s of %s: %s", ctx.c_str(), sd(st).c_str(), sd(sz).c_str(), why.c_str()); }
  NC(nc_close(nc)); ftk::ndarray<T> e; e.read_netcdf(f, "a"); VH_CHECK(same(a, e, why), "netcdf-roundtrip", "%s: %s", ctx.c_str(), why.c_str()); e.read_netcdf(f, "t"); Sz td = d; td.push_back(1); ftk::ndarray<T> m = a; m.reshape(td); VH_CHECK(same(m, e, why), "netcdf-unlimited", "%s: %s", ctx.c_str(), why.c_str()); count("netcdf_write");
}
static uint64_t g_netcdf(Rng& r, int64_t i) {
  Sz d = dims(r, r.range(1, 6), r.coin(0.1) ? 12 : 4); sample("netcdf", sd(d));
  switch (i % 5) { case 0: nc_read<double>(r, d, "double"); nc_write<double>(r, d, "double"); break; case 1: nc_read<float>(r, d, "float"); nc_write<float>(r, d, "float"); break; case 2: nc_read<int>(r, d, "int"); nc_write<int>(r, d, "int"); break; case 3: nc_read<char>(r, d, "char"); break; default: nc_read<unsigned long>(r, d, "ulong"); }
  return hcomb(i % 5, hash_str(sd(d)));
}
struct W : ftk::ndarray_writer<double> { using ftk::ndarray_writer<double>::write; };
static void writer(Rng& r) {
  int nd = r.range(2, 3), nt = r.range(1, 4), nv = r.coin() ? 1 : nd; Sz d = dims(r, nd); Sz fd = d; if (nv > 1) fd.insert(fd.begin(), nv); bool tm = r.coin(0.7);
  nlohmann::json j; j["nd"] = nd; j["filename"] = file("v-%04d.nc"); j["format"] = "nc"; std::vector<std::string> names; for (int v = 0; v < nv; v++) names.push_back(std::string(1, "uvw"[v])); if (nv == 1 && r.coin()) j["variable"] = names[0]; else j["variable"] = names; if (nv > 1) j["n_components"] = nv; if (!tm) j["unlimited_time"] = false; else if (r.coin()) j["unlimited_time"] = true; if (r.coin(0.3)) { std::vector<std::string> dn{"lon", "lat", "depth"}; dn.resize(nd); j["dimensions"] = dn; }
  W w; w.configure(j); std::string ctx = sd(fd) + j.dump(), why; note(ctx); sample("writer", ctx); std::vector<ftk::ndarray<double>> as; for (int t = 0; t < nt; t++) { as.push_back(arr<double>(r, fd, nv > 1)); w.write(t, as[t]); }
  for (int t = 0; t < nt; t++) { std::string f = file(strf("v-%04d.nc", t)); for (int v = 0; v < nv; v++) { ftk::ndarray<double> m, b; Sz md = d; if (tm) md.push_back(1); m.reshape(md); for (size_t i = 0; i < m.nelem(); i++) m[i] = as[t][i * nv + v]; b.read_netcdf(f, names[v]); VH_CHECK(same(m, b, why), nv > 1 ? "writer-netcdf-components" : "writer-netcdf", "%s step %d variable %s: %s", ctx.c_str(), t, names[v].c_str(), why.c_str()); } unlink(f.c_str()); }
  count(nv > 1 ? "writer_multi" : "writer_single");
}
static uint64_t g_writer(Rng& r, int64_t) { uint64_t h = r.s; writer(r); return h; }
static void run_netcdf() { group("netcdf", 400, 6000, g_netcdf); group("writer", 150, 2000, g_writer); }
}
#define HAS_netcdf
#endif

#if FTK_HAVE_HDF5
template <class T> hid_t h5t(); template <> hid_t h5t<double>() { return H5T_NATIVE_DOUBLE; } template <> hid_t h5t<float>() { return H5T_NATIVE_FLOAT; } template <> hid_t h5t<int>() { return H5T_NATIVE_INT; } template <> hid_t h5t<unsigned long>() { return H5T_NATIVE_ULONG; } template <> hid_t h5t<unsigned>() { return H5T_NATIVE_UINT; } template <> hid_t h5t<unsigned char>() { return H5T_NATIVE_UCHAR; } template <> hid_t h5t<char>() { return H5T_NATIVE_CHAR; }
template <class T> void h5put(hid_t f, const std::string& name, const ftk::ndarray<T>& a, hid_t ft) { std::vector<hsize_t> h; for (auto x : rev(a.shape())) h.push_back(x); hid_t s = H5Screate_simple(h.size(), h.data(), NULL), d = H5Dcreate2(f, name.c_str(), ft, s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dwrite(d, h5t<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, a.data()); H5Dclose(d); H5Sclose(s); }
template <class T> void h5(Rng& r, const Sz& d, const char* tn) {
  auto a = arr<T>(r, d), o = arr<T>(r, dims(r, r.range(1, 4))); std::string f = file("a.h5"), ctx = strf("%s ", tn) + sd(d), why; note(ctx);
  hid_t h = H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT), g = H5Gcreate2(h, "grp", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); h5put(h, "a", a, h5t<T>()); h5put(g, "o", o, h5t<T>());
  T sc = val<T>(r); { hid_t s = H5Screate(H5S_SCALAR), k = H5Dcreate2(h, "s", h5t<T>(), s, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT); H5Dwrite(k, h5t<T>(), H5S_ALL, H5S_ALL, H5P_DEFAULT, &sc); H5Dclose(k); H5Sclose(s); } H5Gclose(g); H5Fclose(h);
  { ftk::ndarray<T> b; VH_CHECK(b.read_h5(f, "a"), "read-status", "%s not read", ctx.c_str()); VH_CHECK(same(a, b, why), "hdf5-read", "%s: %s", ctx.c_str(), why.c_str()); VH_CHECK(b.read_h5(f, "grp/o"), "read-status", "%s not read", ctx.c_str()); VH_CHECK(same(o, b, why), "hdf5-read", "%s second variable: %s", ctx.c_str(), why.c_str()); b.read_h5(f, "s"); VH_CHECK(b.nelem() == 1 && b[0] == sc, "hdf5-scalar", "%s scalar", ctx.c_str()); }
  { auto b = ftk::ndarray<T>::from_h5(f, "a"); VH_CHECK(same(a, b, why), "hdf5-read", "%s from_h5: %s", ctx.c_str(), why.c_str()); auto c = ftk::ndarray<T>::from_file(f, "grp/o"); VH_CHECK(same(o, c, why), "hdf5-read", "%s from_file: %s", ctx.c_str(), why.c_str()); }
  { hid_t q = H5Fopen(f.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); ftk::ndarray<T> b; bool ok = b.read_h5(q, "a"); VH_CHECK(ok && same(a, b, why), "hdf5-read", "%s by handle: %s", ctx.c_str(), why.c_str()); VH_CHECK(!b.read_h5(q, "missing"), "read-status", "%s a missing variable was reported as read", ctx.c_str());
    // every handle opened by the library is closed again
    ssize_t n = H5Fget_obj_count(q, H5F_OBJ_ALL); VH_CHECK(n == 1, "hdf5-handles", "%s %zd objects of the file left open", ctx.c_str(), n - 1); H5Fclose(q); }
  { hsize_t n0 = 0, n1 = 0; H5Inmembers(H5I_DATASPACE, &n0); ftk::ndarray<T> b; b.read_h5(f, "a"); H5Inmembers(H5I_DATASPACE, &n1); VH_CHECK(n0 == n1, "hdf5-handles", "%s a data space was left open", ctx.c_str()); }
  { ftk::ndarray<T> b; VH_CHECK(b.read_file(f, "a"), "read-status", "%s read_file failed", ctx.c_str()); VH_CHECK(!b.read_file(f, "missing"), "read-status", "%s read_file reports success for a missing variable", ctx.c_str()); VH_CHECK(!b.read_file(file("missing.h5"), "a"), "read-status", "%s read_file reports success for a missing file", ctx.c_str()); }
  count("hdf5_read");
}
static uint64_t g_hdf5(Rng& r, int64_t i) {
  static bool once = (H5Eset_auto2(H5E_DEFAULT, NULL, NULL), true); (void)once; Sz d = dims(r, r.range(1, 6), r.coin(0.1) ? 12 : 4); sample("hdf5", sd(d));
  switch (i % 7) { case 0: h5<double>(r, d, "double"); break; case 1: h5<float>(r, d, "float"); break; case 2: h5<int>(r, d, "int"); break; case 3: h5<unsigned long>(r, d, "ulong"); break; case 4: h5<unsigned>(r, d, "uint"); break; case 5: h5<unsigned char>(r, d, "uchar"); break; default: h5<char>(r, d, "char"); }
  { // stored in another type
    ftk::ndarray<int> a; a.reshape(d); for (size_t k = 0; k < a.nelem(); k++) a[k] = r.range(-100, 100); std::string f = file("c.h5"), why; hid_t h = H5Fcreate(f.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); h5put(h, "a", a, r.coin() ? H5T_IEEE_F64BE : r.coin() ? H5T_STD_I16BE : H5T_IEEE_F32LE); H5Fclose(h); ftk::ndarray<double> b; b.read_h5(f, "a"); VH_CHECK(same(a, b, why), "hdf5-converted", "%s: %s", sd(d).c_str(), why.c_str()); ftk::ndarray<float> c; c.read_h5(f, "a"); VH_CHECK(same(a, c, why), "hdf5-converted", "%s: %s", sd(d).c_str(), why.c_str()); }
  return hcomb(i % 7, hash_str(sd(d)));
}
static void run_hdf5() { group("hdf5", 400, 6000, g_hdf5); }
#define HAS_hdf5
#endif

#if FTK_HAVE_VTK
namespace image_files {
template <class T> void vti(Rng& r, const char* tn) {
  int nd = r.range(2, 3), nc = r.coin() ? 1 : r.range(2, 4); Sz d = dims(r, nd); if (nd == 3 && d[2] == 1) d[2] = 2; Sz fd = d; if (nc > 1) fd.insert(fd.begin(), nc); auto a = arr<T>(r, fd, nc > 1); for (size_t i = 0; i < a.nelem(); i++) if (!std::isfinite((double)a[i])) a[i] = 3; std::string f = file("a.vti"), ctx = strf("%s ", tn) + sd(fd), why; note(ctx); sample("vti", ctx); std::string name = r.coin() ? "" : "field";
  { auto img = a.to_vtk_image_data(name); int vd[3]; img->GetDimensions(vd); bool ok = vd[2] == (nd == 3 ? (int)d[2] : 1) && vd[0] == (int)d[0] && vd[1] == (int)d[1]; auto da = img->GetPointData()->GetScalars(); ok = ok && da && da->GetNumberOfTuples() == (vtkIdType)prod(d) && da->GetNumberOfComponents() == nc;
    VH_CHECK(ok, "vti-image", "%s image dimensions", ctx.c_str()); if (ok) for (vtkIdType i = 0; i < da->GetNumberOfTuples() && ok; i++) for (int c = 0; c < nc && ok; c++) { ok = (T)da->GetComponent(i, c) == a[i * nc + c]; VH_CHECK(ok, "vti-image", "%s value of point %lld", ctx.c_str(), (long long)i); }
    ftk::ndarray<T> b; b.from_vtk_image_data(img, name); VH_CHECK(same(a, b, why), "vti-convert", "%s: %s", ctx.c_str(), why.c_str());
    ftk::ndarray<T> c; c.from_vtk_data_array(da); Sz cd; if (nc > 1) cd.push_back(nc); cd.push_back(prod(d)); ftk::ndarray<T> m = a; m.reshape(cd); m.set_multicomponents(nc > 1); VH_CHECK(same(m, c, why), "vti-data-array", "%s: %s", ctx.c_str(), why.c_str()); ftk::ndarray<T> c2; c2.from_vtk_array(da); VH_CHECK(same(m, c2, why), "vti-data-array", "%s: %s", ctx.c_str(), why.c_str()); }
  a.to_vtk_image_data_file(f, name); { ftk::ndarray<T> b; b.reshape(Sz{1, 2}); if (r.coin()) b.set_multicomponents(); b.read_vtk_image_data_file(f, name); VH_CHECK(same(a, b, why), "vti-roundtrip", "%s: %s", ctx.c_str(), why.c_str()); auto c = ftk::ndarray<T>::from_file(f, name); VH_CHECK(same(a, c, why), "vti-roundtrip", "%s from_file: %s", ctx.c_str(), why.c_str()); }
  { // several variables in a file
    auto img = a.to_vtk_image_data("first"); std::vector<ftk::ndarray<double>> more; for (int k = 0; k < 3; k++) { int kc = r.pick({1, 2, 3}); Sz kd = d; if (kc > 1) kd.insert(kd.begin(), kc); more.push_back(arr<double>(r, kd, kc > 1)); auto& m = more.back(); vtkSmartPointer<vtkDoubleArray> da = vtkSmartPointer<vtkDoubleArray>::New(); da->SetName(strf("more%d", k).c_str()); da->SetNumberOfComponents(kc); da->SetNumberOfTuples(prod(d)); for (size_t i = 0; i < m.nelem(); i++) { if (!std::isfinite(m[i])) m[i] = 1; da->SetComponent(i / kc, i % kc, m[i]); } img->GetPointData()->AddArray(da); }
    vtkSmartPointer<vtkXMLImageDataWriter> w = vtkSmartPointer<vtkXMLImageDataWriter>::New(); w->SetFileName(f.c_str()); w->SetInputData(img); w->Write(); ftk::ndarray<T> b; b.read_vtk_image_data_file(f, "first"); VH_CHECK(same(a, b, why), "vti-variables", "%s first: %s", ctx.c_str(), why.c_str()); for (int k : {2, 0, 1}) { ftk::ndarray<double> c; c.read_vtk_image_data_file(f, strf("more%d", k)); VH_CHECK(same(more[k], c, why), "vti-variables", "%s variable %d: %s", ctx.c_str(), k, why.c_str()); } count("vti_variables", 4); }
  { int nt = r.pick({1, 2, 5, 11}); ftk::ndarray<T> m; Sz md = fd; md.push_back(nt); m.reshape(md); m.set_multicomponents(nc > 1); std::string pre = "s"; for (int t = 0; t < nt; t++) { auto s = arr<T>(r, fd, nc > 1); for (size_t i = 0; i < s.nelem(); i++) { if (!std::isfinite((double)s[i])) s[i] = 3; m[t * s.nelem() + i] = s[i]; } s.to_vtk_image_data_file(file(strf("s%03d.vti", t))); }
    ftk::ndarray<T> b; b.read_vtk_image_data_file_sequence(file("s*.vti")); VH_CHECK(same(m, b, why), "vti-sequence", "%s sequence of %d files: %s", ctx.c_str(), nt, why.c_str()); for (int t = 0; t < nt; t++) unlink(file(strf("s%03d.vti", t)).c_str()); count("vti_sequences"); }
  count("vti"); if (nc > 1) count("vti_vectors");
}
struct W : ftk::ndarray_writer<double> { using ftk::ndarray_writer<double>::write; };
static void writer(Rng& r) {
  int nd = r.range(2, 3), nt = r.range(1, 3), nc = r.coin() ? 1 : nd; Sz d = dims(r, nd); if (nd == 3 && d[2] == 1) d[2] = 2; if (nc > 1) d.insert(d.begin(), nc); nlohmann::json j; j["nd"] = nd; j["filename"] = file("x-%02d.vti"); j["format"] = "vti"; std::vector<std::string> names{"u", "v", "w"}; names.resize(nc); j["variable"] = names; if (nc > 1) j["n_components"] = nc;
  W w; w.configure(j); std::string ctx = sd(d) + j.dump(), why; note(ctx); sample("writer", ctx); std::vector<ftk::ndarray<double>> as; for (int t = 0; t < nt; t++) { as.push_back(arr<double>(r, d, nc > 1)); for (size_t i = 0; i < as[t].nelem(); i++) if (!std::isfinite(as[t][i])) as[t][i] = 2; w.write(t, as[t]); }
  for (int t = 0; t < nt; t++) { ftk::ndarray<double> b; b.read_vtk_image_data_file(file(strf("x-%02d.vti", t))); VH_CHECK(same(as[t], b, why), "writer-vti", "%s step %d: %s", ctx.c_str(), t, why.c_str()); unlink(file(strf("x-%02d.vti", t)).c_str()); } count("writer_vti");
}
static uint64_t g_vti(Rng& r, int64_t i) { uint64_t h = r.s; switch (i % 5) { case 0: case 1: vti<double>(r, "double"); break; case 2: vti<float>(r, "float"); break; case 3: vti<int>(r, "int"); break; default: vti<unsigned char>(r, "uchar"); } return h; }
static uint64_t g_writer(Rng& r, int64_t) { uint64_t h = r.s; writer(r); return h; }
static void run_vti() { group("vti", 200, 3000, g_vti); group("writer", 60, 800, g_writer); }
}
#define HAS_vti
#endif
VH_MAIN({
#ifdef HAS_binary
  run_binary();
#endif
#ifdef HAS_netcdf
  netcdf_files::run_netcdf();
#endif
#ifdef HAS_hdf5
  run_hdf5();
#endif
#ifdef HAS_vti
  image_files::run_vti();
#endif
})
