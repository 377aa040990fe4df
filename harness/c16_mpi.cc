// C16 with several processes: sub-regions of NetCDF variables and raw files read at the same time.
#include "vh.hh"
#include <ftk/ndarray.hh>
using namespace vh;
typedef std::vector<size_t> Sz;
static int np() { int n; MPI_Comm_size(MPI_COMM_WORLD, &n); return n; }
static int rank() { int n; MPI_Comm_rank(MPI_COMM_WORLD, &n); return n; }
static std::string sd(const Sz& d) { std::string s = "("; for (size_t i = 0; i < d.size(); i++) s += strf(i ? ",%zu" : "%zu", d[i]); return s + ")"; }
static std::string shared(const std::string& n) { static std::string d; if (d.empty()) { char b[4096] = {0}; if (!rank()) strncpy(b, opt().dir.c_str(), 4095); MPI_Bcast(b, 4096, MPI_CHAR, 0, MPI_COMM_WORLD); d = b; } return d + "/" + n; }
template <class T> T at(const Sz& d, const Sz& k, int salt) { size_t off = 0, s = 1; for (size_t i = 0; i < d.size(); i++) off += k[i] * s, s *= d[i]; return (T)(((int)(mix(off * 131 + salt) % 20001) - 10000) / 4.0); }
static size_t prod(const Sz& d) { size_t n = 1; for (auto x : d) n *= x; return n; }
static bool next(Sz& k, const Sz& d) { for (size_t i = 0; i < d.size(); i++) { if (++k[i] < d[i]) return true; k[i] = 0; } return false; }
template <class T> void judge(const ftk::ndarray<T>& a, const Sz& d, const Sz& st, const Sz& sz, int salt, const std::string& key, const std::string& ctx) {
  if (a.shape() != sz) { viol(key, strf("%s rank %d: shape %s instead of %s", ctx.c_str(), rank(), sd(a.shape()).c_str(), sd(sz).c_str())); return; }
  Sz k(d.size(), 0); size_t i = 0; do { Sz g = k; for (size_t q = 0; q < d.size(); q++) g[q] += st[q]; T w = at<T>(d, g, salt); if (a[i] != w) { viol(key, strf("%s rank %d: value at %s of the part at %s of size %s is %g instead of %g", ctx.c_str(), rank(), sd(k).c_str(), sd(st).c_str(), sd(sz).c_str(), (double)a[i], (double)w)); return; } i++; } while (next(k, sz)); count("values", i); }
// the part of every rank: slabs of the array or any box, the same on several ranks or not
// returns the number of layers in the bounding box of all parts
static size_t part(Rng& r, const Sz& d, int mode, Sz& st, Sz& sz) {
  std::vector<Sz> S, Z; for (int k = 0; k < np(); k++) { Sz a, b; for (auto n : d) { size_t s = r.below(n); a.push_back(s); b.push_back(r.range(1, n - s)); } S.push_back(a); Z.push_back(b); }
  st = S[rank()]; sz = Z[rank()];
  if (mode == 1) { int ax = 0; for (size_t i = 0; i < d.size(); i++) if (d[i] > d[ax]) ax = i; int n = d[ax], a = n * rank() / np(), b = n * (rank() + 1) / np(); st.assign(d.size(), 0); sz = d; if (b > a) { st[ax] = a; sz[ax] = b - a; } }
  if (mode == 2) { st.assign(d.size(), 0); sz = d; }
  if (mode) return d.back(); size_t lo = d.back(), hi = 0; for (int k = 0; k < np(); k++) lo = std::min(lo, S[k].back()), hi = std::max(hi, S[k].back() + Z[k].back()); return hi - lo;
}
static Sz dims(Rng& r, int nd) { Sz d; for (int i = 0; i < nd; i++) d.push_back(r.coin(0.1) ? 1 : r.range(2, 9)); return d; }
template <class T> void nc(Rng& r, const char* tn) {
  Sz d = dims(r, r.range(1, 5)), st, sz; int salt = r.below(1000), mode = r.below(3); bool classic = r.coin(); part(r, d, mode, st, sz); std::string f = shared("m.nc"), ctx = strf("NetCDF %s %s np %d mode %d", tn, sd(d).c_str(), np(), mode); note(ctx); if (!rank()) sample("netcdf", ctx);
  if (!rank()) { int h, v; std::vector<int> ids; nc_create(f.c_str(), classic ? NC_CLOBBER | NC_64BIT_OFFSET : NC_CLOBBER | NC_NETCDF4, &h); for (size_t i = d.size(); i-- > 0;) { int id; nc_def_dim(h, strf("d%zu", i).c_str(), d[i], &id); ids.push_back(id); } nc_def_var(h, "a", std::is_same<T, float>::value ? NC_FLOAT : std::is_same<T, int>::value ? NC_INT : NC_DOUBLE, ids.size(), ids.data(), &v); nc_enddef(h); std::vector<double> x; Sz k(d.size(), 0); do x.push_back(at<T>(d, k, salt)); while (next(k, d)); nc_put_var_double(h, v, x.data()); nc_close(h); }
  MPI_Barrier(MPI_COMM_WORLD); Sz a(st.rbegin(), st.rend()), b(sz.rbegin(), sz.rend()); ftk::ndarray<T> q; q.read_netcdf(f, "a", a.data(), b.data(), diy::mpi::communicator()); judge(q, d, st, sz, salt, "mpi-netcdf-part", ctx); ftk::ndarray<T> w; w.read_netcdf(f, "a", diy::mpi::communicator()); judge(w, d, Sz(d.size(), 0), d, salt, "mpi-netcdf-whole", ctx); MPI_Barrier(MPI_COMM_WORLD); if (!rank()) count("netcdf_files");
}
static uint64_t g_netcdf(Rng& r, int64_t i) { uint64_t h = r.s; switch (i % 3) { case 0: nc<double>(r, "double"); break; case 1: nc<float>(r, "float"); break; default: nc<int>(r, "int"); } return h; }
template <class T> void bil(Rng& r, const char* tn) {
  int nf = r.pick({1, 1, 2, 3}), nd = r.range(2, 4); std::string ctx = strf("raw %s np %d files %d", tn, np(), nf); std::vector<ftk::ndarray<T>> as(nf); std::vector<Sz> D, S, Z; std::vector<int> salt; Sz d = dims(r, nd); d.back() += np();
  for (int k = 0; k < nf; k++) { Sz st, sz; int mode = r.below(3); if (part(r, d, mode, st, sz) < (size_t)np()) return; D.push_back(d); S.push_back(st); Z.push_back(sz); salt.push_back(r.below(1000)); ctx += strf(" %s mode %d", sd(d).c_str(), mode); }
  note(ctx); if (!rank()) sample("bil", ctx);
  if (!rank()) for (int k = 0; k < nf; k++) { ftk::ndarray<T> w; w.reshape(d); Sz q(d.size(), 0); size_t i = 0; do w[i++] = at<T>(d, q, salt[k]); while (next(q, d)); w.to_binary_file(shared(strf("b%d.raw", k))); }
  MPI_Barrier(MPI_COMM_WORLD); BIL_Init(MPI_COMM_WORLD);
  for (int k = 0; k < nf; k++) as[k].bil_add_block_raw(shared(strf("b%d.raw", k)), D[k], ftk::lattice(S[k], Z[k]));
  BIL_Read(); BIL_Finalize(); for (int k = 0; k < nf; k++) judge(as[k], D[k], S[k], Z[k], salt[k], "mpi-raw-part", ctx); MPI_Barrier(MPI_COMM_WORLD); if (!rank()) count("raw_reads", nf);
}
static uint64_t g_bil(Rng& r, int64_t i) { uint64_t h = r.s; switch (i % 3) { case 0: bil<double>(r, "double"); break; case 1: bil<float>(r, "float"); break; default: bil<int>(r, "int"); } return h; }
int main(int argc, char** argv) { int p; MPI_Init_thread(0, 0, MPI_THREAD_MULTIPLE, &p); vh::init(argc, argv); shared(""); group("netcdf", 60, 600, g_netcdf); group("bil", 90, 900, g_bil); int rc = vh::finish(); MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); return rc; }
