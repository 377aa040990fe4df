// C17 with several processes: every process receives every step of its part of the domain.
#include "vh.hh"
#include <ftk/ndarray/stream.hh>
#if FTK_HAVE_VTK
#include <vtkImageData.h>
#include <vtkPointData.h>
#include <vtkDoubleArray.h>
#include <vtkUnstructuredGrid.h>
#include <vtkXMLImageDataWriter.h>
#include <vtkXMLUnstructuredGridWriter.h>
#endif
#include <netcdf.h>
using namespace vh;
using nlohmann::json;
typedef std::vector<size_t> Sz;
static int np() { int n; MPI_Comm_size(MPI_COMM_WORLD, &n); return n; }
static int rank() { int n; MPI_Comm_rank(MPI_COMM_WORLD, &n); return n; }
static std::string sd(const Sz& d) { std::string s = "("; for (size_t i = 0; i < d.size(); i++) s += strf(i ? ",%zu" : "%zu", d[i]); return s + ")"; }
static size_t prod(const Sz& d) { size_t n = 1; for (auto x : d) n *= x; return n; }
static std::string shared(const std::string& n) { static std::string d; if (d.empty()) { char b[4096] = {0}; if (!rank()) strncpy(b, opt().dir.c_str(), 4095); MPI_Bcast(b, 4096, MPI_CHAR, 0, MPI_COMM_WORLD); d = b; } return d + "/" + n; }
static double val(int salt, int k, int c, size_t p) { return ((int)(mix(((uint64_t)salt * 977 + k) * 7919 + c * 104729 + p * 31) % 20001) - 10000) / 8.0; }
static uint64_t g_mpi(Rng& r, int64_t idx) {
  uint64_t h = r.s; int fmt = r.below(5); static const char* fn[] = {"float32", "float64", "nc", "vti", "vtu"}; 
  int nd = fmt == 4 ? 1 : fmt == 3 ? r.range(2, 3) : r.range(1, 3), nc = r.coin(0.6) ? 1 : r.range(2, 3), nf = r.range(1, 4), salt = r.below(100000); bool unl = fmt == 2 && r.coin(); if (fmt == 2 && !unl && nd == 1) nd = 2; Sz d; for (int i = 0; i < nd; i++) d.push_back(r.coin(0.1) && i < 2 ? 1 : r.range(2, 8)); std::vector<int> per; int nt = 0; for (int k = 0; k < nf; k++) per.push_back(unl ? r.range(1, 3) : 1), nt += per.back(); size_t n = prod(d);
  std::string ext = fmt < 2 ? "raw" : fn[fmt]; std::vector<std::string> f; for (int k = 0; k < nf; k++) f.push_back(shared(strf("m%d-%03d.%s", (int)(idx % 1000000), k, ext.c_str())));
  std::string ctx = strf("%s %s, %d variables, %d files, np %d", fn[fmt], sd(d).c_str(), nc, nf, np());
  if (!rank()) { int t0 = 0; for (int k = 0; k < nf; t0 += per[k], k++) {
      if (fmt < 2) { FILE* fp = fopen(f[k].c_str(), "wb"); for (size_t p = 0; p < n; p++) for (int c = 0; c < nc; c++) { double v = val(salt, k, c, p); float w = v; if (fmt) fwrite(&v, 8, 1, fp); else fwrite(&w, 4, 1, fp); } fclose(fp); }
      else if (fmt == 2) { int id, td; nc_create(f[k].c_str(), salt % 2 ? NC_CLOBBER : NC_CLOBBER | NC_NETCDF4, &id); std::vector<int> ids; if (unl) nc_def_dim(id, "t", NC_UNLIMITED, &td), ids.push_back(td); for (int q = nd - 1; q >= 0; q--) { int x; nc_def_dim(id, strf("d%d", q).c_str(), d[q], &x); ids.push_back(x); } std::vector<int> vs(nc); for (int c = 0; c < nc; c++) nc_def_var(id, strf("v%d", c).c_str(), NC_DOUBLE, ids.size(), ids.data(), &vs[c]); nc_enddef(id);
        for (int c = 0; c < nc; c++) for (int t = 0; t < per[k]; t++) { std::vector<double> b; for (size_t p = 0; p < n; p++) b.push_back(val(salt, t0 + t, c, p)); Sz st(ids.size(), 0), sz; if (unl) st[0] = t, sz.push_back(1); for (int q = nd - 1; q >= 0; q--) sz.push_back(d[q]); nc_put_vara_double(id, vs[c], st.data(), sz.data(), b.data()); } nc_close(id); }
#if FTK_HAVE_VTK
      else { auto add = [&](vtkPointData* pd) { if (salt % 2 && nc > 1) { auto a = vtkSmartPointer<vtkDoubleArray>::New(); a->SetName("v0"); a->SetNumberOfComponents(nc); a->SetNumberOfTuples(n); for (size_t p = 0; p < n; p++) for (int c = 0; c < nc; c++) a->SetComponent(p, c, val(salt, k, c, p)); pd->AddArray(a); } else for (int c = 0; c < nc; c++) { auto a = vtkSmartPointer<vtkDoubleArray>::New(); a->SetName(strf("v%d", c).c_str()); a->SetNumberOfTuples(n); for (size_t p = 0; p < n; p++) a->SetValue(p, val(salt, k, c, p)); pd->AddArray(a); } };
        if (fmt == 3) { auto im = vtkSmartPointer<vtkImageData>::New(); im->SetDimensions(d[0], d[1], nd == 3 ? d[2] : 1); add(im->GetPointData()); auto w = vtkSmartPointer<vtkXMLImageDataWriter>::New(); w->SetFileName(f[k].c_str()); w->SetInputData(im); w->Write(); }
        else { auto g = vtkSmartPointer<vtkUnstructuredGrid>::New(); auto pt = vtkSmartPointer<vtkPoints>::New(); for (size_t p = 0; p < n; p++) pt->InsertNextPoint(p, 0, 0); g->SetPoints(pt); for (vtkIdType p = 0; p < (vtkIdType)n; p++) g->InsertNextCell(VTK_VERTEX, 1, &p); add(g->GetPointData()); auto w = vtkSmartPointer<vtkXMLUnstructuredGridWriter>::New(); w->SetFileName(f[k].c_str()); w->SetInputData(g); w->Write(); } }
#endif
    } }
  MPI_Barrier(MPI_COMM_WORLD);
  json j; j["type"] = "file"; j["format"] = fn[fmt]; j["filenames"] = f; if (fmt < 2) j["dimensions"] = d; std::vector<std::string> v; for (int c = 0; c < (fmt > 2 && salt % 2 && nc > 1 ? 1 : nc); c++) v.push_back(strf("v%d", c)); j["variables"] = v; if (r.coin(0.3)) { int q = r.range(1, nt + 1); j["n_timesteps"] = q; nt = std::min(nt, q); } if (r.coin(0.3)) j["async"] = true, ctx += " async";
  int mode = fmt == 4 ? 0 : r.below(3); std::vector<Sz> S, Z; for (int k = 0; k < np(); k++) { Sz a, b; for (auto q : d) { size_t s = r.below(q); a.push_back(s); b.push_back(r.range(1, q - s)); } S.push_back(a); Z.push_back(b); } Sz st = S[rank()], sz = Z[rank()];
  if (mode == 1) { int ax = r.below(nd), m = d[ax], a = m * rank() / np(), b = m * (rank() + 1) / np(); st.assign(nd, 0); sz = d; if (b > a) st[ax] = a, sz[ax] = b - a; } if (mode == 0) st.assign(nd, 0), sz = d;
  ctx += strf(" mode %d", mode); note(ctx); if (!rank()) sample(fn[fmt], ctx);
  ftk::ndarray_stream<double> s{diy::mpi::communicator()}; s.configure(j); if (mode) s.set_part(ftk::lattice(st, sz)); int got = 0; bool bad = false; if (fmt < 4) VH_CHECK(s.shape().size() == (size_t)nd + (nc > 1), "mpi-shape", "%s rank %d: shape %s", ctx.c_str(), rank(), sd(s.shape()).c_str());
  s.set_callback([&](int k, const ftk::ndarray<double>& a) { if (k != got) { viol("mpi-order", strf("%s rank %d: step %d delivered as number %d", ctx.c_str(), rank(), k, got)); bad = true; } got++; if (bad) return; Sz w = sz; if (nc > 1) w.insert(w.begin(), nc); if (a.shape() != w || a.multicomponents() != (size_t)(nc > 1)) { viol("mpi-part-shape", strf("%s rank %d: shape %s instead of %s", ctx.c_str(), rank(), sd(a.shape()).c_str(), sd(w).c_str())); bad = true; return; }
    for (size_t i = 0; i < prod(sz); i++) { size_t o = 0, q = 1, x = i; for (int z = 0; z < nd; z++) { o += (x % sz[z] + st[z]) * q; x /= sz[z]; q *= d[z]; } for (int c = 0; c < nc; c++) if (a[i * nc + c] != val(salt, k, c, o)) { viol("mpi-data", strf("%s rank %d: step %d value %zu component %d of the part at %s of size %s is %g instead of %g", ctx.c_str(), rank(), k, i, c, sd(st).c_str(), sd(sz).c_str(), a[i * nc + c], val(salt, k, c, o))); bad = true; return; } } count("mpi_values", prod(sz) * nc); });
  s.start(); s.finish(); VH_CHECK(got == nt, "mpi-count", "%s rank %d: %d steps instead of %d", ctx.c_str(), rank(), got, nt); count("mpi_steps", got); if (mode) count("mpi_parts"); MPI_Barrier(MPI_COMM_WORLD); if (!rank()) for (auto& x : f) unlink(x.c_str()); if (!rank()) count("mpi_streams"); return h; }
int main(int argc, char** argv) { int p; MPI_Init_thread(0, 0, MPI_THREAD_MULTIPLE, &p); vh::init(argc, argv); shared(""); group("mpi", 80, 800, g_mpi); int rc = vh::finish(); MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); return rc; }
