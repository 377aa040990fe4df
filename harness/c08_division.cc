// C08: the same case tracked with different divisions of the work.
// Without MPI: thread counts against one thread. With MPI: all processes together against the root alone.
#include "cptrace.hh"
using namespace cpm;
static int np() { int n = 1;
#if FTK_HAVE_MPI
  MPI_Comm_size(MPI_COMM_WORLD, &n);
#endif
  return n; }
static int rank() { int n = 0;
#if FTK_HAVE_MPI
  MPI_Comm_rank(MPI_COMM_WORLD, &n);
#endif
  return n; }
static diy::mpi::communicator self() {
#if FTK_HAVE_MPI
  return diy::mpi::communicator(MPI_COMM_SELF);
#else
  return diy::mpi::communicator();
#endif
}
static diy::mpi::communicator world() { return diy::mpi::communicator(); }
template <class T> Run one(const Grid& g, const Opts& o, diy::mpi::communicator c, bool partial) {
  T t(c); configure(t, g, o); t.set_input_array_partial(partial); t.initialize(); ftk::lattice l = t.get_local_array_domain();
  feed(t, g, [&](int k) { auto a = input(g, k); if (!partial) return a; std::vector<size_t> st, sz; if (!g.scalar_input) st.push_back(0), sz.push_back(g.nd); for (int d = 0; d < g.nd; d++) st.push_back(l.start(d) - g.org[d]), sz.push_back(l.size(d)); auto b = a.slice(st, sz); b.set_multicomponents(g.scalar_input ? 0 : 1); if (partial && k == 0 && b.nelem() < a.nelem()) count("partial_arrays"); return b; });
  t.finalize(); Run r; r.cps = t.get_critical_points(); r.trajs = t.get_traced_critical_points(); return r;
}
static Run go(const Grid& g, const Opts& o, diy::mpi::communicator c, bool partial) { return g.nd == 2 ? one<ftk::critical_point_tracker_2d_regular>(g, o, c, partial) : one<ftk::critical_point_tracker_3d_regular>(g, o, c, partial); }
static Run ugo(const UCase& c, const Opts& o, diy::mpi::communicator m) {
  if (c.D == 2) { ftk::critical_point_tracker_2d_unstructured t(m, c.m2); return urun_(t, c, o); }
  ftk::critical_point_tracker_3d_unstructured t(m, c.b3); return urun_(t, c, o);
}
static void trajs_equal(const Run& a, const Run& b, const std::string& ctx) {
  auto A = canon(a.trajs), B = canon(b.trajs); count("trajectories", A.size());
  VH_CHECK(A == B, "trajectories", "%s trajectories differ: %zu instead of %zu", ctx.c_str(), B.size(), A.size());
  // attributes of the points on the trajectories and the statistics
  auto pts = [](const Run& r) { std::vector<ftk::feature_point_t> v; r.trajs.foreach([&](const ftk::feature_curve_t& c) { for (auto& p : c) v.push_back(p); }); return v; };
  std::string why; VH_CHECK(same_points(pts(a), pts(b), why), "trajectory-points", "%s points of trajectories: %s", ctx.c_str(), why.c_str());
  b.trajs.foreach([&](const ftk::feature_curve_t& c) { if (!c.empty()) stats(c, ctx); });
}
static void equal(const Run& a, const Run& b, const std::string& ctx, bool streaming) {
  std::string why; count("points", a.cps.size()); if (!streaming) VH_CHECK(same_points(a.cps, b.cps, why), "points", "%s detected points: %s", ctx.c_str(), why.c_str());
  trajs_equal(a, b, ctx);
}
static Opts options(Rng& r, bool reg) { Opts o; if (r.coin(0.2)) o.filter = r.pick({2, 4, 8, 10, 48}); if (reg && r.coin(0.15)) o.degrees = true; o.discard = r.coin(0.15); o.streaming = r.coin(0.25); o.nthreads = 1; return o; }
static uint64_t reg(Rng& r, int nd) {
  Grid g = grid(r, nd, r.coin(), opt().thorough); int kind = r.below(NKIND);
  if (np() > 1) { int big = r.below(nd); int room = r.range(0, nd == 2 ? 8 : 4); g.dims[big] += room; g.dhi[big] += room; } // room for the parts
  fill(r, g, kind, r.coin(0.1) ? 0.02 : 0); Opts o = options(r, true); if (nd == 3) o.degrees = false; bool partial = np() > 1 && r.coin();
  std::string ctx = gdesc(g, kind) + strf(" np %d partial %d streaming %d filter %d degrees %d", np(), partial, o.streaming, o.filter, o.degrees);
  { ftk::lattice dom = lat(g.dlo, g.dhi); ftk::lattice_partitioner p(dom); p.partition(np()); if ((int)p.np() != np()) return 0; for (int i = 0; i < np(); i++) for (int d = 0; d < nd; d++) if (p.get_core(i).size(d) < 1) return 0; }
  note(ctx); if (!rank()) sample(strf("regular%dd", nd), ctx);
  Run a; if (!rank()) a = go(g, o, self(), false);
  for (int n : np() > 1 ? std::vector<int>{r.pick({1, 1, 3})} : std::vector<int>{2, 3, 8, r.range(4, 24)}) { o.nthreads = n; Run b = go(g, o, world(), partial); if (!rank()) { equal(a, b, ctx + strf(" threads %d", n), o.streaming); count(partial ? "partial_runs" : "full_runs"); if (o.streaming) count("streaming_runs"); if (np() > 1) count("mpi_runs"); else count("threaded_runs"); } }
  return a.cps.empty() ? 0 : hcomb(hgrid(g), np() * 2 + partial);
}
static uint64_t uns(Rng& r, int D) {
  UCase c = ucase(r, D); Opts o = options(r, false); std::string ctx = c.u.desc + strf(" np %d streaming %d filter %d", np(), o.streaming, o.filter); note(ctx); if (!rank()) sample(strf("unstructured%dd", D), ctx);
  Run a; if (!rank()) a = ugo(c, o, self());
  for (int n : np() > 1 ? std::vector<int>{r.pick({1, 1, 3})} : std::vector<int>{2, 3, 8, r.range(4, 24)}) { o.nthreads = n; Run b = ugo(c, o, world()); if (!rank()) { equal(a, b, ctx + strf(" threads %d", n), o.streaming); if (np() > 1) count("mpi_runs"); else count("threaded_runs"); } }
  return a.cps.empty() ? 0 : hcomb(hucase(c), np());
}
static void body() { quiet(); bool m = np() > 1;
  group("2d", m ? 120 : 160, 2000, [](Rng& r, int64_t) { return reg(r, 2); }); group("3d", m ? 20 : 24, 400, [](Rng& r, int64_t) { return reg(r, 3); });
  group("u2d", m ? 60 : 100, 1500, [](Rng& r, int64_t) { return uns(r, 2); }); group("u3d", m ? 20 : 30, 400, [](Rng& r, int64_t) { return uns(r, 3); }); }
#if FTK_HAVE_MPI
int main(int argc, char** argv) { MPI_Init_thread(0, 0, MPI_THREAD_MULTIPLE, new int); vh::init(argc, argv); body(); int rc = vh::finish(); MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); return rc; }
#else
VH_MAIN({ body(); })
#endif
