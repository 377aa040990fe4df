#include "umesh.hh"
#include <ftk/config.hh>
#include <ftk/object.hh>
#include <ftk/mesh/simplicial_regular_mesh.hh>
#include <ftk/numeric/clamp.hh>
#include <ftk/mesh/simplicial_unstructured_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
#include <ftk/mesh/simplicial_unstructured_3d_mesh.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh>
using namespace vh;
struct Obj : public ftk::object { using ftk::object::parallel_for; using ftk::object::parallel_for_container; };
// monitor of one sweep: visits per item, calls still running when the sweep returned, threads seen
struct Sweep {
  std::mutex m; std::map<long long, int> n; std::atomic<int> running{0}; std::atomic<bool> returned{false}; std::set<std::thread::id> threads; uint64_t order = 0; std::atomic<int> late{0};
  uint64_t dseed; double pdelay;
  Sweep(Rng& r) : dseed(r.u64()), pdelay(r.pick({0., 0., .02, .2})) {}
  void visit(long long k) {
    running++; if (returned) late++;
    Rng r(hcomb(dseed, k)); if (r.coin(pdelay)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
    { std::lock_guard<std::mutex> g(m); n[k]++; threads.insert(std::this_thread::get_id()); order = hcomb(order, k); }
    running--;
  }
  void done(const std::string& key, const std::string& desc, const std::set<long long>& want) {
    if (running) viol(key + ":unfinished", desc + ": invocations still running after the sweep returned"); returned = true;
    size_t twice = 0, foreign = 0; for (auto& k : n) { if (k.second != 1) twice++; if (!want.count(k.first)) foreign++; }
    if (n.size() - foreign < want.size()) viol(key + ":missed", strf("%s: %zu of %zu items visited", desc.c_str(), n.size() - foreign, want.size()));
    if (twice) viol(key + ":twice", strf("%s: %zu items visited more than once", desc.c_str(), twice));
    if (foreign) viol(key + ":foreign", strf("%s: %zu items outside the range visited", desc.c_str(), foreign));
    count("visits", n.size()); seen_state(order); if (threads.size() > 1) count("multithreaded_sweeps");
  }
};
static std::set<long long> upto(long long n) { std::set<long long> s; for (long long i = 0; i < n; i++) s.insert(i); return s; }
#if FTK_HAVE_TBB
static const std::vector<int> backends = {ftk::FTK_THREAD_PTHREAD, ftk::FTK_THREAD_TBB, ftk::FTK_THREAD_TBB};
#else
static const std::vector<int> backends = {ftk::FTK_THREAD_PTHREAD};
#endif
static int threads(Rng& r) { return r.pick({0, 1, 1, 2, 3, 4, 5, 7, 8, 13, 16, 32}); }
VH_MAIN({
  group("range", 400, 6000, [](Rng& r, int64_t i) {
    int n = i < 40 ? i : r.pick({0, 1, 2, (int)r.below(20), (int)r.below(200), (int)r.below(3000)}); int nt = i < 40 ? (i * 7) % 34 : threads(r), be = backends[r.below(backends.size())];
    Sweep s(r); std::string d = strf("parallel_for ntasks=%d nthreads=%d backend=%d", n, nt, be); note(d);
    Obj::parallel_for(n, [&](int k) { s.visit(k); }, be, nt, r.coin()); s.done("range", d, upto(n)); return hcomb(hcomb(n, nt), be); });
  group("container", 150, 3000, [](Rng& r, int64_t) {
    int n = r.pick({0, 1, 2, (int)r.below(20), (int)r.below(500)}), nt = threads(r), be = backends[r.below(backends.size())], kind = r.below(4); Sweep s(r); std::set<long long> want; std::string d = strf("container kind %d n=%d nthreads=%d backend=%d", kind, n, nt, be); note(d);
    if (kind == 0) { std::map<int, int> m; for (int k = 0; k < n; k++) { int key = (int)r.below(1 << 20); m[key] = k; } for (auto& x : m) want.insert(x.first); Obj::parallel_for_container(m, [&](std::map<int, int>::iterator it) { s.visit(it->first); }, be, nt, r.coin()); }
    else if (kind == 1) { std::set<int> m; for (int k = 0; k < n; k++) m.insert((int)r.below(1 << 20)); for (auto& x : m) want.insert(x); Obj::parallel_for_container(m, [&](std::set<int>::iterator it) { s.visit(*it); }, be, nt, r.coin()); }
    else if (kind == 2) { std::vector<int> m; for (int k = 0; k < n; k++) m.push_back(k * 3); for (auto& x : m) want.insert(x); Obj::parallel_for_container(m, [&](std::vector<int>::iterator it) { s.visit(*it); }, be, nt, r.coin()); }
    else { std::set<int> m; for (int k = 0; k < n; k++) m.insert((int)r.below(1 << 20)); for (auto& x : m) want.insert(x); Obj::parallel_for<int, std::set<int>>(m, [&](const int& x) { s.visit(x); }, be, nt, r.coin()); }
    s.done("container", d, want); return hcomb(hcomb(n, nt), kind * 16 + be); });
  group("regular", 60, 800, [](Rng& r, int64_t) {
    int nd = 2 + r.below(2); static std::map<int, std::shared_ptr<ftk::simplicial_regular_mesh>> cache; auto& p = cache[nd]; if (!p) p = std::make_shared<ftk::simplicial_regular_mesh>(nd); auto& m = *p;
    std::vector<int> lb(nd), ub(nd); for (int k = 0; k < nd; k++) { lb[k] = r.range(0, 5); ub[k] = lb[k] + 1 + (int)r.below(4); } m.set_lb_ub(lb, ub);
    int nt = threads(r), d = r.below(nd + 1), be = backends[r.below(backends.size())]; std::string D = strf("regular mesh nd=%d dim=%d nthreads=%d backend=%d", nd, d, nt, be); note(D);
    std::set<long long> want; long long pts = 1; for (int k = 0; k < nd; k++) pts *= ub[k] - lb[k] + 1; // every (corner,type) pair
    auto key = [&](const ftk::simplicial_regular_mesh_element& e) { long long c = 0; for (int k = nd - 1; k >= 0; k--) c = c * 64 + e.corner[k]; return c * 64 + e.type; };
    std::vector<int> c = lb; while (1) { for (int t = 0; t < m.ntypes(d); t++) want.insert(key(ftk::simplicial_regular_mesh_element(c, d, t))); int k = 0; while (k < nd && ++c[k] > ub[k]) { c[k] = lb[k]; k++; } if (k == nd) break; }
    { Sweep s(r); m.element_for(d, [&](ftk::simplicial_regular_mesh_element e) { s.visit(key(e)); }, be, nt, r.coin()); s.done("regular:all", D, want); }
    { Sweep s(r); for (int t = lb[nd - 1]; t <= ub[nd - 1]; t++) { m.element_for_ordinal(d, t, [&](ftk::simplicial_regular_mesh_element e) { s.visit(key(e)); }, be, nt, r.coin()); if (s.running) viol("regular:steps:unfinished", D); m.element_for_interval(d, t, t + 1, [&](ftk::simplicial_regular_mesh_element e) { s.visit(key(e)); }, be, nt, r.coin()); if (s.running) viol("regular:steps:unfinished", D); } s.done("regular:steps", D, want); }
    return hcomb(hcomb(pts, nt), hcomb(d, be)); });
  group("extruded2", 40, 800, [](Rng& r, int64_t) {
    UMesh u = gen_mesh2(r); auto b = std::make_shared<ftk::simplicial_unstructured_2d_mesh<>>(u.x, u.cells); ftk::simplicial_unstructured_extruded_2d_mesh_implicit<> m(b);
    int nt = threads(r), d = r.below(4), be = backends[r.below(backends.size())], T = 1 + r.below(4), t0 = r.below(3); std::string D = strf("extruded 2D mesh dim=%d nthreads=%d backend=%d steps=%d", d, nt, be, T); note(D);
    { Sweep s(r); m.element_for(d, [&](int e) { s.visit(e); }, be, nt, r.coin()); s.done("ext2:all", D, upto(m.n(d))); }
    { Sweep s(r); std::set<long long> want; for (long long k = t0 * (long long)m.n(d); k < (t0 + T) * (long long)m.n(d); k++) want.insert(k);
      for (int t = t0; t < t0 + T; t++) { if (d < 3) m.element_for_ordinal(d, t, [&](int e) { s.visit(e); }, false, be, nt, r.coin()); m.element_for_interval(d, t, [&](int e) { s.visit(e); }, false, be, nt, r.coin()); if (s.running) viol("ext2:steps:unfinished", D); } s.done("ext2:steps", D, want); }
    return hcomb(hcomb(u.cells.size() * 100 + u.nv, nt), hcomb(d, be * 10 + T)); });
  group("extruded3", 30, 500, [](Rng& r, int64_t) {
    UMesh u = gen_mesh3(r); auto b = std::make_shared<ftk::simplicial_unstructured_3d_mesh<>>(u.x, u.cells); ftk::simplicial_unstructured_extruded_3d_mesh<> m(b);
    int nt = threads(r), d = r.below(5), be = backends[r.below(backends.size())], T = 1 + r.below(3), t0 = r.below(3); std::string D = strf("extruded 3D mesh dim=%d nthreads=%d backend=%d steps=%d", d, nt, be, T); note(D);
    { Sweep s(r); m.element_for(d, [&](int e) { s.visit(e); }, be, nt, r.coin()); s.done("ext3:all", D, upto(m.n(d))); }
    if (d < 4) { Sweep s(r); std::set<long long> want; for (long long k = t0 * (long long)m.n(d); k < (t0 + T) * (long long)m.n(d); k++) want.insert(k);
      for (int t = t0; t < t0 + T; t++) { m.element_for_ordinal(d, t, [&](int e) { s.visit(e); }, be, nt, r.coin()); m.element_for_interval(d, t, [&](int e) { s.visit(e); }, be, nt, r.coin()); if (s.running) viol("ext3:steps:unfinished", D); } s.done("ext3:steps", D, want); }
    return hcomb(hcomb(u.cells.size() * 100 + u.nv, nt), hcomb(d, be * 10 + T)); });
})
