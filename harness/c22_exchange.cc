// C22: collective exchanges and serialization deliver every item unchanged to exactly the processes it is addressed to.
// Every process knows the contributions of all processes, so that it can judge what it receives.
#include "vh.hh"
#include <ftk/ndarray.hh>
#include <ftk/features/feature_point.hh>
#include <ftk/features/feature_curve.hh>
#include <ftk/mesh/simplicial_regular_mesh.hh>
#include <ftk/utils/gather.hh>
#include <ftk/utils/all2all.hh>
#include <ftk/utils/redistribution.hh>
#include <ftk/utils/scatter.hh>
#include <ftk/utils/bcast.hh>
#include <ftk/utils/serialization.hh>
#include <thread>
using namespace vh;
#if FTK_HAVE_MPI
static int np() { int n; MPI_Comm_size(MPI_COMM_WORLD, &n); return n; }
static int rank() { int n; MPI_Comm_rank(MPI_COMM_WORLD, &n); return n; }
static diy::mpi::communicator comm() { return diy::mpi::communicator(MPI_COMM_WORLD); }
static bool agree(bool b) { int x = b, y; MPI_Allreduce(&x, &y, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD); return y; }
#else
static int np() { return 1; }
static int rank() { return 0; }
static diy::mpi::communicator comm() { return diy::mpi::communicator(); }
static bool agree(bool b) { return b; }
#endif
static void jitter(Rng& r) { for (int k = 0; k < np(); k++) { int us = r.coin(0.2) ? r.below(2000) : 0; if (k == rank() && us) std::this_thread::sleep_for(std::chrono::microseconds(us)); } }

// random values
template <class T> struct G;
template <> struct G<int> { static int g(Rng& r) { return r.coin(0.1) ? (r.coin() ? INT_MIN : INT_MAX) : (int)r.below(60) - 20; } };
template <> struct G<double> { static double g(Rng& r) { return r.coin(0.05) ? (r.coin() ? INFINITY : -0.0) : r.real(-1e6, 1e6); } };
template <> struct G<size_t> { static size_t g(Rng& r) { return r.coin(0.1) ? SIZE_MAX : r.below(50); } };
template <> struct G<std::string> { static std::string g(Rng& r) { std::string s; int n = r.pick({0, 1, 3, 10, 40}); for (int i = 0; i < n; i++) s += (char)r.below(256); return s; } };
template <class A, class B> struct G<std::pair<A, B>> { static std::pair<A, B> g(Rng& r) { A a = G<A>::g(r); return {a, G<B>::g(r)}; } };
static int amount(Rng& r) { return r.pick({0, 0, 1, 2, 3, 8, 30}); }
template <class A> struct G<std::vector<A>> { static std::vector<A> g(Rng& r) { std::vector<A> v; int n = amount(r); for (int i = 0; i < n; i++) v.push_back(G<A>::g(r)); return v; } };
template <class A> struct G<std::set<A>> { static std::set<A> g(Rng& r) { std::set<A> v; int n = amount(r); for (int i = 0; i < n; i++) v.insert(G<A>::g(r)); return v; } };
template <class A, class B> struct G<std::map<A, B>> { static std::map<A, B> g(Rng& r) { std::map<A, B> v; int n = amount(r); for (int i = 0; i < n; i++) v[G<A>::g(r)] = G<B>::g(r); return v; } };
template <class A, class B> struct G<std::unordered_map<A, B>> { static std::unordered_map<A, B> g(Rng& r) { std::unordered_map<A, B> v; int n = amount(r); for (int i = 0; i < n; i++) v[G<A>::g(r)] = G<B>::g(r); return v; } };
template <> struct G<std::tuple<int, std::string, double>> { static std::tuple<int, std::string, double> g(Rng& r) { int i = G<int>::g(r); std::string s = G<std::string>::g(r); return std::make_tuple(i, s, r.real(-1, 1)); } };
typedef ftk::simplicial_regular_mesh_element element_t;
typedef ftk::feature_point_t point_t;
namespace ftk {
static bool operator==(const feature_point_t& a, const feature_point_t& b) { return a.x == b.x && a.t == b.t && a.timestep == b.timestep && a.scalar == b.scalar && a.v == b.v && a.type == b.type && a.ordinal == b.ordinal && a.tag == b.tag && a.id == b.id; }
template <class T> bool operator==(const ndarray<T>& a, const ndarray<T>& b) { if (a.shape() != b.shape() || a.multicomponents() != b.multicomponents() || a.has_time() != b.has_time()) return false; for (size_t i = 0; i < a.nelem(); i++) if (a[i] != b[i]) return false; return true; }
static bool operator==(const feature_curve_t& a, const feature_curve_t& b) { if (a.size() != b.size() || a.loop != b.loop || a.complete != b.complete || a.id != b.id || a.consistent_type != b.consistent_type || a.bbmin != b.bbmin || a.bbmax != b.bbmax || a.tmin != b.tmin || a.tmax != b.tmax || a.max != b.max || a.min != b.min || a.persistence != b.persistence || a.vmmin != b.vmmin || a.vmmax != b.vmmax) return false; for (size_t i = 0; i < a.size(); i++) if (!(a[i] == b[i])) return false; return true; }
}
template <> struct G<point_t> { static point_t g(Rng& r) { point_t p; for (auto& x : p.x) x = G<double>::g(r); p.t = r.real(0, 100); p.timestep = r.below(100); for (auto& x : p.scalar) x = G<double>::g(r); for (auto& x : p.v) x = G<double>::g(r); p.type = r.below(16); p.ordinal = r.coin(); p.tag = G<size_t>::g(r); p.id = G<size_t>::g(r); return p; } };
template <> struct G<ftk::feature_curve_t> { static ftk::feature_curve_t g(Rng& r) { ftk::feature_curve_t c; int n = amount(r); for (int i = 0; i < n; i++) { auto p = G<point_t>::g(r); c.push_back(p); } c.loop = r.coin(); c.complete = r.coin(); c.id = r.below(1000); c.consistent_type = r.below(8); c.tmin = r.real(0, 1); c.tmax = r.real(1, 9); for (auto& x : c.bbmin) x = r.real(-1, 1); for (auto& x : c.bbmax) x = r.real(-1, 1); for (auto& x : c.max) x = r.real(-1, 1); for (auto& x : c.min) x = r.real(-1, 1); for (auto& x : c.persistence) x = r.real(-1, 1); c.vmmin = r.real(0, 1); c.vmmax = r.real(0, 9); return c; } };
template <class T> struct G<ftk::ndarray<T>> { static ftk::ndarray<T> g(Rng& r) { ftk::ndarray<T> a; int nd = r.range(0, 4); if (nd) { std::vector<size_t> d; for (int i = 0; i < nd; i++) d.push_back(r.range(1, 5)); a.reshape(d); for (size_t i = 0; i < a.nelem(); i++) a[i] = G<T>::g(r); a.set_multicomponents(r.below(nd)); a.set_has_time(r.coin()); } return a; } };
template <> struct G<element_t> { static element_t g(Rng& r) { element_t e; e.dim = 2; e.corner = {(int)r.below(9) - 2, (int)r.below(9), (int)r.below(4)}; e.type = r.below(12); return e; } };

// contributions of all processes: all similar, all empty, one process has everything, ...
template <class M> std::vector<M> contributions(Rng& r, std::string& mode) { int k = r.below(5); int who = r.below(np()); std::vector<M> v(np()); for (int i = 0; i < np(); i++) { M m = G<M>::g(r); if (k == 0 && i != who) m = M(); if (k == 1 && i == who) m = M(); if (k == 2 && r.coin()) m = M(); if (k == 3) m = r.coin(0.1) ? m : M(); v[i] = m; } mode = strf("mode %d/%d", k, who); return v; }
template <class M> size_t size(const std::vector<M>& v) { size_t n = 0; for (auto& x : v) n += x.size(); return n; }

// gathering of maps and sets: the root keeps its own entry for keys it has; for other keys the entry of one of the contributors
template <class M> bool subset(const M& got, const std::vector<M>& in, const M& first, bool hasFirst, std::string& why) {
  size_t keys = 0; std::set<typename M::key_type> all; for (auto& m : in) for (auto& kv : m) { if constexpr (std::is_same<typename M::key_type, typename M::value_type>::value) all.insert(kv); else all.insert(kv.first); } keys = all.size();
  if (got.size() != keys) { why = strf("%zu entries instead of %zu", got.size(), keys); return false; }
  for (auto& kv : got) { bool ok = false; for (auto& m : in) { if constexpr (std::is_same<typename M::key_type, typename M::value_type>::value) ok = ok || m.count(kv); else { auto it = m.find(kv.first); ok = ok || (it != m.end() && it->second == kv.second); } } if (!ok) { why = "an entry nobody contributed"; return false; } }
  if (hasFirst) for (auto& kv : first) { if constexpr (std::is_same<typename M::key_type, typename M::value_type>::value) { if (!got.count(kv)) { why = "own entry lost"; return false; } } else { auto it = got.find(kv.first); if (it == got.end() || !(it->second == kv.second)) { why = "own entry replaced"; return false; } } }
  return true; }
template <class M> void gathers(Rng& r, const char* tn) {
  std::string mode; auto in = contributions<M>(r, mode); int root = r.below(np()); std::string ctx = strf("%s np %d root %d %s, %zu items", tn, np(), root, mode.c_str(), size(in)); note(ctx); if (!rank()) sample("gather", ctx); const M mine = in[rank()];
  { bool alias = r.coin(); M a = mine, o, junk = G<M>::g(r); if (r.coin()) o = junk; jitter(r); const M o0 = alias ? a : o; if (alias) diy::mpi::gather<M>(comm(), a, a, root); else { diy::mpi::gather<M>(comm(), a, o, root); if (!(a == mine)) viol("gather-input-changed", ctx); } M& got = alias ? a : o; std::string why; if (rank() == root) { if (!subset<M>(got, in, mine, true, why)) viol("gather", ctx + strf(" rank %d: ", rank()) + why); count("gather"); } else if (!(got == o0)) viol("gather-elsewhere", ctx + strf(" rank %d: the output changes on a process which is not the root", rank())); count("gathered_items", got.size()); }
  { M a = mine, o; jitter(r); bool alias = r.coin(); if (alias) diy::mpi::allgather<M>(comm(), a, a); else diy::mpi::allgather<M>(comm(), a, o); M& got = alias ? a : o; std::string why; if (!subset<M>(got, in, mine, alias, why)) viol("allgather", ctx + strf(" rank %d: ", rank()) + why); count("allgather"); }
  if (size(in) && np() > 1) count("nonempty"); if (!size(in)) count("all_empty"); seen_state(mix(std::hash<std::string>()(ctx)) ^ r.s); }
// gathering of lists with a merger: all items of all processes, each once
template <class T> void lists(Rng& r, const char* tn) {
  typedef std::vector<T> V; std::string mode; auto in = contributions<V>(r, mode); int root = r.below(np()); std::string ctx = strf("list of %s np %d root %d %s, %zu items", tn, np(), root, mode.c_str(), size(in)); note(ctx);
  auto merge = [](const V& a, V& b) { b.insert(b.end(), a.begin(), a.end()); }; auto same = [&](const V& got) { if (got.size() != size(in)) return false; std::vector<char> used(got.size(), 0); for (auto& v : in) for (auto& x : v) { bool f = false; for (size_t i = 0; i < got.size() && !f; i++) if (!used[i] && got[i] == x) used[i] = 1, f = true; if (!f) return false; } return true; };
  V a = in[rank()], o; jitter(r); diy::mpi::gather<V>(comm(), a, o, root, merge); if (rank() == root && !same(o)) viol("gather-lists", ctx + strf(": %zu items", o.size()));
#if FTK_HAVE_MPI
  V p; jitter(r); diy::mpi::allgather<V>(comm(), in[rank()], p, merge); if (!same(p)) viol("allgather-lists", ctx + strf(" rank %d: %zu items", rank(), p.size()));
#endif
  count("lists"); }
static uint64_t g_gather(Rng& r, int64_t i) { uint64_t h = r.s; switch (i % 9) {
  case 0: gathers<std::map<int, double>>(r, "map<int,double>"); break; case 1: gathers<std::set<int>>(r, "set<int>"); break; case 2: gathers<std::map<std::string, std::vector<int>>>(r, "map<string,vector>"); break; case 3: gathers<std::map<element_t, point_t>>(r, "map<element,point>"); break; case 4: gathers<std::set<element_t>>(r, "set<element>"); break; case 5: gathers<std::unordered_map<int, std::string>>(r, "unordered_map"); break;
  case 6: lists<point_t>(r, "points"); break; case 7: lists<ftk::feature_curve_t>(r, "curves"); break; default: lists<std::pair<int, std::string>>(r, "pairs"); } return h; }

// point-to-point
template <class M> void a2a(Rng& r, const char* tn) {
  std::vector<std::vector<M>> in(np()); std::string mode; for (auto& v : in) v = contributions<M>(r, mode); std::string ctx = strf("all-to-all %s np %d", tn, np()); note(ctx); M o; if (r.coin(0.2)) o = G<M>::g(r); jitter(r); auto mine = in[rank()]; diy::mpi::all2all(comm(), mine, o); std::vector<M> to; for (auto& v : in) to.push_back(v[rank()]); std::string why; if (!subset<M>(o, to, in[rank()][rank()], true, why)) viol("all2all", ctx + strf(" rank %d: ", rank()) + why); count("all2all"); count("all2all_items", o.size()); }
template <class K, class V> void redist(Rng& r, const char* tn) {
  typedef std::map<K, std::map<K, V>> M; std::string mode; auto in = contributions<M>(r, mode); std::string ctx = strf("redistribute %s np %d %s", tn, np(), mode.c_str()); note(ctx); M o; jitter(r); diy::mpi::redistribute(comm(), in[rank()], o);
  // every root key is owned by one process, which has all its items
  std::map<K, std::map<K, std::vector<V>>> e; for (auto& m : in) for (auto& kv : m) { auto& x = e[kv.first]; for (auto& q : kv.second) x[q.first].push_back(q.second); }
  for (auto& kv : o) { auto it = e.find(kv.first); if (it == e.end()) { viol("redistribute-unknown", ctx); continue; } if (kv.second.size() != it->second.size()) viol("redistribute-items", ctx + strf(" rank %d: %zu items under a key instead of %zu", rank(), kv.second.size(), it->second.size())); for (auto& q : kv.second) { auto f = it->second.find(q.first); if (f == it->second.end() || std::find(f->second.begin(), f->second.end(), q.second) == f->second.end()) viol("redistribute-data", ctx + strf(" rank %d", rank())); } count("redistributed", kv.second.size()); }
#if FTK_HAVE_MPI
  std::vector<K> ks; for (auto& kv : e) ks.push_back(kv.first); std::vector<int> own(ks.size() + 1, 0), tot(ks.size() + 1, 0); for (size_t i = 0; i < ks.size(); i++) own[i] = o.count(ks[i]); MPI_Allreduce(own.data(), tot.data(), own.size(), MPI_INT, MPI_SUM, MPI_COMM_WORLD); for (size_t i = 0; i < ks.size(); i++) if (tot[i] != 1) { viol("redistribute-owners", ctx + strf(": a key is on %d processes", tot[i])); break; }
#else
  if (o.size() != e.size()) viol("redistribute-owners", ctx);
#endif
  count("redistribute"); }
template <class T> void scat(Rng& r, const char* tn) { std::string ctx = strf("scatter %s np %d", tn, np()); std::vector<T> all; for (int i = 0; i < np(); i++) all.push_back(G<T>::g(r)); int root = r.below(np()); note(ctx); std::vector<T> in = all; if (rank() != root && r.coin()) in.assign(np(), T()); T o = T(); if (r.coin()) o = G<T>::g(r); jitter(r); diy::mpi::scatterv(comm(), in, o, root); if (!(o == all[rank()])) viol("scatter", ctx + strf(" rank %d root %d: different item", rank(), root)); count("scatter"); }
template <class T> void bc(Rng& r, const char* tn) { std::string ctx = strf("broadcast %s np %d", tn, np()); T v = G<T>::g(r), w = G<T>::g(r); bool pre = r.coin(); int root = r.below(np()); note(ctx); T x = rank() == root ? v : pre ? w : T(); jitter(r); diy::mpi::bcastv(comm(), x, root); if (!(x == v)) viol("broadcast", ctx + strf(" rank %d root %d%s: different item", rank(), root, pre ? " (not empty before)" : "")); count("broadcast"); }
using nlohmann::json;
static json rj(Rng& r, int depth) { switch (depth > 3 ? r.below(6) : r.below(8)) { case 0: return nullptr; case 1: return r.coin(); case 2: return (int64_t)(r.coin() ? (int64_t)r.below(1000) - 500 : r.coin() ? INT64_MAX : INT64_MIN); case 3: return r.real(-1e9, 1e9); case 4: return strf("v%d\"\\\n\xc3\xa9", (int)r.below(100)); case 5: return std::string(r.below(3) * 200, 'x'); case 6: { json a = json::array(); int n = r.below(5); for (int i = 0; i < n; i++) a.push_back(rj(r, depth + 1)); return a; } default: { json o = json::object(); int n = r.below(5); for (int i = 0; i < n; i++) o[strf("k%d", (int)r.below(20))] = rj(r, depth + 1); return o; } } }
static void bj(Rng& r) { json v = json::object(), w = json::object(); int n = r.below(8); for (int i = 0; i < n; i++) v[strf("key%d", i)] = rj(r, 0); if (r.coin()) w["other"] = 1; int root = r.below(np()); json x = rank() == root ? v : w; std::string ctx = strf("broadcast json np %d root %d", np(), root); note(ctx); jitter(r); diy::mpi::bcastj(comm(), x, root); if (x != v) viol("broadcast-json", ctx + strf(" rank %d: %s instead of %s", rank(), x.dump().substr(0, 200).c_str(), v.dump().substr(0, 200).c_str())); count("json"); }
static uint64_t g_exchange(Rng& r, int64_t i) { uint64_t h = r.s; switch (i % 18) {
  case 0: a2a<std::map<int, double>>(r, "map<int,double>"); break; case 1: a2a<std::set<int>>(r, "set<int>"); break; case 2: a2a<std::map<std::string, std::vector<int>>>(r, "map<string,vector>"); break; case 3: a2a<std::map<element_t, point_t>>(r, "map<element,point>"); break;
  case 4: redist<int, double>(r, "int"); break; case 5: redist<std::string, std::vector<int>>(r, "string"); break; case 6: redist<element_t, point_t>(r, "element"); break; case 7: redist<size_t, int>(r, "size_t"); break;
  case 8: scat<std::vector<double>>(r, "vector"); break; case 9: scat<std::map<int, std::string>>(r, "map"); break; case 10: scat<ftk::ndarray<double>>(r, "array"); break; case 11: scat<std::set<int>>(r, "set"); break;
  case 12: bc<std::vector<int>>(r, "vector"); break; case 13: bc<ftk::ndarray<double>>(r, "array"); break; case 14: bc<std::map<int, std::string>>(r, "map"); break; case 15: bc<std::set<size_t>>(r, "set"); break; case 16: bc<std::vector<ftk::feature_curve_t>>(r, "curves"); break;
  default: bj(r); } return h; }
// contributions which exceed small-message limits
static uint64_t g_large(Rng& r, int64_t i) { uint64_t h = r.s; std::vector<std::map<int, std::vector<double>>> in(np()); int big = r.below(np()); for (int k = 0; k < np(); k++) { int n = k == big ? 3000 : r.below(300); for (int q = 0; q < n; q++) in[k][q * np() + k] = std::vector<double>(r.below(60), k + 0.5); } int root = r.below(np()); auto mine = in[rank()]; decltype(mine) o, p; std::string ctx = strf("large np %d", np()); note(ctx); jitter(r); diy::mpi::gather(comm(), mine, o, root); diy::mpi::allgather(comm(), mine, p); std::string why; if (rank() == root && !subset(o, in, mine, true, why)) viol("gather", ctx + ": " + why); if (!subset(p, in, mine, true, why)) viol("allgather", ctx + ": " + why); count("large"); (void)i; return h; }

// serialization in memory and in files; also as several objects in one buffer
template <class T> void ser(Rng& r, const char* tn) {
  T a = G<T>::g(r), b = G<T>::g(r), c, d = G<T>::g(r); std::string buf = "junk", ctx = std::string("serialization of ") + tn; note(ctx); diy::serializeToString(a, buf); diy::unserializeFromString(buf, c); if (!(a == c)) viol("serialize-string", ctx); (void)d;
  std::string s2; diy::StringBuffer sb(s2); diy::save(sb, a); diy::save(sb, b); diy::StringBuffer rb(s2); T x, y; diy::load(rb, x); bool more = rb; diy::load(rb, y); bool end = !rb; if (!(x == a) || !(y == b) || !more || !end) viol("serialize-sequence", ctx);
  std::string f = opt().dir + strf("/s%d.bin", rank()); diy::serializeToFile(a, f); T z; bool ok = diy::unserializeFromFile(f, z); if (!ok || !(z == a)) viol("serialize-file", ctx); diy::serializeToFile(a, b, f); T z1, z2; ok = diy::unserializeFromFile(f, z1, z2); if (!ok || !(z1 == a) || !(z2 == b)) viol("serialize-file-pair", ctx); T q; if (diy::unserializeFromFile(opt().dir + "/does-not-exist", q)) viol("serialize-missing-file", ctx); count("serialized"); }
static uint64_t g_serialize(Rng& r, int64_t i) { uint64_t h = r.s; switch (i % 14) { case 0: ser<std::map<int, double>>(r, "map"); break; case 1: ser<std::set<std::string>>(r, "set of strings"); break; case 2: ser<std::vector<std::string>>(r, "vector of strings"); break; case 3: ser<std::tuple<int, std::string, double>>(r, "tuple"); break; case 4: ser<std::unordered_map<int, std::string>>(r, "unordered_map"); break; case 5: ser<ftk::ndarray<double>>(r, "double array"); break; case 6: ser<ftk::ndarray<int>>(r, "int array"); break; case 7: ser<point_t>(r, "point"); break; case 8: ser<ftk::feature_curve_t>(r, "curve"); break; case 9: ser<std::vector<ftk::feature_curve_t>>(r, "curves"); break; case 10: ser<std::map<element_t, point_t>>(r, "elements"); break; case 11: ser<std::vector<std::vector<std::set<int>>>>(r, "nested"); break; case 12: ser<std::pair<std::string, std::vector<int>>>(r, "pair"); break; default: ser<std::string>(r, "string"); } return h; }
#if FTK_HAVE_MPI
int main(int argc, char** argv) { int p; MPI_Init_thread(0, 0, MPI_THREAD_MULTIPLE, &p); vh::init(argc, argv); group("gather", 270, 4000, g_gather); group("exchange", 540, 8000, g_exchange); group("large", 10, 100, g_large); if (np() == 1) group("serialize", 700, 10000, g_serialize); int rc = vh::finish(); MPI_Barrier(MPI_COMM_WORLD); MPI_Finalize(); return rc; }
#else
VH_MAIN({ group("gather", 270, 4000, g_gather); group("exchange", 540, 8000, g_exchange); group("large", 10, 100, g_large); group("serialize", 700, 10000, g_serialize); })
#endif
