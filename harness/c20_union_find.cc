#include "vh.hh"
#include <ftk/config.hh>
#include <ftk/basic/simple_union_find.hh>
#include <ftk/basic/union_find.hh>
#include <ftk/basic/duf.hh>
#include <thread>
using namespace vh;
// model: partition by brute-force relabelling
struct Part { std::vector<int> c; Part(int n) : c(n) { std::iota(c.begin(), c.end(), 0); } void unite(int a, int b) { int x = c[a], y = c[b]; if (x != y) for (int& v : c) if (v == y) v = x; } bool same(int a, int b) const { return c[a] == c[b]; } };
typedef std::vector<std::pair<int, int>> Pairs;
static Pairs gpairs(Rng& r, int n, int m) { Pairs p; int mode = r.below(6); for (int k = 0; k < m; k++) { int a, b; switch (mode) { case 0: a = r.below(n); b = r.below(n); break; case 1: a = k % n; b = (k + 1) % n; break; case 2: a = r.below(n); b = a; break; case 3: a = r.below(std::max(1, n / 3)); b = n - 1 - r.below(std::max(1, n / 3)); break; case 4: a = 0; b = r.below(n); break; default: a = n - 1 - k % n; b = std::max(0, a - 1 - (int)r.below(3)); } if (r.coin()) std::swap(a, b); p.push_back({a, b}); } if (r.coin(.3)) r.shuffle(p); return p; }
static uint64_t hp(int n, const Pairs& p) { uint64_t h = n; for (auto& q : p) h = hcomb(h, q.first * 1000 + q.second); return h; }
static std::string ps(int n, const Pairs& p) { std::string s = strf("n %d pairs ", n); for (size_t i = 0; i < p.size() && i < 30; i++) s += strf("(%d,%d)", p[i].first, p[i].second); return s; }
template <class Same> void compare(const Part& P, int n, Same same, const char* key, const std::string& D) { for (int a = 0; a < n; a++) for (int b = a; b < n; b++) if (same(a, b) != P.same(a, b)) { viol(key, strf("%s: elements %d and %d %s", D.c_str(), a, b, P.same(a, b) ? "are connected but reported apart" : "are reported together but not connected")); return; } count("pairs_compared", (uint64_t)n * (n + 1) / 2); }
static uint64_t seq_case(Rng& r, int64_t) {
  int n = 1 + r.below(30), m = r.below(2 * n + 2); Pairs p = gpairs(r, n, m); std::string D = ps(n, p); note(D); Part P(n);
  ftk::simple_union_find<> s(n); ftk::simple_union_find<int> s2(n); ftk::union_find<int> u; ftk::union_find<std::string> us; ftk::duf<int> d;
  auto nm = [](int i) { return "e" + std::to_string(i); };
  std::vector<int> ord(n); std::iota(ord.begin(), ord.end(), 0); r.shuffle(ord); for (int i : ord) { u.add(i); us.add(nm(i)); if (r.coin(.2)) u.add(i); if (r.coin(.5)) d.find(i); }
  for (auto& q : p) {
    s.unite(q.first, q.second); s2.unite(q.first, q.second); u.unite(q.first, q.second); us.unite(nm(q.first), nm(q.second)); d.unite(q.first, q.second); P.unite(q.first, q.second);
    if (r.coin(.2)) { int a = r.below(n), b = r.below(n); if (s.same_set(a, b) != P.same(a, b) || u.same_set(a, b) != P.same(a, b) || (d.find(a) == d.find(b)) != P.same(a, b)) viol("unionfind:midway", D); }
    if (r.coin(.03)) { s.reset(); s2.reset(); for (int a = 0; a < n; a++) if ((int)s.find(a) != a) viol("unionfind:reset", D); Part Q(n); Pairs done(p.begin(), p.begin() + (&q - &p[0]) + 1); for (auto& x : done) { s.unite(x.first, x.second); s2.unite(x.first, x.second); } }
  }
  compare(P, n, [&](int a, int b) { return s.same_set(a, b); }, "unionfind:simple", D); compare(P, n, [&](int a, int b) { return s2.find(a) == s2.find(b); }, "unionfind:simple-int", D);
  compare(P, n, [&](int a, int b) { return u.same_set(a, b); }, "unionfind:sparse", D); compare(P, n, [&](int a, int b) { return us.find(nm(a)) == us.find(nm(b)); }, "unionfind:string", D); compare(P, n, [&](int a, int b) { return d.find(a) == d.find(b); }, "unionfind:concurrent", D);
  std::map<int, std::set<int>> want; for (int i = 0; i < n; i++) want[P.c[i]].insert(i); std::set<std::set<int>> W, G; for (auto& kv : want) W.insert(kv.second); auto sets = u.get_sets(); for (auto& x : sets) G.insert(x); if (W != G || sets.size() != W.size()) viol("unionfind:sets", D);
  if (us.get_sets().size() != W.size()) viol("unionfind:sets", D + " (strings)");
  for (int i = 0; i < n; i++) { if (!u.has(i) || u.has(n + i) || !d.has(i)) viol("unionfind:has", D); int f = u.find(i); if (!u.is_root(f) || u.parent(f) != f || !P.same(f, i) || (u.is_root(i) != (f == i))) viol("unionfind:root", D); }
  auto roots = d.get_roots(); if (roots.size() != W.size()) viol("unionfind:roots", strf("%s: %zu roots, %zu sets", D.c_str(), roots.size(), W.size())); for (int x : roots) { if (d.find(x) != x) viol("unionfind:roots", D); for (int i = 0; i < n; i++) if (P.same(i, x) && d.find(i) != x) viol("unionfind:roots", D); if (*want[P.c[x]].begin() != x) viol("unionfind:roots", D + " root is not the smallest element"); }
  if (d.size() != (size_t)n || d.has(n)) viol("unionfind:size", D);
  return hp(n, p);
}
static uint64_t conc_case(Rng& r, int64_t) {
  int n = 4 + r.below(40), m = n + r.below(3 * n), nt = 2 + r.below(7); Pairs p = gpairs(r, n, m); std::string D = strf("%d threads ", nt) + ps(n, p); note(D); Part P(n); for (auto& q : p) P.unite(q.first, q.second);
  ftk::duf<int> d; bool pre = r.coin(); if (pre) for (int i = 0; i < n; i++) d.find(i); uint64_t seed = r.u64(); std::atomic<int> go{0}; std::vector<std::thread> th; std::mutex om; std::set<int> touched; if (pre) for (int i = 0; i < n; i++) touched.insert(i); for (auto& q : p) { touched.insert(q.first); touched.insert(q.second); }
  for (int t = 0; t < nt; t++) th.emplace_back([&, t] { Rng q(seed + t); go++; while (go < nt) std::this_thread::yield(); int bad = 0;
    for (size_t k = t; k < p.size(); k += nt) { d.unite(p[k].first, p[k].second); if (q.coin(.3)) { int a = q.below(n); if (touched.count(a) && !P.same(d.find(a), a)) bad++; if (d.find(p[k].first) != d.find(p[k].second)) { /* roots may move between the two calls */ int tries = 0; while (d.find(p[k].first) != d.find(p[k].second) && tries++ < 1000) std::this_thread::yield(); if (tries > 1000) bad++; } } if (q.coin(.1)) d.has(q.below(n)); if (q.coin(.2)) std::this_thread::yield(); }
    if (bad) viol("unionfind:concurrent-find", D); });
  for (auto& t : th) t.join();
  std::vector<int> el(touched.begin(), touched.end()); std::map<int, int> root; std::map<int, std::set<int>> bymodel; uint64_t h = n; for (int a : el) { root[a] = d.find(a); h = hcomb(h, root[a]); bymodel[P.c[a]].insert(root[a]); }
  for (auto& kv : bymodel) if (kv.second.size() != 1) { viol("unionfind:lost", strf("%s: %zu representatives in one connected set", D.c_str(), kv.second.size())); break; }
  std::set<int> rs; for (auto& kv : root) { rs.insert(kv.second); if (!P.same(kv.first, kv.second)) viol("unionfind:concurrent-extra", D); } if (rs.size() != bymodel.size()) viol("unionfind:concurrent-extra", D);
  if (d.get_roots().size() != bymodel.size()) viol("unionfind:concurrent-roots", D); if (d.size() != el.size()) viol("unionfind:concurrent-size", D);
  seen_state(h); count("concurrent_unions", p.size()); return hp(n, p);
}
VH_MAIN({ group("sequential", 2500, 60000, seq_case); group("concurrent", 1500, 30000, conc_case); })
