#include "vh.hh"
#include <ftk/config.hh>
#include <ftk/mesh/lattice.hh>
#include <ftk/mesh/lattice_partitioner.hh>
using namespace vh;
typedef std::vector<size_t> V;
static std::string str(const V& v) { std::string s = "("; for (auto x : v) s += std::to_string(x) + ","; return s + ")"; }
static uint64_t hv(const V& v) { uint64_t h = 3; for (auto x : v) h = hcomb(h, x); return h; }
static bool cuttable(size_t np, V sizes, size_t d = 0) { if (np == 1) return true; if (d == sizes.size()) return false; for (size_t k = 1; k <= sizes[d] && k <= np; k++) if (np % k == 0 && cuttable(np / k, sizes, d + 1)) return true; return false; }
static uint64_t part_case(Rng& r, int64_t i) {
  int nd = 1 + r.below(4); V st(nd), sz(nd); size_t cells = 1;
  for (int k = 0; k < nd; k++) { st[k] = r.coin(.4) ? 0 : r.below(20); int lim = nd == 1 ? 60 : nd == 2 ? 30 : nd == 3 ? 12 : 7; sz[k] = r.coin(.15) ? 1 : 1 + r.below(lim); cells *= sz[k]; }
  bool unlimited = nd > 1 && r.coin(.2); V full = sz; if (unlimited) { cells /= sz[nd - 1]; sz[nd - 1] = 2147483647; }
  int cd = unlimited ? nd - 1 : nd; V cut(full.begin(), full.begin() + cd);
  size_t np = r.pick({(size_t)1, (size_t)2, (size_t)3, (size_t)4, (size_t)6, (size_t)8, (size_t)12, (size_t)16, 1 + r.below(40), cells, 1 + r.below(cells)}); if (np > 400) np = 1 + r.below(100);
  bool can = cuttable(np, cut);
  V given; int gmode = r.below(4);
  if (gmode == 1) given = V(nd, 0);
  else if (gmode == 2) { given = V(nd, 0); V f(cd, 1); size_t p = 1; for (int k = 0; k < cd; k++) { f[k] = 1 + r.below(std::min<size_t>(cut[k], 5)); p *= f[k]; } for (int k = 0; k < cd; k++) given[k] = f[k]; if (unlimited) given.resize(cd); np = p; can = true; } // all dimensions given
  else if (gmode == 3 && cd > 1) { given = V(cd, 0); int k = r.below(cd); given[k] = 1 + r.below(std::min<size_t>(cut[k], 4)); V rest; for (int q = 0; q < cd; q++) if (q != k) rest.push_back(cut[q]); size_t other = 1 + r.below(6); np = given[k] * other; can = cuttable(other, rest); }
  V gl, gh; int hm = r.below(4); if (hm == 1) gl = gh = V(nd, 1); else if (hm >= 2) { gl.resize(nd); gh.resize(nd); for (int k = 0; k < nd; k++) { gl[k] = r.below(5); gh[k] = r.below(5); } }
  ftk::lattice l(st, sz); ftk::lattice_partitioner p(l);
  std::string D = strf("starts %s sizes %s np %zu given %s ghosts %s %s", str(st).c_str(), str(sz).c_str(), np, str(given).c_str(), str(gl).c_str(), str(gh).c_str()); note(D);
  if (given.empty() && gl.empty()) p.partition(np); else if (gl.empty()) p.partition(np, given); else if (gl == gh) p.partition(np, given, gl); else p.partition(np, given, gl, gh);
  if (p.np() == 0) { if (can) viol("partition:none", D + ": no parts although the domain can be cut"); count("uncuttable"); return hv(st) ^ hv(sz); }
  if (p.np() != np) viol("partition:count", strf("%s: %zu parts", D.c_str(), p.np()));
  count("partitions"); count("parts", p.np());
  // cores tile the cuttable box
  std::map<V, int> owner;
  for (size_t q = 0; q < p.np(); q++) {
    const auto& c = p.get_core(q); const auto& e = p.get_ext(q); V c0(cd), c1(cd); bool ok = c.nd() == (size_t)nd && e.nd() == (size_t)nd;
    for (int k = 0; k < cd && ok; k++) { c0[k] = c.start(k); c1[k] = c.start(k) + c.size(k); if (c.size(k) == 0 || c0[k] < st[k] || c1[k] > st[k] + sz[k]) ok = false; }
    if (!ok) { viol("partition:outside", strf("%s: part %zu is not a non-empty box of the domain", D.c_str(), q)); continue; }
    if (unlimited && (c.start(nd - 1) != st[nd - 1] || c.size(nd - 1) != sz[nd - 1] || e.start(nd - 1) != st[nd - 1] || e.size(nd - 1) != sz[nd - 1])) viol("partition:time", D);
    V x = c0; while (1) { auto it = owner.emplace(x, q); if (!it.second) { viol("partition:overlap", strf("%s: cell %s in parts %d and %zu", D.c_str(), str(x).c_str(), it.first->second, q)); break; } int k = 0; while (k < cd && ++x[k] == c1[k]) { x[k] = c0[k]; k++; } if (k == cd) break; }
    for (int k = 0; k < cd; k++) { long long g0 = gl.empty() ? 0 : gl[k], g1 = gh.empty() ? 0 : gh[k]; long long a = std::max<long long>(st[k], (long long)c0[k] - g0), b = std::min<long long>(st[k] + sz[k], (long long)c1[k] + g1); if ((long long)e.start(k) != a || (long long)(e.start(k) + e.size(k)) != b) { viol("partition:ghost", strf("%s: part %zu dim %d extent [%zu,%zu) instead of [%lld,%lld)", D.c_str(), q, k, e.start(k), e.start(k) + e.size(k), a, b)); break; } }
    size_t n = 1, pr = 1; for (int k = 0; k < nd; k++) n *= c.size(k); if (c.n() != n) viol("partition:n", D); (void)pr;
    count("extents");
  }
  size_t want = 1; for (int k = 0; k < cd; k++) want *= cut[k]; if (owner.size() != want) viol("partition:cover", strf("%s: %zu of %zu cells covered", D.c_str(), owner.size(), want));
  return hcomb(hcomb(hv(st), hv(sz)), hcomb(np, hcomb(hv(given), hcomb(hv(gl), hv(gh)))));
}
static uint64_t lattice_case(Rng& r, int64_t i) {
  int nd = 1 + r.below(4); V st(nd), sz(nd); bool big = r.coin(.3); for (int k = 0; k < nd; k++) { st[k] = r.coin(.4) ? 0 : r.below(big ? 1000000 : 50); sz[k] = 1 + r.below(big ? (nd == 4 ? 3000 : 100000) : 8); }
  int how = r.below(3); ftk::lattice l; if (how == 0) l = ftk::lattice(st, sz); else if (how == 1) { std::vector<int> a(st.begin(), st.end()), b(sz.begin(), sz.end()); l.reshape(a, b); } else { st = V(nd, 0); if (r.coin()) l = ftk::lattice(sz); else { std::vector<int> b(sz.begin(), sz.end()); l = ftk::lattice(nd, b.data()); } }
  std::string D = "lattice " + str(st) + str(sz); note(D);
  size_t n = 1; for (auto x : sz) n *= x; if (l.n() != n || l.nd() != (size_t)nd) viol("lattice:n", D);
  for (int k = 0; k < nd; k++) if (l.start(k) != st[k] || l.size(k) != sz[k] || l.lower_bound(k) != st[k] || l.upper_bound(k) != st[k] + sz[k] - 1 || l.lower_bounds()[k] != st[k] || l.upper_bounds()[k] != st[k] + sz[k] - 1) viol("lattice:bounds", D);
  auto trip = [&](size_t id, const std::vector<int>* want) { auto c = l.from_integer<uint64_t>(id); for (int k = 0; k < nd; k++) if (c[k] < (int)st[k] || c[k] >= (int)(st[k] + sz[k])) { viol("lattice:decode-outside", strf("%s id %zu", D.c_str(), id)); return; } if (want && c != *want) viol("lattice:decode", strf("%s id %zu", D.c_str(), id)); if (l.to_integer<uint64_t>(c) != id) viol("lattice:roundtrip", strf("%s id %zu comes back as %zu", D.c_str(), id, (size_t)l.to_integer<uint64_t>(c))); V cc(c.begin(), c.end()); if (!l.contains(cc)) viol("lattice:contains", D); count("roundtrips"); };
  if (!big) { std::set<size_t> seen; std::vector<int> c(st.begin(), st.end()); while (1) { size_t id = l.to_integer<uint64_t>(c); if (id >= n || !seen.insert(id).second) { viol("lattice:injective", D); break; } trip(id, &c); int k = 0; while (k < nd && ++c[k] == (int)(st[k] + sz[k])) { c[k] = st[k]; k++; } if (k == nd) break; } if (seen.size() != n) viol("lattice:onto", D); }
  else for (int q = 0; q < 200; q++) { std::vector<int> c(nd); for (int k = 0; k < nd; k++) c[k] = st[k] + (r.coin(.2) ? sz[k] - 1 : r.below(sz[k])); trip(l.to_integer<uint64_t>(c), &c); trip(r.below(n), nullptr); }
  for (int q = 0; q < 20; q++) { V x(nd); bool in = true; for (int k = 0; k < nd; k++) { x[k] = r.coin(.8) ? st[k] + r.below(sz[k]) : (r.coin() ? st[k] + sz[k] : st[k] - (st[k] ? 1 : 0)); in &= x[k] >= st[k] && x[k] < st[k] + sz[k]; } if (l.contains(x) != in) viol("lattice:contains", D + str(x)); }
  auto b = l.to_diy_bounds(); ftk::lattice l2(b); if (l2.starts() != l.starts() || l2.sizes() != l.sizes() || l2.n() != l.n()) viol("lattice:diy", D);
  return hcomb(hv(st), hv(sz));
}
VH_MAIN({ group("partition", 1500, 40000, part_case); group("lattice", 500, 8000, lattice_case); })
