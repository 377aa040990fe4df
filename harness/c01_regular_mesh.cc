#include "vh.hh"
#include <ftk/config.hh>
#include <ftk/mesh/simplicial_regular_mesh.hh>
using namespace vh;
typedef ftk::simplicial_regular_mesh Mesh; typedef ftk::simplicial_regular_mesh_element El;
typedef std::vector<int> V; typedef std::vector<V> S; // a vertex; a simplex as sorted vertices
static S verts(const El& e, const Mesh& m) { S s = e.vertices(m); std::sort(s.begin(), s.end()); return s; }
static std::string str(const S& s) { std::string r; for (auto& v : s) { r += "("; for (int x : v) r += std::to_string(x) + ","; r += ")"; } return r; }
static double det(std::vector<std::vector<double>> m) { int n = m.size(); double d = 1; for (int c = 0; c < n; c++) { int p = c; for (int r = c; r < n; r++) if (fabs(m[r][c]) > fabs(m[p][c])) p = r; if (fabs(m[p][c]) < 1e-12) return 0; if (p != c) { std::swap(m[p], m[c]); d = -d; } d *= m[c][c]; for (int r = c + 1; r < n; r++) { double f = m[r][c] / m[c][c]; for (int k = c; k < n; k++) m[r][k] -= f * m[c][k]; } } return d; }
static void subsets(const S& s, size_t k, std::function<void(const S&)> f) { int n = s.size(); for (int b = 0; b < (1 << n); b++) if ((size_t)__builtin_popcount(b) == k) { S t; for (int i = 0; i < n; i++) if (b >> i & 1) t.push_back(s[i]); f(t); } }
static uint64_t hS(const S& s) { uint64_t h = 7; for (auto& v : s) for (int x : v) h = hcomb(h, x); return h; }

static uint64_t box_case(Rng& r, int nd, const V& lb, const V& ub) {
  static std::map<int, std::shared_ptr<Mesh>> cache; // construction of the 4D mesh is costly; the box is set afresh
  auto& mp = cache[nd]; if (!mp || r.coin(0.1)) mp = std::make_shared<Mesh>(nd);
  Mesh& m = *mp; m.set_lb_ub(lb, ub);
  std::string box = "nd=" + std::to_string(nd) + " lb=" + str({lb}) + " ub=" + str({ub}); note(box);
  bool flat = false; double vol = 1; for (int i = 0; i < nd; i++) { if (ub[i] == lb[i]) flat = true; vol *= ub[i] - lb[i]; }
  std::vector<std::map<S, El>> E(nd + 1);
  for (int d = 0; d <= nd; d++) {
    m.element_for(d, [&](El e) {
      if (!e.valid(m)) return;
      if ((int)e.corner.size() != nd || e.dim != d) viol("element:shape", box + " element with wrong shape");
      S s = verts(e, m);
      bool in = true; for (auto& v : s) for (int i = 0; i < nd; i++) if (v[i] < lb[i] || v[i] > ub[i]) in = false;
      if (!in || (int)s.size() != d + 1 || std::unique(s.begin(), s.end()) != s.end()) viol("element:vertices", box + " bad vertices " + str(s));
      if (!E[d].emplace(s, e).second) viol("tiling:duplicate", box + " element listed twice " + str(s));
      count("elements"); seen_state(hS(s));
    }, ftk::FTK_XL_NONE, 1, false);
  }
  // vertices: the grid points, each once
  { size_t n = 1; for (int i = 0; i < nd; i++) n *= ub[i] - lb[i] + 1; if (E[0].size() != n) viol("tiling:vertices", strf("%s %zu vertices for %zu points", box.c_str(), E[0].size(), n)); }
  // tiling: simplex volumes add up, and generic points lie in exactly one n-simplex
  if (!flat) {
    double sum = 0, fact = 1; for (int i = 2; i <= nd; i++) fact *= i;
    std::vector<std::vector<std::vector<double>>> inv;
    for (auto& kv : E[nd]) { std::vector<std::vector<double>> M(nd, std::vector<double>(nd)); for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) M[i][j] = kv.first[i + 1][j] - kv.first[0][j]; double d = fabs(det(M)); if (d < .5) viol("tiling:flat", box + " flat simplex " + str(kv.first)); sum += d / fact; }
    if (fabs(sum - vol) > 1e-6 * vol) viol("tiling:volume", strf("%s simplices have volume %g, the box %g", box.c_str(), sum, vol));
    for (int t = 0; t < 12; t++) {
      std::vector<double> p(nd); for (int i = 0; i < nd; i++) p[i] = r.real(lb[i], ub[i]);
      int n = 0;
      for (auto& kv : E[nd]) {
        bool bb = true; for (int j = 0; j < nd && bb; j++) { int a = INT_MAX, b = INT_MIN; for (auto& v : kv.first) { a = std::min(a, v[j]); b = std::max(b, v[j]); } bb = p[j] >= a && p[j] <= b; }
        if (!bb) continue;
        std::vector<std::vector<double>> M(nd + 1, std::vector<double>(nd + 1, 1)); for (int i = 0; i <= nd; i++) for (int j = 0; j < nd; j++) M[i][j] = kv.first[i][j];
        double D = det(M); bool in = true;
        for (int i = 0; i <= nd && in; i++) { auto Mi = M; for (int j = 0; j < nd; j++) Mi[i][j] = p[j]; if (det(Mi) / D < 0) in = false; }
        n += in;
      }
      count("points_located");
      if (n != 1) viol("tiling:point", strf("%s a generic point lies in %d simplices", box.c_str(), n));
    }
    // every face of every n-simplex is an element of the mesh and vice versa
    for (int d = 0; d < nd; d++) {
      std::set<S> F; for (auto& kv : E[nd]) subsets(kv.first, d + 1, [&](const S& t) { F.insert(t); });
      for (auto& f : F) if (!E[d].count(f)) { viol("faces:missing", box + " face not enumerated " + str(f)); break; }
      if (F.size() != E[d].size()) viol("faces:extra", strf("%s dim %d: %zu elements, %zu faces", box.c_str(), d, E[d].size(), F.size()));
    }
    // facets are shared by two n-simplices, or one on the boundary
    std::map<S, int> cnt; for (auto& kv : E[nd]) subsets(kv.first, nd, [&](const S& t) { cnt[t]++; });
    for (auto& c : cnt) { bool bd = false; for (int i = 0; i < nd; i++) { bool a = true, b = true; for (auto& v : c.first) { a &= v[i] == lb[i]; b &= v[i] == ub[i]; } bd |= a || b; } if (c.second != (bd ? 1 : 2)) { viol("tiling:facet", strf("%s facet %s in %d simplices", box.c_str(), str(c.first).c_str(), c.second)); break; } }
  }
  // sides, coboundary
  for (int d = 0; d <= nd; d++) for (auto& kv : E[d]) {
    const S& s = kv.first; const El& e = kv.second;
    if (d > 0) {
      std::set<S> want, got; subsets(s, d, [&](const S& t) { want.insert(t); }); auto sd = e.sides(m);
      for (auto& x : sd) { if (x.dim != d - 1 || !x.valid(m)) { viol("sides:invalid", box + " invalid side of " + str(s)); continue; } got.insert(verts(x, m)); auto it = E[d - 1].find(verts(x, m)); if (it != E[d - 1].end() && !(it->second == x)) viol("sides:identity", box + " the side is not the mesh element of " + str(it->first)); }
      if (got != want || sd.size() != want.size()) viol("sides:set", box + strf(" dim %d sides of ", d) + str(s) + " are not its faces");
      count("sides_checked");
    }
    if (d < nd) {
      auto so = e.side_of(m); std::set<S> got; size_t n = 0;
      for (auto& x : so) { if (!x.valid(m)) continue; n++; if (x.dim != d + 1) viol("sideof:dim", box); S t = verts(x, m); got.insert(t); if (!std::includes(t.begin(), t.end(), s.begin(), s.end())) viol("sideof:wrong", box + " " + str(t) + " does not contain " + str(s)); auto it = E[d + 1].find(t); if (it == E[d + 1].end() || !(it->second == x)) viol("sideof:identity", box + " coboundary element is not a mesh element " + str(t)); }
      if (n != got.size()) viol("sideof:duplicate", box + " duplicate coboundary of " + str(s));
      count("sideof_returned", n);
      // completeness: counted from the other side below
      static thread_local std::map<S, size_t> dummy; (void)dummy;
      size_t want = 0; // elements that have s as a face: via candidate vertices adjacent to s
      std::set<V> cand; for (int b = 0, tot = (int)pow(3, nd); b < tot; b++) { V w(nd); int q = b; for (int i = 0; i < nd; i++) { w[i] = s[0][i] + q % 3 - 1; q /= 3; } cand.insert(w); }
      for (auto& w : cand) { if (std::find(s.begin(), s.end(), w) != s.end()) continue; S t = s; t.push_back(w); std::sort(t.begin(), t.end()); if (E[d + 1].count(t)) want++; }
      if (want != n) viol("sideof:incomplete", strf("%s dim %d: %zu of %zu cofaces of %s", box.c_str(), d, n, want, str(s).c_str()));
    }
  }
  // ids
  for (int d = 0; d <= nd; d++) {
    std::map<uint64_t, S> ids;
    for (auto& kv : E[d]) {
      uint64_t id = kv.second.to_integer<uint64_t>(m);
      auto it = ids.emplace(id, kv.first); if (!it.second) viol("id:collision", strf("%s dim %d id %llu for %s and %s", box.c_str(), d, (unsigned long long)id, str(kv.first).c_str(), str(it.first->second).c_str()));
      El f(m, d, id); if (!(f == kv.second) || verts(f, m) != kv.first) viol("id:decode", strf("%s dim %d id %llu decodes to another element than %s", box.c_str(), d, (unsigned long long)id, str(kv.first).c_str()));
      El g(nd, d); g.from_integer<uint64_t>(m, id); if (!(g == kv.second)) viol("id:decode2", box + " from_integer " + str(kv.first));
      count("ids");
    }
  }
  // time slices and intervals
  for (int d = 0; d <= nd; d++) {
    std::map<S, int> seen; size_t nord = 0, nint = 0;
    for (auto& kv : E[d]) { bool o = true; for (auto& v : kv.first) o &= v[nd - 1] == kv.first[0][nd - 1]; if (kv.second.is_ordinal(m) != o) viol("slice:is_ordinal", box + " " + str(kv.first)); }
    for (int t = lb[nd - 1]; t <= ub[nd - 1]; t++) {
      m.element_for_ordinal(d, t, [&](El e) { if (!e.valid(m)) return; S s = verts(e, m); seen[s]++; nord++; for (auto& v : s) if (v[nd - 1] != t) { viol("slice:ordinal", strf("%s t=%d ordinal element %s", box.c_str(), t, str(s).c_str())); break; } if (!e.is_ordinal(m)) viol("slice:type", box); }, ftk::FTK_XL_NONE, 1, false);
      m.element_for_interval(d, t, t + 1, [&](El e) { if (!e.valid(m)) return; S s = verts(e, m); seen[s]++; nint++; int a = INT_MAX, b = INT_MIN; for (auto& v : s) { a = std::min(a, v[nd - 1]); b = std::max(b, v[nd - 1]); } if (a != t || b != t + 1) viol("slice:interval", strf("%s t=%d interval element %s", box.c_str(), t, str(s).c_str())); }, ftk::FTK_XL_NONE, 1, false);
    }
    if (seen.size() != E[d].size()) viol("slice:cover", strf("%s dim %d: slices and intervals give %zu of %zu", box.c_str(), d, seen.size(), E[d].size()));
    for (auto& k : seen) if (k.second != 1) { viol("slice:twice", box + " visited twice " + str(k.first)); break; }
    count("ordinal_elements", nord); count("interval_elements", nint);
    if (m.ntypes(d, ftk::ELEMENT_SCOPE_ORDINAL) + m.ntypes(d, ftk::ELEMENT_SCOPE_INTERVAL) != m.ntypes(d)) viol("slice:ntypes", box);
  }
  // partial sweeps over a split of the box: every corner/type combination once; and the work index round trip
  {
    int cut = r.below(nd); int at = lb[cut] + (int)r.below(ub[cut] - lb[cut] + 1); // first part [lb,at], second part (at,ub]
    for (int d = 0; d <= nd; d++) for (int scope = 0; scope < 3; scope++) {
      std::set<std::pair<V, int>> seen; size_t expect = 0;
      for (int part = 0; part < 2; part++) {
        std::vector<size_t> st(nd), sz(nd); for (int i = 0; i < nd; i++) { st[i] = lb[i]; sz[i] = ub[i] - lb[i] + 1; }
        if (part == 0) sz[cut] = at - lb[cut] + 1; else { if (at == ub[cut]) continue; st[cut] = at + 1; sz[cut] = ub[cut] - at; }
        ftk::lattice l(st, sz); size_t nc = 1; for (auto x : sz) nc *= x;
        expect += nc * m.ntypes(d, scope);
        std::vector<El> part_el;
        m.element_for(d, l, scope, [&](El e) {
          for (int i = 0; i < nd; i++) if (e.corner[i] < (int)st[i] || e.corner[i] >= (int)(st[i] + sz[i])) { viol("work:outside", box + " corner outside the sub-lattice"); break; }
          if (scope == ftk::ELEMENT_SCOPE_ORDINAL && !e.is_ordinal(m)) viol("work:scope", box); if (scope == ftk::ELEMENT_SCOPE_INTERVAL && e.is_ordinal(m)) viol("work:scope", box);
          if (!seen.insert({e.corner, e.type}).second) viol("work:twice", box + strf(" dim %d scope %d visited twice", d, scope));
          part_el.push_back(e);
        }, ftk::FTK_XL_NONE, 1, false);
        for (int k = 0; k < 20 && !part_el.empty(); k++) {
          El& e = r.pick(part_el); size_t w = e.to_work_index(m, l, scope); El f(m, d, w, l, scope);
          count("work_index_roundtrips");
          if (!(f == e)) viol("work:roundtrip", strf("%s dim %d scope %d type %d decodes to type %d", box.c_str(), d, scope, e.type, f.type));
        }
      }
      if (seen.size() != expect) viol("work:cover", strf("%s dim %d scope %d visited %zu of %zu", box.c_str(), d, scope, seen.size(), expect));
    }
  }
  // ordering, hashing, serialization
  for (int k = 0; k < 40; k++) {
    int d = r.below(nd + 1); if (E[d].empty()) continue;
    auto pickE = [&]() { auto it = E[d].begin(); std::advance(it, r.below(std::min<size_t>(E[d].size(), 60))); return it->second; };
    El a = pickE(), b = pickE(), c = pickE();
    int rel = (a < b) + (b < a) + (a == b); if (rel != 1) viol("order:trichotomy", box); if ((a > b) != (b < a)) viol("order:gt", box); if ((a != b) == (a == b)) viol("order:ne", box);
    if (a < b && b < c && !(a < c)) viol("order:transitive", box);
    if (a == b && std::hash<El>()(a) != std::hash<El>()(b)) viol("order:hash", box);
    diy::MemoryBuffer bb; diy::save(bb, a); diy::save(bb, b); bb.reset(); El x, y; diy::load(bb, x); diy::load(bb, y); if (!(x == a) || !(y == b)) viol("serialize", box);
    El z; z = a; El w(a); if (!(z == a) || !(w == a)) viol("copy", box);
  }
  uint64_t h = nd; for (int i = 0; i < nd; i++) h = hcomb(hcomb(h, lb[i]), ub[i]);
  return h;
}
static uint64_t big_ids(Rng& r) { // ids on boxes too large to enumerate
  int nd = 2 + r.below(3); Mesh m(nd); V lb(nd), ub(nd); uint64_t tot = 1;
  for (int i = 0; i < nd; i++) { lb[i] = r.range(0, 20); int lim = nd == 2 ? 2000000 : nd == 3 ? 6000 : 700; ub[i] = lb[i] + 1 + (int)r.below(lim); tot *= ub[i] - lb[i] + 1; }
  if (r.coin(0.3)) { ub[nd - 1] = lb[nd - 1] + (nd == 2 ? 2147483000 : 1000000) - 1 ; tot = 0; }
  if (tot > (1ull << 31) || tot == 0) count("boxes_above_2^31_points");
  m.set_lb_ub(lb, ub); note("big box " + str({lb, ub}));
  std::map<std::pair<int, uint64_t>, El> ids; std::vector<El> all;
  for (int k = 0; k < 400; k++) { int d = r.below(nd + 1); V c(nd); for (int i = 0; i < nd; i++) { int mode = r.below(5); c[i] = mode == 0 ? lb[i] : mode == 1 ? ub[i] - 1 : lb[i] + (int)r.below((uint64_t)ub[i] - lb[i]); } El e(c, d, r.below(m.ntypes(d))); if (!e.valid(m)) continue;
    uint64_t id = e.to_integer<uint64_t>(m); El f(m, d, id); if (!(f == e)) viol("id:decode-large", strf("box %s corner %s dim %d type %d does not survive its id", str({lb, ub}).c_str(), str({c}).c_str(), d, e.type));
    auto it = ids.emplace(std::make_pair(d, id), e); if (!it.second && !(it.first->second == e)) viol("id:collision-large", "box " + str({lb, ub}) + " two elements share an id");
    count("large_ids"); }
  return hS({lb, ub});
}
VH_MAIN({
  group("boxes2", 120, 1200, [](Rng& r, int64_t i) { V lb(2), ub(2); for (int k = 0; k < 2; k++) { int mode = r.below(4); lb[k] = mode == 0 ? 0 : mode == 1 ? r.range(1, 9) : mode == 2 ? r.range(-9, -1) : r.range(0, 1000); ub[k] = lb[k] + (i < 16 ? (k ? i / 4 : i % 4) : (int64_t)r.below(9)); } return box_case(r, 2, lb, ub); });
  group("boxes3", 40, 500, [](Rng& r, int64_t i) { V lb(3), ub(3); for (int k = 0; k < 3; k++) { int mode = r.below(4); lb[k] = mode == 0 ? 0 : mode == 1 ? r.range(1, 9) : mode == 2 ? r.range(-9, -1) : r.range(0, 1000); ub[k] = lb[k] + (i < 8 ? 1 + (i >> k & 1) : (int64_t)r.below(4)); } return box_case(r, 3, lb, ub); });
  group("boxes4", 16, 120, [](Rng& r, int64_t i) { V lb(4), ub(4); for (int k = 0; k < 4; k++) { int mode = r.below(4); lb[k] = mode == 0 ? 0 : mode == 1 ? r.range(1, 9) : mode == 2 ? r.range(-9, -1) : r.range(0, 1000); ub[k] = lb[k] + (i == 0 ? 1 : i < 5 ? 1 + (i - 1 == k) : 1 + (int64_t)r.coin(0.3)); } if (i > 12) ub[r.below(4)] = lb[0]; for (int k = 0; k < 4; k++) ub[k] = std::max(ub[k], lb[k]); for (int k = 0; k < 4; k++) ub[k] = std::min(ub[k], lb[k] + 2); return box_case(r, 4, lb, ub); });
  group("bigids", 24, 300, [](Rng& r, int64_t) { return big_ids(r); });
})
