#include "vh.hh"
#include <ftk/config.hh>
#include <ftk/algorithms/hoshen_kopelman.hh>
#include <ftk/algorithms/cca.hh>
#include <ftk/algorithms/cca_bfs.hh>
#include <ftk/algorithms/bfs.hh>
#include <ftk/tracking_graph/tracking_graph.hh>
#include <ftk/filters/threshold_tracker.hh>
using namespace vh;
static std::vector<int> flood(const std::vector<int>& m, int W, int H, int& n) { std::vector<int> l(m.size(), 0); n = 0; for (int s = 0; s < W * H; s++) if (m[s] && !l[s]) { n++; std::vector<int> st{s}; l[s] = n; while (!st.empty()) { int c = st.back(); st.pop_back(); int x = c % W, y = c / W; int nb[4][2] = {{x - 1, y}, {x + 1, y}, {x, y - 1}, {x, y + 1}}; for (auto& q : nb) if (q[0] >= 0 && q[0] < W && q[1] >= 0 && q[1] < H) { int d = q[1] * W + q[0]; if (m[d] && !l[d]) { l[d] = n; st.push_back(d); } } } } return l; }
static std::vector<int> gmask(Rng& r, int W, int H) { std::vector<int> m(W * H); int mode = r.below(8); double p = r.pick({.1, .3, .5, .6, .8}); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { int v; switch (mode) { case 0: v = (x + y) % 2; break; case 1: v = (x + y + 1) % 2; break; case 2: v = (y % 2 == 0) || (x == (y / 2 % 2 ? 0 : W - 1)); break; case 3: v = x % 2 == 0 || y == H - 1; break; case 4: v = 1; break; case 5: v = std::max(std::abs(x - W / 2), std::abs(y - H / 2)) % 2 == 0 || (x == W / 2 && r.coin(.3)); break; default: v = r.coin(p); } m[y * W + x] = v; } return m; }
static bool bijective(const std::vector<int>& a, const std::vector<long long>& b) { std::map<int, long long> f; std::map<long long, int> g; for (size_t i = 0; i < a.size(); i++) { if ((a[i] == 0) != (b[i] == 0)) return false; if (!a[i]) continue; if (!f.emplace(a[i], b[i]).second && f[a[i]] != b[i]) return false; if (!g.emplace(b[i], a[i]).second && g[b[i]] != a[i]) return false; } return true; }
static uint64_t hm(const std::vector<int>& m, int W) { uint64_t h = W; for (int v : m) h = hcomb(h, v); return h; }
static std::string pic(const std::vector<int>& m, int W) { std::string s; for (size_t i = 0; i < m.size() && i < 300; i++) { s += m[i] ? '#' : '.'; if ((i + 1) % W == 0) s += '/'; } return s; }
template <class T> void hk(Rng& r, const std::vector<int>& m, int W, int H, const std::vector<int>& want, int n) {
  ftk::ndarray<T> a; a.reshape({(size_t)W, (size_t)H}); for (size_t i = 0; i < m.size(); i++) a[i] = m[i] ? 1 + (r.coin(.1) ? r.below(3) : 0) : 0; auto c = ftk::hoshen_kopelman_2d(a); std::vector<long long> got; for (size_t i = 0; i < m.size(); i++) got.push_back(a[i]);
  std::string D = strf("%dx%d ", W, H) + pic(m, W); if ((long long)c != n) viol("label:count", strf("%s: %lld regions, expected %d", D.c_str(), (long long)c, n)); if (!bijective(want, got)) viol("label:partition", D); for (auto g : got) if (g < 0 || g > n) { viol("label:range", D); break; } count("labelled_cells", m.size()); }
static uint64_t label_case(Rng& r, int64_t) { int W = 1 + r.below(r.coin(.1) ? 40 : 9), H = 1 + r.below(r.coin(.1) ? 40 : 9); auto m = gmask(r, W, H); note(strf("%dx%d ", W, H) + pic(m, W)); int n; auto l = flood(m, W, H, n); hk<int>(r, m, W, H, l, n); hk<size_t>(r, m, W, H, l, n); if (r.coin(.3)) hk<long long>(r, m, W, H, l, n); if (r.coin(.3)) hk<short>(r, m, W, H, l, n); return hm(m, W); }
static uint64_t graph_case(Rng& r, int64_t) { // components of arbitrary graphs
  int n = 1 + r.below(25); std::vector<std::set<int>> g(n); int e = r.below(2 * n); for (int k = 0; k < e; k++) { int a = r.below(n), b = r.below(n); g[a].insert(b); g[b].insert(a); } std::set<int> Q; double p = r.pick({.2, .6, 1.}); for (int i = 0; i < n; i++) if (r.coin(p)) Q.insert(i);
  std::vector<int> c(n, -1); int nc = 0; std::set<std::set<int>> W; for (int s : Q) if (c[s] < 0) { std::vector<int> st{s}; std::set<int> comp; c[s] = nc; while (!st.empty()) { int v = st.back(); st.pop_back(); comp.insert(v); for (int w : g[v]) if (Q.count(w) && c[w] < 0) { c[w] = nc; st.push_back(w); } } nc++; W.insert(comp); }
  std::function<std::set<int>(int)> nb = [&](int i) { return g[i]; }; std::string D = strf("graph n %d edges %d qualified %zu", n, e, Q.size()); note(D); auto same = [&](std::vector<std::set<int>> v) { std::set<std::set<int>> S(v.begin(), v.end()); return S == W && v.size() == W.size(); };
  if (!same(ftk::extract_connected_components<int, std::set<int>>(nb, Q))) viol("components:unionfind", D); if (!same(ftk::extract_connected_components_bfs<int, std::set<int>>(nb, Q))) viol("components:bfs", D);
  std::function<bool(int)> crit = [&](int i) { return Q.count(i) > 0; }; if (!same(ftk::extract_connected_components<int, std::set<int>>(n, nb, crit))) viol("components:criterion", D); std::set<int> nodes; for (int i = 0; i < n; i++) nodes.insert(i); if (!same(ftk::extract_connected_components<int, std::set<int>>(nodes, nb, crit))) viol("components:nodes", D);
  if (!same(ftk::extract_connected_components_bfs<int, std::set<int>>(n, nb, crit))) viol("components:bfs-criterion", D); if (!same(ftk::extract_connected_components_bfs<int, std::set<int>>(nodes, nb, crit))) viol("components:bfs-nodes", D);
  // one-directional neighbourhoods: the union-find version still joins both ends
  { std::vector<std::set<int>> h(n); for (int a = 0; a < n; a++) for (int b : g[a]) if (a == b || r.coin() || !h[b].count(a)) if (!(b < a && h[b].count(a) && r.coin())) h[a].insert(b); for (int a = 0; a < n; a++) for (int b : g[a]) if (!h[a].count(b) && !h[b].count(a)) h[a].insert(b); std::function<std::set<int>(int)> nh = [&](int i) { return h[i]; }; if (!same(ftk::extract_connected_components<int, std::set<int>>(nh, Q))) viol("components:directed", D); }
  int s = r.below(n); std::map<int, int> vis; ftk::bfs<int, std::set<int>>(s, nb, [&](int i) { vis[i]++; }, crit); for (int i = 0; i < n; i++) { int w = Q.count(s) && Q.count(i) && c[i] == c[s]; if (vis[i] != w) { viol("bfs:visits", D); break; } } count("graph_nodes", n);
  // overlap pairs
  std::vector<std::set<int>> A, B; auto gen = [&](std::vector<std::set<int>>& v) { int k = r.below(5); for (int i = 0; i < k; i++) { std::set<int> q; for (int z = r.below(5); z > 0; z--) q.insert(r.below(15)); v.push_back(q); } }; gen(A); gen(B); std::set<std::pair<int, int>> want; for (size_t i = 0; i < A.size(); i++) for (size_t j = 0; j < B.size(); j++) { bool o = false; for (int a : A[i]) o |= B[j].count(a) > 0; if (o) want.insert({(int)i, (int)j}); }
  if (ftk::track_connected_components<int>(A, B) != want || ftk::track_connected_components_bfs<int>(A, B) != want) viol("components:overlap", D); count("overlap_pairs", A.size() * B.size());
  uint64_t h = n; for (int i = 0; i < n; i++) { for (int j : g[i]) h = hcomb(h, i * 100 + j); h = hcomb(h, Q.count(i)); } return h; }
// links between (time,label) nodes and everything the tracking graph derives from them
typedef std::pair<size_t, size_t> N;
struct Links { std::set<N> nodes; std::set<std::pair<N, N>> e; };
static const char* etype(size_t l, size_t rr) { if (l == 0 && rr == 1) return "birth"; if (l == 1 && rr == 0) return "death"; if (l == 1 && rr == 2) return "split"; if (l == 2 && rr == 1) return "merge"; if (l == 2 && rr == 2) return "recombination"; return "compound"; }
static void judge_graph(ftk::tracking_graph<>& g, const Links& L, const std::string& D, Rng& r, bool events) {
  std::set<size_t> ts; std::map<N, std::set<N>> left, right; for (auto& n : L.nodes) ts.insert(n.first); for (auto& p : L.e) { right[p.first].insert(p.second); left[p.second].insert(p.first); }
  std::vector<size_t> T(ts.begin(), ts.end()); if (g.get_timesteps() != T) viol("graph:timesteps", D);
  for (auto& n : L.nodes) if (!g.has_node(n.first, n.second)) viol("graph:node", strf("%s: region %zu of step %zu is missing", D.c_str(), n.second, n.first)); for (auto& p : L.e) if (!g.has_edge(p.first.first, p.first.second, p.second.first, p.second.second)) viol("graph:edge", strf("%s: link (%zu,%zu)-(%zu,%zu) missing", D.c_str(), p.first.first, p.first.second, p.second.first, p.second.second));
  for (auto& a : L.nodes) for (auto& b : L.nodes) if (a.first + 1 == b.first && !L.e.count({a, b}) && g.has_edge(a.first, a.second, b.first, b.second)) viol("graph:extra-edge", strf("%s: (%zu,%zu)-(%zu,%zu)", D.c_str(), a.first, a.second, b.first, b.second));
  for (int k = 0; k < 5; k++) { N n{r.below(8), r.below(12)}; if (!L.nodes.count(n) && (g.has_node(n.first, n.second) || g.has_global_label(n.first, n.second))) viol("graph:extra-node", D); }
  // a link identifies its two regions when it is the only link on that side of at least one of them
  std::map<N, N> rep; for (auto& n : L.nodes) rep[n] = n; std::function<N(N)> root = [&](N n) { while (rep[n] != n) n = rep[n]; return n; }; for (auto& p : L.e) if (right[p.first].size() == 1 || left[p.second].size() == 1) { N a = root(p.first), b = root(p.second); if (a != b) rep[b] = a; }
  std::map<N, size_t> m; std::map<size_t, N> im; for (auto& n : L.nodes) { if (!g.has_global_label(n.first, n.second)) { viol("graph:unlabelled", strf("%s: region %zu of step %zu has no global label", D.c_str(), n.second, n.first)); continue; } size_t l = g.get_global_label(n.first, n.second); N R = root(n); if ((m.emplace(R, l).first->second != l) || (im.emplace(l, R).first->second != R)) { viol("graph:label", strf("%s: region %zu of step %zu has global label %zu", D.c_str(), n.second, n.first, l)); break; } count("global_labels"); }
  if (!events) return; g.detect_events(); const auto& ev = g.get_events(); std::multiset<std::string> want, got; auto es = [&](size_t a, size_t b, const std::set<size_t>& l, const std::set<size_t>& q) { std::string s = strf("%zu-%zu ", a, b); for (auto x : l) s += std::to_string(x) + ","; s += "->"; for (auto x : q) s += std::to_string(x) + ","; return s + " " + etype(l.size(), q.size()); };
  for (size_t i = 0; i + 1 < T.size(); i++) { std::set<N> todo; for (auto& n : L.nodes) if (n.first == T[i] || n.first == T[i + 1]) todo.insert(n); while (!todo.empty()) { std::set<size_t> l, q; std::vector<N> st{*todo.begin()}; todo.erase(todo.begin()); while (!st.empty()) { N n = st.back(); st.pop_back(); (n.first == T[i] ? l : q).insert(n.second); for (auto& w : n.first == T[i] ? right[n] : left[n]) if (todo.erase(w)) st.push_back(w); } if (!(l.size() == 1 && q.size() == 1)) want.insert(es(T[i], T[i + 1], l, q)); } }
  for (auto& kv : ev) for (auto& e : kv.second) { if (kv.first != e.interval.first) viol("graph:event-time", D); got.insert(es(e.interval.first, e.interval.second, e.lhs, e.rhs)); std::string ty = e.eventTypeToString(e.type()); if (ty != etype(e.lhs.size(), e.rhs.size())) viol("graph:event-type", D + " " + ty); nlohmann::json j = e; if (j["type"] != ty) viol("graph:event-json", D); count("event_" + ty); }
  if (want != got) { std::string s; for (auto& w : want) if (!got.count(w)) s += " missing[" + w + "]"; for (auto& w : got) if (!want.count(w)) s += " extra[" + w + "]"; viol("graph:events", D + s); } count("events", got.size());
  std::string fn = opt().dir + "/g.dot"; g.generate_dot_file(fn); std::ifstream in(fn); std::stringstream ss; ss << in.rdbuf(); std::string dot = ss.str(); size_t arrows = 0; for (size_t p = dot.find("->"); p != std::string::npos; p = dot.find("->", p + 1)) arrows++; if (arrows != L.e.size()) viol("graph:dot", strf("%s: %zu arrows for %zu links", D.c_str(), arrows, L.e.size()));
  for (auto& p : L.e) { auto nm = [&](N n) { return strf("T%zuL%zuG%zu", n.first, n.second, g.get_global_label(n.first, n.second)); }; if (dot.find(nm(p.first) + "->" + nm(p.second) + "\n") == std::string::npos) { viol("graph:dot", D + " link missing in the dot file"); break; } }
}
static uint64_t graph_links_case(Rng& r, int64_t) {
  ftk::tracking_graph<> g; Links L; int T = 1 + r.below(6); std::vector<int> nl(T); for (int& x : nl) x = r.below(6); double p = r.pick({.1, .25, .5}); uint64_t h = T; int mode = r.below(3); std::vector<std::pair<N, N>> es; std::string D;
  for (int t = 0; t < T; t++) for (int l = 1; l <= nl[t]; l++) if (mode == 0 || r.coin()) { L.nodes.insert({t, l}); }
  for (int t = 0; t + 1 < T; t++) for (int a = 1; a <= nl[t]; a++) for (int b = 1; b <= nl[t + 1]; b++) if (mode == 1 ? a == b && r.coin(.8) : r.coin(p)) es.push_back({{t, a}, {t + 1, b}});
  auto base = L.nodes; for (auto& n : base) g.add_node(n.first, n.second); r.shuffle(es); for (auto& e : es) { g.add_edge(e.first.first, e.first.second, e.second.first, e.second.second); if (r.coin(.2)) g.add_edge(e.first.first, e.first.second, e.second.first, e.second.second); L.e.insert(e); L.nodes.insert(e.first); L.nodes.insert(e.second); if (r.coin(.05)) g.relabel(); D += strf("(%zu,%zu)-(%zu,%zu) ", e.first.first, e.first.second, e.second.first, e.second.second); h = hcomb(h, hash_str(D)); }
  note(D); g.relabel(); judge_graph(g, L, D, r, true); return hcomb(h, L.nodes.size()); }
static uint64_t track_case(Rng& r, int64_t) {
  int W = 1 + r.below(9), H = 1 + r.below(9), T = 1 + r.below(6), mode = r.below(4); double thr = r.coin(.5) ? .5 : r.range(-1, 2); std::string D = strf("%dx%dx%d mode %d thr %g", W, H, T, mode, thr); note(D);
  typedef ftk::threshold_tracker<> Tr; ftk::threshold_tracker<> tr((diy::mpi::communicator())); tr.initialize(); tr.set_threshold(thr, mode == 0 ? ftk::FTK_COMPARE_GE : mode == 1 ? ftk::FTK_COMPARE_GT : mode == 2 ? ftk::FTK_COMPARE_LE : ftk::FTK_COMPARE_LT);
  if (mode == 0 && r.coin()) tr.set_threshold(thr); Links L; std::vector<std::vector<size_t>> lab; uint64_t h = hcomb(W * 100 + H, mode); std::vector<double> f(W * H); int corr = r.below(3); bool endupdate = r.coin();
  for (int t = 0; t < T; t++) {
    for (int i = 0; i < W * H; i++) if (t == 0 || corr == 0 || r.coin(.25)) f[i] = r.coin(.7) ? thr + (r.coin() ? .25 : -.25) * r.below(3) : r.real(-2, 3); if (corr == 2 && t) { auto g = f; for (int i = 0; i < W * H; i++) f[i] = g[(i + 1) % (W * H)]; } if (r.coin(.05)) for (auto& v : f) v = thr + (mode < 2 ? -1 : 1);
    ftk::ndarray<double> a; a.reshape({(size_t)W, (size_t)H}); std::vector<int> m(W * H); for (int i = 0; i < W * H; i++) { a[i] = f[i]; m[i] = mode == 0 ? f[i] >= thr : mode == 1 ? f[i] > thr : mode == 2 ? f[i] <= thr : f[i] < thr; h = hcomb(h, m[i]); }
    if (r.coin(.3)) { ftk::ndarray<float> b; b.reshape({(size_t)W, (size_t)H}); bool ex = true; for (int i = 0; i < W * H; i++) { b[i] = f[i]; ex &= (double)b[i] == f[i]; } if (ex) tr.push_scalar_field_data_snapshot(b); else tr.push_scalar_field_data_snapshot(a); } else tr.push_scalar_field_data_snapshot(a);
    auto arr = tr.get_last_labeled_array_snapshot(); int n; auto want = flood(m, W, H, n); std::vector<long long> got; std::vector<size_t> cur; for (int i = 0; i < W * H; i++) { got.push_back(arr[i]); cur.push_back(arr[i]); } if (arr.dim(0) != (size_t)W || arr.dim(1) != (size_t)H || !bijective(want, got)) viol("track:labels", D + strf(" step %d ", t) + pic(m, W));
    for (auto l : cur) if (l) L.nodes.insert({t, l}); if (t) for (int i = 0; i < W * H; i++) if (lab.back()[i] && cur[i]) L.e.insert({{t - 1, lab.back()[i]}, {t, cur[i]}}); lab.push_back(cur);
    if (t == T - 1 && endupdate) tr.update_timestep(); else tr.advance_timestep(); count("tracked_steps"); }
  tr.finalize(); judge_graph(const_cast<ftk::tracking_graph<>&>(tr.get_tracking_graph()), L, D, r, true); return h; }
VH_MAIN({ group("label", 2500, 80000, label_case); group("graph", 1500, 40000, graph_case); group("links", 1200, 30000, graph_links_case); group("track", 1200, 30000, track_case); })
