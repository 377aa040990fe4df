// C09: trajectories grown while time steps arrive against offline tracking.
#include "cptrace.hh"
using namespace cpm;
template <class C> void judge(const C& c, const Run& off, const Run& on, const std::vector<std::vector<std::vector<Tag>>>& hist, const std::string& ctx) {
  Graph G = graph(c, off.cps); std::map<Tag, ftk::feature_point_t> P = bytag(off.cps); std::map<Tag, int> where; int k = 0;
  on.trajs.foreach([&](const ftk::feature_curve_t& t) {
    k++; count("streamed_trajectories"); stats(t, ctx);
    for (auto& p : t) { auto it = P.find(p.tag); if (it == P.end()) { viol("foreign", ctx + " streamed point is not detected offline " + pstr(p)); continue; } if (!same_point(p, it->second)) viol("differs", ctx + " streamed point differs " + pstr(p) + " " + pstr(it->second)); if (!where.emplace(p.tag, k).second) viol("twice", ctx + " point is on two streamed trajectories " + pstr(p)); count("streamed_points"); if ((int)p.id != t.id) count("ids_differ"); }
    for (size_t i = 0; i + 1 < t.size(); i++) if (G.count(t[i].tag) && !G[t[i].tag].count(t[i + 1].tag)) { viol("not-connected", ctx + " streaming connects points that offline tracking does not connect " + pstr(t[i]) + " " + pstr(t[i + 1])); break; }
  });
  for (auto& kv : P) if (!where.count(kv.first)) { viol("lost", ctx + " detected point is on no streamed trajectory " + pstr(kv.second)); break; }
  // an offline curve of which two or more separate pieces existed at some moment has met itself; all others must be streamed exactly
  auto cs = canon(on.trajs); std::map<Tag, int> comp; int id = 0; std::set<int> met; off.trajs.foreach([&](const ftk::feature_curve_t& t) { id++; for (auto& p : t) comp[p.tag] = id; if (t.loop) met.insert(id); });
  for (auto& kv : G) if (kv.second.size() > 2 || !comp.count(kv.first)) for (Tag y : kv.second) if (comp.count(y)) met.insert(comp[y]); // branching
  int T = 0; for (auto& kv : P) T = std::max(T, kv.second.timestep);
  for (int s = 0; s < T; s++) { std::set<Tag> seen; std::set<int> c2; for (auto& kv : P) if (kv.second.timestep <= s && !seen.count(kv.first)) { std::vector<Tag> st{kv.first}; seen.insert(kv.first); while (st.size()) { Tag x = st.back(); st.pop_back(); for (Tag y : G[x]) if (P[y].timestep <= s && seen.insert(y).second) st.push_back(y); } if (!c2.insert(comp[kv.first]).second) met.insert(comp[kv.first]); } }
  // a curve that pauses for a step (complete) and goes on later would be a new piece, too: it has a gap in its steps
  ftk::feature_curve_set_t plain; id = 0; off.trajs.foreach([&](const ftk::feature_curve_t& t) { id++; if (!met.count(id)) plain.add(t); }); auto co = canon(plain);
  count("met_curves", met.size()); count("plain_curves", co.size()); for (auto& c : co) { if (c.size() > 6) count("long_plain_curves"); int lo = 1 << 30, hi = -1; for (size_t i = 0; i + 1 < c.size(); i++) lo = std::min(lo, P[c[i]].timestep), hi = std::max(hi, P[c[i]].timestep); if (hi - lo >= 2) count("plain_curves_over_3_steps");
    VH_CHECK(std::binary_search(cs.begin(), cs.end(), c), "differs-from-offline", "%s an offline curve of %zu points (steps %d..%d), whose pieces never meet, is not a streamed trajectory", ctx.c_str(), c.size() - 1, lo, hi); }
  std::string why; VH_CHECK(same_points(off.cps, on.cps, why) || on.cps.empty(), "points", "%s detected points with streaming: %s", ctx.c_str(), why.c_str());
}
static uint64_t reg(Rng& r, int nd) {
  Grid g = grid(r, nd, r.coin(), opt().thorough); if (g.nt < 3) g.nt = r.range(2, nd == 2 ? 6 : 3); int kind = r.coin(0.6) ? SMOOTH : (int)r.below(NKIND); fill(r, g, kind, 0);
  Opts o; o.nthreads = r.pick({1, 2, 5}); std::string ctx = gdesc(g, kind); note(ctx); sample(strf("regular%dd", nd), ctx); if (r.coin(0.2)) o.filter = r.pick({4, 10, 2});
  Run a = run(g, o); Opts s = o; s.streaming = true; Run b = run(g, s); judge(g, a, b, {}, ctx); return a.cps.empty() ? 0 : hgrid(g);
}
static uint64_t uns(Rng& r, int D) {
  UCase c = ucase(r, D); note(c.u.desc); sample(strf("unstructured%dd", D), c.u.desc); Opts o; o.nthreads = r.pick({1, 2, 5});
  Run a = urun(c, o); Opts s = o; s.streaming = true; Run b = urun(c, s); judge(c, a, b, {}, c.u.desc); return a.cps.empty() ? 0 : hucase(c);
}
VH_MAIN({ quiet(); group("2d", 240, 4000, [](Rng& r, int64_t) { return reg(r, 2); }); group("3d", 40, 800, [](Rng& r, int64_t) { return reg(r, 3); });
  group("u2d", 200, 4000, [](Rng& r, int64_t) { return uns(r, 2); }); group("u3d", 60, 1000, [](Rng& r, int64_t) { return uns(r, 3); }); })
