// C07: trajectories against the connected components of the graph of detected faces.
#include "cptrace.hh"
using namespace cpm;
template <class C> void rest(Rng& r, const C& c, const Run& a, const Opts& o, const std::string& ctx, const std::function<Run(const Opts&)>& go) {
  Graph G = graph(c, a.cps); check_trajs(a, G, ctx); count("points", a.cps.size());
  for (auto& kv : G) count(strf("degree_%zu", kv.second.size()));
  if (r.coin(0.3)) { // discarding interval points: every trajectory keeps its in-slice points, in order
    Opts d = o; d.discard = true; d.discdeg = r.coin(0.3); Run b = go(d); std::vector<std::vector<Tag>> A, B; std::map<Tag, bool> ord; for (auto& p : a.cps) ord[p.tag] = p.ordinal;
    auto canonv = [](std::vector<Tag> v) { if (!v.empty() && v.front() > v.back()) std::reverse(v.begin(), v.end()); return v; };
    a.trajs.foreach([&](const ftk::feature_curve_t& t) { std::vector<Tag> v; for (auto& p : t) if (p.ordinal && !(d.discdeg && p.type <= 1)) v.push_back(p.tag); A.push_back(canonv(v)); });
    b.trajs.foreach([&](const ftk::feature_curve_t& t) { std::vector<Tag> v; for (auto& p : t) v.push_back(p.tag); B.push_back(canonv(v)); if (!t.empty()) stats(t, ctx + " discarding"); });
    std::sort(A.begin(), A.end()); std::sort(B.begin(), B.end()); count("discarding_runs"); if (A != B && getenv("VH_LOUD")) { for (auto& x : A) if (!std::count(B.begin(), B.end(), x)) { printf("A:"); for (Tag t : x) printf(" %llu", t); puts(""); } for (auto& x : B) if (!std::count(A.begin(), A.end(), x)) { printf("B:"); for (Tag t : x) printf(" %llu", t); puts(""); } }
    VH_CHECK(A == B, "discard", "%s discarding interval points changes more than that", ctx.c_str());
  }
  if (r.coin(0.3)) { Opts f = o; f.filter = r.pick({2, 4, 8, 6, 10, 12, 48}); Run b = go(f); Graph H = graph(c, b.cps); check_trajs(b, H, ctx + strf(" filter %d", f.filter)); count("filtered_runs"); }
}
static uint64_t reg(Rng& r, int nd) {
  Grid g = grid(r, nd, r.coin(), opt().thorough); int kind = r.below(NKIND); if (r.coin(0.3)) kind = SMOOTH; double pn = r.coin(0.1) ? 0.02 : 0; fill(r, g, kind, pn);
  Opts o; o.nthreads = r.pick({1, 2, 5}); std::string ctx = gdesc(g, kind); note(ctx); sample(strf("regular%dd", nd), ctx);
  Run a = run(g, o); rest(r, g, a, o, ctx, [&](const Opts& x) { return run(g, x); }); return a.cps.empty() ? 0 : hgrid(g);
}
static uint64_t uns(Rng& r, int D) {
  UCase c = ucase(r, D); note(c.u.desc); sample(strf("unstructured%dd", D), c.u.desc); Opts o; o.nthreads = r.pick({1, 2, 5});
  Run a = urun(c, o); rest(r, c, a, o, c.u.desc, [&](const Opts& x) { return urun(c, x); }); return a.cps.empty() ? 0 : hucase(c);
}
VH_MAIN({ quiet(); group("2d", 240, 4000, [](Rng& r, int64_t) { return reg(r, 2); }); group("3d", 40, 800, [](Rng& r, int64_t) { return reg(r, 3); });
  group("u2d", 200, 4000, [](Rng& r, int64_t) { return uns(r, 2); }); group("u3d", 60, 1000, [](Rng& r, int64_t) { return uns(r, 3); }); })
