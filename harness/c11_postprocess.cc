// C11: splitting, rotating, reordering, smoothing, slicing, intercepting, unwrapping of trajectories, judged against
// independent models of what each operation keeps.  Points are identified by their (unique) tags.
#include "vh.hh"
#include "cpmodel.hh"
#include <ftk/numeric/clamp.hh>
#include <ftk/filters/critical_point_tracker_2d_regular.hh>
#include <ftk/filters/feature_curve_set_post_processor.hh>
using namespace ftk;
using vh::Rng;
using vh::strf;
typedef feature_curve_t C;
typedef feature_point_t P;
static std::string show(const C& c) {
  std::string s = strf("id=%d loop=%d n=%zu:", c.id, (int)c.loop, c.size());
  for (auto& p : c) { if (s.size() > 700) { s += "..."; break; } s += strf(" [%llu ty%u ts%d t%.4g %s]", p.tag, p.type, p.timestep, p.t, p.ordinal ? "o" : "i"); }
  return s;
}
static bool eqp(const P& a, const P& b, bool id = true) {
  return a.x == b.x && a.t == b.t && a.timestep == b.timestep && a.scalar == b.scalar && a.v == b.v && a.type == b.type && a.ordinal == b.ordinal && a.tag == b.tag && (!id || a.id == b.id);
}
static bool eqseq(const std::vector<P>& a, const std::vector<P>& b, bool id = true) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); i++) if (!eqp(a[i], b[i], id)) return false;
  return true;
}
static std::vector<P> pts(const C& c) { return std::vector<P>(c.begin(), c.end()); }
static void check_stats(const C& c, const char* key, const std::string& ctx) {
  if (c.empty()) return;
  bool ok = true;
  auto mm = [&](auto get, double lo, double hi) { double a = get(c[0]), b = a; for (auto& p : c) { a = std::min(a, get(p)); b = std::max(b, get(p)); } if (a != lo || b != hi) ok = false; };
  for (int k = 0; k < 3; k++) mm([k](const P& p) { return p.x[k]; }, c.bbmin[k], c.bbmax[k]);
  for (int k = 0; k < FTK_CP_MAX_NUM_VARS; k++) { mm([k](const P& p) { return p.scalar[k]; }, c.min[k], c.max[k]); if (c.persistence[k] != c.max[k] - c.min[k]) ok = false; }
  mm([](const P& p) { return p.t; }, c.tmin, c.tmax);
  mm([](const P& p) { return std::sqrt(p.v[0] * p.v[0] + p.v[1] * p.v[1] + p.v[2] * p.v[2]); }, c.vmmin, c.vmmax);
  unsigned ct = c[0].type; for (auto& p : c) if (p.type != ct) { ct = 0; break; }
  if (ct != c.consistent_type) ok = false;
  VH_CHECK(ok, key, "statistics of the curve are inconsistent with its points (t [%g,%g], bb0 [%g,%g], type %u) %s; %s", c.tmin, c.tmax, c.bbmin[0], c.bbmax[0], c.consistent_type, show(c).c_str(), ctx.c_str());
  vh::count("statistics_compared");
}
// --- generator: a curve as tracing makes it (ascending, descending, turning in time, closed) or an arbitrary one
static C gen(Rng& r, unsigned long long& tag) {
  C c;
  size_t n = r.pick({0, 1, 1, 2, 2, 3, 4, 5, 8, 13, 20, 40}); if (r.coin(0.4)) n = r.below(30);
  int mode = r.below(5); // 0 ascending 1 descending 2 turning 3 arbitrary 4 closed
  c.id = (int)r.below(1000); c.loop = mode == 4 && n > 0; c.complete = r.coin();
  int nty = r.pick({1, 2, 2, 3}); double stick = r.pick({0.0, 0.5, 0.8, 0.95}); bool zero = r.coin(0.3);
  unsigned tys[4]; for (auto& t : tys) t = zero && r.coin(0.4) ? 0 : 1u << r.below(5);
  unsigned ty = tys[r.below(nty)];
  double t = r.below(4), pord = r.pick({0.0, 0.3, 0.6, 1.0}); bool jitter = r.coin(0.4);
  double turn = 0.5 + 0.4 * r.gauss();
  for (size_t i = 0; i < n; i++) {
    P p;
    for (auto& v : p.x) v = r.gauss() * 3; for (auto& v : p.v) v = r.gauss(); for (auto& v : p.scalar) v = r.gauss();
    if (r.coin(0.05)) p.x[0] = p.v[0] = 0;
    if (!r.coin(stick)) ty = tys[r.below(nty)];
    p.type = ty; p.ordinal = r.coin(pord);
    double dir = mode == 0 ? 1 : mode == 1 ? -1 : mode == 2 ? (i < turn * n ? 1 : -1) : mode == 4 ? (2 * i < n ? 1 : -1) : (r.coin() ? 1 : -1);
    t += dir * r.real() * 1.2;
    if (p.ordinal) t = dir > 0 ? std::ceil(t) : std::floor(t);
    p.t = t; p.timestep = (int)std::floor(t);
    if (!p.ordinal && jitter) p.t += 0.5 * r.gauss();
    p.tag = tag++; p.id = c.id;
    c.push_back(p);
  }
  c.update_statistics();
  return c;
}
static uint64_t hc(const C& c) { uint64_t h = vh::mix(c.size() * 2 + c.loop); for (auto& p : c) h = vh::hcomb(h, p.tag * 64 + p.type * 2 + p.ordinal + vh::dbits(p.t)); return h; }
// --- models
static std::vector<std::vector<P>> m_split(const C& c) {
  std::vector<std::vector<P>> r; for (size_t i = 0; i < c.size(); i++) { if (i == 0 || c[i].type != c[i - 1].type) r.push_back({}); r.back().push_back(c[i]); } return r;
}
static std::vector<P> m_intercept(const C& c, int a, int b) { std::vector<P> r; for (auto& p : c) if (p.t >= a && p.t <= b) r.push_back(p); return r; }
static std::vector<P> m_smooth_ord(const C& c, int w) {
  std::vector<P> r = pts(c); std::vector<int> o; for (size_t i = 0; i < r.size(); i++) if (r[i].ordinal) o.push_back(i);
  for (int i = w; i + w < (int)o.size(); i++) { std::set<unsigned> s; for (int j = i - w; j <= i + w; j++) if (j != i) s.insert(c[o[j]].type); if (s.size() == 1 && *s.begin() != 0) r[o[i]].type = *s.begin(); }
  return r;
}
static std::vector<P> m_smooth_int(const C& c) {
  std::vector<P> r = pts(c); std::vector<int> o; for (size_t i = 0; i < r.size(); i++) if (r[i].ordinal) o.push_back(i);
  if (o.empty()) return r;
  for (int i = 0; i < (int)r.size(); i++) {
    if (r[i].ordinal) continue;
    auto nx = std::lower_bound(o.begin(), o.end(), i);
    if (nx == o.begin()) { r[i].type = c[o[0]].type; continue; }
    if (nx == o.end()) { r[i].type = c[o.back()].type; continue; }
    unsigned lt = c[*(nx - 1)].type, rt = c[*nx].type;
    bool changed = false; for (int j = *(nx - 1); j <= i; j++) if (c[j].type != lt) changed = true;
    r[i].type = changed ? rt : lt;
  }
  return r;
}
static void same_meta(const C& a, const C& b, const char* op) { VH_CHECK(a.id == b.id && a.loop == b.loop && a.complete == b.complete, strf("%s-meta", op), "%s changed id/loop/complete: before %s after %s", op, show(b).c_str(), show(a).c_str()); }
// applies a named operation, judging it; returns false when it is not applicable
static bool apply(Rng& r, C& c, const std::string& op) {
  const C b(c);
  if (op == "rotate") {
    c.rotate();
    same_meta(c, b, "rotate");
    auto runs = m_split(b);
    if (!b.loop || b.empty() || b.front().type != b.back().type || runs.size() < 2) VH_CHECK(eqseq(pts(c), pts(b)), "rotate-noop", "rotate changed a curve that needs no rotation: %s -> %s", show(b).c_str(), show(c).c_str());
    else {
      vh::count("loops_rotated");
      size_t k = 0; while (k < b.size() && !eqp(b[k], c[0])) k++;
      std::vector<P> e = pts(b); if (k < e.size()) std::rotate(e.begin(), e.begin() + k, e.end());
      VH_CHECK(k < b.size() && eqseq(pts(c), e), "rotate-points", "rotate is not a cyclic shift: %s -> %s", show(b).c_str(), show(c).c_str());
      VH_CHECK(m_split(c).size() == runs.size() - 1, "rotate-runs", "a rotated loop must begin where the type changes: %s -> %s", show(b).c_str(), show(c).c_str());
    }
  } else if (op == "reorder") {
    c.reorder(); same_meta(c, b, "reorder");
    std::vector<P> f = pts(b), g = f; std::reverse(g.begin(), g.end());
    VH_CHECK(eqseq(pts(c), f) || (!b.loop && eqseq(pts(c), g)), "reorder-points", "reorder is neither the curve nor its reverse: %s -> %s", show(b).c_str(), show(c).c_str());
    if (!c.empty() && !c.loop) VH_CHECK(std::make_pair(c.front().timestep, c.front().t) <= std::make_pair(c.back().timestep, c.back().t) || c.front().timestep < c.back().timestep, "reorder-order", "reordered curve still descends: %s", show(c).c_str());
    if (!eqseq(pts(c), f)) vh::count("curves_reversed");
    else if (!b.empty() && !b.loop) { }
    C d(c); d.reorder(); VH_CHECK(eqseq(pts(d), pts(c)), "reorder-idempotent", "reordering twice differs: %s -> %s", show(c).c_str(), show(d).c_str());
  } else if (op == "adjust_time") {
    c.adjust_time(); same_meta(c, b, "adjust_time");
    bool only_t = c.size() == b.size(), ordkept = true;
    for (size_t i = 0; only_t && i < c.size(); i++) { P p = c[i]; p.t = b[i].t; if (!eqp(p, b[i])) only_t = false; if (b[i].ordinal && c[i].t != b[i].t) ordkept = false; }
    VH_CHECK(only_t, "adjust-time-points", "adjust_time changed more than times: %s -> %s", show(b).c_str(), show(c).c_str());
    VH_CHECK(ordkept, "adjust-time-ordinal", "adjust_time moved an ordinal point: %s -> %s", show(b).c_str(), show(c).c_str());
    bool asc = true; double last = -1e300; for (auto& p : b) if (p.ordinal) { if (p.t < last) asc = false; last = p.t; }
    if (asc && only_t) { // the ordinal points ascend: so must the whole curve
      bool mono = true, was = true; for (size_t i = 1; i < c.size(); i++) { if (c[i].t < c[i - 1].t) mono = false; if (b[i].t < b[i - 1].t) was = false; }
      VH_CHECK(mono, "adjust-time-monotone", "times still decrease after adjust_time: %s -> %s", show(b).c_str(), show(c).c_str());
      if (was) VH_CHECK(eqseq(pts(c), pts(b)), "adjust-time-noop", "adjust_time changed an already monotone curve: %s -> %s", show(b).c_str(), show(c).c_str()); else vh::count("times_adjusted");
      double lo = 1e300, hi = -1e300; for (auto& p : b) lo = std::min(lo, p.t), hi = std::max(hi, p.t);
      for (auto& p : c) VH_CHECK(p.t >= lo && p.t <= hi, "adjust-time-range", "adjust_time invents a time outside the curve: %s -> %s", show(b).c_str(), show(c).c_str());
    }
  } else if (op == "smooth_ordinal") {
    int w = r.pick({0, 1, 2, 2, 3}); if (w == 0) return false;
    auto e = m_smooth_ord(b, w); if (w == 2 && r.coin()) c.smooth_ordinal_types(); else c.smooth_ordinal_types(w);
    same_meta(c, b, "smooth_ordinal_types");
    VH_CHECK(eqseq(pts(c), e), "smooth-ordinal", "smooth_ordinal_types(%d): %s -> %s", w, show(b).c_str(), show(c).c_str());
    if (!eqseq(e, pts(b))) vh::count("ordinal_types_smoothed");
  } else if (op == "smooth_interval") {
    auto e = m_smooth_int(b); c.smooth_interval_types(); same_meta(c, b, "smooth_interval_types");
    VH_CHECK(eqseq(pts(c), e), "smooth-interval", "smooth_interval_types: %s -> %s", show(b).c_str(), show(c).c_str());
    if (!eqseq(e, pts(b))) vh::count("interval_types_smoothed");
  } else if (op == "discard_interval" || op == "discard_degenerate" || op == "discard") {
    auto f = [&](const P& p) { return op == "discard_interval" ? !p.ordinal : op == "discard_degenerate" ? (p.type == 0 || p.type == 1) : p.x[0] > 0; };
    std::vector<P> e; for (auto& p : b) if (!f(p)) e.push_back(p);
    if (op == "discard_interval") c.discard_interval_points(); else if (op == "discard_degenerate") c.discard_degenerate_points(); else c.discard([&](const P& p) { return f(p); });
    same_meta(c, b, "discard");
    VH_CHECK(eqseq(pts(c), e), "discard-points", "%s: %s -> %s", op.c_str(), show(b).c_str(), show(c).c_str());
    check_stats(c, "discard-statistics", op);
    vh::count("points_discarded", b.size() - e.size());
  } else if (op == "derive_velocity") {
    c.derive_velocity(); same_meta(c, b, "derive_velocity");
    bool rest = c.size() == b.size(), val = true;
    for (size_t i = 0; rest && i < c.size(); i++) {
      P p = c[i]; p.v = b[i].v; if (!eqp(p, b[i])) rest = false;
      if (b.size() >= 2) for (int k = 0; k < 3; k++) { double e = i == 0 ? b[1].x[k] - b[0].x[k] : i + 1 == b.size() ? b[i].x[k] - b[i - 1].x[k] : 0.5 * (b[i + 1].x[k] - b[i - 1].x[k]); if (std::abs(e - c[i].v[k]) > 1e-12 * (1 + std::abs(e))) val = false; }
    }
    VH_CHECK(rest, "velocity-points", "derive_velocity changed more than velocities: %s -> %s", show(b).c_str(), show(c).c_str());
    VH_CHECK(val, "velocity-values", "derive_velocity is not the central difference: %s", show(b).c_str());
  } else if (op == "relabel") {
    int i = r.below(500); c.relabel(i); bool ok = c.id == i; for (auto& p : c) if (p.id != (unsigned)i) ok = false;
    VH_CHECK(ok && eqseq(pts(c), pts(b), false), "relabel", "relabel(%d): %s", i, show(c).c_str());
  } else if (op == "copy") {
    C d; if (r.coin()) { unsigned long long t = 1u << 30; d = gen(r, t); } d = c; C& self = c; self = d; C* q = &c; c = *q; // includes self-assignment
    VH_CHECK(eqseq(pts(c), pts(b)) && eqseq(pts(d), pts(b)), "assign-points", "assignment loses points: %s -> %s", show(b).c_str(), show(c).c_str());
    same_meta(c, b, "assign"); same_meta(d, b, "assign");
  } else return false;
  vh::count("op_" + op);
  return true;
}
static const char* OPS[] = {"rotate", "reorder", "adjust_time", "smooth_ordinal", "smooth_interval", "discard_interval", "discard_degenerate", "discard", "derive_velocity", "relabel", "copy"};
static void judge_split(const C& c) {
  auto s = c.split(); auto e = m_split(c);
  std::vector<P> all; for (auto& p : s) all.insert(all.end(), p.begin(), p.end());
  VH_CHECK(eqseq(all, pts(c), false), "split-points", "the pieces of a split do not concatenate to the curve (%zu of %zu points): %s", all.size(), c.size(), show(c).c_str());
  bool ok = s.size() == e.size(); for (size_t i = 0; ok && i < s.size(); i++) if (!eqseq(pts(s[i]), e[i], false)) ok = false;
  VH_CHECK(ok, "split-runs", "the pieces of a split are not the maximal runs of equal type (%zu pieces, expected %zu): %s", s.size(), e.size(), show(c).c_str());
  for (auto& p : s) check_stats(p, "split-statistics", "piece of " + show(c));
  vh::count("split_pieces", s.size()); if (s.size() > 1) vh::count("curves_split");
}
static void judge_intercept(Rng& r, const C& c) {
  for (int k = 0; k < 3; k++) {
    int a = (int)r.range(-3, 12), b = r.coin(0.8) ? a + (int)r.below(8) : a - 1;
    auto s = c.intercept(a, b); auto e = m_intercept(c, a, b);
    VH_CHECK(eqseq(pts(s), e, false), "intercept-points", "intercept(%d,%d) has %zu points, expected %zu: %s", a, b, s.size(), e.size(), show(c).c_str());
    if (!s.empty()) { check_stats(s, "intercept-statistics", show(c)); VH_CHECK(s.id == c.id, "intercept-id", "intercepted curve has id %d, not %d", s.id, c.id); vh::count("intercepts_nonempty"); }
  }
}
static uint64_t t_ops(Rng& r, int64_t) {
  unsigned long long tag = 1; C c = gen(r, tag); uint64_t h = hc(c); std::string hist = show(c);
  vh::note(hist);
  judge_split(c); judge_intercept(r, c);
  int n = 1 + r.below(6);
  for (int i = 0; i < n; i++) { std::string op = OPS[r.below(sizeof(OPS) / sizeof(*OPS))]; vh::note(op + " on " + show(c)); if (apply(r, c, op)) { h = vh::hcomb(h, vh::hash_str(op)); vh::seen_state(vh::hcomb(hc(c), vh::hash_str(op))); } judge_split(c); judge_intercept(r, c); }
  { std::vector<int> o, s; for (size_t i = 0; i < c.size(); i++) { if (c[i].ordinal) o.push_back(i); if (c[i].x[1] < 0.5) s.push_back(i); }
    VH_CHECK(c.to_ordinals() == o, "to-ordinals", "to_ordinals of %s", show(c).c_str()); VH_CHECK(c.select([](const P& p) { return p.x[1] < 0.5; }) == s, "select", "select of %s", show(c).c_str()); }
  if (r.coin(0.01)) vh::sample("ops", hist);
  return c.empty() && n == 1 ? 0 : h;
}
template <int k> static void unwrap_case(Rng& r, C c) {
  const double period = r.pick({1.0, 6.283185307179586, 16.0, 360.0});
  bool small = r.coin(0.3); double x = r.real() * period;
  for (auto& p : c) { if (r.coin(0.3)) x = r.real() * period; else x += (small ? 0.05 : 0.3) * period * r.gauss(); x -= period * std::floor(x / period); if (x >= period) x = 0; p.x[k] = x; }
  c.update_statistics(); const C b(c);
  c.template unwrap<k>(period);
  VH_CHECK(c.size() == b.size(), "unwrap-points", "unwrap changes the number of points"); if (c.size() != b.size()) return;
  bool rest = true, modp = true, jump = true, bb = true; double lo = 1e300, hi = -1e300; bool wrapped = false;
  for (size_t i = 0; i < c.size(); i++) {
    P p = c[i]; p.x[k] = b[i].x[k]; if (!eqp(p, b[i])) rest = false;
    double d = (c[i].x[k] - b[i].x[k]) / period; if (std::abs(d - std::round(d)) > 1e-9) modp = false; if (std::abs(d) > 0.5) wrapped = true;
    if (i && std::abs(c[i].x[k] - c[i - 1].x[k]) > period / 2 * (1 + 1e-9)) jump = false;
    lo = std::min(lo, c[i].x[k]); hi = std::max(hi, c[i].x[k]);
  }
  if (c.size()) { if (c[0].x[k] != b[0].x[k]) modp = false; if (c.bbmin[k] != lo || c.bbmax[k] != hi) bb = false; }
  VH_CHECK(rest, "unwrap-other", "unwrap changes other attributes"); VH_CHECK(modp, "unwrap-period", "unwrapped coordinates are not shifted by whole periods");
  VH_CHECK(jump, "unwrap-jump", "unwrapped curve still jumps by more than half a period"); VH_CHECK(bb, "unwrap-bounds", "unwrap leaves a wrong bounding box");
  vh::count("unwrapped"); if (wrapped) vh::count("unwrapped_across_period");
}
static uint64_t t_unwrap(Rng& r, int64_t) {
  unsigned long long tag = 1; C c = gen(r, tag); vh::note(show(c));
  switch (r.below(3)) { case 0: unwrap_case<0>(r, c); break; case 1: unwrap_case<1>(r, c); break; default: unwrap_case<2>(r, c); }
  return c.empty() ? 0 : hc(c);
}
// --- sets
typedef feature_curve_set_t S;
typedef std::vector<std::pair<int, std::vector<P>>> Flat;
static Flat flat(const S& s) { Flat f; for (auto& kv : s) f.push_back({kv.first, pts(kv.second)}); return f; }
static bool eqflat(Flat a, Flat b) { // up to the order of curves with the same label
  if (a.size() != b.size()) return false;
  auto lt = [](const auto& x, const auto& y) { unsigned long long tx = x.second.empty() ? 0 : x.second[0].tag, ty = y.second.empty() ? 0 : y.second[0].tag; return std::make_tuple(x.first, tx, x.second.size()) < std::make_tuple(y.first, ty, y.second.size()); };
  std::sort(a.begin(), a.end(), lt); std::sort(b.begin(), b.end(), lt);
  for (size_t i = 0; i < a.size(); i++) if (a[i].first != b[i].first || !eqseq(a[i].second, b[i].second)) return false;
  return true;
}
static std::string show(const Flat& f) { std::string s = strf("%zu curves:", f.size()); for (auto& x : f) { if (s.size() > 600) { s += "..."; break; } s += strf(" %d(", x.first); for (auto& p : x.second) s += strf("%llu/ty%u/id%llu ", p.tag, p.type, p.id); s += ")"; } return s; }
static S genset(Rng& r, unsigned long long& tag, Flat& m) {
  S s; int n = r.pick({0, 1, 2, 3, 5, 8});
  auto lab = [](const C& c, int id) { auto p = pts(c); for (auto& q : p) q.id = id; return p; };
  for (int i = 0; i < n; i++) {
    C c = gen(r, tag); int mx = -1; for (auto& x : m) mx = std::max(mx, x.first);
    int how = r.below(4);
    if (how == 0) { int l = r.below(20); s.add(c, l); m.push_back({l, lab(c, l)}); }
    else if (how == 1) { C d = gen(r, tag); auto ids = s.add(std::vector<C>{c, d}); VH_CHECK(ids == (std::vector<int>{mx + 1, mx + 2}), "set-add-ids", "add() of two curves returned other ids than the next free ones"); m.push_back({mx + 1, lab(c, mx + 1)}); m.push_back({mx + 2, lab(d, mx + 2)}); }
    else { int id = s.add(c); VH_CHECK(id == mx + 1, "set-add-id", "add() returned id %d, expected the next free %d", id, mx + 1); m.push_back({mx + 1, lab(c, mx + 1)}); }
  }
  VH_CHECK(eqflat(flat(s), m), "set-add", "curves added to a set differ: %s; expected %s", show(flat(s)).c_str(), show(m).c_str());
  return s;
}
static uint64_t t_set(Rng& r, int64_t) {
  unsigned long long tag = 1; Flat m; S s = genset(r, tag, m); uint64_t h = 0;
  for (auto& kv : s) h = vh::hcomb(h, hc(kv.second) + kv.first);
  vh::note(show(flat(s)));
  for (int k = 0; k < 3; k++) { // interception
    int a = (int)r.range(-3, 10), b = a + (int)r.below(7); auto t = s.intercept(a, b); Flat e;
    for (auto& kv : s) { auto p = m_intercept(kv.second, a, b); if (!p.empty()) { for (auto& q : p) q.id = kv.second.id; e.push_back({kv.first, p}); } }
    VH_CHECK(eqflat(flat(t), e), "set-intercept", "intercept(%d,%d): %s; expected %s", a, b, show(flat(t)).c_str(), show(e).c_str());
  }
  { // foreach visits each curve once
    size_t n = 0, np = 0; s.foreach([&](const C& c) { n++; np += c.size(); }); size_t np2 = 0; for (auto& x : m) np2 += x.second.size();
    VH_CHECK(n == m.size() && np == np2, "set-foreach", "foreach visited %zu curves, set has %zu", n, m.size());
    std::multiset<int> ids, ids2; s.foreach([&](int i, const C&) { ids.insert(i); }); for (auto& x : m) ids2.insert(x.first); VH_CHECK(ids == ids2, "set-foreach-ids", "foreach passes other labels");
  }
  int nops = 1 + r.below(4);
  for (int k = 0; k < nops; k++) {
    Flat b = flat(s), e; 
    switch (r.below(3)) {
      case 0: { // split_all
        std::vector<std::tuple<bool>> d; for (auto& kv : s) kv.second.update_statistics();
        std::map<int, bool> lp; 
        for (auto& kv : s) { if (kv.second.empty()) continue; for (auto& p : m_split(kv.second)) { auto q = p; if (kv.second.consistent_type == 0) for (auto& x : q) x.id = kv.second[0].id; e.push_back({kv.second.consistent_type ? kv.first : (int)kv.second[0].id, q}); } }
        // curves without points may or may not stay
        s.split_all(); Flat g; for (auto& x : flat(s)) if (!x.second.empty()) g.push_back(x);
        VH_CHECK(eqflat(g, e), "split-all", "split_all: %s -> %s; expected %s", show(b).c_str(), show(g).c_str(), show(e).c_str());
        for (auto& kv : s) { check_stats(kv.second, "split-all-statistics", "after split_all"); if (!kv.second.empty()) VH_CHECK(kv.second.id == kv.first, "split-all-id", "piece labelled %d has id %d", kv.first, kv.second.id); }
        vh::count("split_all"); break; }
      case 1: { double th = r.gauss() * 2; auto f = [&](const C& c) { return c.empty() ? th > 0 : c[0].x[0] < th; };
        for (auto& kv : s) if (f(kv.second)) e.push_back({kv.first, pts(kv.second)});
        s.filter(f); VH_CHECK(eqflat(flat(s), e), "set-filter", "filter: %s -> %s; expected %s", show(b).c_str(), show(flat(s)).c_str(), show(e).c_str()); vh::count("filtered", b.size() - e.size()); break; }
      default: { std::string op = OPS[r.below(9)]; Rng q = r; s.foreach([&](C& c) { vh::note(op + " on " + show(c)); apply(q, c, op); c.update_statistics(); }); r = q; }
    }
  }
  return m.empty() ? 0 : h;
}
// the post-processing pipeline of the command line, against the single operations (each judged above)
static uint64_t t_pipeline(Rng& r, int64_t) {
  unsigned long long tag = 1; Flat m; S s = genset(r, tag, m);
  static const char* names[] = {"smooth_types", "rotate", "split", "discard_interval_points", "reorder", "adjust_time", "derive_velocity"};
  std::string ops; std::vector<std::string> l; int n = 1 + r.below(6);
  for (int i = 0; i < n; i++) { l.push_back(names[r.below(7)]); ops += (i ? "," : "") + l.back(); }
  vh::note(ops + " on " + show(flat(s)));
  for (auto& kv : s) kv.second.update_statistics();
  std::vector<std::pair<int, C>> M; for (auto& kv : s) M.push_back({kv.first, kv.second});
  for (auto& o : l) {
    std::vector<std::pair<int, C>> N;
    for (auto& x : M) {
      C& c = x.second; if (c.empty()) { N.push_back(x); continue; }
      auto set = [&](const std::vector<P>& p) { c.clear(); for (auto& q : p) c.push_back(q); };
      if (o == "smooth_types") { set(m_smooth_ord(c, 2)); set(m_smooth_int(c)); }
      else if (o == "rotate") { if (c.loop && c.front().type == c.back().type) { size_t i = 0; while (i < c.size() && c[i].type == c.front().type) i++; if (i < c.size()) std::rotate(c.begin(), c.begin() + i, c.end()); } }
      else if (o == "discard_interval_points" || o == "derive_velocity") { std::vector<P> p; for (auto& q : c) if (q.ordinal) p.push_back(q); set(p); if (o[1] == 'e' && c.size() >= 2) { auto p0 = pts(c); for (size_t i = 0; i < c.size(); i++) for (int k = 0; k < 3; k++) { size_t a = i ? i - 1 : 0, b = std::min(i + 1, c.size() - 1); double d = p0[b].x[k] - p0[a].x[k]; c[i].v[k] = i && i + 1 < c.size() ? 0.5 * d : d; } } }
      else if (o == "reorder") { if (!c.loop) { auto a = c.front(), b = c.back(); if (a.timestep == b.timestep ? a.t > b.t : a.timestep > b.timestep) std::reverse(c.begin(), c.end()); } }
      else if (o == "adjust_time") c.adjust_time();
      else if (o == "split") { auto ps = m_split(c); if (ps.size() > 1 || ps[0][0].type == 0) { for (auto& p : ps) { C d; for (auto& q : p) { d.push_back(q); d.back().id = ps[0][0].id; } d.id = (int)ps[0][0].id; N.push_back({d.id, d}); } continue; } }
      N.push_back(x);
    }
    M = N;
  }
  feature_curve_set_post_processor_t pp(ops); pp.filter(s);
  Flat g, e; for (auto& kv : s) if (!kv.second.empty()) g.push_back({kv.first, pts(kv.second)}); for (auto& x : M) if (!x.second.empty()) e.push_back({x.first, pts(x.second)});
  // velocities of derive_velocity: compare with tolerance by rounding
  auto rnd = [](Flat& f) { for (auto& x : f) for (auto& p : x.second) for (auto& v : p.v) v = std::round(v * 1e9) / 1e9 + 0.0; }; rnd(g); rnd(e);
  VH_CHECK(eqflat(g, e), "pipeline", "post-processing \"%s\": %s; expected %s", ops.c_str(), show(g).c_str(), show(e).c_str());
  for (auto& kv : s) check_stats(kv.second, "pipeline-statistics", ops);
  vh::count("pipelines");
  uint64_t h = vh::hash_str(ops); for (auto& x : m) for (auto& p : x.second) h = vh::hcomb(h, p.tag + p.type);
  return m.empty() ? 0 : h;
}
// longitude/latitude conversion with pieces cut at the date line
static uint64_t t_geo(Rng& r, int64_t) {
  unsigned long long tag = 1; S s; std::map<int, C> orig; int n = 1 + r.below(3);
  for (int i = 0; i < n; i++) {
    C c = gen(r, tag); double lon = r.real(-180, 180), lat = r.real(-80, 80);
    for (auto& p : c) { lon += r.pick({2.0, 20.0, 60.0}) * r.gauss(); lat = std::max(-85.0, std::min(85.0, lat + 5 * r.gauss())); double R = 6371229.0 + 1e4 * r.gauss(), a = lon * M_PI / 180, b = lat * M_PI / 180; p.x = {R * cos(a) * cos(b), R * sin(a) * cos(b), R * sin(b)}; }
    c.update_statistics(); int id = s.add(c); orig[id] = s.find(id)->second;
  }
  auto g = s.to_geo();
  for (auto& o : orig) {
    std::vector<P> all; auto rg = g.equal_range(o.first); size_t np = 0; bool jump = false, maximal = true; std::vector<C> ps;
    for (auto it = rg.first; it != rg.second; ++it) { np++; ps.push_back(it->second); for (auto& p : it->second) all.push_back(p); for (size_t i = 1; i < it->second.size(); i++) if (std::abs(it->second[i].x[0] - it->second[i - 1].x[0]) > 180) jump = true; VH_CHECK(it->second.id == o.first && !it->second.empty(), "geo-id", "piece of curve %d has id %d", o.first, it->second.id); check_stats(it->second, "geo-statistics", "to_geo"); }
    for (size_t i = 1; i < ps.size(); i++) if (!ps[i].empty() && !ps[i - 1].empty() && std::abs(ps[i].front().x[0] - ps[i - 1].back().x[0]) <= 180) maximal = false;
    bool same = all.size() == o.second.size();
    for (size_t i = 0; same && i < all.size(); i++) {
      P p = all[i]; p.x = o.second[i].x; if (!eqp(p, o.second[i])) same = false;
      double R = std::sqrt(p.x[0] * p.x[0] + p.x[1] * p.x[1] + p.x[2] * p.x[2]), lo = all[i].x[0] * M_PI / 180, la = all[i].x[1] * M_PI / 180;
      if (std::abs(R * cos(lo) * cos(la) - p.x[0]) + std::abs(R * sin(lo) * cos(la) - p.x[1]) + std::abs(R * sin(la) - p.x[2]) > 1e-3 || std::abs(all[i].x[2] - (R - 6371229.0)) > 1e-6) same = false;
    }
    VH_CHECK(same, "geo-points", "to_geo loses, reorders or misplaces points of %s", show(o.second).c_str());
    VH_CHECK(!jump && maximal, "geo-pieces", "pieces of to_geo are not cut exactly at the date line: %s", show(o.second).c_str());
    vh::count("geo_curves"); if (np > 1) vh::count("geo_cut");
  }
  return vh::mix(tag * 7919 + n);
}
// slices of a tracker's trajectories
struct Slicer : critical_point_tracker_2d_regular { Slicer() : tracker(diy::mpi::communicator()), critical_point_tracker_2d_regular(diy::mpi::communicator()) {} };
static uint64_t t_slice(Rng& r, int64_t) {
  unsigned long long tag = 1; Flat m; S s = genset(r, tag, m); Slicer t; t.get_traced_critical_points() = s;
  vh::note(show(m));
  uint64_t h = 1; int rounds = r.pick({1, 1, 2, 3});
  for (int k = 0; k < rounds; k++) {
    auto& tr = t.get_traced_critical_points();
    if (k && r.coin()) tr.foreach([](C& c) { c.discard_degenerate_points(); });
    t.slice_traced_critical_points();
    std::map<int, std::multiset<unsigned long long>> e, g; for (auto& kv : tr) for (auto& p : kv.second) if (p.ordinal) e[p.timestep].insert(p.tag);
    for (auto& kv : t.get_sliced_critical_points()) for (auto& p : kv.second) { g[kv.first].insert(p.tag); h = vh::hcomb(h, p.tag); VH_CHECK(p.timestep == kv.first, "slice-step", "slice %d holds a point of step %d", kv.first, p.timestep); }
    VH_CHECK(e == g, "slice-points", "slices do not hold exactly the ordinal points of their time step (slicing number %d): %s", k + 1, show(flat(tr)).c_str());
    vh::count("slices", g.size());
    auto f = [&](const P& p) { return p.x[0] > 0; };
    if (r.coin()) {
      t.select_sliced_critical_points(f); bool ok = true; size_t n = 0, n2 = 0;
      for (auto& kv : t.get_sliced_critical_points()) for (auto& p : kv.second) { n++; if (!f(p)) ok = false; } for (auto& kv : tr) for (auto& p : kv.second) if (p.ordinal && f(p)) n2++;
      VH_CHECK(ok && n == n2, "slice-select", "select_sliced_critical_points keeps %zu points, expected %zu", n, n2);
    }
    int a = (int)r.range(-2, 6), b = a + (int)r.below(4); auto ic = t.get_intercepted_critical_point(a, b); size_t n = 0, n2 = 0; for (auto& kv : ic) n += kv.second.size(); for (auto& kv : tr) n2 += m_intercept(kv.second, a, b).size();
    VH_CHECK(n == n2, "tracker-intercept", "get_intercepted_critical_point(%d,%d) has %zu points, expected %zu", a, b, n, n2);
  }
  return m.empty() ? 0 : h;
}
VH_MAIN({
  cpm::quiet();
  vh::group("ops", 4000, 60000, t_ops);
  vh::group("unwrap", 1500, 20000, t_unwrap);
  vh::group("sets", 1500, 20000, t_set);
  vh::group("pipeline", 1500, 20000, t_pipeline);
  vh::group("geo", 800, 10000, t_geo);
  vh::group("slices", 800, 10000, t_slice);
})
