// C06: detected critical points on unstructured meshes against an exact model.
#include "cptrace.hh"
using namespace cpm;
static uint64_t one(Rng& r, int D) {
  UCase c = ucase(r, D); note(c.u.desc); sample(strf("unstructured%dd", D), c.u.desc); UModel m; uexpect(c, m);
  Opts o; o.nthreads = r.pick({1, 2, 5}); if (D == 2) o.degrees = r.coin(0.15); if (!o.degrees && r.coin(0.15)) o.ignore = 1;
  Run q = urun(c, o); std::set<Tag> got; const std::string& ctx = c.u.desc;
  for (auto& p : q.cps) {
    count("points"); if (!got.insert(p.tag).second) viol("u-duplicate", ctx); auto it = m.faces.find(p.tag);
    if (it == m.faces.end()) { viol("u-spurious", ctx + " reported face without a zero " + (m.all.count(p.tag) ? fstr(m.all[p.tag]) : strf("(tag %llu is no face in the time range)", p.tag))); continue; }
    const Expect& e = it->second; const Face& f = e.f; bool ord = true; int tm = f[0][1]; for (auto& v : f) { ord = ord && v[1] == f[0][1]; tm = std::min(tm, v[1]); }
    VH_CHECK(p.ordinal == ord, "u-ordinal", "%s %s", ctx.c_str(), fstr(f).c_str()); VH_CHECK(p.timestep == tm, "u-timestep", "%s %s time step %d", ctx.c_str(), fstr(f).c_str(), p.timestep);
    if (!e.well) { count("flat_faces"); continue; }
    double P[4] = {p.x[0], p.x[1], p.x[2], p.t}; 
    for (int k = 0; k < 4; k++) { double x = 0; for (int i = 0; i <= D; i++) x += e.mu[i] * (k == 3 ? f[i][1] : k < D ? c.u.x[f[i][0] * D + k] : 0); VH_CHECK(fabs(P[k] - x) < 1e-6 * (1 + fabs(x)), "u-position", "%s face %s coordinate %d is %.10g, the zero is at %.10g", ctx.c_str(), fstr(f).c_str(), k, P[k], x); }
    for (int s = 0; s < c.nsc; s++) { if (o.degrees) break; double x = 0; for (int i = 0; i <= D; i++) x += e.mu[i] * c.S[f[i][1]][f[i][0] * c.nsc + s]; VH_CHECK(fabs(p.scalar[s] - x) < 1e-6 * 10, "u-scalar", "%s face %s scalar %d is %.10g, interpolated %.10g", ctx.c_str(), fstr(f).c_str(), s, p.scalar[s], x); count("scalars"); }
    double J[3][3] = {{0}}; int t = -1;
    if (c.jac) { for (int i = 0; i <= D; i++) for (int a = 0; a < D; a++) for (int b = 0; b < D; b++) J[a][b] += e.mu[i] * c.J[f[i][1]][(f[i][0] * D + a) * D + b]; if (D == 2) { double J2[2][2] = {{J[0][0], J[0][1]}, {J[1][0], J[1][1]}}; t = type2(J2, c.nsc > 0); } else t = type3(J); }
    else if (D == 2 && !c.nsc && ord) { // Jacobian of the linear field over the triangle
      double a[2][2], w[2][2], d; for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) { a[i][k] = c.u.x[f[i + 1][0] * 2 + k] - c.u.x[f[0][0] * 2 + k]; w[i][k] = c.VV[f[0][1]][f[i + 1][0] * 2 + k] - c.VV[f[0][1]][f[0][0] * 2 + k]; } d = a[0][0] * a[1][1] - a[0][1] * a[1][0];
      double J2[2][2]; for (int k = 0; k < 2; k++) { J2[k][0] = (w[0][k] * a[1][1] - w[1][k] * a[0][1]) / d; J2[k][1] = (w[1][k] * a[0][0] - w[0][k] * a[1][0]) / d; } t = type2(J2, false); }
    if (t >= 0 && !o.degrees) { count("types"); count(strf("type_%dd_%d", D, t)); VH_CHECK((int)p.type == t, "u-type", "%s face %s type %u, its Jacobian implies %d", ctx.c_str(), fstr(f).c_str(), p.type, t); }
    if (o.degrees && e.c == YES) { if (!ord) VH_CHECK(p.type == 0, "u-degree", "%s", ctx.c_str()); }
    count(ord ? "ordinal_points" : "interval_points");
  }
  if (!o.ignore) for (auto& kv : m.faces) if (kv.second.c == YES && !got.count(kv.first)) viol("u-missed", ctx + " face with a zero strictly inside is not reported " + fstr(kv.second.f));
  if (o.ignore) { Opts p = o; p.ignore = 0; Run all = urun(c, p); std::set<Tag> w; for (auto& x : all.cps) if (x.type > 1) w.insert(x.tag); count("ignoring_runs"); VH_CHECK(w == got, "u-ignore", "%s ignoring degenerate points keeps %zu points, expected %zu", ctx.c_str(), got.size(), w.size()); }
  std::map<Face, Tag> idx; for (auto& kv : m.all) idx[kv.second] = kv.first;
  if (!o.ignore) c.each(D + 1, [&](int, const Face& s) { std::vector<Tag> h; int n = 0; bool flat = false; 
    for (int i = 0; i < (int)s.size(); i++) { Face f; for (int j = 0; j < (int)s.size(); j++) if (j != i) f.push_back(s[j]); auto it = idx.find(f); if (it == idx.end()) { viol("u-face", ctx); return; } auto e = m.faces.find(it->second); if (e != m.faces.end() && !e->second.well) flat = true; n += got.count(it->second); }
    if (n && !flat) { count("cells_crossed"); VH_CHECK(n == 2, "u-parity", "%s cell %s has %d reported faces", ctx.c_str(), fstr(s).c_str(), n); } });
  if (!o.degrees && !o.ignore && r.coin(0.3)) { Opts f = o; f.filter = r.pick({2, 4, 8, 6, 10, 48, 0, 127, 1}); Run r2 = urun(c, f); std::set<Tag> w, h; for (auto& p : q.cps) if (p.type & f.filter) w.insert(p.tag); for (auto& p : r2.cps) h.insert(p.tag); count("filtered_runs"); VH_CHECK(w == h, "u-type-filter", "%s filter %d", ctx.c_str(), f.filter); }
  return m.faces.empty() ? 0 : hucase(c);
}
VH_MAIN({ quiet(); group("u2d", 400, 6000, [](Rng& r, int64_t) { return one(r, 2); }); group("u3d", 100, 1500, [](Rng& r, int64_t) { return one(r, 3); }); })
