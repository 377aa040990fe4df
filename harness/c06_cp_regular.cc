// C06: detected critical points on regular grids against an exact model.
#include "cpmodel.hh"
using namespace cpm;
static void check_points(const Grid& g, const Model& m, const Run& r, const Opts& o, const std::string& ctx, const std::function<void(const V&, double*)>& coords = nullptr) {
  Decoder dec(g); std::set<Face> got; std::set<unsigned long long> tags;
  for (auto& p : r.cps) {
    Face f = dec.face(p.tag);
    if (!tags.insert(p.tag).second || !got.insert(f).second) viol("duplicate", ctx + " a face is reported twice: " + fstr(f));
    count("points");
    if (m.nan_faces.count(f)) { viol("nan", ctx + " a face with a non-finite vertex is reported: " + fstr(f)); continue; }
    auto it = m.faces.find(f);
    if (it == m.faces.end()) { viol("spurious", ctx + " reported face without a zero (or outside the domain): " + fstr(f)); continue; }
    const Expect& e = it->second;
    bool ord = true; int tmin = f[0].back(); for (auto& v : f) { ord = ord && v.back() == f[0].back(); tmin = std::min(tmin, v.back()); }
    VH_CHECK(p.ordinal == ord, "ordinal", "%s face %s ordinal flag %d", ctx.c_str(), fstr(f).c_str(), p.ordinal);
    VH_CHECK(p.timestep == tmin, "timestep", "%s face %s time step %d", ctx.c_str(), fstr(f).c_str(), p.timestep);
    count(ord ? "ordinal_points" : "interval_points");
    if (ord) VH_CHECK(fabs(p.t - tmin) <= 1e-9 * (1 + tmin), "time", "%s in-slice face %s has t=%.17g", ctx.c_str(), fstr(f).c_str(), p.t);
    // always: the position lies within the face's extent
    double X[4][4], lo[4], hi[4]; for (int k = 0; k < 4; k++) lo[k] = 1e300, hi[k] = -1e300;
    for (int i = 0; i <= g.nd; i++) { X[i][0] = f[i][0]; X[i][1] = f[i][1]; X[i][2] = g.nd == 3 ? f[i][2] : 0; if (coords) coords(f[i], X[i]); X[i][3] = f[i].back(); for (int k = 0; k < 4; k++) { lo[k] = std::min(lo[k], X[i][k]); hi[k] = std::max(hi[k], X[i][k]); } }
    double P[4] = {p.x[0], p.x[1], p.x[2], p.t};
    if (!e.well) { count("flat_faces"); bool nanp = false; for (double x : P) nanp |= x != x; VH_CHECK(!nanp, "nan-position", "%s degenerate face %s is reported at a NaN position", ctx.c_str(), fstr(f).c_str()); if (!nanp) for (int k = 0; k < 4; k++) VH_CHECK(P[k] >= lo[k] - 1e-6 && P[k] <= hi[k] + 1e-6, "off-face", "%s degenerate face %s reported outside of the face", ctx.c_str(), fstr(f).c_str()); continue; }
    for (int k = 0; k < 4; k++) {
      double x = 0; for (int i = 0; i <= g.nd; i++) x += e.mu[i] * X[i][k];
      VH_CHECK(fabs(P[k] - x) <= 1e-6 * (1 + hi[k] - lo[k]), "position", "%s face %s coordinate %d is %.10g, the zero is at %.10g", ctx.c_str(), fstr(f).c_str(), k, P[k], x);
    }
    if (g.scalar_input) { double s = 0, sc = 1; bool sf = true; for (auto& v : f) sf = sf && std::isfinite(g.S[v.back()][g.at(v.data())]); if (sf) { for (int i = 0; i <= g.nd; i++) { double v = g.S[f[i].back()][g.at(f[i].data())]; s += e.mu[i] * v; sc = std::max(sc, fabs(v)); } VH_CHECK(fabs(p.scalar[0] - s) <= 1e-6 * sc, "scalar", "%s face %s scalar %.10g, interpolated %.10g", ctx.c_str(), fstr(f).c_str(), p.scalar[0], s); count("scalars"); } }
    bool jd = true; for (auto& v : f) jd = jd && g.jac_defined(v.data());
    if (jd && !o.degrees && !o.nojac) {
      double J[3][3] = {{0}}; bool fin = true;
      for (int i = 0; i <= g.nd; i++) for (int a = 0; a < g.nd; a++) for (int b = 0; b < g.nd; b++) { double x = g.jac(f[i].back(), f[i].data(), a, b); fin &= std::isfinite(x); J[a][b] += e.mu[i] * x; }
      int t = -1;
      if (fin) { if (g.nd == 2) { double J2[2][2] = {{J[0][0], J[0][1]}, {J[1][0], J[1][1]}}; t = type2(J2, g.scalar_input); } else if (g.scalar_input) t = type3(J); }
      if (t >= 0) { count("types"); count("type_" + std::to_string(g.nd) + "d_" + std::to_string(t)); VH_CHECK((int)p.type == t, "type", "%s face %s type %u, its Jacobian (%g %g %g; %g %g %g; %g %g %g) implies %d", ctx.c_str(), fstr(f).c_str(), p.type, J[0][0], J[0][1], J[0][2], J[1][0], J[1][1], J[1][2], J[2][0], J[2][1], J[2][2], t); }
    }
    if (o.degrees && g.nd == 2) {
      if (!ord) { VH_CHECK(p.type == 0, "degree", "%s interval face %s has type %u in degrees mode", ctx.c_str(), fstr(f).c_str(), p.type); }
      else if (e.c == YES) { // degree of the linear field over the triangle
        double a = 0, b = 0; { double ux[2], vx[2], X1[2], X2[2]; for (int c = 0; c < 2; c++) { ux[c] = g.vec(f[1].back(), f[1].data(), c) - g.vec(f[0].back(), f[0].data(), c); vx[c] = g.vec(f[2].back(), f[2].data(), c) - g.vec(f[0].back(), f[0].data(), c); X1[c] = f[1][c] - f[0][c]; X2[c] = f[2][c] - f[0][c]; } a = ux[0] * vx[1] - ux[1] * vx[0]; b = X1[0] * X2[1] - X1[1] * X2[0]; }
        int deg = a * b > 0 ? 2 : 1; // the library's labels: 2 for index +1, 1 for index -1
        count("degrees"); VH_CHECK((int)p.type == deg, "degree", "%s face %s type %u in degrees mode, index of the zero is %s", ctx.c_str(), fstr(f).c_str(), p.type, deg == 2 ? "+1" : "-1");
      }
    }
  }
  if (o.filter < 0) for (auto& kv : m.faces) if (kv.second.c == YES && !got.count(kv.first)) viol("missed", ctx + " face with a zero strictly inside is not reported: " + fstr(kv.first));
  if (o.filter < 0 && !o.nonrobust) cells_of(g, [&](const Face& c, const std::vector<Face>& s) { int n = 0; for (auto& f : s) { if (m.nan_faces.count(f)) return; n += got.count(f); } if (n) { count(n == 2 ? "cells_crossed" : "cells_bad"); if (n != 2) viol("parity", ctx + " cell " + fstr(c) + strf(" has %d reported faces", n)); } });
}
static std::string ctx(const Grid& g, int kind) { std::string s = strf("%dD %s kind %d nt %d dims", g.nd, g.scalar_input ? "scalar" : "vector", kind, g.nt); for (int d : g.dims) s += strf(" %d", d); s += " org"; for (int d : g.org) s += strf(" %d", d); s += " domain"; for (int d = 0; d < g.nd; d++) s += strf(" %d..%d", g.dlo[d], g.dhi[d]); return s; }
static uint64_t one(Rng& r, int nd) {
  bool scalar = r.coin(); Grid g = grid(r, nd, scalar, opt().thorough); int kind = r.below(NKIND); double pn = r.coin(0.15) ? 0.02 : 0; fill(r, g, kind, pn);
  Opts o; o.nojac = !scalar && r.coin(0.1); o.nthreads = r.pick({1, 2, 5}); if (nd == 2 && !pn) o.degrees = r.coin(0.15);
  if (nd == 3 && (kind == RANDOM || kind == SMOOTH) && !pn && r.coin(0.15)) o.nonrobust = true;
  Model m; expect(g, m);
  if (o.nonrobust) { bool gen = true; for (auto& f : m.faces) gen &= f.second.c == YES; if (!gen) o.nonrobust = false; }
  std::string c = ctx(g, kind) + (o.degrees ? " degrees" : "") + (o.nonrobust ? " nonrobust" : ""); note(c); sample(strf("regular%dd", nd), c);
  std::function<void(const V&, double*)> coords; int nc = 3, mode = r.coin(0.5) ? 0 : 1 + r.below(3); for (int o1 : g.org) if (o1 && mode > 1) mode = 1;
  std::vector<ftk::ndarray<double>> rect; ftk::ndarray<double> ex; std::vector<double> bd;
  if (mode == 1) { for (int d = 0; d < nd; d++) { double a = r.real(-5, 5); bd.push_back(a); bd.push_back(a + r.real(0.5, 20)); } if (nd == 2) { bd.push_back(0); bd.push_back(0); }
    o.extra = [&](ftk::critical_point_tracker_regular& t) { t.set_coords_bounds(bd); };
    coords = [&](const V& v, double* X) { for (int d = 0; d < nd; d++) X[d] = bd[2 * d] + (v[d] - g.org[d]) / double(g.dims[d] - 1) * (bd[2 * d + 1] - bd[2 * d]); };
  } else if (mode == 2) { for (int d = 0; d < nd; d++) { ftk::ndarray<double> a(std::vector<size_t>(1, g.dims[d])); double x = r.real(-5, 5); for (int i = 0; i < g.dims[d]; i++) { a[i] = x; x += r.real(0.1, 3); } rect.push_back(a); }
    o.extra = [&](ftk::critical_point_tracker_regular& t) { t.set_coords_rectilinear(rect); };
    coords = [&](const V& v, double* X) { for (int d = 0; d < nd; d++) X[d] = rect[d][v[d]]; };
  } else if (mode == 3) { nc = nd == 2 ? r.range(2, 3) : 3; std::vector<size_t> sh{(size_t)nc}; for (int d : g.dims) sh.push_back(d); ex.reshape(sh); ex.set_multicomponents(1); for (size_t i = 0; i < ex.nelem(); i++) ex[i] = r.real(-9, 9);
    o.extra = [&](ftk::critical_point_tracker_regular& t) { t.set_coords_explicit(ex); };
    coords = [&](const V& v, double* X) { for (int d = 0; d < nc; d++) X[d] = ex[d + nc * g.at(v.data())]; };
  }
  count(strf("coords_mode_%d", mode));
  Run run1 = run(g, o);
  check_points(g, m, run1, o, c + strf(" coords %d", mode), coords);
  if (!o.degrees && r.coin(0.3)) { // type filter keeps exactly the points of the selected types
    Opts f = o; f.filter = r.pick({2, 4, 8, 6, 10, 48, 0, 127, 1}); Run r2 = run(g, f); std::map<unsigned long long, unsigned> want; for (auto& p : run1.cps) if (p.type & f.filter) want[p.tag] = p.type;
    std::map<unsigned long long, unsigned> have; for (auto& p : r2.cps) have[p.tag] = p.type; count("filtered_runs");
    VH_CHECK(want == have, "type-filter", "%s filter %d keeps %zu points, expected %zu", c.c_str(), f.filter, have.size(), want.size());
  }
  count("faces", m.nfaces);
  return m.faces.empty() ? 0 : hgrid(g);
}
VH_MAIN({ quiet(); group("2d", 500, 8000, [](Rng& r, int64_t) { return one(r, 2); }); group("3d", 120, 2000, [](Rng& r, int64_t) { return one(r, 3); }); })
