// C25: particle tracing on regular grids against an independent space-time interpolation and RK4, plus accuracy of the integrators
// against exact flows; independence from other particles and from the number of threads.
#include "vh.hh"
#include "cpmodel.hh"
#include <ftk/numeric/clamp.hh>
#include <ftk/numeric/fmod.hh>
#include <ftk/ndarray.hh>
#include <ftk/numeric/rk4.hh>
#include <ftk/features/feature_curve_set.hh>
#include <ftk/filters/particle_tracer_regular.hh>
using namespace ftk; using vh::Rng; using vh::strf;
struct PT : particle_tracer_regular { PT(int nd) : tracker(diy::mpi::communicator()), particle_tracer_regular(diy::mpi::communicator(), nd) {} auto& traj() { return trajectories; } };
typedef std::vector<double> D;
struct Case { int nd, T, N, C, nth, nc; double dt; std::vector<int> an; std::vector<D> F; std::vector<D> seeds; std::vector<double> st; bool has_time, grid; int stride; std::string desc;
  size_t size() const { size_t s = 1; for (int d : an) s *= d; return s; } };
struct P { D x; double t; D v; };
typedef std::vector<std::vector<P>> Out;
static Case gen(Rng& r, int kind) {
  Case c; c.nd = r.pick({2, 3}); c.T = r.pick({1, 2, 2, 3, 4, 6}); c.N = r.pick({1, 2, 3, 7, 10, 16, 33, 128}); c.C = r.pick({1, 2, 3, 4, 5, 16, 200}); c.nth = r.pick({1, 1, 2, 4, 7});
  c.dt = r.pick({1.0, 1.0, 0.5, 2.0, 0.3, 17.0, 0.001}); for (int i = 0; i < c.nd; i++) c.an.push_back(r.pick({2, 3, 4, 6, 9, c.nd == 2 ? 14 : 7})); c.nc = c.nd + (r.coin(0.3) ? 1 : 0);
  double scale = r.pick({0.05, 0.3, 1.0, 3.0}) / (c.dt * std::max(1, c.T - 1)) * (*std::max_element(c.an.begin(), c.an.end())); double q[4][8]; for (auto& a : q) for (auto& b : a) b = r.gauss();
  for (int t = 0; t < c.T; t++) { D f(c.size() * c.nc);
    for (size_t k = 0; k < c.size(); k++) { D x; size_t m = k; for (int d : c.an) { x.push_back((double)(m % d)); m /= d; }
      for (int j = 0; j < c.nc; j++) { double v = 0;
        if (kind == 0) v = r.gauss(); else if (kind == 1) v = q[j][7]; // steady
        else if (kind == 2) { v = q[j][0]; for (int i = 0; i < c.nd; i++) v += q[j][1 + i] * (x[i] / c.an[i] - 0.5); v += q[j][5] * t / c.T; }
        else { double a = q[j][6]; for (int i = 0; i < c.nd; i++) a += q[j][i] * x[i]; v = std::sin(a + 0.7 * t); }
        f[k * c.nc + j] = v * scale; } }
    c.F.push_back(f); }
  c.grid = r.coin(0.15); c.has_time = !c.grid && c.T > 1 && r.coin(0.35); c.stride = c.nd + (c.has_time ? 1 : 0) + (int)r.below(2);
  int np = r.pick({0, 1, 1, 2, 5, 17, 40}); bool aligned = r.coin(0.6);
  if (!c.grid) for (int i = 0; i < np; i++) { D x; for (int d : c.an) x.push_back(r.coin(0.1) ? (double)r.below(d) : r.coin(0.04) ? -0.5 : r.coin(0.04) ? d - 0.5 : r.real(0, d - 1)); c.seeds.push_back(x);
    double t = 0; if (c.has_time) { if (aligned) t = (r.below(c.T - 1) + (r.coin(0.5) ? 0.0 : (double)r.below(c.N) / c.N)) * c.dt; else t = r.real(0, (c.T - 1) * c.dt); if (r.coin(0.03)) t = c.dt * (c.T + 1); if (r.coin(0.03)) t = -c.dt; } c.st.push_back(t); }
  else { size_t n = c.size(); for (size_t k = 0; k < n; k++) { D x; size_t m = k; for (int d : c.an) { x.push_back((double)(m % d)); m /= d; } c.seeds.push_back(x); c.st.push_back(0); } }
  c.desc = strf("kind %d nd %d size", kind, c.nd); for (int d : c.an) c.desc += strf(" %d", d); c.desc += strf(" T %d dt %g steps/interval %d steps/checkpoint %d threads %d seeds %zu%s%s scale %g", c.T, c.dt, c.N, c.C, c.nth, c.seeds.size(), c.has_time ? aligned ? " timed" : " timed (between steps)" : "", c.grid ? " grid" : "", scale);
  return c;
}
static lattice lat(const std::vector<int>& n) { return lattice(std::vector<size_t>(n.size(), 0), std::vector<size_t>(n.begin(), n.end())); }
static Out run(const Case& c, int nth, const std::vector<int>* subset = nullptr) {
  PT t(c.nd); t.set_domain(lat(c.an)); t.set_array_domain(lat(c.an)); t.set_number_of_threads(nth); t.set_ntimesteps(c.T); t.set_end_timestep(c.T - 1);
  t.set_nsteps_per_interval(c.N); t.set_nsteps_per_checkpoint(c.C); t.set_delta_t(c.dt); t.initialize();
  if (c.grid && !subset) t.initialize_particles_at_grid_points({});
  else { D buf; size_t n = 0; for (size_t i = 0; i < c.seeds.size(); i++) { if (subset && !std::count(subset->begin(), subset->end(), (int)i)) continue; n++; D row(c.stride, 777.0); for (int k = 0; k < c.nd; k++) row[k] = c.seeds[i][k]; if (c.has_time) row[c.nd] = c.st[i]; buf.insert(buf.end(), row.begin(), row.end()); } t.initialize_particles(n, buf.data(), c.stride, c.has_time); }
  for (int k = 0; k < c.T; k++) { ndarray<double> a; std::vector<size_t> s(1, c.nc); for (int d : c.an) s.push_back(d); a.reshape(s); a.set_multicomponents(1); for (size_t i = 0; i < c.F[k].size(); i++) a[i] = c.F[k][i]; t.push_field_data_snapshot("vector", a); if (k > 0) t.advance_timestep(); if (k == c.T - 1) t.update_timestep(); }
  t.finalize();
  Out o; for (auto& kv : t.traj()) { std::vector<P> tr; for (auto& p : kv.second) { P q; for (int k = 0; k < c.nd; k++) { q.x.push_back(p.x[k]); q.v.push_back(p.v[k]); } q.t = p.t; tr.push_back(q); } o.push_back(tr); }
  return o;
}
// --- model
struct Model { const Case& c; int i; bool near = false; // interval
  bool space(int t, const D& x, D& v) { v.assign(c.nd, 0); for (int k = 0; k < c.nd; k++) { double b = c.an[k] - 1; double tol = 1e-9 * (1 + b); if ((std::abs(x[k]) < tol && x[k] != 0) || (std::abs(x[k] - b) < tol && x[k] != b)) near = true; if (!(x[k] >= 0 && x[k] < b)) return false; }
    for (int m = 0; m < (1 << c.nd); m++) { double w = 1; size_t id = 0, s = 1; for (int k = 0; k < c.nd; k++) { int lo = (int)std::floor(x[k]), b = m >> k & 1; double f = x[k] - lo; w *= b ? f : 1 - f; id += s * (lo + b); s *= c.an[k]; } for (int j = 0; j < c.nd; j++) v[j] += w * c.F[t][id * c.nc + j]; }
    return true; }
  bool eval(const D& x, double t, D& v) { if (c.T == 1) return space(0, x, v); double u = t / c.dt - i; if (!(u >= -1e-7 && u <= 1 + 1e-7)) return false; u = std::min(1.0, std::max(0.0, u)); D a, b; if (!space(i, x, a) || !space(i + 1, x, b)) return false; v.resize(c.nd); for (int k = 0; k < c.nd; k++) v[k] = (1 - u) * a[k] + u * b[k]; return true; }
  bool step(D& x, double& t, double h) { D k1, k2, k3, k4, y(c.nd); auto at = [&](const D& k, double f) { for (int j = 0; j < c.nd; j++) y[j] = x[j] + f * h * k[j]; }; if (!eval(x, t, k1)) return false; at(k1, .5); if (!eval(y, t + h / 2, k2)) return false; at(k2, .5); if (!eval(y, t + h / 2, k3)) return false; at(k3, 1); if (!eval(y, t + h, k4)) return false; for (int j = 0; j < c.nd; j++) x[j] += h / 6 * (k1[j] + 2 * k2[j] + 2 * k3[j] + k4[j]); t += h; return true; }
};
struct Tr { std::vector<P> pts; bool near, full; int intervals; };
static Tr model(const Case& c, size_t s, double eps = 0) {
  Tr r; r.near = false; r.full = false; r.intervals = 0; D x = c.seeds[s]; if (eps) for (int k = 0; k < c.nd; k++) x[k] += x[k] > c.an[k] * 0.5 ? -eps : eps; double t = c.st[s]; D z(c.nd, NAN); r.pts.push_back({x, t, z}); double h = c.dt / c.N;
  for (int i = 0; i < std::max(1, c.T - 1); i++) { Model m{c, i}; double end = (i + 1) * c.dt; bool moved = false;
    for (int k = 0; k < c.N; k++) { if (k % c.C == 0) r.pts.push_back({x, t, z}); double hh = h; if (c.T > 1) { double rest = end - t; if (rest < 1e-8 * c.dt && rest > -1e-8 * c.dt) break; if (rest < 0) break; hh = std::min(hh, rest); if (rest < 1e-6 * c.dt) r.near = true; } if (!m.step(x, t, hh)) break; moved = true; if (k == c.N - 1) r.full = true; }
    r.pts.push_back({x, t, z}); r.near |= m.near; r.intervals += moved; }
  return r;
}
template <class E> static std::vector<P> dedup(const std::vector<P>& a, E eq) { std::vector<P> o; for (auto& p : a) if (o.empty() || !eq(o.back(), p)) o.push_back(p); return o; }
static std::string ps(const P& p) { std::string s = "("; for (double x : p.x) s += strf("%.9g ", x); return s + strf("; %.9g)", p.t); }
static bool dgt(const Case& c, const P& a, const P& b) { if (!(std::abs(a.t - b.t) <= 1e-9 * (1 + std::abs(a.t)) * std::max(c.dt, 1e-3) * 10)) return false; for (int k = 0; k < c.nd; k++) if (!(std::abs(a.x[k] - b.x[k]) <= 1e-8 * (1 + c.an[k]))) return false; return true; }
static uint64_t g_trace(Rng& r, int64_t idx) {
  Case c = gen(r, idx % 4); vh::sample("case", c.desc); uint64_t h = vh::mix(c.F[0].size() + c.seeds.size()); Out o = run(c, c.nth);
  if (o.size() != c.seeds.size()) { vh::viol("count", strf("%zu particles give %zu trajectories; %s", c.seeds.size(), o.size(), c.desc.c_str())); return h; }
  vh::count("trajectories", o.size()); if (c.has_time) vh::count("timed_seeds", o.size()); if (c.T == 1) vh::count("streamlines", o.size());
  for (size_t s = 0; s < o.size(); s++) {
    size_t j = s; auto& tr = o[s];
    if (tr.empty()) { vh::viol("empty", strf("trajectory %zu is empty; %s", s, c.desc.c_str())); continue; }
    if (c.grid) { j = SIZE_MAX; for (size_t q = 0; q < c.seeds.size(); q++) if (c.seeds[q] == tr[0].x) j = q; if (j == SIZE_MAX) { vh::viol("seed", strf("trajectory %zu starts at %s, which is no grid point; %s", s, ps(tr[0]).c_str(), c.desc.c_str())); continue; } }
    VH_CHECK(tr[0].x == c.seeds[j] && tr[0].t == c.st[j], "seed", "trajectory %zu starts at %s instead of %s; %s", s, ps(tr[0]).c_str(), ps({c.seeds[j], c.st[j], D()}).c_str(), c.desc.c_str());
    Tr m = model(c, j); for (auto& p : tr) for (double x : p.x) h = vh::hcomb(h, (uint64_t)(int64_t)(x * 1e6));
    if (m.near) { vh::count("near_border"); continue; }
    { Tr m2 = model(c, j, 1e-11); bool same = m2.pts.size() == m.pts.size(); for (size_t k = 0; same && k < m.pts.size(); k++) { if (std::abs(m2.pts[k].t - m.pts[k].t) > 1e-9 * c.dt) same = false; for (int q = 0; q < c.nd; q++) if (!(std::abs(m2.pts[k].x[q] - m.pts[k].x[q]) <= 1e-9)) same = false; } if (!same) { vh::count("sensitive"); continue; } } // amplifies rounding errors
    auto eqe = [&](const P& a, const P& b) { return dgt(c, a, b); };
    auto A = dedup(tr, eqe), B = dedup(m.pts, eqe); vh::count("points", A.size()); if (m.intervals == 0) vh::count("never_moved"); else vh::count("moved"); if (m.intervals && !m.full) vh::count("left_early"); if (m.intervals > 1) vh::count("crossed_intervals");
    std::string w; if (A.size() != B.size()) w = strf("%zu recorded points, %zu expected", A.size(), B.size());
    for (size_t k = 0; w.empty() && k < A.size(); k++) if (!dgt(c, A[k], B[k])) w = strf("point %zu is %s, expected %s", k, ps(A[k]).c_str(), ps(B[k]).c_str());
    if (A.size() != B.size()) w += strf("; ends at %s, expected %s", ps(A.back()).c_str(), ps(B.back()).c_str());
    if (!w.empty()) { vh::viol("path", strf("particle from %s: %s; %s", ps({c.seeds[j], c.st[j], D()}).c_str(), w.c_str(), c.desc.c_str())); continue; }
    for (size_t k = 1; k < A.size(); k++) VH_CHECK(A[k].t > A[k - 1].t, "time", "times do not increase: %s after %s; %s", ps(A[k]).c_str(), ps(A[k - 1]).c_str(), c.desc.c_str());
    // velocity: of this position, or of the position one step before
    double vs = 0; for (auto& f : c.F) for (double x : f) vs = std::max(vs, std::abs(x));
    for (size_t k = 1; k < tr.size(); k++) { auto& p = tr[k]; bool fin = true; for (double x : p.v) if (!std::isfinite(x) || std::abs(x) > vs * (1 + 1e-9)) fin = false; VH_CHECK(fin, "velocity", "velocity (%g %g) at %s is not a velocity of the field (magnitudes <= %g); %s", p.v[0], p.v[1], ps(p).c_str(), vs, c.desc.c_str()); }
    if (tr.size() > 1 && c.C >= 1) { Model mm{c, std::min(std::max(0, (int)std::floor(c.st[j] / c.dt + 1e-9)), std::max(0, c.T - 2))}; D v; if (mm.eval(c.seeds[j], c.st[j], v)) { // the first record of the interval in which the particle starts
        size_t k = 1; while (k < tr.size() && !(k + 1 >= tr.size() || tr[k + 1].t != tr[1].t)) k++; bool ok = true; for (int q = 0; q < c.nd; q++) if (!(std::abs(tr[k].v[q] - v[q]) <= 1e-9 * (vs + 1e-12))) ok = false; if (m.intervals) { vh::count("velocities"); VH_CHECK(ok, "velocity", "velocity at %s is (%g %g) instead of (%g %g); %s", ps(tr[k]).c_str(), tr[k].v[0], tr[k].v[1], v[0], v[1], c.desc.c_str()); } } }
  }
  return h;
}
static bool same(const std::vector<P>& a, const std::vector<P>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].x != b[i].x || a[i].t != b[i].t || memcmp(a[i].v.data(), b[i].v.data(), a[i].v.size() * sizeof(double))) return false; return true; }
static uint64_t indep(Rng& r, int64_t idx) {
  Case c = gen(r, idx % 4); c.grid = false; if (c.stride < c.nd) c.stride = c.nd; if (c.seeds.size() > 60) { c.seeds.resize(60); c.st.resize(60); } Out a = run(c, 1); vh::sample("case", c.desc);
  for (int th : {2, 5, 13}) { Out b = run(c, th); vh::count("thread_runs"); bool ok = a.size() == b.size(); for (size_t i = 0; ok && i < a.size(); i++) ok = same(a[i], b[i]); VH_CHECK(ok, "threads", "%d threads give other trajectories than one; %s", th, c.desc.c_str()); }
  for (int k = 0; k < 3 && !c.seeds.empty(); k++) { std::vector<int> sub; for (size_t i = 0; i < c.seeds.size(); i++) if (k == 0 ? i == idx % c.seeds.size() : r.coin(0.5)) sub.push_back((int)i); Out b = run(c, c.nth, &sub); bool ok = b.size() == sub.size(); size_t bad = 0; for (size_t i = 0; ok && i < sub.size(); i++) if (!same(b[i], a[sub[i]])) ok = false, bad = i; vh::count("subset_trajectories", sub.size());
    VH_CHECK(ok, "others", "a particle's trajectory depends on the other particles (particle %d); %s", sub.empty() ? -1 : sub[bad], c.desc.c_str()); }
  return vh::mix(c.seeds.size() * 31 + c.N);
}
// exact flows of (multi)linear fields: interpolation is exact, so the error is the integrator's: order 4
static uint64_t accuracy(Rng& r, int64_t idx) {
  int nd = r.pick({2, 3}); int n = 9, T = r.pick({2, 3}); double dt = r.pick({1.0, 0.5, 3.0}); double w = r.real(0.5, 1.5) / dt, w2 = r.real(-0.3, 0.3) / dt, a = r.real(-0.3, 0.3) / dt; D x0{4.0 + r.real(-1.5, 1.5), 4.0 + r.real(-1.5, 1.5), 4.0 + r.real(-1.5, 1.5)}; D u{r.real(-.5, .5) / dt, r.real(-.5, .5) / dt, 0};
  // v = (w + w2 t) J (x - c) in the plane, or a uniform acceleration; z: exponential
  bool rot = idx % 2; double tend = (T - 1) * dt;
  auto vel = [&](const D& x, double t) { D v(nd); if (rot) { double W = w + w2 * t / dt; v[0] = -W * (x[1] - 4); v[1] = W * (x[0] - 4); } else { v[0] = u[0] + w2 * t; v[1] = u[1] - w2 * t; } if (nd == 3) v[2] = a * (x[2] - 4); return v; };
  auto exact = [&](double t) { D x(nd); if (rot) { double th = w * t + w2 * t * t / 2 / dt; double dx = x0[0] - 4, dy = x0[1] - 4; x[0] = 4 + std::cos(th) * dx - std::sin(th) * dy; x[1] = 4 + std::sin(th) * dx + std::cos(th) * dy; } else { x[0] = x0[0] + u[0] * t + w2 * t * t / 2; x[1] = x0[1] + u[1] * t - w2 * t * t / 2; } if (nd == 3) x[2] = 4 + (x0[2] - 4) * std::exp(a * t); return x; };
  double e[3], mid[3] = {0, 0, 0}; int Ns[3] = {6, 12, 24}; std::string d = strf("order: nd %d T %d dt %g rot %d", nd, T, dt, (int)rot); vh::sample("case", d);
  for (int q = 0; q < 3; q++) {
    Case c; c.nd = nd; c.T = T; c.N = Ns[q]; c.C = 1; c.nth = 1; c.nc = nd; c.dt = dt; c.an.assign(nd, n); c.has_time = false; c.grid = false; c.stride = 3; c.seeds.push_back(D(x0.begin(), x0.begin() + nd)); c.st.push_back(0);
    for (int t = 0; t < T; t++) { D f(c.size() * nd); for (size_t k = 0; k < c.size(); k++) { D x; size_t m = k; for (int i = 0; i < nd; i++) { x.push_back((double)(m % n)); m /= n; } D v = vel(x, t * dt); for (int j = 0; j < nd; j++) f[k * nd + j] = v[j]; } c.F.push_back(f); }
    Out o = run(c, 1); auto& tr = o[0]; auto err = [&](const P& p) { D x = exact(p.t); double m = 0; for (int k = 0; k < nd; k++) m = std::max(m, std::abs(x[k] - p.x[k])); return m; };
    e[q] = err(tr.back()); for (auto& p : tr) mid[q] = std::max(mid[q], err(p)); bool inside = true; for (int k = 0; k <= 100; k++) { D x = exact(tend * k / 100); for (double y : x) if (y < 0.3 || y > n - 1.3) inside = false; } if (!inside) { vh::count("order_outside"); return 1; }
    VH_CHECK(std::abs(tr.back().t - tend) < 1e-9 * tend, "end", "particle ends at time %.12g instead of %g although it never leaves the domain; %s", tr.back().t, tend, d.c_str());
  }
  vh::count("orders"); VH_CHECK(mid[0] < 2e-2, "accuracy", "error %g with 6 steps per interval; %s", mid[0], d.c_str());
  for (int q = 0; q < 2; q++) VH_CHECK(mid[q + 1] <= mid[q] / 9 + 1e-11, "accuracy", "doubling the number of steps reduces the error from %g to %g only; %s", mid[q], mid[q + 1], d.c_str());
  return vh::mix(vh::dbits(w));
}
// integrators on the sphere: rigid rotations with vertical motion
static uint64_t sphere(Rng& r, int64_t) {
  double R = r.pick({1.0, 6371.0, 0.01}), om[3], x0[3]; double s = 0; for (auto& q : x0) q = r.gauss(), s += q * q; for (auto& q : x0) q *= R / std::sqrt(s); for (auto& q : om) q = r.gauss() * 0.4; double vr = r.coin(0.5) ? 0 : R * r.real(-0.1, 0.1), t0 = r.real(0, 5); int calls = 0, nv = 10;
  auto f = [&](const double* x, double* v) { calls++; v[0] = om[1] * x[2] - om[2] * x[1]; v[1] = om[2] * x[0] - om[0] * x[2]; v[2] = om[0] * x[1] - om[1] * x[0]; v[3] = 1; if (nv > 4) { for (int k = 4; k < 7; k++) v[k] = 0; v[4] = vr; } return true; };
  auto exact = [&](double t, double* y) { double w = std::sqrt(om[0] * om[0] + om[1] * om[1] + om[2] * om[2]), a[3], c = std::cos(w * t), n = std::sin(w * t), d = 0; for (int k = 0; k < 3; k++) a[k] = om[k] / w, d += a[k] * x0[k]; double cr[3] = {a[1] * x0[2] - a[2] * x0[1], a[2] * x0[0] - a[0] * x0[2], a[0] * x0[1] - a[1] * x0[0]}; double g = 1 + vr * t / R; for (int k = 0; k < 3; k++) y[k] = (c * x0[k] + n * cr[k] + (1 - c) * d * a[k]) * g; };
  for (int which = 0; which < 3; which++) { nv = which == 0 ? 4 : 10; if (which < 1 && vr != 0) continue; double e[3]; std::string d = strf("sphere: integrator %d R %g omega %g %g %g vertical %g", which, R, om[0], om[1], om[2], vr); vh::sample("case", d);
    for (int q = 0; q < 3; q++) { int N = 40 << q; double h = 1.0 / N; double x[10] = {x0[0], x0[1], x0[2], t0}, v[10]; bool ok = true; double alt = 0;
      for (int k = 0; k < N; k++) { double before[3] = {x[0], x[1], x[2]}; ok &= which == 0 ? spherical_rk1<double>(x, f, h, v) : which == 1 ? spherical_rk1_with_vertical_velocity<double>(x, f, h, v) : spherical_rk4_with_vertical_velocity<double>(x, f, h, v); double want[10]; f(before, want); double ve = 0; for (int j = 0; j < 3; j++) ve = std::max(ve, std::abs(v[j] - want[j])); VH_CHECK(ve <= 1e-12 * R, "sphere_velocity", "recorded velocity differs from the field's; %s", d.c_str());
        double rr = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]), expect = which == 2 ? R + vr * (k + 1) * h : R; alt = std::max(alt, std::abs(rr - expect)); }
      VH_CHECK(ok, "sphere_fail", "the integrator fails; %s", d.c_str()); VH_CHECK(alt <= 1e-9 * R, "sphere_radius", "distance from the centre off by %g; %s", alt, d.c_str()); VH_CHECK(std::abs(x[3] - t0 - 1) < 1e-9, "sphere_time", "time advances by %.12g instead of 1; %s", x[3] - t0, d.c_str());
      if (which == 1) VH_CHECK(std::abs(x[4] - vr) <= 1e-9 * R, "sphere_vertical", "vertical displacement %g instead of %g; %s", x[4], vr, d.c_str());
      double y[3]; exact(1, y); double g = which == 1 ? 1 + vr / R : 1; e[q] = 0; for (int k = 0; k < 3; k++) e[q] = std::max(e[q], std::abs(x[k] - y[k] / g)); e[q] /= R; }
    vh::count("sphere_runs"); vh::note(strf("sphere%d errors %g %g %g", which, e[0], e[1], e[2]));
    VH_CHECK(e[0] < 0.1 && e[1] < 0.7 * e[0] + 1e-10 && e[2] < 0.7 * e[1] + 1e-10, "sphere_accuracy", "errors %g %g %g do not decrease with the step; %s", e[0], e[1], e[2], d.c_str());
    if (which == 2 && vr == 0) VH_CHECK(e[1] < 0.3 * e[0] + 1e-10 && e[2] < 0.3 * e[1] + 1e-10, "sphere_accuracy", "errors %g %g %g do not decrease quadratically with the step; %s", e[0], e[1], e[2], d.c_str());
    if (getenv("SPH")) fprintf(stderr, "%d %g %g %g\n", which, e[0], e[1], e[2]); }
  // a field that is undefined beyond a parallel: the particle does not move on
  { double zmax = R * 0.3; auto g = [&](const double* x, double* v) { if (std::abs(x[2]) > zmax) return false; return f(x, v); }; double x[10] = {x0[0], x0[1], x0[2], t0}, v[10]; bool in = std::abs(x[2]) <= zmax; int steps = 0; while (steps < 200) { double b[4] = {x[0], x[1], x[2], x[3]}; if (!spherical_rk4_with_vertical_velocity<double>(x, g, 0.05, v)) { VH_CHECK(!memcmp(b, x, sizeof b), "sphere_stop", "the particle moves although the field is undefined"); break; } steps++; } if (!in) VH_CHECK(steps == 0, "sphere_stop", "the particle moves although it starts where the field is undefined"); vh::count("sphere_stops"); }
  return vh::mix((uint64_t)calls + (uint64_t)(std::abs(x0[0]) * 1e6));
}
VH_MAIN({vh::group("trace", 900, 16000, g_trace); vh::group("indep", 60, 1000, indep); vh::group("order", 40, 600, accuracy); vh::group("sphere", 60, 1000, sphere);})
