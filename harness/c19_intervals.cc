#include "vh.hh"
#include <ftk/config.hh>
#include <ftk/numeric/basic_interval.hh>
#include <ftk/numeric/disjoint_intervals.hh>
#include <ftk/numeric/linear_inequality_solver.hh>
#include <ftk/numeric/cubic_inequality_solver.hh>
#include <ftk/numeric/quadratic_rational_inequality_solver.hh>
#include <ftk/numeric/cubic_rational_inequality_solver.hh>
#include <ftk/numeric/rational_number.hh>
#include <gmpxx.h>
using namespace vh;
template <class T> using BI = ftk::basic_interval<T>;
template <class T> using DI = ftk::disjoint_intervals<T>;
// ---- model: set membership on a grid of probes; interval ends lie on even numbers, probes on all integers and far away
static const std::vector<long long> PROBES = [] { std::vector<long long> p; for (int i = -9; i <= 9; i++) p.push_back(i); p.push_back(1000001); p.push_back(-1000001); return p; }();
typedef std::vector<bool> Mask;
struct M { bool em = true, li = false, ui = false, lo = false, uo = false; long long l = 0, u = 0; // model of one interval
  bool has(long long x) const { if (em) return false; bool a = li || x > l || (x == l && !lo), b = ui || x < u || (x == u && !uo); return a && b; }
  Mask mask() const { Mask m; for (auto x : PROBES) m.push_back(has(x)); return m; }
  bool empty() const { if (em) return true; if (li || ui) return false; return l > u || (l == u && (lo || uo)); }
  std::string str() const { if (em) return "{}"; return (li ? std::string("(-inf") : (lo ? "(" : "[") + std::to_string(l)) + "," + (ui ? std::string("inf)") : std::to_string(u) + (uo ? ")" : "]")); } };
template <class T> Mask mask(const BI<T>& b) { Mask m; for (auto x : PROBES) m.push_back(b.contains(T(x))); return m; }
template <class T> Mask mask(const DI<T>& b) { Mask m; for (auto x : PROBES) m.push_back(b.contains(T(x))); return m; }
static Mask mor(Mask a, const Mask& b) { for (size_t i = 0; i < a.size(); i++) a[i] = a[i] || b[i]; return a; }
static Mask mand(Mask a, const Mask& b) { for (size_t i = 0; i < a.size(); i++) a[i] = a[i] && b[i]; return a; }
static bool any(const Mask& m) { for (bool b : m) if (b) return true; return false; }
static uint64_t mh(const Mask& m) { uint64_t h = 1; for (bool b : m) h = h * 2 + b; return h; }
template <class T> void gen(Rng& r, BI<T>& b, M& m, bool wild = true) { // builds the interval through the public setters
  auto ev = [&] { return (long long)(2 * r.range(-4, 4)); };
  int k = r.below(8); m = M();
  if (k == 0) { b = BI<T>(); return; }
  m.em = false;
  if (k == 1) { m.l = m.u = ev(); b = BI<T>(T(m.l)); }
  else if (k == 2) { b = BI<T>::complete_interval(); m.li = m.ui = true; }
  else { m.l = ev(); m.u = ev(); if (m.l > m.u && !(wild && r.coin(.2))) std::swap(m.l, m.u); b = BI<T>(T(m.l), T(m.u)); }
  for (int q = r.below(4); q > 0; q--) switch (r.below(wild ? 14 : 8)) {
    case 0: b.set_lower_open(); m.lo = true; break; case 1: b.set_upper_open(); m.uo = true; break;
    case 2: b.set_lower_closed(); m.lo = false; break; case 3: b.set_upper_closed(); m.uo = false; break;
    case 4: b.set_open(); m.lo = m.uo = true; break; case 5: b.set_closed(); m.lo = m.uo = false; break;
    case 6: b.set_lower_inf(); m.li = true; break; case 7: b.set_upper_inf(); m.ui = true; break;
    case 8: if (!m.li) { m.l = ev(); b.set_lower(T(m.l)); } break; case 9: if (!m.ui) { m.u = ev(); b.set_upper(T(m.u)); } break;
    case 10: b.set_to_complete(); m = M(); m.em = false; m.li = m.ui = true; break;
    case 11: b.set_to_empty(); m = M(); return;
    case 12: m = M(); m.em = false; m.l = m.u = ev(); b.set_to_singleton(T(m.l)); break;
    case 13: { BI<T> h = b.hull(); if (!m.em) { M e = m; e.lo = e.uo = false; if (mask(h) != e.mask()) viol("interval:hull", m.str()); } break; } }
}
template <class T> void judge(const BI<T>& b, const M& m, const std::string& D) {
  if (mask(b) != m.mask()) viol("interval:membership", D + " expected " + m.str());
  if (b.empty() != m.empty()) viol("interval:empty", D + " " + m.str());
  if (!m.empty()) {
    if (b.lower_unbounded() != m.li || b.upper_unbounded() != m.ui) viol("interval:bounded", D + m.str());
    if (b.complete() != (m.li && m.ui)) viol("interval:complete", D + m.str());
    if (b.singleton() != (!m.li && !m.ui && m.l == m.u)) viol("interval:singleton", D + m.str());
    if (b.lower_open() != (m.li || m.lo) || b.upper_open() != (m.ui || m.uo) || b.lower_closed() == b.lower_open() || b.upper_closed() == b.upper_open()) viol("interval:open", D + m.str());
    if (!std::numeric_limits<T>::is_integer) { T s = b.sample(); if (!b.contains(s)) viol("interval:sample", strf("%s sample %g", m.str().c_str(), (double)s)); }
  }
}
template <class T> uint64_t bi_case(Rng& r, int64_t) {
  BI<T> a, b; M ma, mb; gen(r, a, ma); gen(r, b, mb); note(ma.str() + " " + mb.str()); judge(a, ma, "a"); judge(b, mb, "b");
  auto I = mand(ma.mask(), mb.mask()), J = mor(ma.mask(), mb.mask()); std::string D = ma.str() + " with " + mb.str();
  bool cont = !ma.empty() && !mb.empty(); // do the real sets meet / touch?
  auto dbl = [](const M& m) { return std::make_pair(m.li ? -1e18 : m.l + (m.lo ? .5 : 0), m.ui ? 1e18 : m.u - (m.uo ? .5 : 0)); };
  bool meet = cont && std::max(dbl(ma).first, dbl(mb).first) <= std::min(dbl(ma).second, dbl(mb).second);
  if (a.overlaps(b) != meet || b.overlaps(a) != meet) viol("interval:overlaps", D);
  { auto c = a; c.intersect(b); if (mask(c) != I || c.empty() == meet) viol("interval:intersect", D); auto d = intersect(a, b), e = intersect(b, a); if (mask(d) != I || mask(e) != I) viol("interval:intersect", D + " (free function)"); auto f = c; f.intersect(b); if (mask(f) != I) viol("interval:intersect", D + " repeated"); }
  { auto c = a; bool ok = c.join(b); if (ok && mask(c) != J) viol("interval:join", D); if (!ok && mask(c) != ma.mask()) viol("interval:join", D + ": failed join changed the interval"); if (!ok && meet) viol("interval:join", D + ": overlapping intervals not joined"); if (meet && mask(join(a, b)) != J) viol("interval:join", D + " (free function)"); }
  count("interval_pairs"); return hcomb(hash_str(ma.str()), hash_str(mb.str()));
}
template <class T> uint64_t di_case(Rng& r, int64_t) {
  DI<T> d; Mask m(PROBES.size(), false); std::string D; auto chk = [&](const char* op) {
    note(D); if (mask(d) != m) viol(strf("intervals:%s", op), D);
    if (d.empty() != !any(m)) viol("intervals:empty", D);
    std::vector<BI<T>> s(d.subintervals().begin(), d.subintervals().end()); for (size_t i = 0; i < s.size(); i++) for (size_t j = i + 1; j < s.size(); j++) if (s[i].overlaps(s[j])) viol("intervals:disjoint", D); for (auto& x : s) if (x.empty()) viol("intervals:emptypart", D);
    bool all = true; for (bool b : m) all &= b; if (d.complete() && !all) viol("intervals:complete", D); if (all && !d.complete()) viol("intervals:complete", D + " (covers everything)");
    int n = 0; for (size_t i = 0; i < m.size() - 2; i++) n += m[i]; if (d.singleton() && n != 1) viol("intervals:singleton", D);
    if (!std::numeric_limits<T>::is_integer && any(m)) { T s2 = d.sample(); if (!d.contains(s2)) viol("intervals:sample", D); }
    seen_state(hcomb(mh(m), s.size())); count("interval_set_states"); };
  if (r.coin(.3)) { M x; x.em = false; x.l = 2 * r.range(-4, 4); x.u = 2 * r.range(-4, 4); d = DI<T>(T(x.l), T(x.u)); m = x.mask(); D = x.str(); chk("construct"); }
  int n = 1 + r.below(8);
  for (int k = 0; k < n; k++) {
    BI<T> b; M mb; gen(r, b, mb, r.coin(.2)); int op = r.below(10);
    if (op < 6) { D += " join" + mb.str(); if (!mb.em && !mb.li && !mb.ui && !mb.lo && !mb.uo && r.coin()) d.join(T(mb.l), T(mb.u)); else d.join(b); m = mor(m, mb.mask()); chk("join"); }
    else if (op < 7) { D += " and" + mb.str(); d.intersect(b); m = mand(m, mb.mask()); chk("intersect"); }
    else if (op < 9) { DI<T> e; Mask me(PROBES.size(), false); for (int q = r.below(4); q >= 0; q--) { BI<T> c; M mc; gen(r, c, mc, false); e.join(c); me = mor(me, mc.mask()); D += " {" + mc.str() + "}"; } D += " and{}"; d.intersect(e); m = mand(m, me); chk("intersect-set"); }
    else { bool w = false; for (auto& s : d.subintervals()) w |= s.overlaps(b); if (d.overlaps(b) != w) viol("intervals:overlaps", D); }
  }
  return hash_str(D);
}
// ---- inequalities
static double pe(const std::vector<double>& P, double x) { double y = 0, c = 1; for (double p : P) { y += p * c; c *= x; } return y; }
static std::vector<double> frompoly(const std::vector<double>& roots, double lead, int irr, double c, double w) { std::vector<double> P{lead}; auto mul = [&](std::vector<double> q) { std::vector<double> R(P.size() + q.size() - 1, 0); for (size_t i = 0; i < P.size(); i++) for (size_t j = 0; j < q.size(); j++) R[i + j] += P[i] * q[j]; P = R; }; for (double x : roots) mul({-x, 1}); if (irr) mul({c * c + w, -2 * c, 1}); return P; }
struct Poly { std::vector<double> P, roots; }; // all real roots known
static Poly gpoly(Rng& r, int deg, bool ints) { Poly p; double lead = (r.coin() ? 1 : -1) * (ints ? (double)(1 << r.below(3)) : r.real(.3, 3)); int d = r.below(deg + 1); bool irr = d >= 2 && r.coin(.35); int n = d - (irr ? 2 : 0);
  for (int i = 0; i < n; i++) { double x; bool ok; int tries = 0; do { x = ints ? (double)r.range(-6, 6) : r.real(-6, 6); ok = true; for (double y : p.roots) ok &= std::abs(x - y) > .3; } while (!ok && tries++ < 50); p.roots.push_back(x); }
  p.P = frompoly(p.roots, lead, irr, r.range(-3, 3), 1 + r.below(3)); p.P.resize(deg + 1, 0.0); return p; }
static uint64_t ineq_case(Rng& r, int64_t) {
  bool ints = r.coin(.6); int kind = r.below(4); std::string D; uint64_t h = kind;
  auto str = [](const std::vector<double>& v) { std::string s; for (double x : v) s += strf("%.17g ", x); return s; };
  auto probes = [&](std::vector<double> roots) { std::vector<double> x; for (double q : roots) for (double e : {1e-3, -1e-3, .1, -.1}) x.push_back(q + e); for (int k = 0; k < 30; k++) x.push_back(r.real(-9, 9)); for (double q : {-50., 40., -900., 1000.}) x.push_back(q); std::vector<double> y; for (double v : x) { bool far = true; for (double q : roots) far &= std::abs(v - q) > 5e-4; if (far) y.push_back(v); } return y; };
  auto sep = [&](const std::vector<double>& a, const std::vector<double>& b) { for (double x : a) for (double y : b) if (x != y && std::abs(x - y) < .05) return false; return true; };
  if (kind == 0) { double a = r.coin(.15) ? 0 : r.real(-3, 3), b = r.coin(.1) ? 0 : r.real(-3, 3); D = strf("linear %.17g x + %.17g", a, b); note(D); auto I = ftk::solve_linear_inequality(a, b); for (double x : probes(a ? std::vector<double>{-b / a} : std::vector<double>{})) { if (I.contains(x) != (a * x + b >= 0)) viol("inequality:linear", D + strf(" at %g", x)); count("inequality_probes"); } }
  else if (kind == 1) { auto p = gpoly(r, 3, ints); D = "cubic " + str(p.P); note(D); auto I = ftk::solve_cubic_inequality_real(p.P.data()); for (double x : probes(p.roots)) { if (I.contains(x) != (pe(p.P, x) >= 0)) viol("inequality:cubic", D + strf(" at %g", x)); count("inequality_probes"); } }
  else { int deg = kind == 2 ? 2 : 3; auto p = gpoly(r, deg, ints), q = gpoly(r, deg, ints); if (r.coin(.1)) { p.P.assign(deg + 1, 0.); p.roots.clear(); } if (r.coin(.1)) { q.P.assign(deg + 1, 0.); q.roots.clear(); }
    if (!sep(p.roots, q.roots)) return 0;
    bool pz = true, qz = true; for (double c : p.P) pz &= c == 0; for (double c : q.P) qz &= c == 0; if (pz && qz) return 0;
    D = strf("rational deg %d ", deg) + str(p.P) + "/ " + str(q.P); note(D); std::vector<double> all = p.roots; all.insert(all.end(), q.roots.begin(), q.roots.end());
    // exactly sized heap copies, so that reads past the coefficients are seen by AddressSanitizer
    std::unique_ptr<double[]> P(new double[deg + 1]), Q(new double[deg + 1]); std::copy(p.P.begin(), p.P.end(), P.get()); std::copy(q.P.begin(), q.P.end(), Q.get());
    const long long F = 1000000000L; auto t = deg == 2 ? ftk::solve_quadratic_rational_inequality_quantized(P.get(), Q.get(), F) : ftk::solve_cubic_rational_inequality_quantized(P.get(), Q.get(), F);
    auto& I = std::get<0>(t); DI<double> R(I, F); DI<double> R2 = deg == 3 ? ftk::solve_cubic_rational_inequality(P.get(), Q.get()) : R;
    for (double x : probes(all)) { double y = pe(p.P, x) / pe(q.P, x); bool want = pz ? true : qz ? false : y >= 0; if (I.contains((long long)(x * F)) != want || R.contains(x) != want || R2.contains(x) != want) { viol(strf("inequality:rational%d", deg), D + strf(" at %g value %g reported %d", x, y, (int)I.contains((long long)(x * F)))); break; } count("inequality_probes"); }
    for (auto& kv : std::get<1>(t)) { bool near = false; for (double x : all) near |= std::abs(x - kv.second) < 1e-5; if (!near || std::llabs((long long)(kv.second * F) - kv.first) > 1) viol("inequality:roots", D + strf(" reports root %g", kv.second)); } }
  return hash_str(D);
}
// ---- rational numbers against GMP
typedef ftk::rational<long long> Q;
static mpq_class ex(const Q& q) { mpq_class r(mpz_class((long)q.numerator()), mpz_class((long)q.denominator())); return r; }
static void canon(const Q& q, const mpq_class& want, const std::string& D) { mpq_class w = want; w.canonicalize(); if (q.denominator() <= 0) { viol("rational:sign", D + strf(" gives %lld/%lld", q.numerator(), q.denominator())); return; } if (w.get_num() != mpz_class((long)q.numerator()) || w.get_den() != mpz_class((long)q.denominator())) viol("rational:value", D + strf(" gives %lld/%lld, expected %s", q.numerator(), q.denominator(), w.get_str().c_str())); count("rational_results"); }
static uint64_t rat_case(Rng& r, int64_t) {
  auto num = [&](bool nz) { long long x; do { x = r.coin(.3) ? r.range(-12, 12) : r.range(-30000, 30000); } while (nz && !x); return x; };
  long long n = num(false), d = num(true); Q q(n, d); mpq_class e{mpz_class((long)n), mpz_class((long)d)}; e.canonicalize(); std::string D = strf("%lld/%lld", n, d); note(D); canon(q, e, D);
  for (int k = 0; k < 6; k++) {
    long long n2 = num(false), d2 = num(true), i = num(false); Q p(n2, d2); mpq_class f{mpz_class((long)n2), mpz_class((long)d2)}; f.canonicalize(); mpq_class fi(mpz_class((long)i)); int op = r.below(17); std::string O = strf("%s op%d %lld/%lld (%lld)", D.c_str(), op, n2, d2, i); note(O);
    if (ex(q).get_num() > 1000000000L || ex(q).get_num() < -1000000000L || ex(q).get_den() > 1000000000L) { q = Q(n, d); e = mpq_class(mpz_class((long)n), mpz_class((long)d)); e.canonicalize(); }
    switch (op) {
      case 0: q += p; e += f; break; case 1: q -= p; e -= f; break; case 2: q *= p; e *= f; break; case 3: if (n2) { q /= p; e /= f; } break;
      case 4: q += i; e += fi; break; case 5: q -= i; e -= fi; break; case 6: q *= i; e *= fi; break; case 7: if (i) { q /= i; e /= fi; } break;
      case 8: ++q; e += 1; break; case 9: --q; e -= 1; break;
      case 10: canon(q + p, e + f, O); break; case 11: canon(q - p, e - f, O); break;
      case 12: q = i; e = fi; break; case 13: q.assign(n2, d2); e = f; break; case 14: canon(abs(q), abs(e), O); break; case 15: { Q z(i); canon(z, fi, O); break; }
      case 16: { std::ostringstream os; os << q; if (os.str() != e.get_num().get_str() + "/" + e.get_den().get_str()) viol("rational:print", O + " prints " + os.str()); break; } }
    canon(q, e, O);
    if ((q < p) != (e < f) || (p < q) != (f < e) || (q == p) != (e == f)) viol("rational:compare", O);
    if ((q < i) != (e < fi) || (q > i) != (e > fi) || (q == i) != (e == fi) || (!q) != (e == 0)) viol("rational:compare-int", O);
    if (!(q == q) || q < q) viol("rational:compare-self", O);
    double v = ftk::rational_cast<double>(q); if (std::abs(v - e.get_d()) > 1e-12 * (1 + std::abs(v))) viol("rational:cast", O);
    D = ex(q).get_str();
  }
  return hash_str(D);
}
VH_MAIN({ group("interval", 6000, 200000, bi_case<double>); group("interval_int", 3000, 100000, bi_case<long long>); group("interval_float", 1000, 20000, bi_case<float>); group("intervals", 3000, 100000, di_case<double>); group("intervals_int", 2000, 60000, di_case<long long>); group("inequality", 3000, 100000, ineq_case); group("rational", 3000, 100000, rat_case); })
