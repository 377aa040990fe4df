#include "vh.hh"
#include <gmpxx.h>
#include <ftk/config.hh>
#include <ftk/numeric/critical_point_test.hh>
#include <ftk/numeric/cross_product.hh>
#include <ftk/numeric/critical_point_degree.hh>
using namespace vh;
// ---- exact oracle ------------------------------------------------------------------------------------------
static mpq_class detn(std::vector<std::vector<mpq_class>> m) { // Gaussian elimination over the rationals
  int n = m.size(); mpq_class d = 1;
  for (int c = 0; c < n; c++) {
    int p = c; while (p < n && m[p][c] == 0) p++;
    if (p == n) return 0;
    if (p != c) { std::swap(m[p], m[c]); d = -d; }
    d *= m[c][c];
    for (int r = c + 1; r < n; r++) { mpq_class f = m[r][c] / m[c][c]; for (int k = c; k < n; k++) m[r][k] -= f * m[c][k]; }
  }
  return d;
}
// returns 1: x strictly inside, 0: strictly outside, -1: degenerate (x on a facet's hyperplane or flat simplex)
template <int D> int exact_inside(const std::vector<std::array<mpq_class, D>>& V, const std::array<mpq_class, D>& x) {
  auto det = [&](int rep) {
    std::vector<std::vector<mpq_class>> m(D + 1, std::vector<mpq_class>(D + 1));
    for (int i = 0; i <= D; i++) { for (int j = 0; j < D; j++) m[i][j] = i == rep ? x[j] : V[i][j]; m[i][D] = 1; }
    return sgn(detn(m));
  };
  int s = det(-1); if (s == 0) return -1;
  bool in = true;
  for (int i = 0; i <= D; i++) { int si = det(i); if (si == 0) return -1; if (si != s) in = false; }
  return in;
}
template <int D, class T> struct Pred;
template <class T> struct Pred<1, T> { static bool cp(const std::vector<std::array<T, 1>>& V, const std::vector<int>& id) { T v[2] = {V[0][0], V[1][0]}; return ftk::robust_critical_point_in_simplex1<T, int>(v, id.data()); }
  static bool pt(const std::vector<std::array<T, 1>>& V, const std::vector<int>& id, const std::array<T,1>& x, int ix) { T v[2] = {V[0][0], V[1][0]}; return ftk::robust_point_in_simplex1<T>(v, id.data(), x[0], ix); } };
template <class T> struct Pred<2, T> { static bool cp(const std::vector<std::array<T, 2>>& V, const std::vector<int>& id) { T v[3][2]; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) v[i][j] = V[i][j]; return ftk::robust_critical_point_in_simplex2<T, int>(v, id.data()); }
  static bool pt(const std::vector<std::array<T, 2>>& V, const std::vector<int>& id, const std::array<T,2>& x, int ix) { T v[3][2]; T y[2] = {x[0], x[1]}; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) v[i][j] = V[i][j]; return ftk::robust_point_in_simplex2<T>(v, id.data(), y, ix); } };
template <class T> struct Pred<3, T> { static bool cp(const std::vector<std::array<T, 3>>& V, const std::vector<int>& id) { T v[4][3]; for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) v[i][j] = V[i][j]; return ftk::robust_critical_point_in_simplex3<T, int>(v, id.data()); }
  static bool pt(const std::vector<std::array<T, 3>>& V, const std::vector<int>& id, const std::array<T,3>& x, int ix) { T v[4][3]; T y[3] = {x[0], x[1], x[2]}; for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) v[i][j] = V[i][j]; return ftk::robust_point_in_simplex3<T>(v, id.data(), y, ix); } };
static std::vector<int> rnd_ids(Rng& r, int n) {
  std::vector<int> id; int mode = r.below(4);
  while ((int)id.size() < n) { int v = mode == 0 ? (int)r.below(n + 2) : mode == 1 ? (int)r.below(1000) : mode == 2 ? 2147483647 - (int)r.below(50) : (int)r.below(2147483647); if (std::find(id.begin(), id.end(), v) == id.end()) id.push_back(v); }
  return id;
}
template <int D, class T> std::string show(const std::vector<std::array<T, D>>& V, const std::vector<int>& id) {
  std::ostringstream o; o << "D=" << D; for (size_t i = 0; i < V.size(); i++) { o << " id" << id[i] << "=("; for (int j = 0; j < D; j++) o << (j ? "," : "") << V[i][j]; o << ")"; } return o.str();
}
// all vertex listings give the same answer; returns it
template <int D, class T> bool all_orders(const std::vector<std::array<T, D>>& V, const std::vector<int>& id, const char* what) {
  std::vector<int> p(D + 1); std::iota(p.begin(), p.end(), 0);
  bool first = Pred<D, T>::cp(V, id);
  while (std::next_permutation(p.begin(), p.end())) {
    std::vector<std::array<T, D>> W; std::vector<int> q; for (int i : p) { W.push_back(V[i]); q.push_back(id[i]); }
    if (Pred<D, T>::cp(W, q) != first) { viol(strf("order:%s:%dD", what, D), "answer depends on vertex order: " + show<D, T>(V, id) + " answer " + (first ? "1" : "0")); break; }
  }
  count("order_checks");
  return first;
}
template <int D, class T> mpq_class toq(const T& x) { return mpq_class(x); }
template <int D, class T> uint64_t exact_case(Rng& r, const std::vector<std::array<T, D>>& V, const char* what, const std::function<mpq_class(const T&)>& q) {
  auto id = rnd_ids(r, D + 1);
  bool got = all_orders<D, T>(V, id, what);
  std::vector<std::array<mpq_class, D>> Q(D + 1); uint64_t h = D;
  for (int i = 0; i <= D; i++) for (int j = 0; j < D; j++) { Q[i][j] = q(V[i][j]); h = hcomb(h, std::hash<double>()(Q[i][j].get_d())); }
  std::array<mpq_class, D> z; for (auto& c : z) c = 0;
  int e = exact_inside<D>(Q, z);
  count(e < 0 ? "degenerate" : e ? "inside" : "outside");
  if (e >= 0 && got != (e == 1)) viol(strf("exact:%s:%dD", what, D), strf("exact answer %d, predicate says %d: ", e, (int)got) + show<D, T>(V, id));
  sample(strf("exact_%s_%dD", what, D), show<D, T>(V, id) + strf(" -> exact %d, predicate %d", e, (int)got));
  return h;
}
template <int D> std::vector<std::array<long long, D>> gen_int(Rng& r) {
  const long long mags[] = {1, 2, 5, 30, 1000, 32768, D == 3 ? 200000 : 20000000, D == 3 ? 500000 : 800000000};
  long long m = mags[r.below(8)];
  std::vector<std::array<long long, D>> V(D + 1);
  for (auto& v : V) for (auto& c : v) c = r.range(-m, m);
  int t = r.below(6);
  if (t == 1 && D >= 2) { // nearly degenerate: zero close to a facet
    long long k = r.range(1, 20); for (int j = 0; j < D; j++) V[1][j] = -V[0][j] * 1 + (r.coin() ? 0 : r.range(-1, 1)); (void)k; }
  if (t == 2) for (auto& v : V) v[D - 1] = r.range(-1, 1);
  if (t == 3) { // surround the zero
    for (int j = 0; j < D; j++) { long long s = 0; for (int i = 0; i < D; i++) s += V[i][j]; V[D][j] = std::max(-m, std::min(m, -s + r.range(-1, 1))); } }
  return V;
}
template <int D> uint64_t parity_case(const std::vector<std::array<long long, D>>& P, const std::vector<int>& id, bool with_mpf, const char* what) {
  // P: D+2 vertices of a (D+1)-simplex; its D+2 faces have D+1 vertices
  int n = 0, nm = 0; uint64_t h = D; std::string faces;
  for (int s = 0; s < D + 2; s++) {
    std::vector<std::array<long long, D>> V; std::vector<int> q;
    for (int i = 0; i < D + 2; i++) if (i != s) { V.push_back(P[i]); q.push_back(id[i]); }
    bool b = Pred<D, long long>::cp(V, q); n += b; faces += b ? '1' : '0';
    if (with_mpf) { std::vector<std::array<mpf_class, D>> M(D + 1); for (int i = 0; i <= D; i++) for (int j = 0; j < D; j++) M[i][j] = (double)V[i][j];
      bool bm = Pred<D, mpf_class>::cp(M, q); nm += bm;
      if (bm != b) viol(strf("arith:%dD", D), "integer and multi-precision answers differ: " + show<D, long long>(V, q)); }
  }
  for (auto& v : P) for (auto c : v) h = hcomb(h, c); for (int i : id) h = hcomb(h, i);
  sample(strf("parity_%s_%dD", what, D), show<D, long long>(P, id) + " faces containing a zero: " + faces);
  count("parity_simplices"); seen_state(hcomb(hash_str(what), hash_str(faces)));
  if (n != 0 && n != 2) viol(strf("parity:%s:%dD", what, D), strf("%d of the faces contain a zero (faces %s): ", n, faces.c_str()) + show<D, long long>(P, id));
  return h;
}
template <int D> void groups() {
  group(strf("exact_int_%dD", D), D == 3 ? 30000 : 20000, 400000, [](Rng& r, int64_t) {
    return exact_case<D, long long>(r, gen_int<D>(r), "int", [](const long long& x) { return mpq_class((double)x); }); });
  group(strf("exact_mpf_%dD", D), 5000, 100000, [](Rng& r, int64_t) {
    std::vector<std::array<mpf_class, D>> V(D + 1); double sc = ldexp(1.0, r.range(-12, 12)); auto I = gen_int<D>(r); bool fl = r.coin();
    for (int i = 0; i <= D; i++) for (int j = 0; j < D; j++) V[i][j] = fl ? ldexp((double)(float)(r.gauss() * sc), 15) : ldexp((double)I[i][j], -10);
    if (fl && r.coin(0.3)) for (int j = 0; j < D; j++) { mpf_class s = 0; for (int i = 0; i < D; i++) s += V[i][j]; V[D][j] = -s; }
    return exact_case<D, mpf_class>(r, V, "mpf", [](const mpf_class& x) { return mpq_class(x); }); });
  group(strf("parity_degenerate_%dD", D), D == 3 ? 60000 : 20000, D == 3 ? 2000000 : 200000, [](Rng& r, int64_t i) {
    std::vector<std::array<long long, D>> P(D + 2); int m = 1 + (int)r.below(2); int t = r.below(6);
    for (auto& v : P) for (auto& c : v) c = r.range(-m, m) * (t == 5 ? 100000 : 1);
    if (t == 1) for (auto& v : P) v[r.below(D)] = 0;
    if (t == 2) { int j = r.below(D); for (auto& v : P) v[j] = 0; }
    if (t == 3) P[r.below(D + 2)] = P[r.below(D + 2)];
    if (t == 4 && D > 1) for (auto& v : P) for (int j = 1; j < D; j++) v[j] = v[0] * (j + 1);
    return parity_case<D>(P, rnd_ids(r, D + 2), i % 16 == 0, "small"); });
  group(strf("parity_generic_%dD", D), 5000, 100000, [](Rng& r, int64_t i) {
    std::vector<std::array<long long, D>> P(D + 2); long long m = r.pick({10ll, 1000ll, 200000ll});
    for (auto& v : P) for (auto& c : v) c = r.range(-m, m);
    return parity_case<D>(P, rnd_ids(r, D + 2), i % 16 == 0, "generic"); });
  group(strf("point_query_%dD", D), 5000, 100000, [](Rng& r, int64_t) {
    // zero-in-simplex and point-in-simplex agree after a common translation; a coarse cut between exact inside/outside
    auto V = gen_int<D>(r); std::array<long long, D> x; long long m = 1; for (auto& v : V) for (auto c : v) m = std::max(m, std::abs(c));
    m = std::min<long long>(m, D == 3 ? 200000 : 100000000);
    for (auto& v : V) for (auto& c : v) c = std::max(-m, std::min(m, c));
    for (auto& c : x) c = r.range(-m, m);
    if (r.coin()) { std::vector<long long> w(D + 1); for (int j = 0; j < D; j++) { long long s = 0; for (int i = 0; i <= D; i++) s += V[i][j]; x[j] = s / (D + 1); } }
    auto id = rnd_ids(r, D + 1); int ix = r.coin() ? -1 : 2147483600 - 70 - (int)r.below(10);
    for (int i : id) if (i == ix) ix = -1;
    bool got = Pred<D, long long>::pt(V, id, x, ix);
    std::vector<std::array<mpq_class, D>> Q(D + 1); std::array<mpq_class, D> z; uint64_t h = 1;
    for (int j = 0; j < D; j++) { z[j] = (double)x[j]; for (int i = 0; i <= D; i++) { Q[i][j] = (double)V[i][j]; h = hcomb(h, V[i][j]); } }
    int e = exact_inside<D>(Q, z); count(e < 0 ? "pt_degenerate" : e ? "pt_inside" : "pt_outside");
    if (e >= 0 && got != (e == 1)) viol(strf("point:%dD", D), strf("exact %d got %d: ", e, got) + show<D, long long>(V, id));
    return h; });
}
VH_MAIN({
  groups<1>(); groups<2>(); groups<3>();
  group("parity_all_1D", 27 * 6, 27 * 6, [](Rng&, int64_t i) { // every vector in {-1,0,1}, every relative numbering
    std::vector<int> p = {0, 1, 2}; for (int k = 0; k < i / 27; k++) std::next_permutation(p.begin(), p.end());
    int c = i % 27; std::vector<std::array<long long, 1>> P(3); for (auto& v : P) { v[0] = c % 3 - 1; c /= 3; }
    return parity_case<1>(P, p, true, "all"); });
  group("parity_all_2D", 6561 * 4, 6561 * 24, [](Rng& r, int64_t i) { // every 4 vectors in {-1,0,1}^2
    std::vector<int> p = {0, 1, 2, 3}; for (int k = 0; k < i / 6561; k++) std::next_permutation(p.begin(), p.end());
    int c = i % 6561; std::vector<std::array<long long, 2>> P(4); for (auto& v : P) for (auto& x : v) { x = c % 3 - 1; c /= 3; }
    return parity_case<2>(P, p, i % 32 == 0, "all"); });
  group("degree_2D", 3000, 30000, [](Rng& r, int64_t) {
    double V[3][2]; double X[3][3]; for (auto& v : V) for (auto& c : v) c = r.gauss(); for (auto& v : X) for (auto& c : v) c = r.real(0, 1);
    auto cr = [](const double* a, const double* b) { return a[0] * b[1] - a[1] * b[0]; };
    double a = cr(V[0], V[1]), b = cr(V[1], V[2]), c = cr(V[2], V[0]);
    if (!((a > 1e-6 && b > 1e-6 && c > 1e-6) || (a < -1e-6 && b < -1e-6 && c < -1e-6))) return (uint64_t)0; // only simplices that contain the zero
    double o = (X[1][0] - X[0][0]) * (X[2][1] - X[0][1]) - (X[1][1] - X[0][1]) * (X[2][0] - X[0][0]);
    if (fabs(o) < 1e-6) return (uint64_t)0;
    int want = (a > 0 ? 1 : -1) * (o > 0 ? 1 : -1), got = ftk::critical_point_degree_simplex2(V, X);
    // the degree's global sign is a convention; compare up to the convention fixed by a reference triangle
    double V0[3][2] = {{1, 0}, {-0.5, 0.8}, {-0.5, -0.8}}, X0[3][3] = {{1, 0, 0}, {-0.5, 0.8, 0}, {-0.5, -0.8, 0}};
    int conv = ftk::critical_point_degree_simplex2(V0, X0);
    count("degrees");
    if (got != want * conv) viol("degree", strf("degree %d, expected %d (convention %d)", got, want * conv, conv));
    return hcomb(std::hash<double>()(a), std::hash<double>()(o)); });
})
