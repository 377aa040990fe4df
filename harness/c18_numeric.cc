#include "vh.hh"
#include <ftk/config.hh>
#include <ftk/numeric/clamp.hh>
#include <ftk/numeric/linear_solver.hh>
#include <ftk/numeric/adjugate.hh>
#include <ftk/numeric/det.hh>
#include <ftk/numeric/eye.hh>
#include <ftk/numeric/trace.hh>
#include <ftk/numeric/transpose.hh>
#include <ftk/numeric/cond.hh>
#include <ftk/numeric/cross_product.hh>
#include <ftk/numeric/inner_product.hh>
#include <ftk/numeric/matrix_addition.hh>
#include <ftk/numeric/matrix_decomposition.hh>
#include <ftk/numeric/symmetric_matrix.hh>
#include <ftk/numeric/matrix_inverse.hh>
#include <ftk/numeric/matrix_multiplication.hh>
#include <ftk/numeric/matrix_norm.hh>
#include <ftk/numeric/vector_assignment.hh>
#include <ftk/numeric/vector_dot_product.hh>
#include <ftk/numeric/vector_norm.hh>
#include <ftk/numeric/vector_normalization.hh>
#include <ftk/numeric/polynomial.hh>
#include <ftk/numeric/rational_function.hh>
#include <ftk/numeric/characteristic_polynomial.hh>
#include <ftk/numeric/quadratic_solver.hh>
#include <ftk/numeric/cubic_solver.hh>
#include <ftk/numeric/quartic_solver.hh>
#include <ftk/numeric/eigen_solver2.hh>
#include <ftk/numeric/eigen_solver3.hh>
#include <ftk/numeric/linear_solver.hh>
#include <ftk/numeric/linear_interpolation.hh>
#include <ftk/numeric/bilinear_interpolation.hh>
#include <ftk/numeric/trilinear_interpolation.hh>
#include <ftk/numeric/quadratic_interpolation.hh>
#include <ftk/numeric/gradient.hh>
#include <ftk/numeric/inverse_linear_interpolation_solver.hh>
#include <ftk/numeric/inverse_bilinear_interpolation_solver.hh>
#include <ftk/numeric/parallel_vector_solver2.hh>
#include <ftk/numeric/parallel_vector_solver3.hh>
#include <ftk/numeric/underdetermined_eigen_solver.hh>
#include <ftk/numeric/quaternion.hh>
#include <ftk/numeric/wachspress_interpolation.hh>
#include <ftk/numeric/rk4.hh>
#include <ftk/numeric/fmod.hh>
#include <ftk/numeric/sign.hh>
#include <ftk/numeric/fixed_point.hh>
#include <ftk/numeric/rad.hh>
#include <ftk/numeric/mpas.hh>
using namespace vh;
using namespace ftk;
typedef std::vector<double> V;
typedef std::vector<V> MM;
typedef std::complex<double> C;
// ---- reference linear algebra over std::vector, written from the definitions
static MM mul(const MM& a, const MM& b) { MM c(a.size(), V(b[0].size(), 0)); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b[0].size(); j++) for (size_t k = 0; k < b.size(); k++) c[i][j] += a[i][k] * b[k][j]; return c; }
static double det(const MM& m) { size_t n = m.size(); if (n == 1) return m[0][0]; double s = 0; for (size_t j = 0; j < n; j++) { MM q; for (size_t i = 1; i < n; i++) { V r; for (size_t k = 0; k < n; k++) if (k != j) r.push_back(m[i][k]); q.push_back(r); } s += (j % 2 ? -1 : 1) * m[0][j] * det(q); } return s; }
template <size_t M, size_t N, class T> MM mat(const T (&a)[M][N]) { MM m(M, V(N)); for (size_t i = 0; i < M; i++) for (size_t j = 0; j < N; j++) m[i][j] = a[i][j]; return m; }
template <size_t N, class T> V vec(const T (&a)[N]) { return V(a, a + N); }
static MM flat(const double* p, int m, int n) { MM r(m, V(n)); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) r[i][j] = p[i * n + j]; return r; }
static MM tr(const MM& a) { MM c(a[0].size(), V(a.size())); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a[0].size(); j++) c[j][i] = a[i][j]; return c; }
static V flatten(const MM& m) { V r; for (auto& x : m) r.insert(r.end(), x.begin(), x.end()); return r; }
static double maxd(const V& a, const V& b) { if (a.size() != b.size()) return 1e300; double d = 0; for (size_t i = 0; i < a.size(); i++) { double e = std::abs(a[i] - b[i]); if (!(e <= d)) d = e == e ? e : 1e300; } return d; }
static std::string str(const V& a) { std::string s = "["; for (double x : a) s += strf("%.9g ", x); return s + "]"; }
static std::string str(const MM& a) { std::string s; for (auto& x : a) s += str(x); return s; }
static void same(const char* key, const V& got, const V& want, double tol, const std::string& ctx = "") { count("compared"); if (!(maxd(got, want) <= tol)) viol(key, "got " + str(got) + " expected " + str(want) + " " + ctx); }
static void same(const char* key, const MM& got, const MM& want, double tol, const std::string& ctx = "") { same(key, flatten(got), flatten(want), tol, ctx); }
static void same(const char* key, double got, double want, double tol, const std::string& ctx = "") { same(key, V{got}, V{want}, tol, ctx); }
static double entry(Rng& r, int mode) { switch (mode) { case 0: return r.range(-4, 4); case 1: return r.real(-3, 3); case 2: return r.coin(.4) ? 0 : r.range(-3, 3); default: return r.range(-8, 8) * .25; } }
template <size_t M, size_t N, class T> void fill(Rng& r, T (&a)[M][N], int mode) { for (auto& x : a) for (auto& y : x) y = (T)entry(r, mode); }
template <size_t N, class T> void fill(Rng& r, T (&a)[N], int mode) { for (auto& x : a) x = (T)entry(r, mode); }
template <size_t N, class T> void regular(Rng& r, T (&a)[N][N], int mode, double mind = .3) { do fill(r, a, mode); while (std::abs(det(mat(a))) < mind); }
static uint64_t hv(const V& v) { uint64_t h = 7; for (double x : v) { uint64_t u; memcpy(&u, &x, 8); h = hcomb(h, u); } return h ? h : 1; }
static double sq(double x) { return x * x; }
static double nrm(const V& a) { double s = 0; for (double x : a) s += x * x; return sqrt(s); }
static double dot(const V& a, const V& b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
static V cross(const V& a, const V& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
template <class T> uint64_t matrices(Rng& r, int64_t) {
  int mode = r.below(4); const double E = sizeof(T) == 4 ? 2e-3 : 1e-9;
  T A[3][3], B[3][3], X[3][3], a2[2][2], b2[2][2], x2[2][2], a23[2][3], a32[3][2], a43[4][3], a34[3][4], a42[4][2], v3[3], w3[3], v2[2], w2[2];
  fill(r, A, mode); fill(r, B, mode); fill(r, a2, mode); fill(r, b2, mode); fill(r, a23, mode); fill(r, a32, mode); fill(r, a43, mode); fill(r, a34, mode); fill(r, a42, mode); fill(r, v3, mode); fill(r, v2, mode); fill(r, w3, mode); fill(r, w2, mode);
  MM mA = mat(A), mB = mat(B), m2 = mat(a2), n2 = mat(b2); note(str(mA));
  auto col = [](const V& v) { MM m; for (double x : v) m.push_back({x}); return m; };
  { T c[3][3]; matrix3x3_matrix3x3_multiplication(A, B, c); same("mul:3x3", mat(c), mul(mA, mB), E);
    T fa[9], fb[9], fc[9]; for (int i = 0; i < 9; i++) fa[i] = A[i / 3][i % 3], fb[i] = B[i / 3][i % 3];
    matrix3x3_matrix3x3_multiplication(fa, fb, fc); V g; for (T x : fc) g.push_back(x); same("mul:3x3flat", g, flatten(mul(mA, mB)), E);
    T s[9]; matrix3x3_scalar_multiplication(fa, v3[0], s); V q, e; for (int i = 0; i < 9; i++) q.push_back(s[i]), e.push_back(fa[i] * (double)v3[0]); same("mul:scalar", q, e, E);
    T o[3]; matrix3x3_vector3_multiplication(fa, v3, o); same("mul:3x3v", vec(o), flatten(mul(mA, col(vec(v3)))), E);
    matrix3x3_vector3_multiplication(A, v3, o); same("mul:3x3v", vec(o), flatten(mul(mA, col(vec(v3)))), E);
    T p[2]; matrix2x2_vector2_multiplication(a2, v2, p); same("mul:2x2v", vec(p), flatten(mul(m2, col(vec(v2)))), E);
    matrix2x3_vector3_multiplication(a23, v3, p); same("mul:2x3v", vec(p), flatten(mul(mat(a23), col(vec(v3)))), E);
    matrix2x2_matrix2x2_multiplication(a2, b2, x2); same("mul:2x2", mat(x2), mul(m2, n2), E);
    T c23[2][3]; matrix2x2_matrix2x3_multiplication(a2, a23, c23); same("mul:2x2_2x3", mat(c23), mul(m2, mat(a23)), E);
    T c34[3][4]; matrix3x3_matrix3x4_multiplication(A, a34, c34); same("mul:3x3_3x4", mat(c34), mul(mA, mat(a34)), E);
    T c22[2][2]; matrix2x3_matrix3x2_multiplication(a23, a32, c22); same("mul:2x3_3x2", mat(c22), mul(mat(a23), mat(a32)), E);
    matrix3x4_matrix4x3_multiplication(a34, a43, c); same("mul:3x4_4x3", mat(c), mul(mat(a34), mat(a43)), E);

    T c32[3][2]; matrix3x4_matrix4x2_multiplication(a34, a42, c32); same("mul:3x4_4x2", mat(c32), mul(mat(a34), mat(a42)), E);
    matrix3x3_square(A, c); same("mul:square", mat(c), mul(mA, mA), E);
    matrix_matrix_multiplication<T, 3, 4, 2>(a34, a42, c32); same("mul:generic", mat(c32), mul(mat(a34), mat(a42)), E);
    matrix_addition<T, 3, 3>(A, B, c); V sum, dif; for (int i = 0; i < 9; i++) sum.push_back(fa[i] + (double)fb[i]), dif.push_back(fa[i] - (double)fb[i]);
    same("add", flatten(mat(c)), sum, E); matrix_addition3x3(A, B, c); same("add:3x3", flatten(mat(c)), sum, E);
    matrix_subtraction<T, 3, 3>(A, B, c); same("sub", flatten(mat(c)), dif, E); matrix_subtraction3x3(A, B, c); same("sub:3x3", flatten(mat(c)), dif, E); }
  { T b23[2][3], b32[3][2], b34[3][4], c[3][3]; transpose<T, 3, 2>(a32, b23); same("transpose", mat(b23), tr(mat(a32)), 0); transpose3x2(a32, b23); same("transpose:3x2", mat(b23), tr(mat(a32)), 0); transpose2x3(a23, b32); same("transpose:2x3", mat(b32), tr(mat(a23)), 0); transpose4x3(a43, b34); same("transpose:4x3", mat(b34), tr(mat(a43)), 0);
    transpose3x3(A, c); same("transpose:3x3", mat(c), tr(mA), 0); transpose3x3(c); same("transpose:3x3in", mat(c), mA, 0); transpose<T, 3>(c); same("transpose:in", mat(c), tr(mA), 0); transpose2x2(a2, x2); same("transpose:2x2", mat(x2), tr(m2), 0);
    T f4[16], g4[16], f9[9], g9[9], f2[4]; fill(r, f4, mode); fill(r, f9, mode); fill(r, f2, mode); memcpy(g4, f4, sizeof f4); transpose4x4(g4); memcpy(g9, f9, sizeof f9); transpose3x3(g9); T h9[9]; transpose3x3(f9, h9); T k2[4] = {f2[0], f2[1], f2[2], f2[3]}; transpose2x2(k2);
    bool ok = true; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { ok &= g4[i * 4 + j] == f4[j * 4 + i]; if (i < 3 && j < 3) ok &= g9[i * 3 + j] == f9[j * 3 + i] && h9[i * 3 + j] == f9[j * 3 + i]; if (i < 2 && j < 2) ok &= k2[i * 2 + j] == f2[j * 2 + i]; } if (!ok) viol("transpose:flat", "flat transposes differ"); }
  { same("trace2", trace2(a2), m2[0][0] + m2[1][1], E); same("trace3", trace3(A), mA[0][0] + mA[1][1] + mA[2][2], E); same("trace", trace<T, 3>(A), mA[0][0] + mA[1][1] + mA[2][2], E);
    same("det2", ftk::det2(a2), det(m2), E); same("det2:4", ftk::det2(a2[0][0], a2[0][1], a2[1][0], a2[1][1]), det(m2), E); same("det3", ftk::det3(A), det(mA), 10 * E, str(mA)); T a4[4][4]; fill(r, a4, mode); same("det4", ftk::det4(a4), det(mat(a4)), 100 * E, str(mat(a4)));
    T adj[3][3]; adjugate3(A, adj); MM want(3, V(3)); double d = det(mA); for (int i = 0; i < 3; i++) want[i][i] = d; MM adj_ref(3, V(3)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { MM m; for (int p = 0; p < 3; p++) if (p != i) { V row; for (int q = 0; q < 3; q++) if (q != j) row.push_back(mA[p][q]); m.push_back(row); } adj_ref[j][i] = ((i + j) % 2 ? -1 : 1) * det(m); } same("adjugate3", mat(adj), adj_ref, 10 * E); (void)want;
    adjugate2(a2, x2); same("adjugate2", mat(x2), MM{{m2[1][1], -m2[0][1]}, {-m2[1][0], m2[0][0]}}, 0);
    T S[3][3], O[3][3]; matrix_symmetric_decomposition_3x3(A, S); matrix_antisymmetric_decomposition_3x3(A, O); MM s(3, V(3)), o(3, V(3)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) s[i][j] = (mA[i][j] + mA[j][i]) / 2, o[i][j] = (mA[i][j] - mA[j][i]) / 2; same("decomp:sym", mat(S), s, E); same("decomp:anti", mat(O), o, E);
    memcpy(S, A, sizeof S); make_symmetric3x3(S); same("make_symmetric3", mat(S), s, E); memcpy(x2, a2, sizeof x2); make_symmetric2x2(x2); double h = (m2[0][1] + m2[1][0]) / 2; same("make_symmetric2", mat(x2), MM{{m2[0][0], h}, {h, m2[1][1]}}, E); }
  { auto colsum = [](const MM& m) { double b = 0; for (size_t j = 0; j < m[0].size(); j++) { double s = 0; for (auto& x : m) s += std::abs(x[j]); b = std::max(b, s); } return b; };
    same("norm:1_2", matrix_1norm_real2x2(a2), colsum(m2), E); same("norm:1_3", matrix_1norm_real3x3(A), colsum(mA), E, str(mA)); same("norm:inf", matrix_inf_norm_real2x2(a2), colsum(tr(m2)), E);
    same("norm:fro22", matrix_frobenius_norm_real2x2(a2), nrm(flatten(m2)), E); same("norm:fro23", matrix_frobenius_norm_real2x3(a23), nrm(flatten(mat(a23))), E); same("norm:fro32", matrix_frobenius_norm_real3x2(a32), nrm(flatten(mat(a32))), E);
    MM g = mul(tr(m2), m2); double t = g[0][0] + g[1][1], d = det(g); same("norm:2norm", matrix_2norm_real2x2(a2), sqrt(t / 2 + sqrt(std::max(0., t * t / 4 - d))), sizeof(T) == 4 ? 2e-2 : 1e-6, str(m2));
    V v = vec(v3), w = vec(w3); same("vnorm", vector_2norm<3, T>(v3), nrm(v), E); same("vnorm3", vector_2norm_3(v3), nrm(v), E); same("vnorm2", vector_2norm_2(v2), nrm(vec(v2)), E); T v4[4]; fill(r, v4, mode); same("vnorm4", vector_2norm_4(v4), nrm(vec(v4)), E); same("vnorm^2", vector_2norm2<3, T>(v3), dot(v, v), E);
    V df{v[0] - w[0], v[1] - w[1], v[2] - w[2]}; same("vdist3", vector_dist_2norm_3(v3, w3), nrm(df), E); same("vdist2", vector_dist_2norm_2(v2, w2), hypot((double)v2[0] - w2[0], (double)v2[1] - w2[1]), E); same("vdist^2", vector_dist_2norm2<3, T>(v3, w3), dot(df, df), 10 * E);
    if (nrm(v) > .1) { T n[3]; T l = vector_normalization2<3, T>(v3, n); same("normalize", vec(n), V{v[0] / nrm(v), v[1] / nrm(v), v[2] / nrm(v)}, E); same("normalize:len", l, nrm(v), E); T n3[3] = {v3[0], v3[1], v3[2]}; vector_normalization2_3(n3); same("normalize3", vec(n3), vec(n), E); vector_normalization2_3(v3, n3); same("normalize3:2", vec(n3), vec(n), E); }
    if (nrm(vec(v2)) > .1) { T n[2] = {v2[0], v2[1]}; vector_normalization2_2(n); double l = nrm(vec(v2)); same("normalize2", vec(n), V{v2[0] / l, v2[1] / l}, E); T m[2]; vector_normalization2_2(v2, m); same("normalize2:2", vec(m), vec(n), E); }
    same("dot3", vector_dot_product3(v3, w3), dot(v, w), E); same("dot2", vector_dot_product2(v2, w2), dot(vec(v2), vec(w2)), E); same("inner3", inner_product3(v3, w3), dot(v, w), E); same("inner2", inner_product2(v2, w2), dot(vec(v2), vec(w2)), E);
    T c[3]; cross_product(v3, w3, c); same("cross", vec(c), cross(v, w), E); same("cross2", cross_product2(v2, w2), (double)v2[0] * w2[1] - (double)v2[1] * w2[0], E);
    T a = v2[0], b = v2[1], x[3]; vector_assign3(x, v3); same("assign", vec(x), v, 0); vector_assign3(x, a); same("assign:s", vec(x), V{a, a, a}, 0); vector_assign3(x, a, b, w2[0]); same("assign:xyz", vec(x), V{a, b, w2[0]}, 0); vector_assign_scalar_multiplication3(x, a, w3); same("assign:mul", vec(x), V{a * w[0], a * w[1], a * w[2]}, E); vector_assign_addition3(x, w3, v3); same("assign:add", vec(x), V{w[0] + v[0], w[1] + v[1], w[2] + v[2]}, E); vector_assign_subtraction3(x, w3, v3); same("assign:sub", vec(x), V{w[0] - v[0], w[1] - v[1], w[2] - v[2]}, E); vector_assign_weighted_addition3(x, a, w3, b, v3); same("assign:wadd", vec(x), V{a * w[0] + b * v[0], a * w[1] + b * v[1], a * w[2] + b * v[2]}, E);
    T e[9]; eye3(e); for (int i = 0; i < 9; i++) if (e[i] != (i % 4 == 0)) viol("eye", "not the identity"); }
  // inverses (well-conditioned only)
  regular(r, a2, mode); m2 = mat(a2); same("inv2:det", matrix_inverse2x2(a2, x2), det(m2), E); same("inv2", mul(m2, mat(x2)), MM{{1, 0}, {0, 1}}, 20 * E, str(m2)); auto cs = [](const MM& m) { double b = 0; for (size_t j = 0; j < m[0].size(); j++) { double s = 0; for (auto& q : m) s += std::abs(q[j]); b = std::max(b, s); } return b; }; { double c = cs(m2) * cs(mat(x2)); same("cond2", cond_real2x2(a2), c, 10 * E * c); }
  regular(r, A, mode); mA = mat(A); same("inv3:det", matrix_inverse3x3(A, X), det(mA), 10 * E); same("inv3", mul(mA, mat(X)), MM{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}, 100 * E, str(mA)); { double c = cs(mA) * cs(mat(X)); same("cond3", cond_real3x3(A), c, 10 * E * c); }
  { T m[4][4]; regular(r, m, mode); T f[16], inv[16]; for (int i = 0; i < 16; i++) f[i] = m[i / 4][i % 4]; T d = matrix_inverse4(f, inv); MM q(4, V(4)), id(4, V(4)); for (int i = 0; i < 16; i++) q[i / 4][i % 4] = inv[i]; for (int i = 0; i < 4; i++) id[i][i] = 1; same("inv4:det", d, det(mat(m)), 100 * E); same("inv4", mul(mat(m), q), id, 1000 * E, str(mat(m))); }
  count("matrix_cases"); return hv(flatten(mA));
}
// ---- polynomials
static double pev(const V& p, double x) { double y = 0; for (size_t i = p.size(); i-- > 0;) y = y * x + p[i]; return y; }
static V pmul(const V& a, const V& b) { V c(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) c[i + j] += a[i] * b[j]; return c; }
static uint64_t polynomials(Rng& r, int64_t) {
  int mode = r.below(4), m = r.below(7), n = r.below(7); V P(m + 1), Q(n + 1); for (auto& x : P) x = entry(r, mode); for (auto& x : Q) x = entry(r, mode); int k = std::max(m, n); double x = entry(r, mode); note(str(P) + str(Q));
  V R(k + 1, 99), s(k + 1, 0), d(k + 1, 0); for (int i = 0; i <= k; i++) { if (i <= m) s[i] += P[i], d[i] += P[i]; if (i <= n) s[i] += Q[i], d[i] -= Q[i]; }
  polynomial_addition(P.data(), m, Q.data(), n, R.data()); same("poly:add", R, s, 1e-12); R.assign(k + 1, 99); polynomial_subtraction(P.data(), m, Q.data(), n, R.data()); same("poly:sub", R, d, 1e-12, str(P) + "-" + str(Q));
  V M(m + n + 1, 99); polynomial_multiplication(P.data(), m, Q.data(), n, M.data()); same("poly:mul", M, pmul(P, Q), 1e-9);
  double sc = 0; for (int i = 0; i <= m; i++) sc += std::abs(P[i]) * std::pow(std::abs(x), i); same("poly:eval", polynomial_evaluate(P.data(), m, x), pev(P, x), 1e-12 * (1 + sc));
  V D(std::max(m, 1), 0); polynomial_derivative(P.data(), m, D.data()); V e(std::max(m, 1), 0); for (int i = 1; i <= m; i++) e[i - 1] = P[i] * i; same("poly:deriv", D, e, 1e-12); if (m > 0) same("poly:evald", polynomial_evaluate_derivative(P.data(), m, x), pev(e, x), 1e-11 * (1 + 8 * sc + 1e3));
  V c(m + 1, 99); polynomial_copy(P.data(), m, c.data()); same("poly:copy", c, P, 0); if (m >= n) { polynomial_addition_in_place(c.data(), m, Q.data(), n); same("poly:addin", c, s, 1e-12); polynomial_subtraction_in_place(c.data(), m, Q.data(), n); same("poly:subin", c, P, 1e-9); }
  c = P; polynomial_scalar_multiplication(c.data(), m, x); V f(P); for (auto& y : f) y *= x; same("poly:scale", c, f, 1e-12); V g(m + 1, 99); polynomial_scalar_multiplication(P.data(), m, x, g.data()); same("poly:scale2", g, f, 1e-12);
  bool z = true, cz = true; for (int i = 0; i <= m; i++) { if (P[i] != 0) z = false; if (i && P[i] != 0) cz = false; } if (mode != 1) { VH_CHECK(polynomial_equals_to_zero(P.data(), m) == z, "poly:zero", "%s", str(P).c_str()); VH_CHECK(polynomial_equals_to_constant(P.data(), m) == cz, "poly:const", "%s", str(P).c_str()); }
  if (mode != 1) { // rational functions with common roots (limits by de l'Hospital) and at infinity
    int k2 = 1 + r.below(3); V p(k2), q(k2); for (auto& y : p) y = r.range(-3, 3); for (auto& y : q) y = r.range(-3, 3); double x0 = r.range(-3, 3); if (pev(q, x0) != 0) { double want = pev(p, x0) / pev(q, x0); int mult = r.below(3); for (int i = 0; i < mult; i++) p = pmul(p, V{-x0, 1}), q = pmul(q, V{-x0, 1}); same("rational:eval", evaluate_rational(p.data(), q.data(), (int)p.size() - 1, x0), want, 1e-9 * (1 + std::abs(want)), str(p) + "/" + str(q)); }
    V a(3), b(3); for (auto& y : a) y = r.range(-2, 2); for (auto& y : b) y = r.range(-2, 2); b[0] = b[0] == 0 ? 1 : b[0]; int i = 2; while (i > 0 && a[i] == 0 && b[i] == 0) i--; double got = evaluate_rational_infinity(a.data(), b.data(), 2); if (b[i] == 0) VH_CHECK(std::isnan(got), "rational:inf", "%s/%s gives %g", str(a).c_str(), str(b).c_str(), got); else same("rational:inf", got, a[i] / b[i], 1e-12, str(a) + "/" + str(b)); }
  count("polynomial_cases"); return hv(P) ^ hv(Q);
}
// ---- roots
static std::vector<C> pmulc(const std::vector<C>& a, const std::vector<C>& b) { std::vector<C> c(a.size() + b.size() - 1, 0); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) c[i + j] += a[i] * b[j]; return c; }
static void matchroots(const char* key, std::vector<C> got, std::vector<C> want, double tol, const std::string& ctx) { // as multisets
  count("root_sets"); std::string s; for (auto x : got) s += strf("(%.9g,%.9g) ", x.real(), x.imag()); s += "expected "; for (auto x : want) s += strf("(%.9g,%.9g) ", x.real(), x.imag());
  if (got.size() != want.size()) { viol(key, strf("%zu roots instead of %zu: ", got.size(), want.size()) + s + ctx); return; }
  for (auto w : want) { size_t b = 0; double d = 1e300; for (size_t i = 0; i < got.size(); i++) if (std::abs(got[i] - w) < d) d = std::abs(got[i] - w), b = i; if (!(d <= tol)) { viol(key, s + ctx); return; } got.erase(got.begin() + b); } }
static void matchreal(const char* key, const double* x, int n, const V& want, double tol, const std::string& ctx) { std::vector<C> g, w; for (int i = 0; i < n && i < 16; i++) g.push_back(x[i]); for (double y : want) w.push_back(y); matchroots(key, g, w, tol, ctx); }
static V sepreal(Rng& r, int n, int mode) { V v; while ((int)v.size() < n) { double x = mode == 0 ? r.range(-4, 4) : mode == 1 ? r.real(-4, 4) : r.range(-16, 16) * .25; bool ok = mode == 0 || mode == 3 || std::abs(x) > .2; for (double y : v) ok &= std::abs(x - y) > .2; if (ok) v.push_back(x); } return v; }
static uint64_t roots(Rng& r, int64_t idx) {
  int deg = 1 + idx % 4, mode = r.below(4); int npairs = deg >= 2 ? r.below(deg / 2 + 1) : 0; V real = sepreal(r, deg - 2 * npairs, mode); std::vector<C> all; for (double x : real) all.push_back(x);
  std::vector<C> cp; while ((int)cp.size() < npairs) { C z(r.coin(.3) ? 0. : mode == 1 ? r.real(-3, 3) : (double)r.range(-3, 3), mode == 1 ? r.real(.3, 3) : (double)r.range(1, 3)); bool ok = true; for (auto y : cp) ok &= std::abs(z - y) > .25; if (ok) cp.push_back(z); } for (auto z : cp) all.push_back(z), all.push_back(std::conj(z));
  V P{1}; for (double x : real) P = pmul(P, V{-x, 1}); for (auto z : cp) P = pmul(P, V{std::norm(z), -2 * z.real(), 1}); double lead = r.pick({1., 1., -2., .5, 3., -1.}); for (auto& c : P) c *= lead; std::string D = str(P); note(D);
  double x[16]; std::fill(x, x + 16, 77.); int zeros = 0; for (double y : real) zeros += y == 0;
  V p4(P); p4.resize(6, 0); const double tol = 1e-6;
  if (deg == 1) { int n = solve_linear_real1(P.data(), x); matchreal("root:linear", x, n, real, tol, D); double z[2] = {P[0] == 0 ? 1 : P[0], 0}; VH_CHECK(solve_linear_real1(z, x) == 0, "root:linear0", "a constant has roots"); }
  if (deg <= 2) { int n = solve_quadratic_real(p4.data(), x); matchreal(deg == 1 ? "root:quadratic:degenerate" : "root:quadratic", x, n, real, tol, D); auto m = solve_quadratic_real_multiplicity(p4.data()); std::vector<C> g, w; for (auto& k : m) for (int i = 0; i < k.second; i++) g.push_back(k.first); for (double y : real) w.push_back(y); matchroots("root:quadratic:mult", g, w, tol, D);
    if (deg == 2) { C z[2]; double delta = solve_quadratic(P.data(), z); matchroots("root:quadratic:complex", {z[0], z[1]}, all, tol, D); VH_CHECK((delta >= 0) == (npairs == 0), "root:quadratic:delta", "%s delta %g", D.c_str(), delta); } }
  if (deg <= 3) { std::fill(x, x + 16, 77.); int n = solve_cubic_real(p4.data(), x); matchreal(deg < 3 ? "root:cubic:degenerate" : "root:cubic", x, n, real, tol, D); auto m = solve_cubic_real_multiplicity(p4.data()); std::vector<C> g, w; for (auto& k : m) for (int i = 0; i < k.second; i++) g.push_back(k.first); for (double y : real) w.push_back(y); matchroots("root:cubic:mult", g, w, tol, D);
    if (deg == 3) { C z[3]; solve_cubic(P.data(), z); matchroots("root:cubic:complex", {z[0], z[1], z[2]}, all, tol, D); double disc = cubic_discriminant(P.data()); double ref = 1; for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) ref *= std::real((all[i] - all[j]) * (all[i] - all[j])); std::complex<double> rr = 1; for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) rr *= (all[i] - all[j]) * (all[i] - all[j]); ref = rr.real() * std::pow(lead, 4); same("root:cubic:disc", disc, ref, 1e-6 * (1 + std::abs(ref) + 1e4), D); } }
  if (deg == 4) { V q(P); for (auto& c : q) c /= P[4]; C z[4]; // the closed form divides by Q5 and Q7: judged where it is defined
    quartic_solve(q[3], q[2], q[1], q[0], z); bool fin = true; for (auto& y : z) fin &= std::isfinite(y.real()) && std::isfinite(y.imag());
    double s = 0; for (auto y : all) s = std::max(s, std::abs(y)); if (!fin) count("quartic_undefined"); else { C Q7 = (z[2] + z[3]) - (z[0] + z[1]); (void)Q7; matchroots("root:quartic", {z[0], z[1], z[2], z[3]}, all, 1e-3 * (1 + s), D); } }
  // exact double roots
  if (deg == 2) { double a = r.range(-4, 4) * .5, P2[3] = {a * a, -2 * a, 1}; if (a != 0) { int n = solve_quadratic_real(P2, x); matchreal("root:double", x, n, V{a}, 1e-12, ""); auto m = solve_quadratic_real_multiplicity(P2); VH_CHECK(m.size() == 1 && m.begin()->second == 2 && m.begin()->first == a, "root:double:mult", "a=%g", a); } double Pn[3] = {1 + r.real(), 0, 1}; VH_CHECK(solve_quadratic_real(Pn, x) == 0, "root:none", "roots of a positive quadratic"); }
  count("root_cases"); seen_state(deg * 100 + npairs * 10 + zeros); return hv(P);
}
// ---- eigenproblems
static uint64_t eigen(Rng& r, int64_t) {
  int mode = r.below(4);
  { double m[2][2]; fill(r, m, mode); m[0][1] = m[1][0]; double e[2]; solve_eigenvalues_symmetric2x2(m, e); double t = m[0][0] + m[1][1], d = m[0][0] * m[1][1] - m[0][1] * m[0][1], s = sqrt(std::max(0., sq(m[0][0] - m[1][1]) / 4 + sq(m[0][1]))); matchroots("eig:sym2", {e[0], e[1]}, {t / 2 + s, t / 2 - s}, 1e-6, str(mat(m))); VH_CHECK(std::abs(e[0]) >= std::abs(e[1]), "eig:sym2:order", "%g %g", e[0], e[1]); (void)d; }
  { // similarity: A = X diag X^-1 with separated eigenvalues
    V ev = sepreal(r, 3, mode); double X[3][3], Xi[3][3]; regular(r, X, mode == 1 ? 1 : 0, .8); matrix_inverse3x3(X, Xi); MM D(3, V(3)); for (int i = 0; i < 3; i++) D[i][i] = ev[i]; MM A = mul(mul(mat(X), D), mat(Xi)); double a[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a[i][j] = A[i][j]; note(str(A));
    double P[4]; characteristic_polynomial_3x3(a, P); for (double x : ev) { double sc = 1; for (double q : P) sc += std::abs(q); same("charpoly3", pev(V(P, P + 4), x), 0, 1e-8 * sc * 100, str(A)); } same("charpoly3:lead", std::abs(P[3]), 1, 1e-12);
    double vecs[3][3]; solve_eigenvectors3x3(a, 3, ev.data(), vecs); double big = 1; for (double q : flatten(A)) big = std::max(big, std::abs(q)); double mind = 1e9; for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) mind = std::min(mind, std::abs(ev[i] - ev[j]));
    if (big < 60) for (int i = 0; i < 3; i++) { V v(vecs[i], vecs[i] + 3); V w = flatten(mul(A, MM{{v[0]}, {v[1]}, {v[2]}})); same("eigvec3:norm", nrm(v), 1, 1e-9, str(A)); for (int k = 0; k < 3; k++) w[k] -= ev[i] * v[k]; same("eigvec3", w, V(3, 0), 1e-6 * big, str(A) + strf("lambda %g", ev[i]) + str(v)); VH_CHECK(!(v[0] + v[1] + v[2] < -1e-6), "eigvec3:sign", "%s", str(v).c_str()); }
    // generalized: det(A - lambda B) = 0 with B regular, A := B * S
    double B[3][3]; regular(r, B, mode, .5); MM GA = mul(mat(B), A); double g[3][3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) g[i][j] = GA[i][j]; double x[16]; double gb = 0; for (double q : flatten(GA)) gb = std::max(gb, std::abs(q)); if (gb < 60) { bool zero = false; for (double q : ev) zero |= q == 0; if (!zero) { int n = solve_generalized_eigenvalues3x3(g, B, x); matchreal("eig:gen3", x, n, ev, 1e-4, str(GA) + " B " + str(mat(B))); } double Pg[4]; characteristic_polynomial_3x3(g, B, Pg); double t = r.real(-2, 2); MM M(3, V(3)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = g[i][j] - t * B[i][j]; double sc = std::max(1., gb); same("charpoly3:gen", pev(V(Pg, Pg + 4), t), det(M), 1e-9 * sc * sc * sc * 30); } }
  { V ev = sepreal(r, 2, mode); double X[2][2], Xi[2][2]; regular(r, X, mode, .5); matrix_inverse2x2(X, Xi); MM A = mul(mul(mat(X), MM{{ev[0], 0}, {0, ev[1]}}), mat(Xi)); double a[2][2] = {{A[0][0], A[0][1]}, {A[1][0], A[1][1]}}; double big = 1; for (double q : flatten(A)) big = std::max(big, std::abs(q)); note(str(A));
    if (big < 60) { double x[16]; bool zero = ev[0] == 0 || ev[1] == 0; if (!zero) { int n = solve_eigenvalues2x2(a, x); matchreal("eig:2", x, n, ev, 1e-5, str(A)); } C z[2]; solve_eigenvalues2x2(a, z); matchroots("eig:2c", {z[0], z[1]}, {ev[0], ev[1]}, 1e-5, str(A));
      double vecs[2][2]; solve_eigenvectors2x2(a, 2, ev.data(), vecs); for (int i = 0; i < 2; i++) { V v(vecs[i], vecs[i] + 2); same("eigvec2:norm", nrm(v), 1, 1e-9, str(A)); same("eigvec2", V{A[0][0] * v[0] + A[0][1] * v[1] - ev[i] * v[0], A[1][0] * v[0] + A[1][1] * v[1] - ev[i] * v[1]}, V{0, 0}, 1e-8 * big, str(A)); VH_CHECK(!(v[0] + v[1] < -1e-6), "eigvec2:sign", "%s", str(v).c_str()); }
      double B[2][2]; regular(r, B, mode, .5); MM G = mul(mat(B), A); double g[2][2] = {{G[0][0], G[0][1]}, {G[1][0], G[1][1]}}; if (!zero) { int n = solve_generalized_eigenvalues2x2(g, B, x); matchreal("eig:gen2", x, n, ev, 1e-4, str(G)); } double P[3], t = r.real(-2, 2); characteristic_polynomial_2x2(g, B, P); same("charpoly2:gen", pev(V(P, P + 3), t), (g[0][0] - t * B[0][0]) * (g[1][1] - t * B[1][1]) - (g[0][1] - t * B[0][1]) * (g[1][0] - t * B[1][0]), 1e-7 * big * big); double P2[3]; characteristic_polynomial_2x2(a, P2); same("charpoly2", std::abs(pev(V(P2, P2 + 3), ev[0])), 0, 1e-8 * big * big); }
    double c = r.range(-3, 3), s = 1 + r.below(3); double rot[2][2] = {{c, -s}, {s, c}}; C z[2]; double dl = solve_eigenvalues2x2(rot, z); matchroots("eig:rot", {z[0], z[1]}, {C(c, s), C(c, -s)}, 1e-9, ""); VH_CHECK(dl < 0, "eig:rot:delta", "%g", dl); }
  { // symmetric 3x3: Q diag Q^T by a rotation; includes repeated eigenvalues with loose tolerance
    V ev = r.coin(.8) ? sepreal(r, 3, mode) : [&] { V e = sepreal(r, 2, mode); return V{e[0], e[1], e[1]}; }(); double ax[3] = {r.gauss(), r.gauss(), r.gauss()}, th = r.real(0, 6); V k = vec(ax); double l = nrm(k); for (auto& q : k) q /= l; double Q[3][3]; for (int i = 0; i < 3; i++) { V e(3, 0); e[i] = 1; V c = cross(k, e); for (int j = 0; j < 3; j++) Q[j][i] = e[j] * cos(th) + c[j] * sin(th) + k[j] * k[i] * (1 - cos(th)); }
    MM D(3, V(3)); for (int i = 0; i < 3; i++) D[i][i] = ev[i]; MM A = r.coin(.2) ? D : mul(mul(mat(Q), D), tr(mat(Q))); double a[3][3], x[3]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) a[i][j] = j >= i ? A[i][j] : A[j][i]; solve_eigenvalues_symmetric3x3(a, x); bool rep = std::abs(ev[1] - ev[2]) < 1e-9; matchroots("eig:sym3", {x[0], x[1], x[2]}, {ev[0], ev[1], ev[2]}, rep ? 2e-3 : 1e-6, str(A)); }
  { double A[3][3], B[3][3], a[3], b[3], P[3][4], Q[4]; int mm = r.below(4); fill(r, A, mm); fill(r, B, mm); fill(r, a, mm); fill(r, b, mm); double t = r.real(-2, 2); if (characteristic_polynomials_underdetermined_3x3(A, a, B, b, P, Q)) { MM M(3, V(3)); V y(3); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) M[i][j] = A[i][j] - t * B[i][j]; y[i] = -(a[i] - t * b[i]); } same("udeig:Q", pev(V(Q, Q + 4), t), det(M), 1e-7); for (int k = 0; k < 3; k++) { MM N = M; for (int i = 0; i < 3; i++) N[i][k] = y[i]; same("udeig:P", pev(V(P[k], P[k] + 4), t), det(N), 1e-7); } count("udeig"); } }
  count("eigen_cases"); return r.u64() | 1;
}
// ---- linear systems
static uint64_t linear(Rng& r, int64_t) {
  int mode = r.below(4);
  { double A[2][2], x[2], y[2]; regular(r, A, mode); fill(r, y, mode); V b = flatten(mul(mat(A), MM{{y[0]}, {y[1]}})); double d = solve_linear2x2(A, b.data(), x); same("solve2", vec(x), vec(y), 1e-8, str(mat(A))); same("solve2:det", d, det(mat(A)), 1e-9); }
  { double A[3][3], x[3], y[3]; regular(r, A, mode); fill(r, y, mode); V b = flatten(mul(mat(A), MM{{y[0]}, {y[1]}, {y[2]}})); double d = solve_linear3x3(A, b.data(), x); same("solve3", vec(x), vec(y), 1e-7, str(mat(A))); same("solve3:det", d, det(mat(A)), 1e-9); }
  auto normal = [](const MM& A, const MM& X, const MM& B) { MM R = mul(A, X); for (size_t i = 0; i < R.size(); i++) for (size_t j = 0; j < R[0].size(); j++) R[i][j] -= B[i][j]; return flatten(mul(tr(A), R)); }; // A^T (A X - B)
  { double A[3][2], b[3], x[2], B[3][2], X[2][2]; do fill(r, A, mode); while (det(mul(tr(mat(A)), mat(A))) < .3); fill(r, b, mode); fill(r, B, mode); solve_least_square3x2(A, b, x); same("ls32", normal(mat(A), MM{{x[0]}, {x[1]}}, MM{{b[0]}, {b[1]}, {b[2]}}), V(2, 0), 1e-7, str(mat(A))); solve_least_square3x2_2(A, B, X); 
    MM XX = mat(X); V n1 = normal(mat(A), XX, mat(B)), n2 = normal(mat(A), tr(XX), mat(B)); double d1 = maxd(n1, V(n1.size(), 0)), d2 = maxd(n2, V(n2.size(), 0)); VH_CHECK(d1 < 1e-7, "ls32_2", "residuals %g %g for %s", d1, d2, str(mat(A)).c_str()); count(d1 < d2 ? "ls32_direct" : "ls32_transposed"); }
  { double A[4][3], b[4], x[3], B[4][3], X[3][3]; do fill(r, A, mode); while (det(mul(tr(mat(A)), mat(A))) < .5); fill(r, b, mode); fill(r, B, mode); solve_least_square4x3(A, b, x); same("ls43", normal(mat(A), MM{{x[0]}, {x[1]}, {x[2]}}, MM{{b[0]}, {b[1]}, {b[2]}, {b[3]}}), V(3, 0), 1e-6, str(mat(A))); solve_least_square4x3_3(A, B, X); MM XX = mat(X); V n1 = normal(mat(A), XX, mat(B)), n2 = normal(mat(A), tr(XX), mat(B)); double d1 = maxd(n1, V(n1.size(), 0)), d2 = maxd(n2, V(n2.size(), 0)); VH_CHECK(d1 < 1e-6, "ls43_3", "residuals %g %g for %s", d1, d2, str(mat(A)).c_str()); count(d1 < d2 ? "ls43_direct" : "ls43_transposed"); }
  { double a[2], b[2], x; do fill(r, a, mode); while (nrm(vec(a)) < .2); fill(r, b, mode); solve_least_square2x1(a, b, x); same("ls21", a[0] * (a[0] * x - b[0]) + a[1] * (a[1] * x - b[1]), 0, 1e-9); double c[3], d[3]; do fill(r, c, mode); while (nrm(vec(c)) < .2); fill(r, d, mode); solve_least_square3x1(c, d, x); same("ls31", c[0] * (c[0] * x - d[0]) + c[1] * (c[1] * x - d[1]) + c[2] * (c[2] * x - d[2]), 0, 1e-9); }
  { int n = 1 + r.below(5); MM A; do { A.assign(n, V(n)); for (auto& q : A) for (auto& y : q) y = entry(r, mode); } while (std::abs(det(A)) < .5); V y(n), b(n, 0), x(n, 99); for (auto& q : y) q = entry(r, mode); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b[i] += A[i][j] * y[j]; MM K = A; std::vector<double*> rows; for (auto& q : K) rows.push_back(q.data()); std::vector<int> ix(n); note(str(A)); legs<double>(n, rows.data(), b.data(), x.data(), ix.data()); same("legs", x, y, 1e-6, str(A)); }
  count("linear_cases"); return r.u64() | 1;
}
// ---- interpolation and gradients
static V bary(Rng& r, int n, double lo) { V m(n); double s = 0; for (auto& x : m) s += x = lo + r.real(); for (auto& x : m) x /= s; return m; }
static uint64_t interp(Rng& r, int64_t) {
  int mode = r.below(4); auto lin = [](const MM& W, const V& m) { V v(W[0].size(), 0); for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < v.size(); j++) v[j] += m[i] * W[i][j]; return v; };
  V m2 = bary(r, 2, 0), m3 = bary(r, 3, 0), m4 = bary(r, 4, 0);
  { double v[2], W2[2][2], W3[2][3], W4[2][4], o2[2], o3[3], o4[4]; fill(r, v, mode); fill(r, W2, mode); fill(r, W3, mode); fill(r, W4, mode); same("lerp:s1", lerp_s1(v, m2.data()), v[0] * m2[0] + v[1] * m2[1], 1e-12); lerp_s1v2(W2, m2.data(), o2); same("lerp:s1v2", vec(o2), lin(mat(W2), m2), 1e-12); lerp_s1v2(W2, m2[0], o2); V a = lin(mat(W2), m2), b = lin(mat(W2), V{m2[1], m2[0]}); same("lerp:s1v2mu", vec(o2), maxd(vec(o2), a) < maxd(vec(o2), b) ? a : b, 1e-12); lerp_s1v3(W3, m2.data(), o3); same("lerp:s1v3", vec(o3), lin(mat(W3), m2), 1e-12); lerp_s1v4(W4, m2.data(), o4); same("lerp:s1v4", vec(o4), lin(mat(W4), m2), 1e-12); }
  { double v[3], W2[3][2], W3[3][3], W4[3][4], o2[2], o3[3], o4[4], T2[3][2][2], p2[2][2], T3[3][3][3], p3[3][3]; fill(r, v, mode); fill(r, W2, mode); fill(r, W3, mode); fill(r, W4, mode); for (auto& t : T2) fill(r, t, mode); for (auto& t : T3) fill(r, t, mode); same("lerp:s2", lerp_s2(v, m3.data()), v[0] * m3[0] + v[1] * m3[1] + v[2] * m3[2], 1e-12); lerp_s2v2(W2, m3.data(), o2); same("lerp:s2v2", vec(o2), lin(mat(W2), m3), 1e-12); lerp_s2v3(W3, m3.data(), o3); same("lerp:s2v3", vec(o3), lin(mat(W3), m3), 1e-12); lerp_s2v4(W4, m3.data(), o4); same("lerp:s2v4", vec(o4), lin(mat(W4), m3), 1e-12);
    MM F; for (auto& t : T2) F.push_back(flatten(mat(t))); lerp_s2m2x2(T2, m3.data(), p2); same("lerp:m2", flatten(mat(p2)), lin(F, m3), 1e-12); F.clear(); for (auto& t : T3) F.push_back(flatten(mat(t))); lerp_s2m3x3(T3, m3.data(), p3); same("lerp:s2m3", flatten(mat(p3)), lin(F, m3), 1e-12); }
  { double v[4], W3[4][3], W4[4][4], o3[3], o4[4], T3[4][3][3], p3[3][3]; fill(r, v, mode); fill(r, W3, mode); fill(r, W4, mode); for (auto& t : T3) fill(r, t, mode); same("lerp:s3", lerp_s3(v, m4.data()), dot(vec(v), m4), 1e-12); lerp_s3v3(W3, m4.data(), o3); same("lerp:s3v3", vec(o3), lin(mat(W3), m4), 1e-12); lerp_s3v4(W4, m4.data(), o4); same("lerp:s3v4", vec(o4), lin(mat(W4), m4), 1e-12); MM F; for (auto& t : T3) F.push_back(flatten(mat(t))); lerp_s3m3x3(T3, m4.data(), p3); same("lerp:s3m3", flatten(mat(p3)), lin(F, m4), 1e-12); }
  { double W[4][3], f[12], a = r.real(), b = r.real(), o[3]; fill(r, W, mode); V w{(1 - a) * (1 - b), a * (1 - b), a * b, (1 - a) * b}; bilinear_interpolation3(W, a, b, o); same("bilinear", vec(o), lin(mat(W), w), 1e-12); bilinear_interpolation3_location(W, a, b, o); same("bilinear:loc", vec(o), lin(mat(W), w), 1e-12); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) f[j * 4 + i] = W[i][j]; bilinear_interpolation3(f, a, b, o); same("bilinear:flat", vec(o), lin(mat(W), w), 1e-12); bilinear_interpolation3_location(f, a, b, o); same("bilinear:flatloc", vec(o), lin(mat(W), w), 1e-12);
    double U[8][3], g = r.real(); fill(r, U, mode); V w8; for (int i = 0; i < 8; i++) w8.push_back((i & 4 ? a : 1 - a) * (i & 2 ? b : 1 - b) * (i & 1 ? g : 1 - g)); trilinear_interpolation3(U, a, b, g, o); same("trilinear", vec(o), lin(mat(U), w8), 1e-12); }
  { // quadratic interpolation reproduces quadratics, with gradient and Hessian
    double q[6]; fill(r, q, mode); auto f = [&](double x, double y) { return q[0] * x * x + q[1] * y * y + q[2] * x * y + q[3] * x + q[4] * y + q[5]; }; double X[3][2]; do fill(r, X, mode); while (std::abs((X[1][0] - X[0][0]) * (X[2][1] - X[0][1]) - (X[2][0] - X[0][0]) * (X[1][1] - X[0][1])) < .5);
    double F[6]; int e[3][2] = {{0, 1}, {1, 2}, {0, 2}}; for (int i = 0; i < 3; i++) F[i] = f(X[i][0], X[i][1]), F[3 + i] = f((X[e[i][0]][0] + X[e[i][1]][0]) / 2, (X[e[i][0]][1] + X[e[i][1]][1]) / 2); double Q[3][3]; quadratic_interpolation_coefficients(F, X, Q); double p[2] = {r.real(-2, 2), r.real(-2, 2)}; std::string D = str(mat(X)) + str(vec(q)); same("quad:value", quadratic_interpolation(Q, p), f(p[0], p[1]), 1e-6, D); double G[3][2]; quadratic_interpolation_gradient(Q, X, G); for (int i = 0; i < 3; i++) same("quad:grad", vec(G[i]), V{2 * q[0] * X[i][0] + q[2] * X[i][1] + q[3], 2 * q[1] * X[i][1] + q[2] * X[i][0] + q[4]}, 1e-6, D); double H[2][2]; quadratic_interpolation_hessian(Q, H); same("quad:hessian", mat(H), MM{{2 * q[0], q[2]}, {q[2], 2 * q[1]}}, 1e-6, D);
    double S[3][3]; quadratic_interpolation_coefficient_simplex2(F, S); V m = bary(r, 3, 0); double val = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) val += m[i] * m[j] * S[i][j]; double px = 0, py = 0; for (int i = 0; i < 3; i++) px += m[i] * X[i][0], py += m[i] * X[i][1]; same("quad:simplex", val, f(px, py), 1e-8, D); double g[3], gv[3][3]; quadratic_interpolation_gradient_simplex2(S, m.data(), g); V gr(3, 0); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) gr[i] += 2 * S[i][j] * m[j]; same("quad:sgrad", vec(g), gr, 1e-8); quadratic_interpolation_gradient_simplex2_vertices(S, gv); for (int k = 0; k < 3; k++) same("quad:vgrad", vec(gv[k]), V{2 * S[0][k], 2 * S[1][k], 2 * S[2][k]}, 1e-8); }
  { // gradients of linear functions on simplices
    V g{entry(r, mode), entry(r, mode), entry(r, mode)}; double c = entry(r, mode); double X[3][2], f[3], o[2]; do fill(r, X, mode); while (std::abs((X[1][0] - X[0][0]) * (X[2][1] - X[0][1]) - (X[2][0] - X[0][0]) * (X[1][1] - X[0][1])) < .5); for (int i = 0; i < 3; i++) f[i] = c + g[0] * X[i][0] + g[1] * X[i][1]; gradient_2dsimplex2(X, f, o); same("grad:2", vec(o), V{g[0], g[1]}, 1e-7, str(mat(X)));
    double Y[4][3], h[4], o3[3]; auto vol = [&] { MM m; for (int i = 1; i < 4; i++) m.push_back({Y[i][0] - Y[0][0], Y[i][1] - Y[0][1], Y[i][2] - Y[0][2]}); return std::abs(det(m)); }; do fill(r, Y, mode); while (vol() < .5); for (int i = 0; i < 4; i++) h[i] = c + g[0] * Y[i][0] + g[1] * Y[i][1] + g[2] * Y[i][2]; gradient_3dsimplex3(Y, h, o3); same("grad:3", vec(o3), g, 1e-6, str(mat(Y)));
    double Z[3][3], k[3]; V n; do { fill(r, Z, mode); V a{Z[1][0] - Z[0][0], Z[1][1] - Z[0][1], Z[1][2] - Z[0][2]}, b{Z[2][0] - Z[0][0], Z[2][1] - Z[0][1], Z[2][2] - Z[0][2]}; n = cross(a, b); } while (nrm(n) < .5); for (int i = 0; i < 3; i++) k[i] = c + g[0] * Z[i][0] + g[1] * Z[i][1] + g[2] * Z[i][2]; gradient_3dsimplex2(Z, k, o3); double s = dot(g, n) / dot(n, n); same("grad:surface", vec(o3), V{g[0] - s * n[0], g[1] - s * n[1], g[2] - s * n[2]}, 1e-6, str(mat(Z)) + str(g));
    double J[3][3], A[2][2], B2[3][2], J2[2][2], B3[4][3], J3[3][3]; fill(r, J, mode); fill(r, A, mode); for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) B2[i][j] = c + A[j][0] * X[i][0] + A[j][1] * X[i][1]; jacobian_2dsimplex2(X, B2, J2); for (int i = 0; i < 4; i++) for (int j = 0; j < 3; j++) B3[i][j] = c + J[j][0] * Y[i][0] + J[j][1] * Y[i][1] + J[j][2] * Y[i][2]; jacobian_3dsimplex(Y, B3, J3); bool t2 = maxd(flatten(mat(J2)), flatten(tr(mat(A)))) < 1e-6, t3 = maxd(flatten(mat(J3)), flatten(tr(mat(J)))) < 1e-5; VH_CHECK(t2, "jacobian:2", "got %s expected the transpose of %s", str(mat(J2)).c_str(), str(mat(A)).c_str()); VH_CHECK(t3, "jacobian:3", "got %s expected the transpose of %s", str(mat(J3)).c_str(), str(mat(J)).c_str()); }
  count("interp_cases"); return r.u64() | 1;
}
// ---- inverse interpolation
static uint64_t inverse(Rng& r, int64_t) {
  int mode = r.below(4); // plant the zero at a barycentric position, inside or outside
  auto place = [&](int n, bool in) { V m(n); for (;;) { double s = 0; for (auto& x : m) s += x = in ? .05 + r.real() : r.real(-1, 1.2); if (std::abs(s) < .2) continue; for (auto& x : m) x /= s; bool neg = false, near = false; for (double x : m) { neg |= x < 0; near |= std::abs(x) < .02; } if (!near && neg != in) return m; } };
  for (int in = 0; in < 2; in++) {
    { V m = place(2, in); double a = entry(r, mode), f[2], mu[2]; if (std::abs(a) < .2) a = 1; f[0] = a * m[1]; f[1] = -a * m[0]; bool b = inverse_lerp_s1v1(f, mu); same("inv:s1v1", vec(mu), m, 1e-9); VH_CHECK(b == !!in, "inv:s1v1:in", "%s", str(m).c_str()); double W[2][2] = {{f[0], f[0] * 2}, {f[1], f[1] * 2}}, x; b = inverse_lerp_s1v2(W, x); same("inv:s1v2", x, m[0], 1e-9); VH_CHECK(b == !!in, "inv:s1v2:in", "%s", str(m).c_str()); }
    { V m = place(3, in); double W[3][2]; do { fill(r, W, mode); for (int j = 0; j < 2; j++) W[2][j] = -(m[0] * W[0][j] + m[1] * W[1][j]) / m[2]; } while (std::abs((W[0][0] - W[2][0]) * (W[1][1] - W[2][1]) - (W[0][1] - W[2][1]) * (W[1][0] - W[2][0])) < .5); double mu[3]; bool b = inverse_lerp_s2v2(W, mu); same("inv:s2v2", vec(mu), m, 1e-7, str(mat(W))); VH_CHECK(b == !!in, "inv:s2v2:in", "%s %s", str(m).c_str(), str(mat(W)).c_str()); double cond; inverse_lerp_s2v2(W, mu, &cond); same("inv:cond", cond, cond_inverse_lerp_s2v2(W), 1e-6 * cond); }
    { V m = place(3, in); double W[3][3], T[3], Y[3][3]; V n; do { fill(r, W, mode); for (int j = 0; j < 3; j++) W[2][j] = -(m[0] * W[0][j] + m[1] * W[1][j]) / m[2]; V a{W[1][0] - W[0][0], W[1][1] - W[0][1], W[1][2] - W[0][2]}, b{W[2][0] - W[0][0], W[2][1] - W[0][1], W[2][2] - W[0][2]}; n = cross(a, b); } while (nrm(n) < .5); double mu[3]; bool b = inverse_lerp_s2v3(W, mu); same("inv:s2v3", vec(mu), m, 1e-6, str(mat(W))); VH_CHECK(b == !!in, "inv:s2v3:in", "%s", str(m).c_str()); fill(r, T, mode); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) Y[i][j] = W[i][j] + T[j]; b = inverse_lerp_s2v3_0(Y, T, mu); same("inv:s2v3_0", vec(mu), m, 1e-6); VH_CHECK(b == !!in, "inv:s2v3_0:in", "%s", str(m).c_str()); }
    { V m = place(4, in); double W[4][3]; auto vol = [&] { MM q; for (int i = 0; i < 3; i++) q.push_back({W[i][0] - W[3][0], W[i][1] - W[3][1], W[i][2] - W[3][2]}); return std::abs(det(q)); }; do { fill(r, W, mode); for (int j = 0; j < 3; j++) W[3][j] = -(m[0] * W[0][j] + m[1] * W[1][j] + m[2] * W[2][j]) / m[3]; } while (vol() < .5); double mu[4]; bool b = inverse_lerp_s3v3(W, mu); same("inv:s3v3", vec(mu), m, 1e-6, str(mat(W))); VH_CHECK(b == !!in, "inv:s3v3:in", "%s", str(m).c_str()); } }
  { long long W[2][2]; int k = r.below(4); for (auto& x : W) for (auto& y : x) y = r.range(-4, 4); if (k) { long long a = r.range(-4, 4), b = r.range(-4, 4), p = r.range(-3, 3), q = r.range(-3, 3); W[0][0] = a * p; W[0][1] = b * p; W[1][0] = a * q; W[1][1] = b * q; } bool got = integer_inverse_lerp_s1v2(W);
    bool zero0 = W[0][0] == 0 && W[0][1] == 0, zero1 = W[1][0] == 0 && W[1][1] == 0; bool par = W[0][0] * W[1][1] == W[0][1] * W[1][0], opp = W[0][0] * W[1][0] + W[0][1] * W[1][1] < 0; bool want = !zero0 && !zero1 && par && opp; VH_CHECK(got == want, "inv:integer", "V0=(%lld,%lld) V1=(%lld,%lld): zero strictly inside is %d, reported %d", W[0][0], W[0][1], W[1][0], W[1][1], want, got); count(want ? "int_zero" : "int_nozero"); }
  { // bilinear quads: plant one zero and judge the reported set against a model of both components
    double x0 = r.real(.05, .95), y0 = r.real(.05, .95), co[2][4]; int kind = r.below(4); MM g; do { for (auto& c : co) { for (int i = 1; i < 4; i++) c[i] = entry(r, mode); if (kind == 1) c[3] = 0; if (kind == 2) c[&c == &co[0] ? 1 : 2] = c[3] = 0; if (kind == 3 && &c == &co[0]) c[3] = 0; c[0] = -(c[1] * x0 + c[2] * y0 + c[3] * x0 * y0); } g = MM{{co[0][1] + co[0][3] * y0, co[0][2] + co[0][3] * x0}, {co[1][1] + co[1][3] * y0, co[1][2] + co[1][3] * x0}}; } while (std::abs(det(g)) < .2);
    double u[4], v[4], px[4] = {0, 1, 1, 0}, py[4] = {0, 0, 1, 1}, pos[2][2]; auto ev = [&](int k, double x, double y) { return co[k][0] + co[k][1] * x + co[k][2] * y + co[k][3] * x * y; }; for (int i = 0; i < 4; i++) u[i] = ev(0, px[i], py[i]), v[i] = ev(1, px[i], py[i]); int n = inverse_bilinear_interpolation(u, v, pos); bool hit = false; std::string D = str(vec(u)) + str(vec(v)) + strf("zero (%g,%g) n=%d", x0, y0, n); VH_CHECK(n >= 0 && n <= 2, "inv:bilinear:count", "%s", D.c_str()); for (int i = 0; i < n && i < 2; i++) { double x = pos[i][0], y = pos[i][1]; hit |= std::abs(x - x0) + std::abs(y - y0) < 1e-5; VH_CHECK(x >= 0 && x <= 1 && y >= 0 && y <= 1 && std::abs(ev(0, x, y)) + std::abs(ev(1, x, y)) < 1e-5, "inv:bilinear:sound", "(%g,%g) is no zero: %s", x, y, D.c_str()); } VH_CHECK(hit, "inv:bilinear:complete", "%s", D.c_str()); if (n == 2) { count("bilinear_two"); VH_CHECK(std::abs(pos[0][0] - pos[1][0]) + std::abs(pos[0][1] - pos[1][1]) > 1e-9, "inv:bilinear:distinct", "%s", D.c_str()); } seen_state(1000 + kind * 4 + n); }
  count("inverse_cases"); return r.u64() | 1;
}
// ---- parallel vectors
static uint64_t parallel(Rng& r, int64_t) {
  int mode = r.pick({0, 1, 3}); {
  { // edges in 2D: V = lambda W at mu
    V m = bary(r, 2, .1); double l = r.coin() ? r.real(.3, 3) : -r.real(.3, 3), W[2][2], X[2][2]; double d0; do { fill(r, W, mode); fill(r, X, mode); for (int j = 0; j < 2; j++) X[1][j] = (l * (m[0] * W[0][j] + m[1] * W[1][j]) - m[0] * X[0][j]) / m[1]; // simple root of det(V - l W)
        auto dd = [&](double t) { return (X[0][0] - t * W[0][0]) * (X[1][1] - t * W[1][1]) - (X[0][1] - t * W[0][1]) * (X[1][0] - t * W[1][0]); }; d0 = std::abs(dd(l + 1e-4) - dd(l - 1e-4)) / 2e-4; } while (d0 < .5 || hypot(X[0][0] - l * W[0][0] - X[1][0] + l * W[1][0], X[0][1] - l * W[0][1] - X[1][1] + l * W[1][1]) < .3);
    double lam[4], mu[2][2]; int n = solve_pv_s1v2(X, W, lam, mu); bool hit = false; std::string D = str(mat(X)) + str(mat(W)) + strf("planted %g at %g, n=%d", l, m[0], n); for (int i = 0; i < n && i < 2; i++) { hit |= std::abs(lam[i] - l) < 1e-5 && std::abs(mu[i][0] - m[0]) < 1e-4; double e = 0; for (int j = 0; j < 2; j++) e += std::abs(mu[i][0] * X[0][j] + mu[i][1] * X[1][j] - lam[i] * (mu[i][0] * W[0][j] + mu[i][1] * W[1][j])); VH_CHECK(e < 1e-3 && std::abs(mu[i][0] + mu[i][1] - 1) < 1e-9 && mu[i][0] > -1e-9 && mu[i][1] > -1e-9, "pv:s1v2:sound", "residual %g %s", e, D.c_str()); } VH_CHECK(hit, "pv:s1v2:complete", "%s", D.c_str()); count("pv_s1v2", n); }
  { V m = bary(r, 3, .1); double l = r.coin() ? r.real(.3, 3) : -r.real(.3, 3), W[3][3], X[3][3], d0, dn; do { fill(r, W, mode); fill(r, X, mode); for (int j = 0; j < 3; j++) X[2][j] = (l * (m[0] * W[0][j] + m[1] * W[1][j] + m[2] * W[2][j]) - m[0] * X[0][j] - m[1] * X[1][j]) / m[2]; auto dd = [&](double t) { MM M(3, V(3)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M[i][j] = X[i][j] - t * W[i][j]; return det(M); }; d0 = std::abs(dd(l + 1e-4) - dd(l - 1e-4)) / 2e-4; V a, b; for (int j = 0; j < 3; j++) a.push_back(X[0][j] - l * W[0][j] - X[2][j] + l * W[2][j]), b.push_back(X[1][j] - l * W[1][j] - X[2][j] + l * W[2][j]); dn = nrm(cross(a, b)); } while (d0 < 1 || dn < .5 || std::abs(det(mat(W))) < .5);
    double lam[4], mu[3][3]; int n = solve_pv_s2v3(X, W, lam, mu); bool hit = false; std::string D = str(mat(X)) + str(mat(W)) + strf("planted %g at %s n=%d", l, str(m).c_str(), n); VH_CHECK(n <= 3, "pv:s2v3:count", "%s", D.c_str()); for (int i = 0; i < n && i < 3; i++) { hit |= std::abs(lam[i] - l) < 1e-4 && std::abs(mu[i][0] - m[0]) + std::abs(mu[i][1] - m[1]) < 1e-3; double e = 0, sc = 1; for (int j = 0; j < 3; j++) { double v = 0, w = 0; for (int k = 0; k < 3; k++) v += mu[i][k] * X[k][j], w += mu[i][k] * W[k][j]; e += std::abs(v - lam[i] * w); sc += std::abs(lam[i] * w); } VH_CHECK(e < 1e-2 * sc && std::abs(mu[i][0] + mu[i][1] + mu[i][2] - 1) < 1e-9, "pv:s2v3:sound", "residual %g %s", e, D.c_str()); } VH_CHECK(hit, "pv:s2v3:complete", "%s", D.c_str()); count("pv_s2v3", n); }
  { // characteristic polynomials: mu_k(t) = P_k(t)/Q(t) solves (V - t W) mu = 0, sum 1
    double X[3][2], W[3][2], Q[3], P[3][3], t = r.real(-2, 2); fill(r, X, mode); fill(r, W, mode); characteristic_polynomials_pv_s2v2(X, W, Q, P); double q = pev(V(Q, Q + 3), t); V p; for (int k = 0; k < 3; k++) p.push_back(pev(V(P[k], P[k] + 3), t)); same("pv:poly2:sum", p[0] + p[1] + p[2], q, 1e-8); for (int j = 0; j < 2; j++) { double e = 0; for (int k = 0; k < 3; k++) e += p[k] * (X[k][j] - t * W[k][j]); same("pv:poly2", e, 0, 1e-7, str(mat(X)) + str(mat(W))); }
    double w[2], PP[3][2]; fill(r, w, mode); if (std::abs((X[0][0] - X[2][0]) * (X[1][1] - X[2][1]) - (X[0][1] - X[2][1]) * (X[1][0] - X[2][0])) > .3) { characteristic_polynomials_pv_s2v2(X, w, PP); V m; for (int k = 0; k < 3; k++) m.push_back(PP[k][0] + t * PP[k][1]); same("pv:const:sum", m[0] + m[1] + m[2], 1, 1e-8); for (int j = 0; j < 2; j++) same("pv:const", m[0] * X[0][j] + m[1] * X[1][j] + m[2] * X[2][j], t * w[j], 1e-7); } 
    double Y[4][3], Z[4][3], Q4[4], P4[4][4]; fill(r, Y, mode); fill(r, Z, mode); characteristic_polynomials_pv_s3v3(Y, Z, Q4, P4); double q4 = pev(V(Q4, Q4 + 4), t); V p4; for (int k = 0; k < 4; k++) p4.push_back(pev(V(P4[k], P4[k] + 4), t)); same("pv:poly3:sum", p4[0] + p4[1] + p4[2] + p4[3], q4, 1e-6); for (int j = 0; j < 3; j++) { double e = 0; for (int k = 0; k < 4; k++) e += p4[k] * (Y[k][j] - t * Z[k][j]); same("pv:poly3", e, 0, 1e-5, str(mat(Y)) + str(mat(Z))); } }
  { // edges in 3D: small integers, so that shared roots are found exactly
    double W[2][3], X[2][3]; for (auto& x : W) for (auto& y : x) y = r.range(-2, 2); double l = r.pick({1., 2., -1., -2.}); for (int j = 0; j < 3; j++) { double d = r.range(-3, 3); X[0][j] = l * W[0][j] + d; X[1][j] = l * W[1][j] - d; } double lam[4], mu[2][2]; int n = solve_pv_s1v3(X, W, lam, mu); if (n <= 2) for (int i = 0; i < n; i++) { double e = 0; for (int j = 0; j < 3; j++) e += std::abs(mu[i][0] * X[0][j] + mu[i][1] * X[1][j] - lam[i] * (mu[i][0] * W[0][j] + mu[i][1] * W[1][j])); if (std::isfinite(e)) { VH_CHECK(e < 1e-6, "pv:s1v3:sound", "residual %g V=%s W=%s", e, str(mat(X)).c_str(), str(mat(W)).c_str()); count("pv_s1v3"); } } }
  { double v[2] = {entry(r, mode), entry(r, mode)}, s = entry(r, mode), w[2] = {v[0] * s, v[1] * s}; (void)w; }
  } count("pv_cases"); return r.u64() | 1;
}
// ---- stepping, rotations, small scalars
static uint64_t stepping(Rng& r, int64_t) {
  { double x[4], y[4], z[4]; fill(r, x, 1); fill(r, y, 1); quatmul(x, y, z); same("quatmul", vec(z), V{x[0] * y[0] - x[1] * y[1] - x[2] * y[2] - x[3] * y[3], x[0] * y[1] + x[1] * y[0] + x[2] * y[3] - x[3] * y[2], x[0] * y[2] - x[1] * y[3] + x[2] * y[0] + x[3] * y[1], x[0] * y[3] + x[1] * y[2] - x[2] * y[1] + x[3] * y[0]}, 1e-12); }
  auto rodrigues = [](V k, double t, const V& x) { double l = nrm(k); for (auto& q : k) q /= l; V c = cross(k, x); double d = dot(k, x); V o(3); for (int i = 0; i < 3; i++) o[i] = x[i] * cos(t) + c[i] * sin(t) + k[i] * d * (1 - cos(t)); return o; };
  V k{r.gauss(), r.gauss(), r.gauss()}, x{r.gauss(), r.gauss(), r.gauss()}; if (nrm(k) < .1 || nrm(x) < .1) return 0; double t = r.real(-7, 7), o[3]; axis_rotate_vector(k.data(), t, x.data(), o); same("rotate", vec(o), rodrigues(k, t, x), 1e-9);
  { double R = nrm(x); V tv = cross(x, k); if (nrm(tv) < .1) return 0; double h = r.real(.01, 1), X[8] = {x[0], x[1], x[2], r.real(), r.real()}, v[8] = {tv[0], tv[1], tv[2], r.real(), r.real(-.3, .3)}, xn[8]; angular_stepping(X, v, h, xn); V want = rodrigues(cross(x, tv), h * nrm(tv) / R, x); want.push_back(X[3] + h); same("step:angular", V(xn, xn + 4), want, 1e-9); same("step:radius", nrm(V(xn, xn + 3)), R, 1e-9);
    angular_and_vertical_stepping(X, v, h, xn); double R1 = R + v[4] * h; V w2; for (int i = 0; i < 3; i++) w2.push_back(want[i] * R1 / R); w2.push_back(X[3] + h * v[3]); same("step:vertical", V(xn, xn + 4), w2, 1e-9); spherical_stepping(X, v, h, xn); V p{x[0] + h * v[0], x[1] + h * v[1], x[2] + h * v[2]}; double l = nrm(p); same("step:sphere", V(xn, xn + 3), V{p[0] * R / l, p[1] * R / l, p[2] * R / l}, 1e-9);
    double pt[8] = {X[0], X[1], X[2], X[3]}, v0[8]; int calls = 0; bool ok = spherical_rk1<double>(pt, [&](const double*, double* q) { calls++; for (int i = 0; i < 4; i++) q[i] = v[i]; return true; }, h, v0); VH_CHECK(ok && calls == 1, "step:rk1", "%d calls", calls); same("step:rk1", V(pt, pt + 4), want, 1e-9); same("step:rk1v0", V(v0, v0 + 3), V{v[0], v[1], v[2]}, 0); double keep[8]; memcpy(keep, pt, sizeof keep); VH_CHECK(!spherical_rk1<double>(pt, [](const double*, double*) { return false; }, h) && !memcmp(keep, pt, sizeof keep), "step:rk1fail", "a failed step changed the point"); }
  { // RK4: exact for affine systems up to the 4th Taylor term
    int nd = 1 + r.below(4); MM A(nd, V(nd)); V b(nd), p(nd); for (auto& q : A) for (auto& y : q) y = r.real(-1, 1); for (auto& q : b) q = r.real(-1, 1); for (auto& q : p) q = r.real(-1, 1); double h = r.real(-.8, .8); V pt = p, v0(nd, 9); int calls = 0; auto f = [&](const double* x, double* v) { calls++; for (int i = 0; i < nd; i++) { v[i] = b[i]; for (int j = 0; j < nd; j++) v[i] += A[i][j] * x[j]; } return true; }; V d(nd); f(p.data(), d.data()); calls = 0; bool ok = rk4<double>(nd, pt.data(), f, h, v0.data()); V want = p, term = d; double c = h; for (int q = 1; q <= 4; q++) { for (int i = 0; i < nd; i++) want[i] += c * term[i]; V nx(nd, 0); for (int i = 0; i < nd; i++) for (int j = 0; j < nd; j++) nx[i] += A[i][j] * term[j]; term = nx; c *= h / (q + 1); } VH_CHECK(ok, "rk4:ok", "failed"); same("rk4", pt, want, 1e-10); same("rk4:v0", v0, d, 1e-15); int stop = 1 + r.below(4), n = 0; V q = p; bool bad = rk4<double>(nd, q.data(), [&](const double* x, double* v) { if (++n == stop) return false; return f(x, v); }, h); VH_CHECK(!bad, "rk4:fail", "a step with a failed evaluation reports success"); }
  { typedef fixed_point<> FP; const double f = FTK_FP_PRECISION; long long a = r.range(-200000, 200000), b = r.range(-200000, 200000); FP x(a / f), y(b / f); VH_CHECK(x.integer() == a && y.integer() == b, "fp:int", "%lld %lld", (long long)x.integer(), a); same("fp:add", (x + y).to_double(), (a + b) / f, 0); same("fp:sub", (x - y).to_double(), (a - b) / f, 0); same("fp:neg", (-x).to_double(), -a / f, 0); same("fp:mul", (x * y).to_double(), a / f * (b / f), 1.01 / f); if (std::abs(b) > 2000) same("fp:div", (x / y).to_double(), (double)a / b, 1.01 / f); FP z = x; same("fp:inc", (++z).to_double(), a / f + 1, 1e-12); VH_CHECK((x < y) == (a < b) && (x <= y) == (a <= b) && (x == y) == (a == b) && (x > y) == (a > b) && (x >= y) == (a >= b) && !x == (a == 0), "fp:cmp", "%lld %lld", a, b); z += y; z -= y; --z; VH_CHECK(z == x, "fp:roundtrip", "%lld", a); same("fp:float", x.to_float(), a / f, 1e-4);
    typedef fixed_point<long long, 1000> F3; F3 u(2.5), w(1.25); same("fp3", (u + w).to_double() * 1e6 + (u - w).to_double() * 1e3 + (u * w).to_double() + (u / w).to_double() * 10, 3.75e6 + 1.25e3 + 3.125 + 20, 1e-6); }
  { double v = r.real(-5, 5), a = r.real(-3, 0), b = r.real(0, 3); same("clamp", ftk::clamp(v, a, b), v < a ? a : v > b ? b : v, 0); double m[3]; fill(r, m, r.below(4)); V w; double s = 0; for (double q : m) { w.push_back(q < 0 ? 0 : q > 1 ? 1 : q); s += w.back(); } for (auto& q : w) q = s == 0 ? 1. / 3 : q / s; clamp_barycentric<3>(m); same("clamp:bary", vec(m), w, 1e-12); double y = r.real(.1, 4), z = fmod1(v * 3, y); VH_CHECK(z >= 0 && z <= y && std::abs(std::remainder(z - v * 3, y)) < 1e-9, "fmod1", "%g mod %g = %g", v * 3, y, z); z = mod2pi(v * 9); VH_CHECK(z >= 0 && z <= 2 * M_PI && std::abs(std::remainder(z - v * 9, 2 * M_PI)) < 1e-9, "mod2pi", "%g", z); z = mod2pi1(v * 9); VH_CHECK(z >= -M_PI - 1e-12 && z <= M_PI + 1e-12 && std::abs(std::remainder(z - v * 9, 2 * M_PI)) < 1e-9, "mod2pi1", "%g", z); VH_CHECK(ftk::sign(v) == (v > 0) - (v < 0) && ftk::sign(0.) == 0 && ftk::sign((int)r.range(-3, -1)) == -1, "sign", "%g", v); C c(r.gauss(), r.gauss()), q = complex_sqrt(c), p = complex_cbrt(c); VH_CHECK(std::abs(q * q - c) < 1e-9 && std::abs(p * p * p - c) < 1e-9, "complexroots", "(%g,%g)", c.real(), c.imag()); same("rad", rad2deg(deg2rad(v)), v, 1e-12); same("rad1", deg2rad(180.), M_PI, 1e-12); }
  { // Wachspress coordinates on convex polygons in a plane of 3D reproduce linear functions
    int n = 3 + r.below(7); V e1{r.gauss(), r.gauss(), r.gauss()}; double l = nrm(e1); if (l < .1) return 0; for (auto& q : e1) q /= l; V e2 = cross(e1, k); l = nrm(e2); if (l < .1) return 0; for (auto& q : e2) q /= l; double X[10][3], p[3] = {0, 0, 0}, w[10], s = 0; V ang; for (int i = 0; i < n; i++) ang.push_back((i + r.real(0, .6)) * 2 * M_PI / n); V org{r.gauss(), r.gauss(), r.gauss()}; for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) X[i][j] = org[j] + cos(ang[i]) * e1[j] + 1.5 * sin(ang[i]) * e2[j]; V m = bary(r, n, .05); for (int i = 0; i < n; i++) for (int j = 0; j < 3; j++) p[j] += m[i] * X[i][j]; wachspress_weights(n, X, p, w); V rec(3, 0); bool pos = true; for (int i = 0; i < n; i++) { s += w[i]; pos &= w[i] >= 0; for (int j = 0; j < 3; j++) rec[j] += w[i] * X[i][j]; } same("wachspress:sum", s, 1, 1e-9); same("wachspress:linear", rec, V(p, p + 3), 1e-6); VH_CHECK(pos, "wachspress:positive", "negative weight"); }
  { int n = 2 + r.below(9); V z{10}; for (int i = 1; i < n; i++) z.push_back(z.back() - r.real(.1, 1)); double q = r.coin(.15) ? z[1 + r.below(n - 1)] : r.real(z.back() - .5, 10.5); int want = -1; for (int i = 0; i + 1 < n; i++) if (q <= z[i] && q > z[i + 1]) want = i; int got = locate_mpas_layer_bisection(n, z.data(), q); VH_CHECK(got == want, "mpas:layer", "z=%g got %d want %d in %s", q, got, want, str(z).c_str()); }
  count("step_cases"); return r.u64() | 1;
}
VH_MAIN({
  if (!getenv("VH_LOUD")) { if (freopen("/dev/null", "w", stderr)) {} }
  group("matrices_double", 3000, 60000, matrices<double>);
  group("matrices_float", 1000, 20000, matrices<float>);
  group("polynomials", 8000, 200000, polynomials);
  group("roots", 12000, 400000, roots);
  group("eigen", 5000, 150000, eigen);
  group("linear", 5000, 150000, linear);
  group("interpolation", 4000, 100000, interp);
  group("inverse", 6000, 200000, inverse);
  group("parallel_vectors", 5000, 200000, parallel);
  group("stepping", 6000, 150000, stepping);
})
