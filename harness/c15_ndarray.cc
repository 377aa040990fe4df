#include "vh.hh"
#include <ftk/config.hh>
#include <ftk/ndarray.hh>
#include <ftk/ndarray/conv.hh>
#include <ftk/ndarray/grad.hh>
using namespace vh;
typedef std::vector<size_t> S;
// the model: values by index tuple, first dimension fastest
template <class T> struct Model {
  S d; std::vector<T> v; size_t ncd = 0; bool tv = false;
  static size_t prod(const S& d) { size_t n = 1; for (auto x : d) n *= x; return n; }
  size_t at(const S& i) const { size_t o = 0, m = 1; for (size_t k = 0; k < d.size(); k++) { o += i[k] * m; m *= d[k]; } return o; }
};
static bool step(S& i, const S& d) { for (size_t k = 0; k < d.size(); k++) { if (++i[k] < d[k]) return true; i[k] = 0; } return false; }
static std::string str(const S& d) { std::string s = "("; for (auto x : d) s += std::to_string(x) + ","; return s + ")"; }
template <class T> T val(Rng& r, int mode) { return mode == 0 ? (T)r.range(-50, 50) : mode == 1 ? (T)-r.range(1, 90) : mode == 2 ? (T)r.real(-1000, 1000) : (T)r.range(0, 3); }
template <> unsigned char val(Rng& r, int) { return r.below(200); }
static S shape(Rng& r, int maxnd = 5, bool empty = true) { int n = 1 + r.below(maxnd); S d; size_t p = 1; for (int k = 0; k < n; k++) { size_t x = r.coin(.15) ? 1 : 1 + r.below(n <= 2 ? 9 : n == 3 ? 6 : 4); d.push_back(x); p *= x; } if (empty && r.coin(.04)) d[r.below(n)] = 0; return d; }
template <class T> void same(const ftk::ndarray<T>& a, const Model<T>& m, const std::string& what, Rng& r) {
  if (a.shape() != m.d || a.nd() != m.d.size() || a.nelem() != m.v.size() || a.size() != m.v.size() || a.empty() != m.v.empty()) { viol("array:shape", strf("%s: shape %s (%zu elements), expected %s", what.c_str(), str(a.shape()).c_str(), (size_t)a.size(), str(m.d).c_str())); return; }
  for (size_t k = 0; k < m.d.size(); k++) if (a.dim(k) != m.d[k] || a.shape(k) != m.d[k]) viol("array:dim", what);
  if (m.v.empty()) { count("empty_arrays"); return; }
  S i(m.d.size(), 0); size_t o = 0;
  do {
    T e = m.v[o]; bool ok = a[o] == e && a.at(i) == e && a.at(i.data()) == e && a(i) == e && a.index(i) == o && a.index(std::vector<int>(i.begin(), i.end())) == o && a(std::vector<int>(i.begin(), i.end())) == e;
    auto g = const_cast<ftk::ndarray<T>&>(a); (void)0;
    switch (i.size()) {
      case 1: ok = ok && a(i[0]) == e && a.at(i[0]) == e && a.get(i[0]) == (double)e; break;
      case 2: ok = ok && a(i[0], i[1]) == e && a.at(i[0], i[1]) == e && a.get(i[0], i[1]) == (double)e; break;
      case 3: ok = ok && a(i[0], i[1], i[2]) == e && a.at(i[0], i[1], i[2]) == e && a.get(i[0], i[1], i[2]) == (double)e; break;
      case 4: ok = ok && a(i[0], i[1], i[2], i[3]) == e && a.at(i[0], i[1], i[2], i[3]) == e && a.get(i[0], i[1], i[2], i[3]) == (double)e; break;
      case 5: ok = ok && a(i[0], i[1], i[2], i[3], i[4]) == e && a.at(i[0], i[1], i[2], i[3], i[4]) == e && a.get(i[0], i[1], i[2], i[3], i[4]) == (double)e; break;
      case 6: ok = ok && a(i[0], i[1], i[2], i[3], i[4], i[5]) == e && a.at(i[0], i[1], i[2], i[3], i[4], i[5]) == e; break;
      case 7: ok = ok && a(i[0], i[1], i[2], i[3], i[4], i[5], i[6]) == e && a.at(i[0], i[1], i[2], i[3], i[4], i[5], i[6]) == e; break;
    }
    if (!ok) { viol("array:value", strf("%s: element %s of %s differs (%g expected %g)", what.c_str(), str(i).c_str(), str(m.d).c_str(), (double)a[o], (double)e)); return; }
    o++;
  } while (step(i, m.d));
  count("elements_compared", m.v.size());
}
template <class T> ftk::ndarray<T> make(const Model<T>& m, Rng& r) {
  ftk::ndarray<T> a;
  switch (r.below(5)) {
    case 0: a.reshape(m.d); for (size_t o = 0; o < m.v.size(); o++) a[o] = m.v[o]; break;
    case 1: if (m.v.size()) { a = ftk::ndarray<T>(m.v.data(), m.d); break; }
    case 2: a = ftk::ndarray<T>(m.d); a.from_vector(m.v); break;
    case 3: a.copy_vector(m.v); a.reshape(m.d); break;
    default: { a.copy(m.v.begin(), m.v.end()); std::vector<int> di(m.d.begin(), m.d.end()); ((ftk::ndarray_base&)a).reshape(di); }
  }
  a.set_multicomponents(m.ncd); a.set_has_time(m.tv); return a;
}
template <class T> Model<T> gen(Rng& r, const S& d, int mode) { Model<T> m; m.d = d; m.v.resize(Model<T>::prod(d)); for (auto& x : m.v) x = val<T>(r, mode); return m; }
template <class T> uint64_t ops_case(Rng& r, int64_t) {
  int mode = r.below(4); Model<T> m = gen<T>(r, shape(r), mode); note(str(m.d)); auto a = make(m, r); same(a, m, "construction", r); uint64_t h = hash_str(str(m.d)) + mode; std::string hist;
  for (int k = 0; k < 6; k++) {
    int op = r.below(22); hist += strf(" %d", op); h = hcomb(h, op); std::string W = strf("shape %s history%s", str(m.d).c_str(), hist.c_str()); note(W); bool E = m.v.empty();
    count(strf("op%02d", op));
    if (op == 0 && !E) { S st, sz; for (auto x : m.d) { size_t s = r.below(x); st.push_back(s); sz.push_back(1 + r.below(x - s)); } Model<T> q; q.d = sz; S i(sz.size(), 0); do { S j = i; for (size_t c = 0; c < j.size(); c++) j[c] += st[c]; q.v.push_back(m.v[m.at(j)]); } while (step(i, sz)); auto b = r.coin() ? a.slice(st, sz) : a.slice(ftk::lattice(st, sz)); same(b, q, W + " slice " + str(st), r); if (r.coin()) { a = b; m = q; a.set_multicomponents(0); } }
    else if (op == 1 && !E && m.d.size() >= 2) { auto all = a.slice_time(); if (all.size() != m.d.back()) viol("array:slice_time", W); for (size_t t = 0; t < m.d.back(); t++) { Model<T> q; q.d = S(m.d.begin(), m.d.end() - 1); size_t n = Model<T>::prod(q.d); q.v.assign(m.v.begin() + t * n, m.v.begin() + (t + 1) * n); same(a.slice_time(t), q, W + " slice_time", r); same(all[t], q, W + " slice_time()", r); } }
    else if (op == 2 && !E) { // sub-array of a multi-component array, over the space dimensions only or over all
      size_t nc = m.d.size() > 1 ? r.below(std::min<size_t>(3, m.d.size())) : 0; auto b = a; b.set_multicomponents(nc); S st, sz, fs, fz; bool full = r.coin(.4); for (size_t c = 0; c < m.d.size(); c++) { size_t x = m.d[c], s = r.below(x), z = 1 + r.below(x - s); if (c < nc && !full) { fs.push_back(0); fz.push_back(x); } else { st.push_back(s); sz.push_back(z); fs.push_back(s); fz.push_back(z); } }
      Model<T> q; q.d = fz; S i(fz.size(), 0); do { S j = i; for (size_t c = 0; c < j.size(); c++) j[c] += fs[c]; q.v.push_back(m.v[m.at(j)]); } while (step(i, fz)); auto x = b.subarray(ftk::lattice(st, sz)); same(x, q, strf("%s subarray with %zu component dimensions at %s size %s", W.c_str(), nc, str(st).c_str(), str(sz).c_str()), r); if (x.multicomponents() != nc) viol("array:components", W); count("subarrays"); }
    else if (op == 3 && m.d.size() <= 4) { Model<T> q; q.d = S(m.d.rbegin(), m.d.rend()); q.v.resize(m.v.size()); if (!E) { S i(m.d.size(), 0); do { S j(i.rbegin(), i.rend()); q.v[q.at(j)] = m.v[m.at(i)]; } while (step(i, m.d)); } same(a.get_transpose(), q, W + " get_transpose", r); if (r.coin()) { auto& t = a.transpose(); if (&t != &a) viol("array:transpose", W); m.d = q.d; m.v = q.v; same(a, m, W + " transpose", r); m.ncd = 0; } }
    else if (op == 4 || op == 5) { int n = 1 + r.below(3); std::vector<Model<T>> ms; std::vector<ftk::ndarray<T>> as; for (int c = 0; c < n; c++) { ms.push_back(gen<T>(r, m.d, mode)); as.push_back(make(ms[c], r)); } Model<T> q; q.d = m.d; q.v.resize(n * m.v.size()); q.d.insert(op == 4 ? q.d.begin() : q.d.end(), n); for (size_t o = 0; o < m.v.size(); o++) for (int c = 0; c < n; c++) q.v[op == 4 ? o * n + c : c * m.v.size() + o] = ms[c].v[o]; if (q.d.size() <= 7) same(op == 4 ? ftk::ndarray<T>::concat(as) : ftk::ndarray<T>::stack(as), q, W + " concat/stack", r); }
    else if (op == 6) { auto q = gen<T>(r, m.d, mode); auto b = make(q, r); Model<T> s = m, d = m; for (size_t o = 0; o < m.v.size(); o++) { s.v[o] = m.v[o] + q.v[o]; d.v[o] = m.v[o] - q.v[o]; } same(a + b, s, W + " a+b", r); same(a - b, d, W + " a-b", r); if ((a + b).multicomponents() != a.multicomponents() || (a - b).multicomponents() != a.multicomponents() || (a + b).has_time() != a.has_time()) viol("array:arithmetic-flags", W); auto c = a; c += b; same(c, s, W + " +=", r); c = a; c -= b; same(c, d, W + " -=", r); ftk::ndarray<T> e; e += b; same(e, q, W + " empty +=", r); }
    else if (op == 7) { int x = r.range(1, 4); Model<T> p = m, q = m; for (size_t o = 0; o < m.v.size(); o++) { p.v[o] = m.v[o] * x; q.v[o] = m.v[o] / x; } same(a * x, p, W + " a*x", r); same(a / x, q, W + " a/x", r); auto c = a; c *= x; same(c, p, W + " *=", r); c = a; c /= x; same(c, q, W + " /=", r); }
    else if (op == 8 && !E) { T lo = m.v[0], hi = m.v[0], mx = 0; for (auto x : m.v) { lo = std::min(lo, x); hi = std::max(hi, x); mx = std::max<T>(mx, x < 0 ? -x : x); } auto t = a.min_max(); if (std::get<0>(t) != lo || std::get<1>(t) != hi) viol("array:min_max", strf("%s: min_max (%g,%g) expected (%g,%g)", W.c_str(), (double)std::get<0>(t), (double)std::get<1>(t), (double)lo, (double)hi)); if constexpr (!std::is_same<T, unsigned char>::value) { if (a.maxabs() != mx) viol("array:maxabs", W); T re = std::numeric_limits<T>::max(); for (auto x : m.v) if (x != 0) re = std::min<T>(re, x < 0 ? -x : x); if (a.resolution() != re) viol("array:resolution", W); } }
    else if (op == 9) { T l = val<T>(r, mode), u = val<T>(r, mode); if (u < l) std::swap(l, u); for (auto& x : m.v) x = x < l ? l : x > u ? u : x; a.clamp(l, u); same(a, m, W + " clamp", r); }
    else if (op == 10) { // casts
      auto cast = [&](auto z) { typedef decltype(z) T1; ftk::ndarray<T1> b(a), c; c = a; ftk::ndarray<T1> d2; d2.template from_array<T>(a); Model<T1> q; q.d = m.d; for (auto x : m.v) q.v.push_back((T1)x); same(b, q, W + " cast", r); same(c, q, W + " cast assignment", r); same(d2, q, W + " from_array", r); if (b.multicomponents() != a.multicomponents() || b.has_time() != a.has_time() || d2.multicomponents() != a.multicomponents() || d2.has_time() != a.has_time()) viol("array:cast-flags", W); }; 
      if (std::is_same<T, unsigned char>::value || mode != 2) cast(int()); cast(double()); cast(float()); }
    else if (op == 11) { T x = val<T>(r, mode); for (auto& y : m.v) y = x; a.fill(x); same(a, m, W + " fill", r); auto q = gen<T>(r, m.d, mode); a.fill(q.v); m.v = q.v; same(a, m, W + " fill(vector)", r); }
    else if (op == 12) { S d = m.d; d.push_back(1); if (d.size() < 6) { a.reshape(d); m.d = d; same(a, m, W + " reshape", r); } }
    else if (op == 13 && m.d.size() < 6) { a.make_multicomponents(); m.d.insert(m.d.begin(), 1); m.ncd = 1; same(a, m, W + " make_multicomponents", r); if (a.multicomponents() != 1 || a.ncomponents() != 1) viol("array:components", W); }
    else if (op == 14) { size_t nc = r.below(m.d.size() + 1); a.set_multicomponents(nc); m.ncd = nc; size_t n = 1; for (size_t c = 0; c < nc; c++) n *= m.d[c]; if (a.ncomponents() != n) viol("array:ncomponents", W); }
    else if (op == 15) { auto q = gen<T>(r, shape(r), mode); auto b = make(q, r), c = a; c.swap(b); same(c, q, W + " swap", r); same(b, m, W + " swap", r); }
    else if (op == 16) { auto b = a; if (!(b == a) || b.hash() != a.hash()) viol("array:equal", W); if (!E) { size_t o = r.below(m.v.size()); b[o] = b[o] + 1; if (b == a) viol("array:equal", W); } if (m.v.size() > 0 && m.d.size() > 1 && m.d[0] != m.d[1]) { auto c = a; S d = m.d; std::swap(d[0], d[1]); c.reshape(d); if (c == a) viol("array:equal", W); } }
    else if (op == 17) { std::vector<T> o; a.to_vector(o); if (o != m.v || a.std_vector() != m.v) viol("array:to_vector", W); }
    else if (op == 18) { ftk::lattice l = a.get_lattice(); if (l.nd() != m.d.size()) viol("array:lattice", W); for (size_t k = 0; k < m.d.size(); k++) if (l.start(k) != 0 || l.size(k) != m.d[k]) viol("array:lattice", W); if (!E) { ftk::ndarray<T> b(l); if (b.shape() != m.d) viol("array:lattice", W); } }
    else if (op == 19 && !E && m.d.size() <= 3) { std::ostringstream os; os << a; std::string s = os.str(); s = s.substr(s.find("size=")); s = s.substr(s.find('[')); for (auto& c : s) if (c == '[' || c == ']' || c == ',') c = ' '; if constexpr (!std::is_same<T, unsigned char>::value) { std::istringstream is(s); double x; size_t o = 0; while (is >> x) { if (o >= m.v.size() || std::abs(x - (double)m.v[o]) > 1e-4 * (1 + std::abs(x))) { viol("array:print", W + ": " + os.str().substr(0, 300)); break; } o++; } if (o < m.v.size()) viol("array:print", W); } }
    else if (op == 20) { ftk::ndarray<T> b; diy::MemoryBuffer bb; diy::save(bb, a); bb.reset(); diy::load(bb, b); same(b, m, W + " serialization", r); if (b.multicomponents() != a.multicomponents() || b.has_time() != a.has_time()) viol("array:serialize", W); }
    else if (op == 21) { auto b = a; b.reset(); if (!b.empty() || b.nd() != 0 || b.multicomponents() || b.has_time()) viol("array:reset", W); T x = val<T>(r, mode); S d = shape(r); b.reshape(d, x); Model<T> q; q.d = d; q.v.assign(Model<T>::prod(d), x); same(b, q, W + " reshape(value)", r); }
  }
  return h;
}
template <class T> uint64_t lerp_case(Rng& r, int64_t) {
  int n = 1 + r.below(4); size_t nc = r.below(2); S d; if (nc) d.push_back(1 + r.below(4)); for (int k = 0; k < n; k++) d.push_back(2 + r.below(5)); Model<T> m = gen<T>(r, d, r.coin() ? 0 : 2); m.ncd = nc; auto a = make(m, r); size_t C = nc ? d[0] : 1; std::string D = strf("%s components %zu", str(d).c_str(), nc); note(D);
  for (int q = 0; q < 20; q++) {
    double x[4]; bool in = true, edge = false; for (int k = 0; k < n; k++) { x[k] = r.coin(.2) ? (double)r.below(d[nc + k]) : r.coin(.06) ? r.real(-3, -0.01) : r.coin(.06) ? d[nc + k] - 1 + r.real(.01, 3) : r.real(0, d[nc + k] - 1); if (x[k] < 0 || x[k] > d[nc + k] - 1) in = false; if (x[k] == d[nc + k] - 1) edge = true; }
    std::vector<T> v(C + 1, (T)77); bool ok = a.mlerp(x, v.data());
    if (v[C] != (T)77) viol("mlerp:overrun", D);
    if (!in) { if (ok) viol("mlerp:outside", D); count("lerp_outside"); continue; }
    if (edge && !ok) { count("lerp_upper_edge"); continue; } // the upper border may count as outside
    if (!ok) { viol("mlerp:inside", strf("%s point (%g,..) reported outside", D.c_str(), x[0])); continue; }
    for (size_t c = 0; c < C; c++) { long double e = 0, mag = 0; for (int b = 0; b < 1 << n; b++) { long double w = 1; S i; if (nc) i.push_back(c); for (int k = 0; k < n; k++) { int x0 = std::min<int>(std::floor(x[k]), d[nc + k] - 2); long double mu = x[k] - x0; w *= (b >> k & 1) ? mu : 1 - mu; i.push_back(x0 + (b >> k & 1)); } e += w * m.v[m.at(i)]; mag = std::max<long double>(mag, std::abs((double)m.v[m.at(i)])); } double tol = std::is_same<T, float>::value ? 1e-5 : 1e-12; if (std::abs((double)(v[c] - e)) > tol * (1 + mag)) viol("mlerp:value", strf("%s component %zu: %g expected %g", D.c_str(), c, (double)v[c], (double)e)); }
    count("lerp_points");
  }
  return hash_str(D) + dbits(m.v[0]);
}
static bool near(double a, double b, double s) { return std::abs(a - b) <= 1e-11 * (1 + s); }
static uint64_t grad_case(Rng& r, int64_t idx) {
  typedef ftk::ndarray<double> A; int which = idx % 13; size_t W = 5 + r.below(4), H = 5 + r.below(5), D = 5 + r.below(4), T = 1 + r.below(3); count(strf("derive%02d", which)); int mode = r.pick({0, 2});
  auto fill = [&](S d) { A a(d); for (size_t i = 0; i < a.nelem(); i++) a[i] = val<double>(r, mode); return a; }; std::string N = strf("field operator %d on %zu x %zu x %zu x %zu", which, W, H, D, T); note(N); double sx = W - 1, sy = H - 1;
  auto chk = [&](double x, double e, const char* w, size_t i, size_t j, size_t k = 0, size_t t = 0) { if (!near(x, e, 1000 * 10)) viol(strf("derive:%d", which), strf("%s: %s at (%zu,%zu,%zu,%zu) is %g expected %g", N.c_str(), w, i, j, k, t, x, e)); };
  const size_t B = 2; // the Jacobians leave two border layers out
  if (which == 0) { auto f = fill({W, H}); auto g = ftk::gradient2D(f); if (g.shape() != S({2, W, H})) viol("derive:shape", N); for (size_t i = 1; i < W - 1; i++) for (size_t j = 1; j < H - 1; j++) { chk(g(0, i, j), .5 * (f(i + 1, j) - f(i - 1, j)) * sx, "d/dx", i, j); chk(g(1, i, j), .5 * (f(i, j + 1) - f(i, j - 1)) * sy, "d/dy", i, j); } }
  if (which == 1) { auto f = fill({W, H, T}); auto g = ftk::gradient2Dt(f); for (size_t t = 0; t < T; t++) for (size_t i = 1; i < W - 1; i++) for (size_t j = 1; j < H - 1; j++) { chk(g(0, i, j, t), .5 * (f(i + 1, j, t) - f(i - 1, j, t)) * sx, "d/dx", i, j, 0, t); chk(g(1, i, j, t), .5 * (f(i, j + 1, t) - f(i, j - 1, t)) * sy, "d/dy", i, j, 0, t); } }
  if (which == 2 || which == 3) { auto v = fill({2, W, H}); auto J = which == 2 ? ftk::jacobian2D<double, false>(v) : ftk::jacobian2D<double, true>(v); for (size_t i = 1; i < W - 1; i++) for (size_t j = 1; j < H - 1; j++) { double e[2][2]; for (int c = 0; c < 2; c++) { e[c][0] = .5 * (v(c, i + 1, j) - v(c, i - 1, j)) * sx; e[c][1] = .5 * (v(c, i, j + 1) - v(c, i, j - 1)) * sy; } if (which == 3) e[0][1] = e[1][0] = .5 * (e[0][1] + e[1][0]); for (int c = 0; c < 2; c++) for (int d = 0; d < 2; d++) chk(J(c, d, i, j), e[c][d], "J", i, j); } }
  if (which == 4) { auto v = fill({2, W, H, T}); auto J = ftk::jacobian2Dt(v); for (size_t t = 0; t < T; t++) for (size_t i = B; i < W - B; i++) for (size_t j = B; j < H - B; j++) for (int c = 0; c < 2; c++) { chk(J(c, 0, i, j, t), .5 * (v(c, i + 1, j, t) - v(c, i - 1, j, t)) * sx, "J0", i, j, 0, t); chk(J(c, 1, i, j, t), .5 * (v(c, i, j + 1, t) - v(c, i, j - 1, t)) * sy, "J1", i, j, 0, t); } }
  auto d3 = [&](const A& v, int c, int d, size_t i, size_t j, size_t k) { size_t a[3] = {i, j, k}, b[3] = {i, j, k}; a[d]++; b[d]--; return .5 * (v(c, a[0], a[1], a[2]) - v(c, b[0], b[1], b[2])); };
  if (which == 5) { auto f = fill({W, H, D}); auto g = ftk::gradient3D(f); for (size_t i = 1; i < W - 1; i++) for (size_t j = 1; j < H - 1; j++) for (size_t k = 1; k < D - 1; k++) { chk(g(0, i, j, k), .5 * (f(i + 1, j, k) - f(i - 1, j, k)), "x", i, j, k); chk(g(1, i, j, k), .5 * (f(i, j + 1, k) - f(i, j - 1, k)), "y", i, j, k); chk(g(2, i, j, k), .5 * (f(i, j, k + 1) - f(i, j, k - 1)), "z", i, j, k); } }
  if (which == 6) { auto f = fill({W, H, D, T}); auto g = ftk::gradient3Dt(f); for (size_t t = 0; t < T; t++) for (size_t i = 1; i < W - 1; i++) for (size_t j = 1; j < H - 1; j++) for (size_t k = 1; k < D - 1; k++) { chk(g(0, i, j, k, t), .5 * (f(i + 1, j, k, t) - f(i - 1, j, k, t)), "x", i, j, k, t); chk(g(1, i, j, k, t), .5 * (f(i, j + 1, k, t) - f(i, j - 1, k, t)), "y", i, j, k, t); chk(g(2, i, j, k, t), .5 * (f(i, j, k + 1, t) - f(i, j, k - 1, t)), "z", i, j, k, t); } }
  if (which == 7) { auto v = fill({3, W, H, D}); size_t b = r.coin() ? 2 : 1; auto J = b == 2 ? ftk::jacobian3D(v) : ftk::jacobian3D(v, 1); if (J.multicomponents() != 2) viol("derive:components", N); for (size_t i = b; i < W - b; i++) for (size_t j = b; j < H - b; j++) for (size_t k = b; k < D - b; k++) for (int c = 0; c < 3; c++) for (int d = 0; d < 3; d++) chk(J(c, d, i, j, k), d3(v, c, d, i, j, k), "J", i, j, k); }
  if (which == 8) { auto v = fill({3, W, H, D, T}); auto J = ftk::jacobian3Dt(v); for (size_t t = 0; t < T; t++) { A vt({3, W, H, D}); for (size_t o = 0; o < vt.nelem(); o++) vt[o] = v[o + t * vt.nelem()]; for (size_t i = B; i < W - B; i++) for (size_t j = B; j < H - B; j++) for (size_t k = B; k < D - B; k++) for (int c = 0; c < 3; c++) for (int d = 0; d < 3; d++) chk(J(c, d, i, j, k, t), d3(vt, c, d, i, j, k), "J", i, j, k, t); } }
  if (which == 9) { auto v = fill({3, W, H, D}); auto w = ftk::vorticity3D(v); for (size_t i = 1; i < W - 1; i++) for (size_t j = 1; j < H - 1; j++) for (size_t k = 1; k < D - 1; k++) for (int c = 0; c < 3; c++) chk(w(c, i, j, k), d3(v, (c + 2) % 3, (c + 1) % 3, i, j, k) - d3(v, (c + 1) % 3, (c + 2) % 3, i, j, k), "curl", i, j, k); }
  if (which == 10) { auto v = fill({3, W, H, D}), w = fill({3, W, H, D}); auto x = ftk::cross_product3D(v, w); for (size_t i = 1; i < W - 1; i++) for (size_t j = 1; j < H - 1; j++) for (size_t k = 1; k < D - 1; k++) for (int c = 0; c < 3; c++) { int a = (c + 1) % 3, b = (c + 2) % 3; double e = v(a, i, j, k) * w(b, i, j, k) - v(b, i, j, k) * w(a, i, j, k); if (std::abs(x(c, i, j, k) - e) > 1e-8) viol("derive:cross", N); } }
  if (which >= 11) { auto v = fill({3, W, H, D}); auto x = which == 11 ? ftk::Jv_dot_v(v) : ftk::JvT_dot_v(v); for (size_t i = 1; i < W - 1; i++) for (size_t j = 1; j < H - 1; j++) for (size_t k = 1; k < D - 1; k++) for (int c = 0; c < 3; c++) { double e = 0; for (int d = 0; d < 3; d++) e += (which == 11 ? d3(v, c, d, i, j, k) : d3(v, d, c, i, j, k)) * v(d, i, j, k); if (std::abs(x(c, i, j, k) - e) > 1e-7) viol("derive:Jv", strf("%s (%zu,%zu,%zu) %d", N.c_str(), i, j, k, c)); } }
  count("fields_derived"); return hcomb(hash_str(N), idx);
}
static uint64_t conv_case(Rng& r, int64_t) {
  typedef ftk::ndarray<double> A; bool d3 = r.coin(.4); size_t pad = r.below(3); S ks, ds; int nd = d3 ? 3 : 2; for (int k = 0; k < nd; k++) { ks.push_back(1 + r.below(4)); ds.push_back(ks[k] + r.below(5)); } bool gauss = r.coin(.4); double sigma = r.real(.3, 3); if (gauss && r.coin()) for (auto& k : ks) k = ks[0];
  for (int k = 0; k < nd; k++) ds[k] = std::max(ds[k], ks[k]); A a(ds), K(ks); for (size_t i = 0; i < a.nelem(); i++) a[i] = val<double>(r, 2); for (size_t i = 0; i < K.nelem(); i++) K[i] = r.real(-1, 1); std::string N = strf("data %s kernel %s padding %zu gaussian %d sigma %g", str(ds).c_str(), str(ks).c_str(), pad, gauss, sigma); note(N);
  if (gauss) { double s = 0; S i(nd, 0); size_t o = 0; do { double q = 0; for (int k = 0; k < nd; k++) { double x = i[k] - (ks[k] - 1) * .5; q += x * x; } K[o] = exp(-q / (2 * sigma * sigma)); s += K[o]; o++; } while (step(i, ks)); for (o = 0; o < K.nelem(); o++) K[o] /= s; A G = d3 ? ftk::gaussian_kernel3D<double>(sigma, ks[0], ks[1], ks[2]) : ftk::gaussian_kernel2D<double>(sigma, ks[0], ks[1]); for (o = 0; o < K.nelem(); o++) if (std::abs(G[o] - K[o]) > 1e-12) { viol("conv:kernel", N); break; } auto k1 = ftk::gaussian_kernel<double>(sigma, ks[0]); double s1 = 0; for (size_t q = 0; q < ks[0]; q++) s1 += exp(-pow(q - (ks[0] - 1) * .5, 2) / (2 * sigma * sigma)); for (size_t q = 0; q < ks[0]; q++) if (std::abs(k1[q] - exp(-pow(q - (ks[0] - 1) * .5, 2) / (2 * sigma * sigma)) / s1) > 1e-12) viol("conv:kernel1", N); }
  bool eqk = std::all_of(ks.begin(), ks.end(), [&](size_t k) { return k == ks[0]; });
  A c = gauss ? (eqk && r.coin() ? ftk::conv_gaussian<double>(a, sigma, ks[0], pad) : d3 ? ftk::conv3D_gaussian<double>(a, sigma, ks[0], ks[1], ks[2], pad) : ftk::conv2D_gaussian<double>(a, sigma, ks[0], ks[1], pad)) : d3 ? ftk::conv3D(a, K, pad) : ftk::conv2D(a, K, pad);
  S rs; for (int k = 0; k < nd; k++) rs.push_back(ds[k] + 2 * pad - ks[k] + 1); if (c.shape() != rs) { viol("conv:shape", N); return 1; }
  Model<double> M; M.d = ds; S i(nd, 0); size_t o = 0; do { double e = 0; S j(nd, 0); size_t q = 0; do { S x(nd); bool in = true; for (int k = 0; k < nd; k++) { long y = (long)i[k] + (long)j[k] - (long)pad; if (y < 0 || y >= (long)ds[k]) in = false; x[k] = y; } if (in) e += a[M.at(x)] * K[q]; q++; } while (step(j, ks)); e /= K.nelem(); if (std::abs(c[o] - e) > 1e-9) { viol("conv:value", strf("%s at %s: %g expected %g", N.c_str(), str(i).c_str(), c[o], e)); break; } o++; } while (step(i, rs));
  count("convolutions"); return hash_str(N);
}
VH_MAIN({ group("ops_double", 500, 20000, ops_case<double>); group("ops_int", 300, 8000, ops_case<int>); group("ops_float", 300, 8000, ops_case<float>); group("lerp_double", 200, 6000, lerp_case<double>); group("lerp_float", 100, 2000, lerp_case<float>); group("derive", 260, 5200, grad_case); group("conv", 200, 6000, conv_case); })
