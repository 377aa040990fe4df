// C10: features written to an archive (binary, JSON, text, VTK polydata) are read back unchanged, by the same or another tracker.
#include "vh.hh"
#include "cpmodel.hh"
#include <ftk/numeric/clamp.hh>
#ifdef EARLY_SERIALIZATION // the order of includes must not matter for what is written
#include <ftk/utils/serialization.hh>
#endif
#ifndef WITH_VTK
#include <ftk/filters/critical_point_tracker_2d_regular.hh>
#include <ftk/filters/critical_point_tracker_3d_regular.hh>
#include <ftk/filters/critical_point_tracker_2d_unstructured.hh>
#include <ftk/filters/critical_point_tracker_3d_unstructured.hh>
#include <ftk/mesh/simplicial_unstructured_extruded_2d_mesh_implicit.hh>
#include "umesh.hh"
#else
#include <ftk/filters/critical_point_tracker_2d_regular.hh>
#include <vtkXMLPolyDataReader.h>
#include <vtkPolyDataReader.h>
#endif
#include <ftk/features/feature_surface.hh>
using namespace ftk;
using vh::Rng;
using vh::strf;
typedef feature_curve_t C;
typedef feature_point_t P;
typedef feature_curve_set_t S;
static const int NV = FTK_CP_MAX_NUM_VARS;
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static bool eqp(const P& a, const P& b, bool id = true) {
  for (int k = 0; k < 3; k++) if (!same(a.x[k], b.x[k]) || !same(a.v[k], b.v[k])) return false;
  for (int k = 0; k < NV; k++) if (!same(a.scalar[k], b.scalar[k])) return false;
  return same(a.t, b.t) && a.timestep == b.timestep && a.type == b.type && a.ordinal == b.ordinal && a.tag == b.tag && (!id || a.id == b.id);
}
template <class V> static bool eqv(const V& a, const V& b, bool id = true) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!eqp(a[i], b[i], id)) return false; return true; }
template <class A> static bool eqa(const A& a, const A& b) { for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false; return true; }
static std::string diffc(const C& a, const C& b, bool id = true) { // what differs
  std::string s;
  if (id && a.id != b.id) s += strf(" id %d/%d", a.id, b.id);
  if (a.complete != b.complete) s += " complete"; if (a.loop != b.loop) s += " loop";
  if (!eqa(a.max, b.max) || !eqa(a.min, b.min) || !eqa(a.persistence, b.persistence)) s += " scalar-range";
  if (!eqa(a.bbmin, b.bbmin) || !eqa(a.bbmax, b.bbmax)) s += " bounding-box"; if (!same(a.tmin, b.tmin) || !same(a.tmax, b.tmax)) s += " time-range";
  if (!same(a.vmmin, b.vmmin) || !same(a.vmmax, b.vmmax)) s += " speed"; if (a.consistent_type != b.consistent_type) s += " type";
  if (a.size() != b.size()) s += strf(" size %zu/%zu", a.size(), b.size()); else if (!eqv(a, b, id)) s += " points";
  return s;
}
static double num(Rng& r, int style) {
  if (style == 0) return r.gauss() * 10;
  if (style == 1) return (double)r.range(-5, 20);
  switch (r.below(10)) {
    case 0: return 0.0; case 1: return -0.0; case 2: return 1.2345678901234567e150; case 3: return -1.7976931348623157e150; case 4: return 4.9406564584124654e-324; case 5: return 2.2250738585072014e-308;
    case 6: return 0.1 + r.below(10) * 0.1; case 7: return r.gauss() * std::pow(10.0, (double)r.range(-300, 150)); case 8: return (double)r.u64(); default: return r.gauss();
  }
}
static P genp(Rng& r, int style) {
  P p;
  for (auto& v : p.x) v = num(r, style); for (auto& v : p.v) v = num(r, style == 2 && r.coin() ? 2 : 0); for (auto& v : p.scalar) v = num(r, style);
  p.t = num(r, style); p.timestep = style == 2 && r.coin(0.3) ? r.pick({-2147483647 - 1, 2147483647, -1}) : (int)r.below(50);
  p.type = style == 2 && r.coin(0.2) ? 0xffffffffu : 1u << r.below(6); if (r.coin(0.1)) p.type = 0; p.ordinal = r.coin();
  p.tag = r.u64() >> r.pick({0, 1, 20, 40, 50}); p.id = r.u64() >> r.pick({0, 33, 50});
  return p;
}
static uint64_t hp(const P& p) { uint64_t h = p.tag ^ (p.type << 3) ^ p.ordinal; uint64_t u; memcpy(&u, &p.x[0], 8); return vh::hcomb(h, u); }
static std::string file(const char* ext) { static int n = 0; return strf("%s/c10_%d_%d%s", vh::opt().dir.c_str(), (int)getpid(), n++ % 4, ext); }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); return s.str(); }
static C genc(Rng& r, int style, int maxn = 25) {
  C c; size_t n = r.pick({0, 1, 2, 3, 7}); if (r.coin(0.4)) n = r.below(maxn); for (size_t i = 0; i < n; i++) c.push_back(genp(r, style));
  bool one = r.coin(0.4); if (one) for (auto& p : c) p.type = c[0].type;
  c.loop = r.coin(0.4) && n > 2; c.complete = r.coin(); c.update_statistics(); return c;
}
static S gens(Rng& r, bool& consistent) {
  S s; int style = r.below(3), n = r.pick({0, 1, 1, 2, 3, 6, 10}); consistent = r.coin(0.75);
  for (int i = 0; i < n; i++) {
    C c = genc(r, style);
    if (!consistent) { c.id = (int)r.below(100); s.insert({(int)r.below(20), c}); continue; }
    if (r.coin(0.3)) s.add(c, (int)r.below(30)); else s.add(c);
  }
  return s;
}
static void cmp_set(const S& a, const S& b, bool consistent, const char* what) { // a: written, b: read
  VH_CHECK(a.size() == b.size(), strf("%s-count", what), "%s: %zu curves written, %zu read", what, a.size(), b.size());
  if (a.size() != b.size()) return;
  vh::count("sets_compared"); 
  if (consistent) {
    auto i = a.begin(), j = b.begin();
    for (; i != a.end(); ++i, ++j) {
      VH_CHECK(i->first == j->first, strf("%s-label", what), "%s: curve labelled %d is read with label %d", what, i->first, j->first);
      auto d = diffc(i->second, j->second); VH_CHECK(d.empty(), strf("%s-curve", what), "%s: curve %d (%zu points) differs after reading:%s", what, i->first, i->second.size(), d.c_str());
      vh::count("curves_compared"); if (i->second.loop) vh::count("loops_compared");
    }
  } else { // labels need not match the ids stored in the curves: only the contents are judged
    std::vector<const C*> u; for (auto& kv : b) u.push_back(&kv.second);
    for (auto& kv : a) { size_t k = 0; while (k < u.size() && !diffc(kv.second, *u[k], false).empty()) k++; VH_CHECK(k < u.size(), strf("%s-curve", what), "%s: a curve of %zu points is not found after reading", what, kv.second.size()); if (k < u.size()) u.erase(u.begin() + k); vh::count("curves_compared"); }
  }
}
// --- text: key=value pairs of a line
static std::vector<double> vals(const std::string& l, const std::string& key) {
  size_t p = 0;
  while ((p = l.find(key + "=", p)) != std::string::npos && p > 0 && (isalnum((unsigned char)l[p - 1]) || l[p - 1] == '_')) p++;
  std::vector<double> v; if (p == std::string::npos) return v;
  const char* c = l.c_str() + p + key.size() + 1; bool tup = *c == '('; if (tup) c++;
  while (1) { char* e; double d = strtod(c, &e); if (e == c) break; v.push_back(d); if (!tup) break; c = e; if (*c != ',') break; c++; while (*c == ' ') c++; }
  return v;
}
static bool near6(double a, double b) { return a == b || std::abs(a - b) <= 1.1e-5 * std::abs(b) || (std::isinf(a) && std::abs(b) > 1.7e308) || (std::abs(b) < 1e-307 && std::abs(a) < 1e-307); }
static bool line_ok(const std::string& l, const P& p, const std::vector<std::string>& comp, bool id = true) {
  auto is = [&](const char* k, const std::vector<double>& e) { auto v = vals(l, k); if (v.size() < e.size()) return false; for (size_t i = 0; i < e.size(); i++) if (!near6(v[i], e[i])) return false; return true; };
  auto big = [&](const char* k, unsigned long long e) { return l.find(strf("%s=%llu", k, e)) != std::string::npos; };
  bool ok = is("x", {p.x[0], p.x[1], p.x[2]}) && is("t", {p.t}) && is("v", {p.v[0], p.v[1], p.v[2]}) && big("type", p.type) && is("timestep", {(double)p.timestep}) && big("ordinal", p.ordinal) && big("tag", p.tag) && (!id || big("id", p.id));
  for (size_t k = 0; k < comp.size(); k++) ok = ok && is(comp[k].c_str(), {p.scalar[k]});
  return ok;
}
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> v; std::istringstream i(s); std::string l; while (std::getline(i, l)) if (!l.empty()) v.push_back(l); return v; }
static void check_curve_text(const std::string& txt, const S& s, const std::vector<std::string>& comp) {
  auto L = lines(txt); size_t i = 0;
  while (i < L.size() && L[i].compare(0, 2, "--") != 0) i++; // header
  for (auto& kv : s) {
    bool ok = i < L.size() && L[i].compare(0, 3, "---") != 0; VH_CHECK(ok, "text-curves", "text lists fewer than %zu curves", s.size()); if (!ok) return;
    const std::string& h = L[i++]; const C& c = kv.second;
    size_t q = h.find_first_of("0123456789-", 2); while (q != std::string::npos && q < h.size() && !isdigit((unsigned char)h[q])) q = h.find_first_of("0123456789", q + 1);
    VH_CHECK(q != std::string::npos && atoi(h.c_str() + q) == kv.first, "text-label", "curve %d is listed as: %s", kv.first, h.substr(0, 60).c_str());
    auto rg = [&](const char* k, double e) { auto v = vals(h, k); VH_CHECK(v.size() && near6(v[0], e), "text-statistics", "curve %d: %s=%g is listed as: %s", kv.first, k, e, h.substr(0, 300).c_str()); };
    if (!c.empty()) {
      rg("tmin", c.tmin); rg("tmax", c.tmax); rg("loop", c.loop); rg("consistent_type", c.consistent_type); rg("bbmin", c.bbmin[0]); rg("bbmax", c.bbmax[0]);
      if (comp.size()) { auto a = vals(h, "min"), b = vals(h, "max"), p = vals(h, "persistence"); bool g = a.size() >= comp.size() && b.size() >= comp.size() && p.size() >= comp.size(); for (size_t k = 0; g && k < comp.size(); k++) g = near6(a[k], c.min[k]) && near6(b[k], c.max[k]) && near6(p[k], c.persistence[k]); VH_CHECK(g, "text-statistics", "curve %d: scalar ranges are listed as: %s", kv.first, h.substr(0, 300).c_str()); }
    }
    for (auto& p : c) { bool g = i < L.size() && L[i].compare(0, 3, "---") == 0 && line_ok(L[i], p, comp); VH_CHECK(g, "text-point", "point of tag %llu of curve %d is listed as: %s", p.tag, kv.first, i < L.size() ? L[i].c_str() : "(end)"); i++; vh::count("text_points"); }
  }
  VH_CHECK(i == L.size(), "text-extra", "text lists %zu extra lines after all curves", L.size() - i);
}
static std::vector<std::string> comps(Rng& r) { static const char* n[] = {"scalar", "psi", "dpot"}; std::vector<std::string> c; int k = r.below(NV + 1); for (int i = 0; i < k; i++) c.push_back(n[i]); return c; }
struct T2 : critical_point_tracker_2d_regular { T2() : tracker(diy::mpi::communicator()), critical_point_tracker_2d_regular(diy::mpi::communicator()) {} auto& mesh() { return m; } };
static feature_surface_t gensurf(Rng& r, int ns = 3) {
  feature_surface_t s; int style = r.below(ns); size_t n = r.pick({0, 1, 3, 10, 40}); for (size_t i = 0; i < n; i++) s.pts.push_back(genp(r, style));
  if (n >= 3) { auto id = [&] { return (int)r.below(n); }; for (size_t k = r.below(30); k--;) s.tris.push_back({id(), id(), id()}); if (r.coin()) for (size_t k = r.below(10); k--;) s.quads.push_back({id(), id(), id(), id()}); if (r.coin()) for (size_t k = r.below(5); k--;) s.pentagons.push_back({id(), id(), id(), id(), id()}); }
  return s;
}
#ifndef WITH_VTK
struct T3 : critical_point_tracker_3d_regular { T3() : tracker(diy::mpi::communicator()), critical_point_tracker_3d_regular(diy::mpi::communicator()) {} auto& mesh() { return m; } };
template <class T> static void setup(T& t, int d, const std::vector<size_t>& dims) {
  t.set_domain(d == 2 ? lattice({0, 0}, {dims[0], dims[1]}) : lattice({0, 0, 0}, {dims[0], dims[1], dims[2]}));
  t.set_array_domain(d == 2 ? lattice({0, 0}, {dims[0], dims[1]}) : lattice({0, 0, 0}, {dims[0], dims[1], dims[2]}));
  t.set_scalar_field_source(SOURCE_NONE); t.set_vector_field_source(SOURCE_GIVEN); t.set_jacobian_field_source(SOURCE_NONE); t.initialize();
}
// the untraced points, in the order the tracker reports them
template <class T, class Mk> static void points_case(Rng& r, Mk mk, const std::vector<unsigned long long>& tags, const char* name) {
  int style = r.below(3); T* a = mk(); std::vector<P> ps; auto comp = comps(r);
  for (auto t : tags) { P p = genp(r, style); p.tag = t; ps.push_back(p); }
  static_cast<critical_point_tracker*>(a)->put_critical_points(ps); auto orig = a->get_critical_points();
  std::map<unsigned long long, const P*> by; for (auto& p : ps) by[p.tag] = &p; bool all = orig.size() == ps.size(); for (auto& p : orig) if (!by.count(p.tag) || !eqp(*by[p.tag], p)) all = false;
  VH_CHECK(all, "put-points", "%s: %zu points put, %zu reported", name, ps.size(), orig.size());
  a->set_scalar_components(comp);
  for (int fmt = 0; fmt < 2; fmt++) {
    auto f = file(fmt ? ".json" : ".bin"); if (fmt) a->write_critical_points_json(f); else a->write_critical_points_binary(f);
    for (int who = 0; who < 2; who++) { T* b = who ? a : mk(); if (fmt) b->read_critical_points_json(f); else b->read_critical_points_binary(f); auto g = b->get_critical_points();
      VH_CHECK(eqv(orig, g), strf("points-%s", fmt ? "json" : "binary"), "%s, %s tracker: %zu points written, %zu read, or their contents differ", name, who ? "same" : "another", orig.size(), g.size()); if (!who) delete b; vh::count("points_compared", g.size()); }
    remove(f.c_str());
  }
  auto check = [&](const std::string& txt, const char* how) { auto L = lines(txt); VH_CHECK(L.size() == orig.size(), "points-text-count", "%s: text (%s) has %zu lines for %zu points", name, how, L.size(), orig.size()); if (L.size() == orig.size()) for (size_t i = 0; i < L.size(); i++) VH_CHECK(line_ok(L[i], orig[i], comp), "points-text", "%s: point of tag %llu is listed as: %s", name, orig[i].tag, L[i].c_str()); vh::count("text_points", L.size()); };
  auto f = file(".txt"); a->write_critical_points_text(f); check(slurp(f), "file"); remove(f.c_str());
  std::ostringstream os; a->write_critical_points_text(os); check(os.str(), "stream");
  delete a;
}
static uint64_t t_points(Rng& r, int64_t) {
  uint64_t h = 1; std::set<unsigned long long> tags; int n = r.pick({0, 1, 2, 10, 60}), what = r.below(4); h = vh::hcomb(what, n);
  diy::mpi::communicator comm;
  if (what < 2) {
    int d = what ? 3 : 2; std::vector<size_t> dims; for (int k = 0; k < d; k++) dims.push_back((size_t)r.range(3, 9));
    if (d == 2) { auto mk = [&] { auto t = new T2; setup(*t, 2, dims); return t; }; auto t = mk(); auto& m = t->mesh();
      for (int i = 0; i < n; i++) { simplicial_regular_mesh_element e(std::vector<int>{(int)r.below(dims[0]), (int)r.below(dims[1]), (int)r.below(20)}, 2, (int)r.below(m.ntypes(2))); tags.insert(e.to_integer<unsigned long long>(m)); }
      delete t; points_case<T2>(r, mk, {tags.begin(), tags.end()}, "2D regular"); }
    else { auto mk = [&] { auto t = new T3; setup(*t, 3, dims); return t; }; auto t = mk(); auto& m = t->mesh();
      for (int i = 0; i < n; i++) { simplicial_regular_mesh_element e(std::vector<int>{(int)r.below(dims[0]), (int)r.below(dims[1]), (int)r.below(dims[2]), (int)r.below(20)}, 3, (int)r.below(m.ntypes(3))); tags.insert(e.to_integer<unsigned long long>(m)); }
      delete t; points_case<T3>(r, mk, {tags.begin(), tags.end()}, "3D regular"); }
  } else {
    for (int i = 0; i < n; i++) tags.insert(r.below(1u << 30));
    if (what == 2) { UMesh u = gen_mesh2(r); auto b = std::make_shared<simplicial_unstructured_2d_mesh<>>(u.x, u.cells); std::shared_ptr<simplicial_unstructured_extruded_2d_mesh<>> m(new simplicial_unstructured_extruded_2d_mesh_implicit<>(b));
      typedef critical_point_tracker_2d_unstructured T; points_case<T>(r, [&] { return new T(comm, m); }, {tags.begin(), tags.end()}, "2D unstructured"); }
    else { UMesh u = gen_mesh3(r, 2); auto b = std::make_shared<simplicial_unstructured_3d_mesh<>>(u.x, u.cells); 
      typedef critical_point_tracker_3d_unstructured T; points_case<T>(r, [&] { return new T(comm, b); }, {tags.begin(), tags.end()}, "3D unstructured"); }
  }
  for (auto t : tags) h = vh::hcomb(h, t);
  return n ? h : 0;
}
#endif
static uint64_t t_sets(Rng& r, int64_t) {
  bool cons; S s = gens(r, cons); uint64_t h = s.size(); for (auto& kv : s) { h = vh::hcomb(h, kv.first); for (auto& p : kv.second) h = vh::hcomb(h, hp(p)); }
  T2 a; a.get_traced_critical_points() = s; auto comp = comps(r); a.set_scalar_components(comp);
  for (int fmt = 0; fmt < 2; fmt++) {
    auto f = file(fmt ? ".json" : ".bin"); int indent = r.pick({0, 2}); if (fmt) a.write_traced_critical_points_json(f, indent); else a.write_traced_critical_points_binary(f);
    T2 b; bool dirty = r.coin(); if (dirty) { bool c2; b.get_traced_critical_points() = gens(r, c2); }
    if (fmt) b.read_traced_critical_points_json(f); else b.read_traced_critical_points_binary(f);
    cmp_set(s, b.get_traced_critical_points(), cons, fmt ? "json" : "binary");
    if (cons) { if (fmt) a.read_traced_critical_points_json(f); else a.read_traced_critical_points_binary(f); cmp_set(s, a.get_traced_critical_points(), cons, fmt ? "json-same" : "binary-same"); }
    remove(f.c_str());
    a.get_traced_critical_points() = s;
  }
  { std::string buf; diy::serializeToString(s, buf); S t; diy::unserializeFromString(buf, t); cmp_set(s, t, cons, "string"); }
  for (auto& kv : s) { std::string buf; diy::serializeToString(kv.second, buf); C t = r.coin() ? kv.second : C(); diy::unserializeFromString(buf, t); auto d = diffc(kv.second, t); VH_CHECK(d.empty(), "curve-string", "a curve of %zu points differs after serialization:%s", t.size(), d.c_str());
    nlohmann::json j = kv.second; C u = r.coin() ? kv.second : C(); u = nlohmann::json::parse(j.dump()).get<C>(); d = diffc(kv.second, u); VH_CHECK(d.empty(), "curve-json", "a curve of %zu points differs after JSON:%s", u.size(), d.c_str()); }
  auto f = file(".txt"); a.write_traced_critical_points_text(f); check_curve_text(slurp(f), s, comp); remove(f.c_str());
  std::ostringstream os; s.write_text(os, comp); check_curve_text(os.str(), s, comp);
  std::ostringstream os2; a.write_traced_critical_points_text(os2); check_curve_text(os2.str(), s, comp);
  a.slice_traced_critical_points();
  auto sl = a.get_sliced_critical_points(); auto f2 = file(".json"); a.write_sliced_critical_points_json(f2); T2 b; b.read_sliced_critical_points_json(f2); remove(f2.c_str());
  bool ok = sl.size() == b.get_sliced_critical_points().size(); if (ok) for (auto& kv : sl) { auto it = b.get_sliced_critical_points().find(kv.first); if (it == b.get_sliced_critical_points().end() || !eqv(kv.second, it->second)) ok = false; }
  VH_CHECK(ok, "sliced-json", "%zu slices written, %zu read, or their points differ", sl.size(), b.get_sliced_critical_points().size());
  for (auto& kv : sl) { std::ostringstream o; a.write_sliced_critical_points_text(kv.first, o); auto L = lines(o.str()); bool g = L.size() == kv.second.size(); for (size_t i = 0; g && i < L.size(); i++) g = line_ok(L[i], kv.second[i], comp); VH_CHECK(g, "sliced-text", "text of slice %d does not list its %zu points", kv.first, kv.second.size()); vh::count("slices_text"); }
  return s.empty() ? 0 : h;
}
static uint64_t t_surface(Rng& r, int64_t) {
  auto s = gensurf(r); uint64_t h = s.pts.size(); for (auto& p : s.pts) h = vh::hcomb(h, hp(p));
  const char* ext = r.pick({".bin", ".binary", ".srf", ""}); auto f = file(ext); const char* fmt = r.pick({"", "auto", "bin"}); s.save(f, fmt);
  feature_surface_t t; if (r.coin()) t = gensurf(r); t.load(f, fmt); remove(f.c_str());
  VH_CHECK(eqv(s.pts, t.pts) && s.tris == t.tris && s.quads == t.quads && s.pentagons == t.pentagons, "surface", "surface of %zu points, %zu triangles differs after save/load (extension '%s', format '%s'): %zu points, %zu triangles", s.pts.size(), s.tris.size(), ext, fmt, t.pts.size(), t.tris.size());
  vh::count("surfaces");
  return s.pts.empty() ? 0 : h;
}
#ifdef WITH_VTK
// VTK 9.1 cannot read its own XML files through expat 2.6 unless reparse deferral is off (as the project's tests do)
#include <dlfcn.h>
extern "C" void* XML_ParserCreate(const char* e) {
  static auto next = (void* (*)(const char*))dlsym(RTLD_NEXT, "XML_ParserCreate"); void* p = next(e);
  auto set = (unsigned char (*)(void*, unsigned char))dlsym(RTLD_DEFAULT, "XML_SetReparseDeferralEnabled"); if (p && set) set(p, 0);
  return p;
}
static bool f32(double a, double b) { return std::abs(a - b) <= 1.1e-5 * std::abs(b); } // single precision, and the digits of legacy files
static uint64_t t_vtk(Rng& r, int64_t i) {
  S s; int n = r.pick({0, 1, 2, 3, 6}); uint64_t h = n;
  for (int k = 0; k < n; k++) { C c = genc(r, r.below(2), 15); unsigned long long t0 = 1000 * k + 1; for (auto& p : c) p.tag = t0++; c.update_statistics(); s.add(c); }
  for (auto& kv : s) for (auto& p : kv.second) h = vh::hcomb(h, hp(p));
  auto comp = comps(r); size_t npts = 0, nlines = 0, nverts = 0; for (auto& kv : s) { npts += kv.second.size(); if (kv.second.size() > 1) nlines++; else if (kv.second.size() == 1) nverts++; }
  auto poly = s.to_vtp(comp);
  auto judge = [&](vtkPolyData* p, const char* how) {
    VH_CHECK((size_t)p->GetNumberOfPoints() == npts && (size_t)p->GetNumberOfLines() == nlines && (size_t)p->GetNumberOfVerts() == nverts, "vtk-counts", "%s: %lld points, %lld lines, %lld vertices; expected %zu, %zu, %zu", how, (long long)p->GetNumberOfPoints(), (long long)p->GetNumberOfLines(), (long long)p->GetNumberOfVerts(), npts, nlines, nverts);
    size_t i = 0; bool ok = (size_t)p->GetNumberOfPoints() == npts; auto* pd = p->GetPointData();
    for (auto& kv : s) for (auto& q : kv.second) { if (!ok) break; double x[3]; p->GetPoint(i, x); for (int k = 0; k < 3; k++) if (!f32(x[k], q.x[k])) ok = false;
      auto v = [&](const char* nme, int c = 0) { auto* a = pd->GetArray(nme); return a ? a->GetComponent(i, c) : NAN; };
      if (!f32(v("time"), q.t) || v("type") != q.type || v("id") != q.id || v("tag") != q.tag || !f32(v("velocity", 0), q.v[0]) || !f32(v("velocity", 2), q.v[2])) ok = false;
      for (size_t k = 0; k < comp.size(); k++) if (!f32(v(comp[k].c_str()), q.scalar[k])) ok = false; i++; }
    VH_CHECK(ok, "vtk-points", "%s: polydata points differ from the curves' points", how);
  };
  judge(poly, "to_vtp");
  auto back = [&](vtkPolyData* p, const char* how) {
    S t; if (r.coin()) { bool c2; t = gens(r, c2); } t.from_vtp(p, comp);
    std::multimap<int, const C*> a, b; for (auto& kv : s) if (!kv.second.empty()) a.insert({kv.first, &kv.second}); for (auto& kv : t) b.insert({kv.first, &kv.second});
    VH_CHECK(a.size() == b.size(), "vtk-read-count", "%s: %zu curves written, %zu read", how, a.size(), b.size()); if (a.size() != b.size()) return;
    for (auto x = a.begin(), y = b.begin(); x != a.end(); ++x, ++y) {
      const C &c = *x->second, &d = *y->second; std::string e; if (x->first != y->first) e += strf(" label %d/%d", x->first, y->first); if (c.loop != d.loop) e += " loop"; if (c.size() != d.size()) e += strf(" size %zu/%zu", c.size(), d.size());
      for (size_t i = 0; i < c.size() && i < d.size(); i++) { bool g = f32(c[i].t, d[i].t) && c[i].type == d[i].type && c[i].id == d[i].id && c[i].tag == d[i].tag; for (int k = 0; k < 3; k++) g = g && f32(c[i].x[k], d[i].x[k]) && f32(c[i].v[k], d[i].v[k]); if (!g) { e += strf(" point %zu (tag %llu/%llu)", i, c[i].tag, d[i].tag); break; } }
      VH_CHECK(e.empty(), "vtk-read", "%s: curve %d (%zu points, loop %d) differs after reading:%s", how, x->first, c.size(), (int)c.loop, e.c_str()); vh::count("vtk_curves"); if (c.loop) vh::count("vtk_loops");
    }
  };
  if (npts) back(poly, "to_vtp");
  bool legacy = r.coin(); auto f = file(legacy ? ".vtk" : ".vtp");
  T2 t; t.get_traced_critical_points() = s; t.set_scalar_components(comp); t.write_traced_critical_points_vtk(f);
  vtkSmartPointer<vtkPolyData> q;
  if (legacy) { auto rd = vtkSmartPointer<vtkPolyDataReader>::New(); rd->SetFileName(f.c_str()); rd->Update(); q = rd->GetOutput(); } else { auto rd = vtkSmartPointer<vtkXMLPolyDataReader>::New(); rd->SetFileName(f.c_str()); rd->Update(); q = rd->GetOutput(); }
  if (npts) { judge(q, legacy ? "legacy file" : "vtp file"); back(q, legacy ? "legacy file" : "vtp file"); }
  remove(f.c_str());
  { auto g = gensurf(r, 2); for (auto& p : g.pts) { p.tag = 0; } auto v = g.to_vtp(); bool ok = v->GetNumberOfPoints() == (int)g.pts.size() && v->GetNumberOfPolys() == (int)(g.tris.size() + g.quads.size()); for (size_t i = 0; ok && i < g.pts.size(); i++) { double x[3]; v->GetPoint(i, x); for (int k = 0; k < 3; k++) if (!f32(x[k], g.pts[i].x[k])) ok = false; if (!f32(v->GetPointData()->GetArray("time")->GetComponent(i, 0), g.pts[i].t) || v->GetPointData()->GetArray("type")->GetComponent(i, 0) != g.pts[i].type) ok = false; }
    VH_CHECK(ok, "vtk-surface", "polydata of a surface of %zu points, %zu triangles, %zu quads differs", g.pts.size(), g.tris.size(), g.quads.size()); vh::count("vtk_surfaces"); }
  return npts ? h : 0;
}
#endif
VH_MAIN({
  cpm::quiet();
#ifdef WITH_VTK
  vh::group("vtk", 300, 4000, t_vtk);
#else
  vh::group("points", 400, 6000, t_points);
#endif
  vh::group("sets", 600, 10000, t_sets);
  vh::group("surface", 600, 10000, t_surface);
})
