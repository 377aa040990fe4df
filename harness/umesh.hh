// Generators of valid simplicial meshes: sub-complexes of a triangulated grid under random vertex numbering, listing order and vertex order.
#pragma once
#include "vh.hh"
struct UMesh { int nv = 0, D = 2; std::vector<double> x; std::vector<int> cells; std::string desc; };
inline UMesh gen_mesh2(vh::Rng& r, int maxn = 6, bool full = false, bool jitter = true) {
  int nx = 2 + r.below(maxn - 1), ny = 2 + r.below(maxn - 1), extra = full ? 0 : r.below(3);
  UMesh m; m.D = 2; m.nv = nx * ny + extra; std::vector<int> num(m.nv); std::iota(num.begin(), num.end(), 0); int mode = r.below(3); if (mode) r.shuffle(num);
  m.x.resize(2 * m.nv);
  for (int i = 0; i < m.nv; i++) { double px = i < nx * ny ? i % nx : 100 + i, py = i < nx * ny ? i / nx : 100; if (jitter) { px += r.real(-.3, .3); py += r.real(-.3, .3); } m.x[2 * num[i]] = px; m.x[2 * num[i] + 1] = py; }
  std::vector<std::array<int, 3>> T;
  for (int j = 0; j + 1 < ny; j++) for (int i = 0; i + 1 < nx; i++) { int a = i + j * nx, b = a + 1, c = a + nx, d = c + 1; if (r.coin()) { T.push_back({a, b, d}); T.push_back({a, d, c}); } else { T.push_back({a, b, c}); T.push_back({b, d, c}); } }
  if (!full && r.coin(.4)) { r.shuffle(T); T.resize(1 + r.below(T.size())); }
  if (r.coin()) r.shuffle(T);
  bool ordered = r.coin(.3);
  for (auto& t : T) { for (int& v : t) v = num[v]; if (!ordered) r.shuffle(t); for (int v : t) m.cells.push_back(v); }
  m.desc = vh::strf("2D grid %dx%d extra %d triangles %zu renumbered %d", nx, ny, extra, T.size(), mode);
  return m;
}
inline UMesh gen_mesh3(vh::Rng& r, int maxn = 3, bool full = false, bool jitter = true) {
  int nx = 2 + r.below(maxn - 1), ny = 2 + r.below(maxn - 1), nz = 2 + r.below(maxn - 1), extra = full ? 0 : r.below(2);
  UMesh m; m.D = 3; m.nv = nx * ny * nz + extra; std::vector<int> num(m.nv); std::iota(num.begin(), num.end(), 0); int mode = r.below(3); if (mode) r.shuffle(num);
  m.x.resize(3 * m.nv);
  for (int i = 0; i < m.nv; i++) { double p[3] = {i < nx * ny * nz ? (double)(i % nx) : 100. + i, (double)(i / nx % ny), (double)(i / nx / ny)}; for (int k = 0; k < 3; k++) m.x[3 * num[i] + k] = p[k] + (jitter ? r.real(-.15, .15) : 0); }
  std::vector<std::array<int, 4>> T;
  for (int k = 0; k + 1 < nz; k++) for (int j = 0; j + 1 < ny; j++) for (int i = 0; i + 1 < nx; i++) {
    int p[3] = {0, 1, 2}, st[3] = {1, nx, nx * ny}; int a = i + j * nx + k * nx * ny;
    do { std::array<int, 4> t; t[0] = a; for (int q = 0; q < 3; q++) t[q + 1] = t[q] + st[p[q]]; T.push_back(t); } while (std::next_permutation(p, p + 3));
  }
  if (!full && r.coin(.4)) { r.shuffle(T); T.resize(1 + r.below(T.size())); }
  if (r.coin()) r.shuffle(T);
  for (auto& t : T) { for (int& v : t) v = num[v]; r.shuffle(t); for (int v : t) m.cells.push_back(v); }
  m.desc = vh::strf("3D grid %dx%dx%d extra %d tets %zu renumbered %d", nx, ny, nz, extra, T.size(), mode);
  return m;
}
