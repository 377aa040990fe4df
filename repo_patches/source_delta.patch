From 4849f918b8aafa9835464aedd560942ecb39cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 001/141] fix: regular mesh element ids overflow on boxes with
 more than 2^31 points

---
 include/ftk/mesh/simplicial_regular_mesh.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/mesh/simplicial_regular_mesh.hh b/include/ftk/mesh/simplicial_regular_mesh.hh
index b92d54f..44e31b6 100644
--- a/include/ftk/mesh/simplicial_regular_mesh.hh
+++ b/include/ftk/mesh/simplicial_regular_mesh.hh
@@ -238,7 +238,7 @@ private:
   const int nd_;
   std::vector<int> lb_, ub_; // lower and upper bounds of each dimension
   std::vector<int> ntypes_, ntypes_ordinal_, ntypes_interval_; // number of types for k-simplex
-  std::vector<int> dimprod_;
+  std::vector<size_t> dimprod_;
 
   struct lattice lattice_; 
 
@@ -942,7 +942,7 @@ inline void simplicial_regular_mesh::set_lb_ub(const std::vector<I>& l, const st
 
   for (int i = 0; i < nd()+1; i ++) {
     if (i == 0) dimprod_[i] = 1;
-    else dimprod_[i] = (u[i-1] - l[i-1] + 1) * dimprod_[i-1];
+    else dimprod_[i] = (size_t)(ub_[i-1] - lb_[i-1] + 1) * dimprod_[i-1];
   }
 }
 
-- 
2.43.0


From 6b7d1efdeab1e67745c537849b2ccbbe650937ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 002/141] fix: to_work_index drops the element type

---
 include/ftk/mesh/simplicial_regular_mesh.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_regular_mesh.hh b/include/ftk/mesh/simplicial_regular_mesh.hh
index 44e31b6..ba82f2b 100644
--- a/include/ftk/mesh/simplicial_regular_mesh.hh
+++ b/include/ftk/mesh/simplicial_regular_mesh.hh
@@ -474,7 +474,14 @@ inline std::ostream& operator<<(std::ostream& os, const simplicial_regular_mesh_
 inline size_t simplicial_regular_mesh_element::to_work_index(const simplicial_regular_mesh& m, const lattice& l, int scope) const
 {
   size_t idx = l.to_integer(corner);
-  return idx * m.ntypes(dim, scope);
+
+  size_t itype = type;
+  if (scope == ELEMENT_SCOPE_ORDINAL || scope == ELEMENT_SCOPE_INTERVAL) {
+    const auto &types = scope == ELEMENT_SCOPE_ORDINAL ? m.unit_ordinal_simplex_types[dim] : m.unit_interval_simplex_types[dim];
+    itype = std::find(types.begin(), types.end(), type) - types.begin();
+  }
+
+  return idx * m.ntypes(dim, scope) + itype;
 }
 
 inline void simplicial_regular_mesh_element::from_work_index(const simplicial_regular_mesh& m, size_t i, const lattice& l, int scope)
-- 
2.43.0


From ab1d1d08ecb6aff5c9f76ae18920d8fa79bb0f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 003/141] fix: parallel_for never returns when the number of
 threads is zero

---
 include/ftk/object.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/object.hh b/include/ftk/object.hh
index 3e79d34..e3a72f7 100644
--- a/include/ftk/object.hh
+++ b/include/ftk/object.hh
@@ -64,7 +64,7 @@ struct object {
       bool affinity = true)
   {
     if (thread_backend == FTK_THREAD_PTHREAD) {
-      nthreads = std::min(ntasks, nthreads);
+      nthreads = std::max(1, std::min(ntasks, nthreads)); // hardware_concurrency() may be 0
 
       std::vector<std::thread> workers;
       for (auto i = 1; i < nthreads; i ++) {
-- 
2.43.0


From e48d11f899d811dcb7accd4714dd23a9f052717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 004/141] fix: 2D mesh constructed from vectors has no edges

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index ed5ffb3..8757e0e 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -270,6 +270,8 @@ simplicial_unstructured_2d_mesh<I, F>::simplicial_unstructured_2d_mesh(const std
   triangles.reshape({3, triangles_.size()/3});
 
   build_triangles();
+  build_edges();
+  build_partition();
 }
 
 template <typename I, typename F>
-- 
2.43.0


From f2e3ed8e74f49e1278d5cfef6da9f49f5619b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 005/141] fix: 3D mesh constructed from vectors has no faces
 and edges

---
 include/ftk/mesh/simplicial_unstructured_3d_mesh.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
index 91ceecb..0068425 100644
--- a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
@@ -113,6 +113,8 @@ simplicial_unstructured_3d_mesh<I, F>::simplicial_unstructured_3d_mesh(
 
   // tetrahedra.copy_vector(tetrahedra_);
   // tetrahedra.reshape({4, tetrahedra_.size()/4});
+
+  initialize();
 }
 
 template <typename I, typename F>
-- 
2.43.0


From 3f6e73f3bd0f0182afb588e858e2ef878e379a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 006/141] fix: wrong vertex in the fourth pentachoron type of
 the extruded 3D mesh

---
 include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
index 0e2041a..47207d7 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
@@ -433,9 +433,9 @@ void simplicial_unstructured_extruded_3d_mesh<I, F>::get_simplex(int d, I k, I v
         verts[4] = tet[3] + m->n(0);
         break;
 
-      case 3: // type IV:  0 1'1'2'3'
+      case 3: // type IV:  0 0'1'2'3'
         verts[0] = tet[0];
-        verts[1] = tet[1] + m->n(0);
+        verts[1] = tet[0] + m->n(0);
         verts[2] = tet[1] + m->n(0);
         verts[3] = tet[2] + m->n(0);
         verts[4] = tet[3] + m->n(0);
-- 
2.43.0


From 2c77bf00bdb71264e8908c05fbf92fb1d40aff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 007/141] fix: incomplete coboundary of triangles in the
 extruded 3D mesh

---
 ...implicial_unstructured_extruded_3d_mesh.hh | 205 ++----------------
 1 file changed, 24 insertions(+), 181 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
index 47207d7..445a7d1 100644
--- a/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh
@@ -999,7 +999,7 @@ std::set<I> simplicial_unstructured_extruded_3d_mesh<I, F>::side_of(int d, I k)
         }
       }
     }
-  } else if (d == 2) { // WIP
+  } else if (d == 2) {
     // find all tets in the base mesh that contains tri 012
     // check "position" too, e,g, 013 in 0123
     const I v0[3] = {mod(v[0], m->n(0)), mod(v[1], m->n(0)), mod(v[2], m->n(0))};
@@ -1009,210 +1009,53 @@ std::set<I> simplicial_unstructured_extruded_3d_mesh<I, F>::side_of(int d, I k)
       bool found = m->find_simplex(2, v0, otid);
       assert(found);
 
+      results.insert(otid + t*n(3) + 4*m->n(3)); // 0 1 2 2'
+      results.insert(otid + (t-1)*n(3) + 4*m->n(3) + 2*m->n(2)); // 0 0'1'2' (t-1)
+
       for (auto otetid : m->side_of(2, otid)) {
         I tet[4];
         m->get_simplex(3, otetid, tet);
 
         int pos = position23(v0, tet);
-        if (pos == 0) { // a 0 1 2 in base mesh, find all tets that contains 012 or 0'1'2' in the a012--a'0'1'2' prism
-                        // equiv to find 123 in 0123-0'1'2'3'
-          // 0 1 2 3
-          results.insert(otetid + t*n(3));
-          // 0 1'2'3' (t-1)
-          results.insert(otetid + (t-1)*n(3) + 3*m->n(3));
-        } else if (pos == 1) { // 0 a 1 2, equil. 023 in 0123-0'1'2'3'
-          // 0 1 2 3
-          results.insert(otetid + t*n(3));
-          // 0 2 3 3' (0 1 2 2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[2], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3));
-          }
-        } else if (pos == 2) { // 0 1 a 2, equil. 013 in 0123-0'1'2'3'
-          // 0 1 2 3
-          results.insert(otetid + t*n(3));
-          // 0 1 3 3' (0 1 2 2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3));
-          }
-        } else if (pos == 3) { // 0 1 2 a, equil. 012 in 0123-0'1'2'3'
-          // 0 1 2 3
-          results.insert(otetid + t*n(3));
-          // 0 1 2 2' (0 1 2 2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[2]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3));
-          }
-          // 0 1 2 3'
-          results.insert(otetid + t*n(3) + m->n(3));
-          // 0 0'1'2' (t-1, 0 0'1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[2]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + (t-1)*n(3) + 4*m->n(3) + 2*m->n(2));
-          }
-        }
+        results.insert(otetid + t*n(3)); // 0 1 2 3
+        if (pos == 0) // a 0 1 2, equiv. 123 in 0123-0'1'2'3'
+          results.insert(otetid + (t-1)*n(3) + 3*m->n(3)); // 0 1'2'3' (t-1)
+        else if (pos == 3) // 0 1 2 a, equiv. 012 in 0123-0'1'2'3'
+          results.insert(otetid + t*n(3) + m->n(3)); // 0 1 2 3'
       }
     } else if (i < 2*m->n(2)) { // type 0 1 2', pos=0, 1, 2, 3
       bool found = m->find_simplex(2, v0, otid);
       assert(found);
 
+      results.insert(otid + t*n(3) + 4*m->n(3)); // 0 1 2 2'
+      results.insert(otid + t*n(3) + 4*m->n(3) + m->n(2)); // 0 1 1'2'
+
       for (auto otetid : m->side_of(2, otid)) {
         I tet[4];
         m->get_simplex(3, otetid, tet);
 
         int pos = position23(v0, tet);
-        if (pos == 0) { // a 0 1 2 in base mesh, find all tets that contains 012' in the a012--a'0'1'2' prism
-                        // equiv 123' in 0123-0'1'2'3'
-          // 0 1 2 3'
-          results.insert(otetid + t*n(3) + m->n(3));
-          // 1 2 2'3' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[1], tet[2], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-        } else if (pos == 1) { // 0 a 1 2, find 012', equiv to finding 023' in 0123-0'1'2'3'
-          // 0 1 2 3'
-          results.insert(otetid + t*n(3) + m->n(3));
-          // 0 2 2'3' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[2], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-        } else if (pos == 2) { // 0 1 a 2, equiv to finding 013' in 0123-0'1'2'3'
-          // 0 1 1'3' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-          // 0 1 3 3' (0 1 2 2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3));
-          }
-        } else if (pos == 3) { // 0 1 2 a, equiv to finding 012' in 0123-0'1'2'3'
-          // 0 1 2 2' (0 1 2 2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[2]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3));
-          }
-          // 0 1 1'2' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[2]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-        }
+        if (pos <= 2) // 123', 023', or 013' in 0123-0'1'2'3'
+          results.insert(otetid + t*n(3) + m->n(3)); // 0 1 2 3'
+        if (pos >= 2) // 013' or 012' in 0123-0'1'2'3'
+          results.insert(otetid + t*n(3) + 2*m->n(3)); // 0 1 2'3'
       }
     } else if (i < 3*m->n(2)) { // type 0 1'2', pos=0, 1, 2, 3
       bool found = m->find_simplex(2, v0, otid);
       assert(found);
-      
+
+      results.insert(otid + t*n(3) + 4*m->n(3) + m->n(2)); // 0 1 1'2'
+      results.insert(otid + t*n(3) + 4*m->n(3) + 2*m->n(2)); // 0 0'1'2'
+
       for (auto otetid : m->side_of(2, otid)) {
         I tet[4];
         m->get_simplex(3, otetid, tet);
 
         int pos = position23(v0, tet);
-        if (pos == 0) { // 1 2'3' in tet-prism
-          // 0 1 2'3'
-          results.insert(otetid + t*n(3) + 2*m->n(3));
-          // 1 1'2'3' (0 0'1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[1], tet[2], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + 2*m->n(2));
-          }
-          // 1 2 2'3' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[1], tet[2], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-        } else if (pos == 1) { // 0 2'3' in tet-prism
-          // 0 1 2'3'
-          results.insert(otetid + t*n(3) + 2*m->n(3));
-          // 0 1'2'3'
-          results.insert(otetid + t*n(3) + 3*m->n(3));
-          // 0 2 2'3' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[2], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-        } else if (pos == 2) { // 0 1'3' in tet-prism
-          // 0 1 1'3' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-          // 0 0'1'3' (0 0'1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[3]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + 2*m->n(2));
-          }
-          // 0 1'2'3'
-          results.insert(otetid + t*n(3) + 3*m->n(3));
-        } else if (pos == 3) { // 0 1'2' in tet-prism
-          // 0 0'1'2' (0 0'1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[2]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + 2*m->n(2));
-          }
-          // 0 1 1'2' (0 1 1'2' type)
-          {
-            int otriid;
-            I otri[3] = {tet[0], tet[1], tet[2]};
-            bool succ = m->find_simplex(2, otri, otriid);
-            assert(succ);
-            results.insert(otriid + t*n(3) + 4*m->n(3) + m->n(2));
-          }
-          // 0 1'2'3'
-          results.insert(otetid + t*n(3) + 3*m->n(3));
-        }
+        if (pos <= 1) // 1 2'3' or 0 2'3' in 0123-0'1'2'3'
+          results.insert(otetid + t*n(3) + 2*m->n(3)); // 0 1 2'3'
+        if (pos >= 1) // 0 2'3', 0 1'3', or 0 1'2' in 0123-0'1'2'3'
+          results.insert(otetid + t*n(3) + 3*m->n(3)); // 0 1'2'3'
       }
     } else if (i < 3*m->n(2) + m->n(1)) { // find all triangles in the base mesh that contains edge 01 // type 0 1 1', pos=0, 1, 2
       const I ve[2] = {v0[0], v0[1]};
-- 
2.43.0


From 6bdcfa3c428c12202c2b8f05619e30129b1b0a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 008/141] fix: no partition although the domain can be cut

Prime factors were assigned to dimensions in turn regardless of the
sizes, so a domain of 1x26 could not be cut into 19 parts.
---
 include/ftk/mesh/lattice_partitioner.hh | 29 +++++++++++++++++++------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/ftk/mesh/lattice_partitioner.hh b/include/ftk/mesh/lattice_partitioner.hh
index 2de1027..6e5c26c 100644
--- a/include/ftk/mesh/lattice_partitioner.hh
+++ b/include/ftk/mesh/lattice_partitioner.hh
@@ -2,6 +2,7 @@
 #define _FTK_LATTICE_PARTITIONER_HH
 
 #include <ftk/mesh/lattice.hh>
+#include <functional>
 
 namespace ftk {
 
@@ -145,14 +146,28 @@ inline void lattice_partitioner::partition(size_t np,
   if(np > 1) {
     std::vector<size_t> prime_factors_all = prime_factorization(np);
 
-    int curr = 0;
-    for(size_t& prime : prime_factors_all) {
-      while(!is_vector_zero(given) && given[curr] != 0) { // if current dim is given, then skip it
-        curr = (curr + 1) % ndim;   
+    // Assign prime factors to the non-given dimensions in turn; a factor that no longer fits 
+    // in a dimension goes to the next one, and earlier choices are revised if nothing fits
+    std::vector<size_t> cuts(ndim, 1); // number of slices of each dimension so far
+    std::function<bool(size_t, int)> assign = [&](size_t i, int curr) {
+      if(i == prime_factors_all.size()) return true; 
+
+      for(int k = 0; k < ndim; ++k) {
+        const int d = (curr + k) % ndim; 
+        const size_t prime = prime_factors_all[i];
+        if(!is_vector_zero(given) && given[d] != 0) continue; // if the dim is given, then skip it
+        if(cuts[d] * prime > l.size(d)) continue;
+
+        cuts[d] *= prime; 
+        prime_factors_dims[d].push_back(prime);
+        if(assign(i + 1, (d + 1) % ndim)) return true; 
+        prime_factors_dims[d].pop_back(); 
+        cuts[d] /= prime; 
       }
-      prime_factors_dims[curr].push_back(prime); 
-      curr = (curr + 1) % ndim; 
-    }
+      return false; 
+    };
+
+    if(!assign(0, 0)) return; 
   }
 
   partition(prime_factors_dims); // get partitions given the prime factors of each dimension
-- 
2.43.0


From 20ed65e9bdb316b089f1838d5556c3a67e1be33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 009/141] fix: open ends and emptiness of basic intervals

Joining kept the open flags of the first operand, resetting an interval
kept old flags, set_lower_inf changed the upper end of integer intervals,
and empty intervals were said to overlap.
---
 include/ftk/numeric/basic_interval.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/ftk/numeric/basic_interval.hh b/include/ftk/numeric/basic_interval.hh
index 25a8bc8..892bc2c 100644
--- a/include/ftk/numeric/basic_interval.hh
+++ b/include/ftk/numeric/basic_interval.hh
@@ -36,7 +36,7 @@ struct basic_interval {
     if (std::numeric_limits<T>::has_infinity)
       _lower = -std::numeric_limits<T>::infinity();
     else 
-      _upper = std::numeric_limits<T>::min();
+      _lower = std::numeric_limits<T>::min();
   }
   void set_upper_inf() {
     if (std::numeric_limits<T>::has_infinity)
@@ -70,16 +70,19 @@ struct basic_interval {
   void set_to_empty() {
     _lower = upper_inf();
     _upper = lower_inf(); 
+    set_closed();
   }
 
   void set_to_complete() {
     _lower = lower_inf();
     _upper = upper_inf();
+    set_closed();
   }
 
   void set_to_singleton(T x) {
     _lower = x;
     _upper = x;
+    set_closed();
   }
 
   T lower() const {return _lower;}
@@ -152,7 +155,8 @@ struct basic_interval {
   }
 
   bool overlaps(const basic_interval<T> &i) const { 
-    if (lower() > i.upper() || upper() < i.lower()) return false;
+    if (empty() || i.empty()) return false;
+    else if (lower() > i.upper() || upper() < i.lower()) return false;
     else if (upper() == i.lower() && (upper_open() || i.lower_open())) return false;
     else if (lower() == i.upper() && (lower_open() || i.upper_open())) return false;
     else return true;
@@ -163,6 +167,12 @@ struct basic_interval {
     else if (upper() == i.lower() && upper_open() && i.lower_open()) return false;
     else if (lower() == i.upper() && lower_open() && i.upper_open()) return false;
     else {
+      if (lower() == i.lower()) _lower_open = lower_open() && i.lower_open();
+      else if (i.lower() < lower()) _lower_open = i.lower_open();
+
+      if (upper() == i.upper()) _upper_open = upper_open() && i.upper_open();
+      else if (i.upper() > upper()) _upper_open = i.upper_open();
+
       _lower = std::min(lower(), i.lower());
       _upper = std::max(upper(), i.upper());
       return true;
-- 
2.43.0


From 90fe4d8324b4f0ddebfe71fe5f2da228b6713845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 010/141] fix: joining adjacent intervals loses points

The set of subintervals is ordered by the lower end, so (2,3] was dropped
when [2,2] was there; an inverted range was kept as a subinterval.
---
 include/ftk/numeric/disjoint_intervals.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/ftk/numeric/disjoint_intervals.hh b/include/ftk/numeric/disjoint_intervals.hh
index 88bbc3a..9e7a4d6 100644
--- a/include/ftk/numeric/disjoint_intervals.hh
+++ b/include/ftk/numeric/disjoint_intervals.hh
@@ -11,7 +11,7 @@ template <typename T>
 struct disjoint_intervals {
   disjoint_intervals() {}
   disjoint_intervals(T l, T u) {
-    _subintervals.insert(basic_interval<T>(l, u));
+    join(l, u);
   }
   disjoint_intervals(T v) {
     _subintervals.insert(basic_interval<T>(v));
@@ -93,8 +93,7 @@ struct disjoint_intervals {
 
     for (typename std::set<basic_interval<T> >::iterator it = _subintervals.begin(); 
         it != _subintervals.end(); it ++) {
-      if (it->overlaps(ii)) {
-        ii.join(*it);
+      if (ii.join(*it)) {
         to_erase.push_back(it);
       }
     }
-- 
2.43.0


From cc1afdd97502224d7e8056c7bc404f1050b9138a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 011/141] fix: rational number arithmetic

Sums and differences used the second operand twice, values were not kept
in lowest terms with a positive denominator, assignments returned nothing,
and abs did not compile.
---
 include/ftk/numeric/gcd.hh             |  4 ++--
 include/ftk/numeric/rational_number.hh | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/ftk/numeric/gcd.hh b/include/ftk/numeric/gcd.hh
index 590b917..e8ea4a8 100644
--- a/include/ftk/numeric/gcd.hh
+++ b/include/ftk/numeric/gcd.hh
@@ -8,9 +8,9 @@ namespace ftk {
 template <typename I>
 __device__ __host__ I gcd(I a, I b) {
   while (true) {
-    if (a == I(0)) return b;
+    if (a == I(0)) return b < I(0) ? -b : b;
     b %= a;
-    if (b == I(0)) return a;
+    if (b == I(0)) return a < I(0) ? -a : a;
     a %= b;
   }
 }
diff --git a/include/ftk/numeric/rational_number.hh b/include/ftk/numeric/rational_number.hh
index 2a3917c..3913d88 100644
--- a/include/ftk/numeric/rational_number.hh
+++ b/include/ftk/numeric/rational_number.hh
@@ -16,12 +16,12 @@ class rational
 public:
   __device__ __host__ rational() : num(0), den(1) {} // zero
   __device__ __host__ rational(I n) : num(n), den(1) {} // n/1
-  __device__ __host__ rational(I n, I d) : num(n), den(d) {} // n/d
+  __device__ __host__ rational(I n, I d) : num(n), den(d) {normalize();} // n/d
   template <typename J> __device__ __host__
   rational(const rational<J>& r);
 
-  __device__ __host__ rational& operator=(I n) {num = n; den = 1;}
-  __device__ __host__ rational& assign(I n, I d) {num = n; den = d;}
+  __device__ __host__ rational& operator=(I n) {num = n; den = 1; return *this;}
+  __device__ __host__ rational& assign(I n, I d) {num = n; den = d; normalize(); return *this;}
 
   __device__ __host__ I numerator() const {return num;}
   __device__ __host__ I denominator() const {return den;}
@@ -165,12 +165,12 @@ private:
 // Unary operators
 template <typename I> __device__ __host__ rational<I> 
 operator+ (const rational<I>& a, const rational<I> &b) {
-  rational<I> t(b);
+  rational<I> t(a);
   return t += b;
 }
 template <typename I> __device__ __host__ rational<I> 
 operator- (const rational<I>& a, const rational<I> &b) {
-  rational<I> t(b);
+  rational<I> t(a);
   return t -= b;
 }
 
@@ -183,7 +183,7 @@ inline rational<I> operator/ (II i, const rational<I>& r);
 // Absolute value
 template <typename I> __device__ __host__
 rational<I> abs (const rational<I>& r) {
-  return r.numerator() >= I(0) ? r: -r;
+  return r.numerator() >= I(0) ? r : rational<I>(-r.numerator(), r.denominator());
 }
 
 // Input and output
-- 
2.43.0


From a73a2644e97ca962d3b55e118df9787950d42008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 012/141] fix: out-of-bounds read of the denominator polynomial

---
 include/ftk/numeric/quadratic_rational_inequality_solver.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/quadratic_rational_inequality_solver.hh b/include/ftk/numeric/quadratic_rational_inequality_solver.hh
index 2e386a2..cdd9c3c 100644
--- a/include/ftk/numeric/quadratic_rational_inequality_solver.hh
+++ b/include/ftk/numeric/quadratic_rational_inequality_solver.hh
@@ -20,7 +20,7 @@ solve_quadratic_rational_inequality_quantized(
   if (polynomial_equals_to_zero(P, 2)) {
     I.set_to_complete();
     return std::make_tuple(I, quantized_roots);
-  } else if (polynomial_equals_to_zero(Q, 3)) {
+  } else if (polynomial_equals_to_zero(Q, 2)) {
     I.set_to_empty();
     return std::make_tuple(I, quantized_roots);
   }
-- 
2.43.0


From 84ba972e2941687cf50ba0a5dcba9a7d66d957df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 013/141] fix: zero root of quadratic polynomials stored past
 the end

---
 include/ftk/numeric/quadratic_solver.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/quadratic_solver.hh b/include/ftk/numeric/quadratic_solver.hh
index ac42f0e..04e0844 100644
--- a/include/ftk/numeric/quadratic_solver.hh
+++ b/include/ftk/numeric/quadratic_solver.hh
@@ -67,7 +67,7 @@ int solve_quadratic_real(const T P[3], T x[2], const T epsilon)
     return solve_linear_real1(P, x);
   else if (std::abs(P[0]) <= epsilon || std::isinf(P[0]) || std::isnan(P[0])) {
     const int n = solve_linear_real1(P+1, x);
-    x[n+1] = T(0);
+    x[n] = T(0);
     return n+1;
   }
   else {
-- 
2.43.0


From f4396f89cdc8ce470e054a44c8d083162c0d3fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:26 +0000
Subject: [PATCH 014/141] fix: empty basic intervals contain their closed end

---
 include/ftk/numeric/basic_interval.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ftk/numeric/basic_interval.hh b/include/ftk/numeric/basic_interval.hh
index 892bc2c..2d7a338 100644
--- a/include/ftk/numeric/basic_interval.hh
+++ b/include/ftk/numeric/basic_interval.hh
@@ -139,7 +139,8 @@ struct basic_interval {
   }
 
   bool contains(T x) const {
-    if (singleton()) return x == lower();
+    if (empty()) return false;
+    else if (singleton()) return x == lower();
     else if (x == lower() && lower_closed()) return true;
     else if (x == upper() && upper_closed()) return true;
     else return x > lower() && x < upper();
-- 
2.43.0


From 5e209c155f6439e925eb4f235c468a095f96f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 015/141] fix: concurrent unite requests are lost

The roots were looked up before the mutex was taken, so a root linked in
the meantime was linked again and its first link dropped.
---
 include/ftk/basic/duf.hh | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/ftk/basic/duf.hh b/include/ftk/basic/duf.hh
index e3c4359..09bf31e 100644
--- a/include/ftk/basic/duf.hh
+++ b/include/ftk/basic/duf.hh
@@ -24,6 +24,8 @@ struct duf {
   std::set<T, Compare> get_roots() const;
 
 private:
+  T find_unlocked(T) const; // the caller holds the mutex
+
   mutable std::map<T, T, Compare> parents; // parents in the local process
   mutable std::mutex mutex;
 
@@ -41,24 +43,27 @@ bool duf<T, Compare>::has(T i) const
 template <typename T, class Compare>
 void duf<T, Compare>::unite(T i, T j)
 {
-  i = find(i); // i <-- root(i)
-  j = find(j); // j <-- root(j)
+  std::lock_guard<std::mutex> guard(mutex); // roots must not change until they are linked
+
+  i = find_unlocked(i); // i <-- root(i)
+  j = find_unlocked(j); // j <-- root(j)
   
   if (i == j) return;
   if (i > j) std::swap(i, j); // ensure i<j
 
-  // critical section
-  {
-    std::lock_guard<std::mutex> guard(mutex);
-    parents[j] = i; 
-  }
+  parents[j] = i; 
 }
 
 template <typename T, class Compare>
 T duf<T, Compare>::find(T i) const
 {
   std::lock_guard<std::mutex> guard(mutex);
-  
+  return find_unlocked(i);
+}
+
+template <typename T, class Compare>
+T duf<T, Compare>::find_unlocked(T i) const
+{
   if (parents.find(i) == parents.end()) { // if i does not exist, insert i to the graph and return i as the root
     parents.insert({i, i}); // parents[i] = i;
     return i;
-- 
2.43.0


From 41e7022a8f2874c64df53d3d1195da0446609c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 016/141] fix: nearest neighbours in kd trees of limited depth

---
 include/ftk/basic/kd.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ftk/basic/kd.hh b/include/ftk/basic/kd.hh
index aac1e80..89d0d64 100644
--- a/include/ftk/basic/kd.hh
+++ b/include/ftk/basic/kd.hh
@@ -281,6 +281,14 @@ std::shared_ptr<kd_node_t<F, n>> kd_t<F, n>::find_nearest_recursive(
 {
   if (!node) return nullptr;
 
+  if (node->is_leaf() && node->size > 1) { // max_level reached; check all points of the leaf
+    std::shared_ptr<kd_node_t<F, n>> best(new kd_node_t<F, n>(*node));
+    for (size_t i = node->offset; i < node->offset + node->size; i ++)
+      if (dist2(x, pts[ids[i]]) < dist2(x, pts[best->id]))
+        best->id = ids[i];
+    return best;
+  }
+
   const size_t axis = depth % n;
 
   std::shared_ptr<kd_node_t<F, n>> next, other;
-- 
2.43.0


From 2b0113a19b6abef81b6c9d3712efc94a8b3a700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:49 +0000
Subject: [PATCH 017/141] fix: points on the upper domain boundary are not
 located

---
 include/ftk/mesh/aabb.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/aabb.hh b/include/ftk/mesh/aabb.hh
index b3cb060..2d25dc4 100644
--- a/include/ftk/mesh/aabb.hh
+++ b/include/ftk/mesh/aabb.hh
@@ -36,7 +36,7 @@ struct AABB {
 
   bool contains(const std::array<T, N> &X) const {
     for (int i = 0; i < N; i ++) 
-      if (X[i] < A[i] || X[i] >= B[i])
+      if (X[i] < A[i] || X[i] > B[i])
         return false;
     return true;
   }
-- 
2.43.0


From f89c25278bea59e193c8e3f6a46dad5ec526b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:08 +0000
Subject: [PATCH 018/141] fix: point location on meshes with three coordinates
 per vertex

Meshes read from VTK files store three coordinates per vertex.
---
 include/ftk/mesh/point_locator_2d_quad.hh | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/ftk/mesh/point_locator_2d_quad.hh b/include/ftk/mesh/point_locator_2d_quad.hh
index d5a531b..e0fdabb 100644
--- a/include/ftk/mesh/point_locator_2d_quad.hh
+++ b/include/ftk/mesh/point_locator_2d_quad.hh
@@ -55,6 +55,7 @@ I point_locator_2d_quad<I, F>::locate_point_nonrecursive(const F x[], F mu[]) co
  
   const ndarray<F> &coords = this->m2.get_coords();
   const ndarray<I> &conn = this->m2.get_triangles();
+  const size_t nc = coords.dim(0); // 2 or 3 coordinates per vertex
   
   // auto t1 = clock::now();
 
@@ -70,7 +71,7 @@ I point_locator_2d_quad<I, F>::locate_point_nonrecursive(const F x[], F mu[]) co
     if (q->is_leaf()) {
       const int id = q->elements[0].id;
       const int i0 = conn[id*3], i1 = conn[id*3+1], i2 = conn[id*3+2];
-      int succ = inside_triangle(x, &coords[i0*2], &coords[i1*2], &coords[i2*2], mu);
+      int succ = inside_triangle(x, &coords[i0*nc], &coords[i1*nc], &coords[i2*nc], mu);
       if (succ) {
         // auto t2 = clock::now();
         // float tt0 = std::chrono::duration_cast<std::chrono::nanoseconds>(t1-t0).count();
@@ -96,12 +97,13 @@ I point_locator_2d_quad<I, F>::locate_point_recursive(const F x[], const quad_no
   auto m2 = this->m2;
   const auto &coords = m2.get_coords();
   const auto &conn = m2.get_triangles();
+  const size_t nc = coords.dim(0); // 2 or 3 coordinates per vertex
   
   if (q->aabb.contains(x)) {
     if (q->is_leaf()) {
       const int id = q->elements[0].id;
       const int i0 = conn[id*3], i1 = conn[id*3+1], i2 = conn[id*3+2];
-      int succ = inside_triangle(x, &coords[i0*2], &coords[i1*2], &coords[i2*2], mu);
+      int succ = inside_triangle(x, &coords[i0*nc], &coords[i1*nc], &coords[i2*nc], mu);
       if (succ) {
         // fprintf(stderr, "leaf node %d contains! triangle check=%d\n", id, result);
         return id;
@@ -231,15 +233,16 @@ void point_locator_2d_quad<I, F>::initialize()
   auto m2 = this->m2;
   const auto &coords = m2.get_coords();
   const auto &conn = m2.get_triangles();
+  const size_t nc = coords.dim(0); // 2 or 3 coordinates per vertex
   root = new quad_node;
 
   // global bounds
   AABB<2, F> &aabb = root->aabb;
   for (int i = 0; i < m2.n(0); i ++) {
-    aabb.A[0] = std::min(aabb.A[0], coords[2*i]);
-    aabb.A[1] = std::min(aabb.A[1], coords[2*i+1]);
-    aabb.B[0] = std::max(aabb.B[0], coords[2*i]);
-    aabb.B[1] = std::max(aabb.B[1], coords[2*i+1]);
+    aabb.A[0] = std::min(aabb.A[0], coords[nc*i]);
+    aabb.A[1] = std::min(aabb.A[1], coords[nc*i+1]);
+    aabb.B[0] = std::max(aabb.B[0], coords[nc*i]);
+    aabb.B[1] = std::max(aabb.B[1], coords[nc*i+1]);
   }
   aabb.update_centroid();
   // aabb.print();
@@ -247,8 +250,8 @@ void point_locator_2d_quad<I, F>::initialize()
   std::vector<AABB<2, F>> triangles(m2.n(2));
   for (int i=0; i<m2.n(2); i++) {
     const int i0 = conn[i*3], i1 = conn[i*3+1], i2 = conn[i*3+2];
-    double x0 = coords[i0*2], x1 = coords[i1*2], x2 = coords[i2*2], 
-           y0 = coords[i0*2+1], y1 = coords[i1*2+1], y2 = coords[i2*2+1];
+    double x0 = coords[i0*nc], x1 = coords[i1*nc], x2 = coords[i2*nc], 
+           y0 = coords[i0*nc+1], y1 = coords[i1*nc+1], y2 = coords[i2*nc+1];
 
     triangles[i].C[0] = (x0 + x1 + x2) / 3;
     triangles[i].C[1] = (y0 + y1 + y2) / 3;
-- 
2.43.0


From c15802394197b16c613de05dc3dc8e2687b3dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 019/141] fix: heap overflow in Hoshen-Kopelman labelling

---
 include/ftk/algorithms/hoshen_kopelman.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/algorithms/hoshen_kopelman.hh b/include/ftk/algorithms/hoshen_kopelman.hh
index 727308b..7f6ce6c 100644
--- a/include/ftk/algorithms/hoshen_kopelman.hh
+++ b/include/ftk/algorithms/hoshen_kopelman.hh
@@ -12,7 +12,7 @@ LabelIdType hoshen_kopelman_2d(ndarray<LabelIdType>& matrix)
   LabelIdType largest_label = 0;
 
   if (matrix.nd() != 2) return 0;
-  std::vector<LabelIdType> labels(matrix.nelem() / 2);
+  std::vector<LabelIdType> labels(matrix.nelem() / 2 + 2); // at most one label per two cells, rounded up, and the counter
 
   auto make_set = [&]() {
     labels[0] ++;
-- 
2.43.0


From 729fdde0aca46db08930075fbbd36de60de87459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 020/141] fix: node and edge queries of the tracking graph do
 not compile

---
 include/ftk/tracking_graph/tracking_graph.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ftk/tracking_graph/tracking_graph.hh b/include/ftk/tracking_graph/tracking_graph.hh
index 0d65859..afce440 100644
--- a/include/ftk/tracking_graph/tracking_graph.hh
+++ b/include/ftk/tracking_graph/tracking_graph.hh
@@ -94,7 +94,8 @@ template <class TimeIndexType, class LabelIdType, class GlobalLabelIdType, class
 bool tracking_graph<TimeIndexType, LabelIdType, GlobalLabelIdType, WeightType>::has_node(TimeIndexType t, LabelIdType l) const 
 {
   std::unique_lock<std::mutex> lock(mutex);
-  return nodes.find(std::make_pair(t, l)) != nodes.end();
+  auto it = nodes.find(t);
+  return it != nodes.end() && it->second.find(std::make_pair(t, l)) != it->second.end();
 }
   
 template <class TimeIndexType, class LabelIdType, class GlobalLabelIdType, class WeightType>
@@ -105,7 +106,7 @@ bool tracking_graph<TimeIndexType, LabelIdType, GlobalLabelIdType, WeightType>::
   auto it = right_links.find(std::make_pair(t0, l0)); 
   if (it == right_links.end()) 
     return false;
-  else if (it->find(std::make_pair(t1, l1)) == it->end())
+  else if (it->second.find(std::make_pair(t1, l1)) == it->second.end())
     return false;
   else return true;
 }
-- 
2.43.0


From 104d01fc231871119be76e29ae164729fe4d6567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:41 +0000
Subject: [PATCH 021/141] fix: regions without overlap are missing in the
 tracking graph

They had no global label and their birth and death were not reported.
---
 include/ftk/filters/connected_component_tracker.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ftk/filters/connected_component_tracker.hh b/include/ftk/filters/connected_component_tracker.hh
index 7e01a68..2c69880 100644
--- a/include/ftk/filters/connected_component_tracker.hh
+++ b/include/ftk/filters/connected_component_tracker.hh
@@ -45,6 +45,12 @@ void connected_component_tracker<TimeIndexType, LabelIdType>::finalize()
 template <typename TimeIndexType, typename LabelIdType>
 void connected_component_tracker<TimeIndexType, LabelIdType>::update_timestep()
 {
+  if (labeled_data_snapshots.empty()) return;
+
+  for (const auto l : labeled_data_snapshots.back()) // regions that overlap no other region are nodes as well
+    if (l != 0)
+      tg.add_node(current_timestep, l);
+
   if (labeled_data_snapshots.size() < 2) return;
 
   const auto &labels0 = labeled_data_snapshots[0],
-- 
2.43.0


From 63d37c7c8d4e0819442b58090ced65ac6acd853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 022/141] fix: subarrays of multi-component arrays

---
 include/ftk/ndarray.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 2049a03..b0d034b 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -455,10 +455,10 @@ ndarray<T> ndarray<T>::subarray(const lattice& l0) const
 {
   lattice l(l0);
   if (l0.nd_cuttable() < nd()) {
-    for (int i = 0; i < ncd; i ++) {
-      l.starts_.insert(l.starts_.begin(), 0);
-      l.sizes_.insert(l.starts_.begin(), this->shape(i));
-    }
+    std::vector<size_t> st(ncd, 0), sz(dims.begin(), dims.begin() + ncd); // all components
+    st.insert(st.end(), l0.starts_.begin(), l0.starts_.end());
+    sz.insert(sz.end(), l0.sizes_.begin(), l0.sizes_.end());
+    l.reshape(st, sz);
   }
 
   ndarray<T> arr(l.sizes());
-- 
2.43.0


From 8fd954c9de69da3e30f1650b91ada51cc08e8dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 023/141] fix: maximum of arrays without positive values

---
 include/ftk/ndarray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index b0d034b..244fc71 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -746,7 +746,7 @@ void ndarray<T>::reshape(const std::vector<size_t> &dims, T val)
 template <typename T>
 std::tuple<T, T> ndarray<T>::min_max() const {
   T min = std::numeric_limits<T>::max(), 
-    max = std::numeric_limits<T>::min();
+    max = std::numeric_limits<T>::lowest();
 
   for (size_t i = 0; i < nelem(); i ++) {
     min = std::min(min, at(i));
-- 
2.43.0


From 80eea3efb1d8c9421de1bf8c505705a5920817eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 024/141] fix: element access of constant arrays by index
 vectors does not compile

---
 include/ftk/ndarray.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 244fc71..9b3c71b 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -134,8 +134,8 @@ struct ndarray : public ndarray_base {
   T& operator()(size_t i0, size_t i1, size_t i2, size_t i3, size_t i4, size_t i5) {return p[i0+i1*s[1]+i2*s[2]+i3*s[3]+i4*s[4]+i5*s[5]];}
   T& operator()(size_t i0, size_t i1, size_t i2, size_t i3, size_t i4, size_t i5, size_t i6) {return p[i0+i1*s[1]+i2*s[2]+i3*s[3]+i4*s[4]+i5*s[5]+i6*s[6]];}
   
-  T& operator()(const std::vector<size_t>& idx) const {return at(idx);}
-  T& operator()(const std::vector<int>& idx) const {return at(idx);}
+  const T& operator()(const std::vector<size_t>& idx) const {return at(idx);}
+  const T& operator()(const std::vector<int>& idx) const {return at(idx);}
   const T& operator()(size_t i0) const {return p[i0];}
   const T& operator()(size_t i0, size_t i1) const {return p[i0+i1*s[1]];}
   const T& operator()(size_t i0, size_t i1, size_t i2) const {return p[i0+i1*s[1]+i2*s[2]];}
-- 
2.43.0


From 9159c0c1ae398cf9ee1a04f77c164bab074194d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 025/141] fix: printing of 3D arrays

---
 include/ftk/ndarray.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 9b3c71b..fef142a 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -1100,8 +1100,8 @@ std::ostream& ndarray<T>::print(std::ostream& os) const
       for (size_t j = 0; j < dims[1]; j ++) {
         os << "[";
         for (size_t i = 0; i < dims[0]; i ++)
-          if (i < dims[0]-1) os << at(i, j) << ", ";
-          else os << at(i, j) << "]";
+          if (i < dims[0]-1) os << at(i, j, k) << ", ";
+          else os << at(i, j, k) << "]";
         if (j < dims[1]-1) os << "], ";
         else os << "]";
       }
-- 
2.43.0


From df0f99bd7158a816421389dedea991b22de8b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 026/141] fix: subtraction of arrays is not defined

---
 include/ftk/ndarray.hh | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index fef142a..d1a8265 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -361,6 +361,26 @@ ndarray<T> operator+(const ndarray<T>& lhs, const ndarray<T>& rhs)
   return array;
 }
 
+template <typename T>
+ndarray<T>& ndarray<T>::operator-=(const ndarray<T>& x)
+{
+  assert(this->shape() == x.shape());
+  for (auto i = 0; i < p.size(); i ++)
+    p[i] -= x.p[i];
+  return *this;
+}
+
+template <typename T>
+ndarray<T> operator-(const ndarray<T>& lhs, const ndarray<T>& rhs)
+{
+  ndarray<T> array;
+  array.reshape(lhs);
+
+  for (auto i = 0; i < array.nelem(); i ++)
+    array[i] = lhs[i] - rhs[i];
+  return array;
+}
+
 template <typename T, typename T1>
 ndarray<T> operator*(const ndarray<T>& lhs, const T1& rhs) 
 {
-- 
2.43.0


From 6f905a27754d1e36941607c6e954bcf7b15bcd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 027/141] fix: Jacobians of 2D vector fields

---
 include/ftk/ndarray/grad.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index dfe5235..f14b1cb 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -67,18 +67,18 @@ ndarray<T> jacobian2D(const ndarray<T>& vec)
 #pragma omp parallel for collapse(2)
   for (int j = 0; j < DH; j ++) {
     for (int i = 0; i < DW; i ++) {
-      const T H00 = f(0, i+1, j) - f(0, i-1, j) * (DW-1),
-              H01 = f(0, i, j+1) - f(0, i, j-1) * (DH-1),
-              H10 = f(1, i+1, j) - f(1, i-1, j) * (DW-1), 
-              H11 = f(1, i, j+1) - f(1, i, j-1) * (DH-1);
+      const T H00 = 0.5 * (f(0, i+1, j) - f(0, i-1, j)) * (DW-1),
+              H01 = 0.5 * (f(0, i, j+1) - f(0, i, j-1)) * (DH-1),
+              H10 = 0.5 * (f(1, i+1, j) - f(1, i-1, j)) * (DW-1), 
+              H11 = 0.5 * (f(1, i, j+1) - f(1, i, j-1)) * (DH-1);
 
       grad(0, 0, i, j) = H00;
       grad(1, 1, i, j) = H11;
       if (symmetric)
         grad(0, 1, i, j) = grad(1, 0, i, j) = (H01 + H10) * 0.5;
       else {
-        grad(0, 1) = H01;
-        grad(1, 0) = H10;
+        grad(0, 1, i, j) = H01;
+        grad(1, 0, i, j) = H10;
       }
     }
   }
-- 
2.43.0


From f7c0bff4e485d1e56e962ee8414939dc2b52f01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 028/141] fix: 2D gradients are twice the central differences

---
 include/ftk/ndarray/grad.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index f14b1cb..2ca7e93 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -23,8 +23,8 @@ ndarray<T> gradient2D(const ndarray<T>& scalar)
 #pragma omp parallel for collapse(2)
   for (int j = 0; j < DH; j ++) {
     for (int i = 0; i < DW; i ++) {
-      auto dfdx = grad(0, i, j) = (f(i+1, j) - f(i-1, j)) * (DW-1);
-      auto dfdy = grad(1, i, j) = (f(i, j+1) - f(i, j-1)) * (DH-1);
+      auto dfdx = grad(0, i, j) = 0.5 * (f(i+1, j) - f(i-1, j)) * (DW-1);
+      auto dfdy = grad(1, i, j) = 0.5 * (f(i, j+1) - f(i, j-1)) * (DH-1);
     }
   }
   return grad;
-- 
2.43.0


From 1fd898d0d27c6b685e8ca73ea016d53aaddd7340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 029/141] fix: Jacobians of time-varying 3D vector fields

---
 include/ftk/ndarray/grad.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index 2ca7e93..e769e49 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -221,14 +221,14 @@ ndarray<T> jacobian3Dt(const ndarray<T>& V)
 
 #pragma omp parallel for collapse(4)
   for (int t = 0; t < DT; t ++) {
-    for (int k = 0; k < DD-2; k ++) {
+    for (int k = 2; k < DD-2; k ++) {
       for (int j = 2; j < DH-2; j ++) {
         for (int i = 2; i < DW-2; i ++) {
           const float H00 = J(0, 0, i, j, k, t) = // ddf/dx2
             0.5 * (V(0, i+1, j, k, t) - V(0, i-1, j, k, t));
-          const float H01 = J(0, 1, i, j, k) = // ddf/dxdy
+          const float H01 = J(0, 1, i, j, k, t) = // ddf/dxdy
             0.5 * (V(0, i, j+1, k, t) - V(0, i, j-1, k, t));
-          const float H02 = J(0, 2, i, j, k) = // ddf/dxdz
+          const float H02 = J(0, 2, i, j, k, t) = // ddf/dxdz
             0.5 * (V(0, i, j, k+1, t) - V(0, i, j, k-1, t));
 
           const float H10 = J(1, 0, i, j, k, t) = // ddf/dydx
-- 
2.43.0


From aed0e327f06bf13c223aae0a20535570d3c1ecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 030/141] fix: vorticity is twice the curl

---
 include/ftk/ndarray/grad.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index e769e49..48d92fc 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -261,9 +261,9 @@ ndarray<T> vorticity3D(const ndarray<T>& V)
   for (int k = 1; k < V.dim(3) - 1; k++) {
     for (int j = 1; j < V.dim(2) - 1; j++) {
       for (int i = 1; i < V.dim(1) - 1; i++) {
-        vort(0, i, j, k) =  (V(2, i, j+1, k) - V(2, i, j-1, k)) - (V(1, i, j, k+1) - V(1, i, j, k-1));
-        vort(1, i, j, k) =  (V(0, i, j, k+1) - V(0, i, j, k-1)) - (V(2, i+1, j, k) - V(2, i-1, j, k));
-        vort(2, i, j, k) =  (V(1, i+1, j, k) - V(1, i-1, j, k)) - (V(0, i, j+1, k) - V(0, i, j-1, k));
+        vort(0, i, j, k) = 0.5 * ((V(2, i, j+1, k) - V(2, i, j-1, k)) - (V(1, i, j, k+1) - V(1, i, j, k-1)));
+        vort(1, i, j, k) = 0.5 * ((V(0, i, j, k+1) - V(0, i, j, k-1)) - (V(2, i+1, j, k) - V(2, i-1, j, k)));
+        vort(2, i, j, k) = 0.5 * ((V(1, i+1, j, k) - V(1, i-1, j, k)) - (V(0, i, j+1, k) - V(0, i, j-1, k)));
       }
     }
   }
-- 
2.43.0


From 7f37d417bf5620580c63a4c1b81b3cad1d838a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 031/141] fix: division of arrays by scalars does not link

---
 include/ftk/ndarray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index d1a8265..0d7e248 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -158,7 +158,7 @@ struct ndarray : public ndarray_base {
 
   // template <typename T1> friend ndarray<T> operator*(const ndarray<T>& lhs, const T1& rhs);
   template <typename T1> friend ndarray<T> operator*(const T1& lhs, const ndarray<T>& rhs) {return rhs * lhs;}
-  template <typename T1> friend ndarray<T> operator/(const ndarray<T>& lhs, const T1& rhs);
+  // template <typename T1> friend ndarray<T> operator/(const ndarray<T>& lhs, const T1& rhs);
 
   // element access
   T& operator[](size_t i) {return p[i];}
-- 
2.43.0


From bb7d2b8bf13fe4054453e45000115aa8dc154b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 032/141] fix: rotation is lost in the types of 2D vector field
 critical points

---
 include/ftk/filters/critical_point_tracker_2d_regular.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ftk/filters/critical_point_tracker_2d_regular.hh b/include/ftk/filters/critical_point_tracker_2d_regular.hh
index 48a8b2b..f97469e 100644
--- a/include/ftk/filters/critical_point_tracker_2d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_2d_regular.hh
@@ -666,7 +666,8 @@ inline bool critical_point_tracker_2d_regular::check_simplex(
       double Js[3][2][2];
       simplex_jacobians(vertices, Js);
       lerp_s2m2x2(Js, mu, J);
-      ftk::make_symmetric2x2(J); // TODO
+      if (is_jacobian_field_symmetric)
+        ftk::make_symmetric2x2(J); // TODO
     } else {
       // TODO: jacobian is not given
     }
-- 
2.43.0


From 7d859832bad289f5513e8659e7f3667b58aa2f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 033/141] fix: type filter is ignored by the 3D critical point
 tracker

---
 include/ftk/filters/critical_point_tracker_3d_regular.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index 8170dcd..eb69f30 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -165,7 +165,8 @@ inline void critical_point_tracker_3d_regular::update_timestep()
       feature_point_t cp;
       if (check_simplex(e, cp)) {
         std::lock_guard<std::mutex> guard(mutex);
-        discrete_critical_points[e] = cp;
+        if (filter_critical_point_type(cp))
+          discrete_critical_points[e] = cp;
         // fprintf(stderr, "x={%f, %f, %f}, t=%f, cond=%f, type=%d\n", cp[0], cp[1], cp[2], cp.t, cp.cond, cp.type);
       }
     };
-- 
2.43.0


From 54d73c8c2a1b08c8bb8d45ab954a4a5dc4ad7cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 034/141] fix: 3D critical point tracker reads missing
 Jacobians

---
 include/ftk/filters/critical_point_tracker_3d_regular.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index eb69f30..93c3a62 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -485,9 +485,12 @@ inline bool critical_point_tracker_3d_regular::check_simplex(
     cp.scalar[0] = lerp_s3(values, mu);
   }
 
-  double Js[4][3][3], J[3][3];
-  simplex_jacobians(vertices, Js);
-  ftk::lerp_s3m3x3(Js, mu, J);
+  double J[3][3] = {0}; // jacobian or hessian
+  if (jacobian_field_source != SOURCE_NONE) {
+    double Js[4][3][3];
+    simplex_jacobians(vertices, Js);
+    ftk::lerp_s3m3x3(Js, mu, J);
+  }
 
   cp.type = ftk::critical_point_type_3d(J, is_jacobian_field_symmetric);
   cp.tag = e.to_integer(m);
-- 
2.43.0


From 9b0d972ea46a7bf59c168f170709626bb69395a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 035/141] fix: explicit coordinates and times of 3D critical
 points

---
 include/ftk/filters/critical_point_tracker_3d_regular.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index 93c3a62..bff9bb2 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -372,10 +372,10 @@ inline void critical_point_tracker_3d_regular::simplex_coordinates(
     }
   } else if (mode_phys_coords == REGULAR_COORDS_EXPLICIT) {
     for (int i = 0; i < vertices.size(); i ++) {
-      X[i][0] = explicit_coords(0, vertices[i][0], vertices[i][1]); // x
-      X[i][1] = explicit_coords(1, vertices[i][0], vertices[i][1]); // y
-      X[i][2] = explicit_coords(2, vertices[i][0], vertices[i][1]);
-      X[i][3] = vertices[i][2]; // t
+      X[i][0] = explicit_coords(0, vertices[i][0], vertices[i][1], vertices[i][2]); // x
+      X[i][1] = explicit_coords(1, vertices[i][0], vertices[i][1], vertices[i][2]); // y
+      X[i][2] = explicit_coords(2, vertices[i][0], vertices[i][1], vertices[i][2]); // z
+      X[i][3] = vertices[i][3]; // t
     }
   }
 }
-- 
2.43.0


From 43eb4be6bb0b5c9afe89ec291e54ea829561b575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 036/141] fix: critical points with undefined Jacobians are
 classified as centers

---
 include/ftk/numeric/critical_point_type.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ftk/numeric/critical_point_type.hh b/include/ftk/numeric/critical_point_type.hh
index 838ed84..1788d1f 100644
--- a/include/ftk/numeric/critical_point_type.hh
+++ b/include/ftk/numeric/critical_point_type.hh
@@ -48,6 +48,10 @@ unsigned int critical_point_type_2d(T J[2][2], bool symmetric)
     else if (eig[0] * eig[1] < 0) return CRITICAL_POINT_2D_SADDLE;
     else return CRITICAL_POINT_2D_DEGENERATE;
   } else {
+    for (int i = 0; i < 2; i ++)
+      for (int j = 0; j < 2; j ++)
+        if (!std::isfinite(J[i][j])) return CRITICAL_POINT_2D_UNKNOWN;
+
     std::complex<T> eig[2];
     T delta = ftk::solve_eigenvalues2x2(J, eig);
     
-- 
2.43.0


From 966c5959ea171255171df702a669aff53ab04997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 037/141] fix: clamping of barycentric coordinates in
 unstructured 3D meshes

---
 include/ftk/filters/critical_point_tracker_3d_unstructured.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
index fd71cc2..5ff71ea 100644
--- a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
@@ -138,7 +138,7 @@ inline bool critical_point_tracker_3d_unstructured::check_simplex(int i, feature
       mu[0] = std::max(std::min(1.0, mu[0]), 0.0);
       mu[1] = std::max(std::min(1.0-mu[0], mu[1]), 0.0);
       mu[2] = std::max(std::min(1.0-mu[1]-mu[0], mu[2]), 0.0);
-      mu[2] = 1.0 - mu[0] - mu[1] - mu[2];
+      mu[3] = 1.0 - mu[0] - mu[1] - mu[2];
       // fprintf(stderr,  "mu =%f, %f, %f\n", mu[0], mu[1], mu[2]);
     }
   }
-- 
2.43.0


From b3ddaf9d4b3bc84bdf59645a186530117d60459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 038/141] fix: two-point trajectories are marked as loops

---
 include/ftk/geometry/cc2curves.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/geometry/cc2curves.hh b/include/ftk/geometry/cc2curves.hh
index 40c9bf4..be67c2c 100644
--- a/include/ftk/geometry/cc2curves.hh
+++ b/include/ftk/geometry/cc2curves.hh
@@ -114,7 +114,7 @@ template <typename NodeType>
 bool is_loop(const std::vector<NodeType>& linear_graph, std::function<std::set<NodeType>(NodeType)> neighbors)
 {
   if (linear_graph.size() == 0) return false;
-  else if (linear_graph.size() == 1) return false; // true;
+  else if (linear_graph.size() <= 2) return false; // a loop needs at least three nodes
   else {
     const auto front_neighbors = neighbors(linear_graph.front());
     return front_neighbors.find(linear_graph.back()) != front_neighbors.end();
-- 
2.43.0


From 23dbe72770930e080c9287c327a536cbbdafb7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 039/141] fix: streaming trajectories lose the critical points
 of the last timestep

---
 .../ftk/filters/critical_point_tracker_2d_regular.hh | 12 ++++--------
 .../ftk/filters/critical_point_tracker_3d_regular.hh | 12 ++++--------
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_2d_regular.hh b/include/ftk/filters/critical_point_tracker_2d_regular.hh
index f97469e..62c9168 100644
--- a/include/ftk/filters/critical_point_tracker_2d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_2d_regular.hh
@@ -323,12 +323,8 @@ inline void critical_point_tracker_2d_regular::update_timestep()
 
   if (xl == FTK_XL_NONE) {
     element_for_ordinal(2, func2);
-    if (field_data_snapshots.size() >= 2) { // interval
+    if (field_data_snapshots.size() >= 2) // interval
       element_for_interval(2, func2);
-
-      if (enable_streaming_trajectories)
-        grow();
-    }
   } else { //  if (xl == FTK_XL_CUDA) {
     ftk::lattice domain3({
           domain.start(0), 
@@ -422,12 +418,12 @@ inline void critical_point_tracker_2d_regular::update_timestep()
         cp.timestep = current_timestep;
         discrete_critical_points[e] = cp;
       }
-      
-      if (enable_streaming_trajectories)
-        grow();
     }
   }
 
+  if (enable_streaming_trajectories)
+    grow();
+
   auto t1 = clock_type::now();
   accumulated_kernel_time += std::chrono::duration_cast<std::chrono::nanoseconds>(t1 - t0).count() * 1e-9;
 }
diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index bff9bb2..004d2fc 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -195,12 +195,8 @@ inline void critical_point_tracker_3d_regular::update_timestep()
 
   if (xl == FTK_XL_NONE) {
     element_for_ordinal(3, func3);
-    if (field_data_snapshots.size() >= 2) { // interval
+    if (field_data_snapshots.size() >= 2) // interval
       element_for_interval(3, func3);
-      
-      if (enable_streaming_trajectories)
-        grow();
-    }
   } else if (xl == FTK_XL_CUDA) {
 #if FTK_HAVE_CUDA
     ftk::lattice domain4({
@@ -295,15 +291,15 @@ inline void critical_point_tracker_3d_regular::update_timestep()
         cp.timestep = current_timestep;
         discrete_critical_points[e] = cp;
       }
-      
-      if (enable_streaming_trajectories)
-        grow();
     }
 #else
     assert(false);
 #endif
   }
   
+  if (enable_streaming_trajectories)
+    grow();
+
   auto t1 = clock_type::now();
   accumulated_kernel_time += std::chrono::duration_cast<std::chrono::nanoseconds>(t1 - t0).count() * 1e-9;
 }
-- 
2.43.0


From ad8141db16bff20e78810c607d7b66243a11f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 040/141] fix: requests to discard points are ignored by
 trackers of regular grids

---
 .../ftk/filters/critical_point_tracker_2d_regular.hh   |  5 +++++
 .../ftk/filters/critical_point_tracker_3d_regular.hh   | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/include/ftk/filters/critical_point_tracker_2d_regular.hh b/include/ftk/filters/critical_point_tracker_2d_regular.hh
index 62c9168..d09b9c7 100644
--- a/include/ftk/filters/critical_point_tracker_2d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_2d_regular.hh
@@ -221,6 +221,11 @@ inline void critical_point_tracker_2d_regular::finalize()
       traj.discard_interval_points();
     });
 
+  if (enable_discarding_degenerate_points)
+    traced_critical_points.foreach([](feature_curve_t& traj) {
+      traj.discard_degenerate_points();
+    });
+
   update_traj_statistics();
 }
 
diff --git a/include/ftk/filters/critical_point_tracker_3d_regular.hh b/include/ftk/filters/critical_point_tracker_3d_regular.hh
index 004d2fc..448f6a2 100644
--- a/include/ftk/filters/critical_point_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_regular.hh
@@ -119,6 +119,16 @@ inline void critical_point_tracker_3d_regular::finalize()
     }
   }
   
+  if (enable_discarding_interval_points)
+    traced_critical_points.foreach([](feature_curve_t& traj) {
+      traj.discard_interval_points();
+    });
+
+  if (enable_discarding_degenerate_points)
+    traced_critical_points.foreach([](feature_curve_t& traj) {
+      traj.discard_degenerate_points();
+    });
+
   update_traj_statistics();
 }
 
-- 
2.43.0


From a2e6cc5ce068d3fd3cf0484baed6c044fcea4bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 041/141] fix: loop flags, ids, and speeds of trajectories are
 lost in serialization

---
 include/ftk/features/feature_curve.hh | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index 57b395c..bd56da3 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -43,12 +43,12 @@ struct feature_curve_t : public std::vector<feature_point_t>
   template <int k=2> void unwrap(const double period); // unwrap the curve in a periodical domain
 
 public:
-  int id;
+  int id = 0;
   bool complete = false, loop = false;
-  std::array<double, FTK_CP_MAX_NUM_VARS> max, min, persistence;
-  std::array<double, 3> bbmin, bbmax; // bounding box
-  double tmin, tmax; // time bounding box
-  double vmmin, vmmax; // min/max moving speed
+  std::array<double, FTK_CP_MAX_NUM_VARS> max = {}, min = {}, persistence = {};
+  std::array<double, 3> bbmin = {}, bbmax = {}; // bounding box
+  double tmin = 0, tmax = 0; // time bounding box
+  double vmmin = 0, vmmax = 0; // min/max moving speed
   unsigned int consistent_type = 0; // 0 if no consistent type
 };
 
@@ -438,6 +438,8 @@ namespace nlohmann
     static void to_json(json &j, const feature_curve_t& t) {
       j = {
         {"id", t.id},
+        {"complete", t.complete},
+        {"loop", t.loop},
         {"max", t.max},
         {"min", t.min},
         {"persistence", t.persistence},
@@ -445,6 +447,8 @@ namespace nlohmann
         {"bbmax", t.bbmax},
         {"tmin", t.tmin},
         {"tmax", t.tmax},
+        {"vmmin", t.vmmin},
+        {"vmmax", t.vmmax},
         {"consistent_type", t.consistent_type},
         {"traj", static_cast<std::vector<feature_point_t>>(t)}
       };
@@ -452,6 +456,8 @@ namespace nlohmann
 
     static void from_json(const json&j, feature_curve_t& t) {
       t.id = j["id"];
+      t.complete = j.value("complete", false);
+      t.loop = j.value("loop", false);
       t.max = j["max"];
       t.min = j["min"];
       t.persistence = j["persistence"];
@@ -459,6 +465,8 @@ namespace nlohmann
       t.bbmax = j["bbmax"];
       t.tmin = j["tmin"];
       t.tmax = j["tmax"];
+      t.vmmin = j.value("vmmin", 0.0);
+      t.vmmax = j.value("vmmax", 0.0);
       t.consistent_type = j["consistent_type"];
       std::vector<feature_point_t> traj = j["traj"];
       t.clear();
@@ -471,7 +479,9 @@ namespace nlohmann
 namespace diy {
   template <> struct Serialization<ftk::feature_curve_t> {
     static void save(diy::BinaryBuffer& bb, const ftk::feature_curve_t &t) {
+      diy::save(bb, t.id);
       diy::save(bb, t.complete);
+      diy::save(bb, t.loop);
       diy::save(bb, t.max);
       diy::save(bb, t.min);
       diy::save(bb, t.persistence);
@@ -479,6 +489,8 @@ namespace diy {
       diy::save(bb, t.bbmax);
       diy::save(bb, t.tmin);
       diy::save(bb, t.tmax);
+      diy::save(bb, t.vmmin);
+      diy::save(bb, t.vmmax);
       diy::save(bb, t.consistent_type);
       diy::save(bb, t.size());
       for (auto i = 0; i < t.size(); i ++)
@@ -487,7 +499,9 @@ namespace diy {
     }
     
     static void load(diy::BinaryBuffer& bb, ftk::feature_curve_t &t) {
+      diy::load(bb, t.id);
       diy::load(bb, t.complete);
+      diy::load(bb, t.loop);
       diy::load(bb, t.max);
       diy::load(bb, t.min);
       diy::load(bb, t.persistence);
@@ -495,6 +509,8 @@ namespace diy {
       diy::load(bb, t.bbmax);
       diy::load(bb, t.tmin);
       diy::load(bb, t.tmax);
+      diy::load(bb, t.vmmin);
+      diy::load(bb, t.vmmax);
       diy::load(bb, t.consistent_type);
       size_t s;
       diy::load(bb, s);
-- 
2.43.0


From 7cf3cb2005e7ab99cfad3b20fa56f0bb34855695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 042/141] fix: streaming trajectories on multiple processes
 repeat critical points

---
 include/ftk/filters/critical_point_tracker.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index 5142357..5abf31c 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -530,7 +530,10 @@ void critical_point_tracker::trace_critical_points_online(
 {
   // 0. gather discrete trajectories
   diy::mpi::gather(comm, discrete_critical_points, discrete_critical_points, get_root_proc());
-  if (!is_root_proc()) return;
+  if (!is_root_proc()) {
+    discrete_critical_points.clear(); // already sent to the root process
+    return;
+  }
 
   // fprintf(stderr, "hey!!!, #traj=%zu, discrete points:\n", trajectories.size());
   // for (const auto kv : discrete_critical_points)
-- 
2.43.0


From 220ff616c0827dce1282a85621b7ab7dc0f31059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 043/141] fix: types of critical points depend on the partition
 of distributed inputs

---
 .../critical_point_tracker_2d_regular.hh      |  6 +++---
 include/ftk/filters/regular_tracker.hh        |  5 +++--
 include/ftk/ndarray/grad.hh                   | 20 +++++++++++--------
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker_2d_regular.hh b/include/ftk/filters/critical_point_tracker_2d_regular.hh
index d09b9c7..1d002cb 100644
--- a/include/ftk/filters/critical_point_tracker_2d_regular.hh
+++ b/include/ftk/filters/critical_point_tracker_2d_regular.hh
@@ -246,9 +246,9 @@ inline void critical_point_tracker_2d_regular::push_scalar_field_snapshot(const
 
   snapshot.scalar = s;
   if (vector_field_source == SOURCE_DERIVED) {
-    snapshot.vector = gradient2D(s);
+    snapshot.vector = gradient2D(s, array_domain.size(0), array_domain.size(1));
     if (jacobian_field_source == SOURCE_DERIVED)
-      snapshot.jacobian = jacobian2D<double, true>(snapshot.vector);
+      snapshot.jacobian = jacobian2D<double, true>(snapshot.vector, array_domain.size(0), array_domain.size(1));
   }
 
   field_data_snapshots.emplace_back( snapshot );
@@ -260,7 +260,7 @@ inline void critical_point_tracker_2d_regular::push_vector_field_snapshot(const
  
   snapshot.vector = v;
   if (jacobian_field_source == SOURCE_DERIVED)
-    snapshot.jacobian = jacobian2D(snapshot.vector);
+    snapshot.jacobian = jacobian2D(snapshot.vector, array_domain.size(0), array_domain.size(1));
 
   field_data_snapshots.emplace_back( snapshot );
 }
diff --git a/include/ftk/filters/regular_tracker.hh b/include/ftk/filters/regular_tracker.hh
index fd15372..9838ea7 100644
--- a/include/ftk/filters/regular_tracker.hh
+++ b/include/ftk/filters/regular_tracker.hh
@@ -127,12 +127,13 @@ inline void regular_tracker::initialize()
   if (use_default_domain_partition) {
     lattice_partitioner partitioner(domain), partitioner_array(array_domain);
    
-    // a ghost size of 2 is necessary for jacobian derivaition; 
+    // a ghost size of 3 is necessary for jacobian derivaition: simplices
+    // reach one layer beyond the core, and each derivative needs another;
     // even if jacobian is not necessary, a ghost size of 1 is 
     // necessary for accessing values on boundaries
     std::vector<size_t> ghost;
     for (int i = 0; i < domain.nd(); i ++)
-      ghost.push_back(2);
+      ghost.push_back(3);
     
     // partitioner.partition(comm.size(), {}, ghost);
     partitioner.partition(comm.size()); 
diff --git a/include/ftk/ndarray/grad.hh b/include/ftk/ndarray/grad.hh
index 48d92fc..04a31c6 100644
--- a/include/ftk/ndarray/grad.hh
+++ b/include/ftk/ndarray/grad.hh
@@ -8,9 +8,11 @@ namespace ftk {
 
 // derive 2D gradients for 2D scalar field
 template <typename T>
-ndarray<T> gradient2D(const ndarray<T>& scalar)
+ndarray<T> gradient2D(const ndarray<T>& scalar, int W = 0, int H = 0) // W and H: dimensions of the whole domain if the input is a part of it
 {
   const int DW = scalar.dim(0), DH = scalar.dim(1);
+  if (W == 0) W = DW;
+  if (H == 0) H = DH;
   ndarray<T> grad;
   grad.reshape(2, DW, DH); 
 
@@ -23,8 +25,8 @@ ndarray<T> gradient2D(const ndarray<T>& scalar)
 #pragma omp parallel for collapse(2)
   for (int j = 0; j < DH; j ++) {
     for (int i = 0; i < DW; i ++) {
-      auto dfdx = grad(0, i, j) = 0.5 * (f(i+1, j) - f(i-1, j)) * (DW-1);
-      auto dfdy = grad(1, i, j) = 0.5 * (f(i, j+1) - f(i, j-1)) * (DH-1);
+      auto dfdx = grad(0, i, j) = 0.5 * (f(i+1, j) - f(i-1, j)) * (W-1);
+      auto dfdy = grad(1, i, j) = 0.5 * (f(i, j+1) - f(i, j-1)) * (H-1);
     }
   }
   return grad;
@@ -52,9 +54,11 @@ ndarray<T> gradient2Dt(const ndarray<T>& scalar)
 
 // derive gradients for 2D vector field
 template <typename T, bool symmetric=false>
-ndarray<T> jacobian2D(const ndarray<T>& vec)
+ndarray<T> jacobian2D(const ndarray<T>& vec, int W = 0, int H = 0) // W and H: dimensions of the whole domain if the input is a part of it
 {
   const int DW = vec.dim(1), DH = vec.dim(2);
+  if (W == 0) W = DW;
+  if (H == 0) H = DH;
   ndarray<T> grad;
   grad.reshape(2, 2, DW, DH);
   
@@ -67,10 +71,10 @@ ndarray<T> jacobian2D(const ndarray<T>& vec)
 #pragma omp parallel for collapse(2)
   for (int j = 0; j < DH; j ++) {
     for (int i = 0; i < DW; i ++) {
-      const T H00 = 0.5 * (f(0, i+1, j) - f(0, i-1, j)) * (DW-1),
-              H01 = 0.5 * (f(0, i, j+1) - f(0, i, j-1)) * (DH-1),
-              H10 = 0.5 * (f(1, i+1, j) - f(1, i-1, j)) * (DW-1), 
-              H11 = 0.5 * (f(1, i, j+1) - f(1, i, j-1)) * (DH-1);
+      const T H00 = 0.5 * (f(0, i+1, j) - f(0, i-1, j)) * (W-1),
+              H01 = 0.5 * (f(0, i, j+1) - f(0, i, j-1)) * (H-1),
+              H10 = 0.5 * (f(1, i+1, j) - f(1, i-1, j)) * (W-1), 
+              H11 = 0.5 * (f(1, i, j+1) - f(1, i, j-1)) * (H-1);
 
       grad(0, 0, i, j) = H00;
       grad(1, 1, i, j) = H11;
-- 
2.43.0


From 1f0d9e6748c0320cf85efb3ef1be6728f8d93426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 044/141] fix: polynomial_subtraction returns Q-P when the
 second polynomial has the higher degree, and scaling into another array does
 not compile

---
 include/ftk/numeric/polynomial.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ftk/numeric/polynomial.hh b/include/ftk/numeric/polynomial.hh
index 3a0ec80..0d5043f 100644
--- a/include/ftk/numeric/polynomial.hh
+++ b/include/ftk/numeric/polynomial.hh
@@ -82,7 +82,9 @@ void polynomial_subtraction(const T P[], int m, const T Q[], int n, T R[])
       if (i <= n) R[i] = P[i] - Q[i];
       else R[i] = P[i];
   else 
-    polynomial_subtraction(Q, n, P, m, R);
+    for (int i = 0; i <= n; i ++)
+      if (i <= m) R[i] = P[i] - Q[i];
+      else R[i] = -Q[i];
 }
 
 template <typename T>
@@ -118,7 +120,7 @@ void polynomial_scalar_multiplication(T P[], int m, T scalar)
 }
 
 template <typename T>
-void polynomial_scalar_multiplication(const T P[], int m, T scalar, const T R[])
+void polynomial_scalar_multiplication(const T P[], int m, T scalar, T R[])
 {
   for (int i = 0; i <= m; i ++) 
     R[i] = P[i] * scalar;
-- 
2.43.0


From 42593e6631aadd30de917b8eb499d4034ad0b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 045/141] fix: Hessian of quadratic interpolation misses the
 factor 2 on the diagonal

---
 include/ftk/numeric/quadratic_interpolation.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/numeric/quadratic_interpolation.hh b/include/ftk/numeric/quadratic_interpolation.hh
index f7e7f9c..d44db84 100644
--- a/include/ftk/numeric/quadratic_interpolation.hh
+++ b/include/ftk/numeric/quadratic_interpolation.hh
@@ -116,8 +116,8 @@ bool quadratic_interpolation_gradient(const T Q[3][3], const T x[3][2], T grad[3
 
 template <typename T>
 bool quadratic_interpolation_hessian(const T Q[3][3], T H[2][2]){
-	H[0][0] = Q[0][0];
-	H[1][1] = Q[1][1];
+	H[0][0] = 2 * Q[0][0];
+	H[1][1] = 2 * Q[1][1];
 	H[0][1] = H[1][0] = Q[0][1] + Q[1][0];
 	return true;
 }
-- 
2.43.0


From 0c034e96974a40d8af6c13134707990f5e6f35ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 046/141] fix: Gaussian elimination divides pivot rows by
 themselves

---
 include/ftk/numeric/linear_solver.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ftk/numeric/linear_solver.hh b/include/ftk/numeric/linear_solver.hh
index 619a40a..2db2f4e 100644
--- a/include/ftk/numeric/linear_solver.hh
+++ b/include/ftk/numeric/linear_solver.hh
@@ -161,11 +161,11 @@ void elgs(int n, T **A, int *indx)
     
     // interchange rows
     std::swap(indx[j], indx[k]);
-    for (int i = j; i < n; i ++) {
+    for (int i = j+1; i < n; i ++) {
       pj = A[indx[i]][j] / A[indx[j]][j];
       A[indx[i]][j] = pj;
 
-      for (int k = j; k < n; k ++) 
+      for (int k = j+1; k < n; k ++) 
         A[indx[i]][k] = A[indx[i]][k] - pj * A[indx[j]][k];
     }
   }
@@ -178,13 +178,13 @@ void legs(int n, T **A, T *b, T *x, int *indx)
   elgs(n, A, indx);
 
   for (int i = 0; i < n-1; i ++)
-    for (int j = i; j < n; j ++)
+    for (int j = i+1; j < n; j ++)
       b[indx[j]] = b[indx[j]] - A[indx[j]][i] * b[indx[i]];
 
   x[n-1] = b[indx[n-1]] / A[indx[n-1]][n-1];
   for (int i = n-2; i >= 0; i --) {
     x[i] = b[indx[i]];
-    for (int j = i; j < n; j ++)
+    for (int j = i+1; j < n; j ++)
       x[i] = x[i] - A[indx[i]][j] * x[j];
     x[i] = x[i] / A[indx[i]][i];
   }
-- 
2.43.0


From ef226da1a13a1e74a201461fbc4bd002395c6307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 047/141] fix: division of fixed point numbers is off by the
 factor squared, and operators do not compile with other factors

---
 include/ftk/numeric/fixed_point.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ftk/numeric/fixed_point.hh b/include/ftk/numeric/fixed_point.hh
index 9d1a0c0..ba211a4 100644
--- a/include/ftk/numeric/fixed_point.hh
+++ b/include/ftk/numeric/fixed_point.hh
@@ -38,7 +38,7 @@ struct fixed_point {
     return *this;
   }
   fixed_point& __device__ __host__ operator/=(const fixed_point& x) {
-    num = num / x.num / factor;
+    num = (num * factor) / x.num;
     return *this;
   }
 
@@ -60,14 +60,14 @@ private:
 template <typename I, int factor>
 fixed_point<I, factor> __device__ __host__ operator+(const fixed_point<I, factor>& a, const fixed_point<I, factor>& b)
 {
-  fixed_point<I> t(a);
+  fixed_point<I, factor> t(a);
   return t += b;
 }
 
 template <typename I, int factor>
 fixed_point<I, factor> __device__ __host__ operator-(const fixed_point<I, factor>& a, const fixed_point<I, factor>& b)
 {
-  fixed_point<I> t(a);
+  fixed_point<I, factor> t(a);
   return t -= b;
 }
 
@@ -80,14 +80,14 @@ fixed_point<I, factor> __device__ __host__ operator-(const fixed_point<I, factor
 template <typename I, int factor>
 fixed_point<I, factor> __device__ __host__ operator*(const fixed_point<I, factor>& a, const fixed_point<I, factor>& b)
 {
-  fixed_point<I> t(a);
+  fixed_point<I, factor> t(a);
   return t *= b;
 }
 
 template <typename I, int factor>
 fixed_point<I, factor> __device__ __host__ operator/(const fixed_point<I, factor>& a, const fixed_point<I, factor>& b)
 {
-  fixed_point<I> t(a);
+  fixed_point<I, factor> t(a);
   return t /= b;
 }
 
-- 
2.43.0


From 501baa010a1a7e3cda17cc678a1998374af23e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 048/141] fix: Frobenius norms miss the square root; the 2-norm
 and square of matrices do not compile

---
 include/ftk/numeric/matrix_multiplication.hh |  2 +-
 include/ftk/numeric/matrix_norm.hh           | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/ftk/numeric/matrix_multiplication.hh b/include/ftk/numeric/matrix_multiplication.hh
index 5576276..2da91d2 100644
--- a/include/ftk/numeric/matrix_multiplication.hh
+++ b/include/ftk/numeric/matrix_multiplication.hh
@@ -120,7 +120,7 @@ template <class T>
 __device__ __host__
 inline void matrix3x3_square(const T M[3][3], T M2[3][3])
 {
-  matrix_matrix_multiplication_3x3_3x3(M, M, M2);
+  matrix3x3_matrix3x3_multiplication(M, M, M2);
 }
 
 template <class T>
diff --git a/include/ftk/numeric/matrix_norm.hh b/include/ftk/numeric/matrix_norm.hh
index d17f61a..50b2a08 100644
--- a/include/ftk/numeric/matrix_norm.hh
+++ b/include/ftk/numeric/matrix_norm.hh
@@ -42,13 +42,13 @@ __device__ __host__
 inline T matrix_2norm_real2x2(const T A[2][2])
 {
   T B[2][2]; // B is the transpose of A
-  transpose2(A, B);
+  transpose2x2(A, B);
   
   T M[2][2]; // M = A^T * A
-  matrix_matrix_multiplication_2x2_2x2(B, A, M);
+  matrix2x2_matrix2x2_multiplication(B, A, M);
 
   T eig[2];
-  solve_eigenvalues_real_symmetric2(M, eig);
+  solve_eigenvalues_symmetric2x2(M, eig);
 
   return sqrt(eig[0]);
 }
@@ -65,24 +65,24 @@ template <typename T>
 __device__ __host__
 inline T matrix_frobenius_norm_real2x2(const T m[2][2])
 {
-  return m[0][0]*m[0][0] + m[0][1]*m[0][1] + m[1][0]*m[1][0] + m[1][1]*m[1][1];
+  return sqrt(m[0][0]*m[0][0] + m[0][1]*m[0][1] + m[1][0]*m[1][0] + m[1][1]*m[1][1]);
 }
 
 template <typename T>
 __device__ __host__
 inline T matrix_frobenius_norm_real2x3(const T m[2][3])
 {
-  return m[0][0]*m[0][0] + m[0][1]*m[0][1] + m[0][2]*m[0][2]
-    + m[1][0]*m[1][0] + m[1][1]*m[1][1] + m[1][2]*m[1][2];
+  return sqrt(m[0][0]*m[0][0] + m[0][1]*m[0][1] + m[0][2]*m[0][2]
+    + m[1][0]*m[1][0] + m[1][1]*m[1][1] + m[1][2]*m[1][2]);
 }
 
 template <typename T>
 __device__ __host__
 inline T matrix_frobenius_norm_real3x2(const T m[3][2])
 {
-  return m[0][0]*m[0][0] + m[0][1]*m[0][1] 
+  return sqrt(m[0][0]*m[0][0] + m[0][1]*m[0][1] 
     + m[1][0]*m[1][0] + m[1][1]*m[1][1]
-    + m[2][0]*m[2][0] + m[2][1]*m[2][1];
+    + m[2][0]*m[2][0] + m[2][1]*m[2][1]);
 }
 
 }
-- 
2.43.0


From e135ec1d4f46a2f0ec6a637b2cb14c681e98c257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 049/141] fix: product of 3x4 and 4x2 matrices is written out
 of bounds

---
 include/ftk/numeric/matrix_multiplication.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/matrix_multiplication.hh b/include/ftk/numeric/matrix_multiplication.hh
index 2da91d2..1918683 100644
--- a/include/ftk/numeric/matrix_multiplication.hh
+++ b/include/ftk/numeric/matrix_multiplication.hh
@@ -142,7 +142,7 @@ inline void matrix3x4_matrix4x3_multiplication(const T A[3][4], const T B[4][3],
 
 template <class T>
 __device__ __host__
-inline void matrix3x4_matrix4x2_multiplication(const T A[3][4], const T B[4][2], T C[2][2])
+inline void matrix3x4_matrix4x2_multiplication(const T A[3][4], const T B[4][2], T C[3][2])
 {
   matrix_matrix_multiplication<T, 3, 4, 2>(A, B, C);
 }
-- 
2.43.0


From 42ee92ae32c93a0ede3dd6aa953c00452dc1de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 050/141] fix: gradients on triangles in 3D come from a
 singular system

---
 include/ftk/numeric/gradient.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/ftk/numeric/gradient.hh b/include/ftk/numeric/gradient.hh
index 2aeebe8..8e1ef7d 100644
--- a/include/ftk/numeric/gradient.hh
+++ b/include/ftk/numeric/gradient.hh
@@ -2,6 +2,7 @@
 #define _FTK_GRADIENT_HH
 
 #include <ftk/numeric/linear_solver.hh>
+#include <ftk/numeric/cross_product.hh>
 
 namespace ftk {
 
@@ -23,12 +24,13 @@ template <typename T>
 __device__ __host__
 void gradient_3dsimplex2(const T X[3][3], const T f[3], T gradf[3])
 {
-  const T A[3][3] = {
+  T A[3][3] = {
     {X[1][0] - X[0][0], X[1][1] - X[0][1], X[1][2] - X[0][2]}, 
-    {X[2][0] - X[1][0], X[2][1] - X[1][1], X[2][2] - X[2][2]},
-    {X[0][0] - X[2][0], X[0][1] - X[2][1], X[0][2] - X[2][2]}
+    {X[2][0] - X[0][0], X[2][1] - X[0][1], X[2][2] - X[0][2]},
+    {0, 0, 0}
   };
-  const T b[3] = {f[1] - f[0], f[2] - f[1], f[0] - f[2]};
+  cross_product(A[0], A[1], A[2]); // the gradient lies in the plane of the triangle
+  const T b[3] = {f[1] - f[0], f[2] - f[0], T(0)};
 
   solve_linear3x3(A, b, gradf);
 }
-- 
2.43.0


From daaab4716bc7e751ceccf0722b3dad9846d6f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 051/141] fix: eigenvectors whose components sum to zero are
 undefined

---
 include/ftk/numeric/eigen_solver2.hh | 14 ++++++++------
 include/ftk/numeric/eigen_solver3.hh | 27 ++++++++++++++++-----------
 2 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/include/ftk/numeric/eigen_solver2.hh b/include/ftk/numeric/eigen_solver2.hh
index 6517d38..dc220ea 100644
--- a/include/ftk/numeric/eigen_solver2.hh
+++ b/include/ftk/numeric/eigen_solver2.hh
@@ -8,6 +8,7 @@
 #include <ftk/numeric/cubic_solver.hh>
 #include <ftk/numeric/quartic_solver.hh>
 #include <ftk/numeric/vector_normalization.hh>
+#include <ftk/numeric/inner_product.hh>
 #include <ftk/numeric/characteristic_polynomial.hh>
 #include <ftk/numeric/swap.hh>
 #include <ftk/numeric/print.hh>
@@ -71,14 +72,15 @@ template <typename T>
 inline void solve_eigenvectors2x2(const T M[2][2], int n, const T eig[2], T eigvecs[2][2])
 {
   for (int i = 0; i < n; i ++) {
-    const T a[2] = {
-      M[0][0] - eig[i] - M[0][1], 
-      M[1][0] - M[1][1] + eig[i]
+    const T r[2][2] = { // rows of M - eig*I; the eigenvector is perpendicular to both
+      {M[0][0] - eig[i], M[0][1]},
+      {M[1][0], M[1][1] - eig[i]}
     };
-    const T b[2] = {-M[0][1], -M[1][1] + eig[i]};
+    const int k = inner_product2(r[0], r[0]) >= inner_product2(r[1], r[1]) ? 0 : 1;
+    const T s = r[k][0] - r[k][1] > 0 ? T(1) : T(-1); // the sum of components is non-negative
 
-    solve_least_square2x1(a, b, eigvecs[i][0]);
-    eigvecs[i][1] = T(1) - eigvecs[i][0];
+    eigvecs[i][0] = -s * r[k][1];
+    eigvecs[i][1] = s * r[k][0];
     vector_normalization2_2(eigvecs[i]);
   }
 }
diff --git a/include/ftk/numeric/eigen_solver3.hh b/include/ftk/numeric/eigen_solver3.hh
index 41f2ac3..5ef0283 100644
--- a/include/ftk/numeric/eigen_solver3.hh
+++ b/include/ftk/numeric/eigen_solver3.hh
@@ -10,6 +10,9 @@
 #include <ftk/numeric/cubic_solver.hh>
 #include <ftk/numeric/quartic_solver.hh>
 #include <ftk/numeric/vector_normalization.hh>
+#include <ftk/numeric/vector_norm.hh>
+#include <ftk/numeric/inner_product.hh>
+#include <ftk/numeric/cross_product.hh>
 #include <ftk/numeric/characteristic_polynomial.hh>
 #include <iostream>
 
@@ -58,21 +61,23 @@ template <typename T>
 inline void solve_eigenvectors3x3(const T A[3][3], int n, const T eig[3], T eigvecs[3][3])
 {
   for (int i = 0; i < n; i ++) {
-    const T M[3][2] = {
-      {A[0][0] - eig[i] - A[0][2], A[0][1] - A[0][2]}, 
-      {A[1][0] - A[1][2], A[1][1] - eig[i] - A[1][2]},
-      {A[2][0] - A[2][2] + eig[i], A[2][1] - A[2][2] + eig[i]}
+    const T M[3][3] = { // the eigenvector is perpendicular to all rows
+      {A[0][0] - eig[i], A[0][1], A[0][2]},
+      {A[1][0], A[1][1] - eig[i], A[1][2]},
+      {A[2][0], A[2][1], A[2][2] - eig[i]}
     };
-    const T b[3] = {-A[0][2], -A[1][2], -A[2][2] + eig[i]};
 
-    double x[2];
-    solve_least_square3x2(M, b, x);
-
-    double nu[3] = {x[0], x[1], T(1) - x[0] - x[1]};
-    vector_normalization2_3(nu);
+    T nu[3] = {0}, c[3];
+    for (int j = 0; j < 3; j ++) {
+      cross_product(M[j], M[(j+1)%3], c);
+      if (inner_product3(c, c) > inner_product3(nu, nu))
+        for (int k = 0; k < 3; k ++)
+          nu[k] = c[k];
+    }
+    const T norm = (nu[0] + nu[1] + nu[2] < 0 ? T(-1) : T(1)) * vector_2norm_3(nu); // the sum of components is non-negative
 
     for (int j = 0; j < 3; j ++)
-      eigvecs[i][j] = nu[j];
+      eigvecs[i][j] = nu[j] / norm;
   }
 }
 
-- 
2.43.0


From dac2ec0ff2d8c5ee58f5e52ef7b05a562e4b05a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 052/141] fix: angular_stepping reads the time from the output

---
 include/ftk/numeric/rk4.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/numeric/rk4.hh b/include/ftk/numeric/rk4.hh
index 8fd484a..308fae8 100644
--- a/include/ftk/numeric/rk4.hh
+++ b/include/ftk/numeric/rk4.hh
@@ -31,7 +31,7 @@ void angular_stepping(
   const T dw = h * w; // angular step
   axis_rotate_vector(axis, dw, x, xn);
 
-  xn[3] = xn[3] + h;
+  xn[3] = x[3] + h;
 }
 
 template <typename T=double>
-- 
2.43.0


From 091182e5203d9c703e4e17c0ff27f9e262c541ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 053/141] fix: inverse bilinear interpolation fails on fields
 without a bilinear or linear term (singular pencil)

---
 .../inverse_bilinear_interpolation_solver.hh  | 43 ++++++-------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/include/ftk/numeric/inverse_bilinear_interpolation_solver.hh b/include/ftk/numeric/inverse_bilinear_interpolation_solver.hh
index 959c505..4b81152 100644
--- a/include/ftk/numeric/inverse_bilinear_interpolation_solver.hh
+++ b/include/ftk/numeric/inverse_bilinear_interpolation_solver.hh
@@ -23,40 +23,25 @@ int inverse_bilinear_interpolation(const T u[4], const T v[4], T pos[2][2])
     B1 = g10 - g00, 
     C1 = g01 - g00, 
     D1 = g00; 
-  T M0[4] = {-B0, -D0, -B1, -D1}, // stored in row major
-    M1[4] = {A0, C0, A1, C1}; // (yM1 - M0)v = 0, v = {x, 1}^T
 
-  T detM1 = A0*C1 - A1*C0; // TODO: check if detM1==0
-  T invM1[4] = {C1/detM1, -C0/detM1, -A1/detM1, A0/detM1};  
+  // eliminating x from x(Ay+B) = -(Cy+D) gives a*y^2 + b*y + c = 0
+  const T a = C0*A1 - C1*A0, 
+    b = C0*B1 + D0*A1 - C1*B0 - D1*A0,
+    c = D0*B1 - D1*B0;
+  const T delta = b*b - 4*a*c;
+  if (!(delta >= 0)) return 0;
 
-  // Q = invM1*M0
-  T Q[4] = {
-    invM1[0]*M0[0] + invM1[1]*M0[2], 
-    invM1[0]*M0[1] + invM1[1]*M0[3], 
-    invM1[2]*M0[0] + invM1[3]*M0[2], 
-    invM1[2]*M0[1] + invM1[3]*M0[3]
-  };
+  const T q = -(b + (b < 0 ? -std::sqrt(delta) : std::sqrt(delta))) / 2;
+  const T y[2] = {q / a, c / q}; // inf or nan if there is no such root
 
-  // compute y=eig(Q)
-  T trace = Q[0] + Q[3];
-  T det = Q[0]*Q[3] - Q[1]*Q[2];
-  T lambda[2] = {
-    static_cast<T>(trace/2 + std::sqrt(trace*trace/4 - det)), 
-    static_cast<T>(trace/2 - std::sqrt(trace*trace/4 - det))
-  }; 
+  T x[2];
+  for (int i = 0; i < 2; i ++) {
+    const T d0 = A0 * y[i] + B0, d1 = A1 * y[i] + B1;
+    x[i] = std::abs(d0) >= std::abs(d1) ? -(C0 * y[i] + D0) / d0 : -(C1 * y[i] + D1) / d1;
+  }
 
-  T x[2] = {
-    (lambda[0]-Q[3])/Q[2], 
-    (lambda[1]-Q[3])/Q[2]
-  }; 
-  T y[2] = {
-    lambda[0], 
-    lambda[1]
-  };
-
-  T xx, yy;
   int nroots = 0;
-  for (int i=0; i<2; i++) // check the two roots 
+  for (int i = 0; i < (delta > 0 ? 2 : 1); i++) // check the roots 
     if (x[i]>=0 && x[i]<=1 && y[i]>=0 && y[i]<=1) {
       pos[nroots][0] = x[i];
       pos[nroots][1] = y[i];
-- 
2.43.0


From 705bf93928ed57316af8087d472cb9601506a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 054/141] fix: least squares of 4x3 systems and gradients on
 tetrahedra do not compile

---
 include/ftk/numeric/matrix_multiplication.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ftk/numeric/matrix_multiplication.hh b/include/ftk/numeric/matrix_multiplication.hh
index 1918683..985d863 100644
--- a/include/ftk/numeric/matrix_multiplication.hh
+++ b/include/ftk/numeric/matrix_multiplication.hh
@@ -140,6 +140,14 @@ inline void matrix3x4_matrix4x3_multiplication(const T A[3][4], const T B[4][3],
   matrix_matrix_multiplication<T, 3, 4, 3>(A, B, C);
 }
 
+template <class T>
+__device__ __host__
+inline void matrix3x4_vector4_multiplication(const T A[3][4], const T b[4], T x[3])
+{
+  for (int i = 0; i < 3; i ++)
+    x[i] = A[i][0]*b[0] + A[i][1]*b[1] + A[i][2]*b[2] + A[i][3]*b[3];
+}
+
 template <class T>
 __device__ __host__
 inline void matrix3x4_matrix4x2_multiplication(const T A[3][4], const T B[4][2], T C[3][2])
-- 
2.43.0


From c907d1a859d90d6005dd45634646d1e4be3063b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 055/141] fix: roots of quartic polynomials are wrong or
 undefined if the resolvent vanishes (e.g. biquadratics)

---
 include/ftk/numeric/quartic_solver.hh | 28 +++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/ftk/numeric/quartic_solver.hh b/include/ftk/numeric/quartic_solver.hh
index ce83501..dff536d 100644
--- a/include/ftk/numeric/quartic_solver.hh
+++ b/include/ftk/numeric/quartic_solver.hh
@@ -21,14 +21,26 @@ void quartic_solve(T b_, T c_, T d_, T e_, std::complex<T> roots[4])
   const std::complex<T> Q3 = T(8) * b * c - T(16) * d - T(2) * b * b * b;
   const std::complex<T> Q4 = T(3) * b * b - T(8) * c;
 
-  const std::complex<T> Q5 = complex_cbrt(Q2 / T(2) + complex_sqrt(Q2 * Q2 / T(4) - Q1 * Q1 * Q1));
-  const std::complex<T> Q6 = (Q1 / Q5 + Q5) / T(3);
-  const std::complex<T> Q7 = T(2) * complex_sqrt(Q4 / T(12) + Q6);
-
-  roots[0] = (-b - Q7 - complex_sqrt(T(4) * Q4 / T(6) - T(4) * Q6 - Q3 / Q7)) / T(4);
-  roots[1] = (-b - Q7 + complex_sqrt(T(4) * Q4 / T(6) - T(4) * Q6 - Q3 / Q7)) / T(4);
-  roots[2] = (-b + Q7 - complex_sqrt(T(4) * Q4 / T(6) - T(4) * Q6 + Q3 / Q7)) / T(4);
-  roots[3] = (-b + Q7 + complex_sqrt(T(4) * Q4 / T(6) - T(4) * Q6 + Q3 / Q7)) / T(4);
+  // any of the square and cube roots may be used; choose those that keep Q5 and Q7 away from zero
+  const std::complex<T> S = complex_sqrt(Q2 * Q2 / T(4) - Q1 * Q1 * Q1);
+  const std::complex<T> Q50 = complex_cbrt(std::abs(Q2 / T(2) + S) >= std::abs(Q2 / T(2) - S) ? Q2 / T(2) + S : Q2 / T(2) - S);
+
+  std::complex<T> Q6, Q7;
+  for (int k = 0; k < 3; k ++) {
+    const std::complex<T> Q5 = Q50 * std::polar(T(1), T(2 * M_PI * k / 3));
+    const std::complex<T> q6 = Q5 == std::complex<T>(0) ? Q5 : (Q1 / Q5 + Q5) / T(3);
+    const std::complex<T> q7 = T(2) * complex_sqrt(Q4 / T(12) + q6);
+    if (k == 0 || std::abs(q7) > std::abs(Q7)) {
+      Q6 = q6;
+      Q7 = q7;
+    }
+  }
+  const std::complex<T> Q8 = Q7 == std::complex<T>(0) ? Q7 : Q3 / Q7;
+
+  roots[0] = (-b - Q7 - complex_sqrt(T(4) * Q4 / T(6) - T(4) * Q6 - Q8)) / T(4);
+  roots[1] = (-b - Q7 + complex_sqrt(T(4) * Q4 / T(6) - T(4) * Q6 - Q8)) / T(4);
+  roots[2] = (-b + Q7 - complex_sqrt(T(4) * Q4 / T(6) - T(4) * Q6 + Q8)) / T(4);
+  roots[3] = (-b + Q7 + complex_sqrt(T(4) * Q4 / T(6) - T(4) * Q6 + Q8)) / T(4);
 }
 
 }
-- 
2.43.0


From ebe042c3f452f3196bed0dc7fbf27398b947c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 056/141] fix: solve_pv_s1v3 returns points where vectors are
 not parallel (third component never checked, division by a vanishing
 component)

---
 include/ftk/numeric/parallel_vector_solver3.hh | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/ftk/numeric/parallel_vector_solver3.hh b/include/ftk/numeric/parallel_vector_solver3.hh
index e8b3ebb..bf08a5a 100644
--- a/include/ftk/numeric/parallel_vector_solver3.hh
+++ b/include/ftk/numeric/parallel_vector_solver3.hh
@@ -10,6 +10,7 @@
 #include <ftk/numeric/cubic_rational_inequality_solver.hh>
 #include <ftk/numeric/linear_interpolation.hh>
 #include <ftk/numeric/cross_product.hh>
+#include <ftk/numeric/vector_dot_product.hh>
 #include <ftk/numeric/transpose.hh>
 #include <ftk/numeric/characteristic_polynomial.hh>
 #include <ftk/numeric/polynomial.hh>
@@ -226,7 +227,19 @@ inline int solve_pv_s1v3(
       fprintf(stderr, "A={%f, %f, %f}, B={%f, %f, %f}\n", 
           A[0], A[1], A[2], B[0], B[1], B[2]);
 #endif
-      nu[i] = polynomial_evaluate(P[0], 1, l[i]) / polynomial_evaluate(Q[0], 1, l[i]);
+      const T p[3] = {
+        polynomial_evaluate(P[0], 1, l[i]), 
+        polynomial_evaluate(P[1], 1, l[i]), 
+        polynomial_evaluate(P[2], 1, l[i])
+      }, q[3] = {
+        polynomial_evaluate(Q[0], 1, l[i]), 
+        polynomial_evaluate(Q[1], 1, l[i]), 
+        polynomial_evaluate(Q[2], 1, l[i])
+      };
+      nu[i] = vector_dot_product3(p, q) / vector_dot_product3(q, q);
+
+      const T r[3] = {p[0] - nu[i] * q[0], p[1] - nu[i] * q[1], p[2] - nu[i] * q[2]}; // H[2] may not vanish if both p[2] and q[2] do
+      if (!(vector_2norm_3(r) <= std::sqrt(std::numeric_limits<T>::epsilon()) * (vector_2norm_3(p) + vector_2norm_3(q)))) continue;
       // fprintf(stderr, "l=%f, nu=%.20f\n", l[i], nu[i]);
       if (nu[i] >= -epsilon && nu[i] <= 1+epsilon) {
         lambda[n] = l[i];
-- 
2.43.0


From a711efc56cb012371ed144c9c9a67482ec5c1f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 057/141] fix: splitting a trajectory by type drops the points
 where the type changes

---
 include/ftk/features/feature_curve.hh | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index bd56da3..4e98b9f 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -221,21 +221,15 @@ inline std::vector<feature_curve_t> feature_curve_t::split() const
 {
   std::vector<feature_curve_t> results;
   feature_curve_t subtraj;
-  unsigned int current_type;
+  subtraj.id = this->id;
 
   for (auto i = 0; i < size(); i ++) {
-    if (subtraj.empty())
-      current_type = at(i).type;
-
-    if (at(i).type == current_type)
-      subtraj.push_back(at(i));
+    subtraj.push_back(at(i));
 
-    if (at(i).type != current_type || i == size() - 1) {
-      if (subtraj.size() > 0) {
-        subtraj.update_statistics();
-        results.push_back(subtraj);
-        subtraj.clear();
-      }
+    if (i == size() - 1 || at(i+1).type != at(i).type) { // last one of the run
+      subtraj.update_statistics();
+      results.push_back(subtraj);
+      subtraj.clear();
     } 
   }
 
-- 
2.43.0


From bfb1243536ed21944754f53aa9f89b1996143a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 058/141] fix: assigning a trajectory to itself loses its
 points

---
 include/ftk/features/feature_curve.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index 4e98b9f..69ad102 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -75,6 +75,8 @@ inline feature_curve_t::feature_curve_t(const feature_curve_t& c)
   
 inline feature_curve_t& feature_curve_t::operator=(const feature_curve_t& c)
 {
+  if (this == &c) return *this;
+
   id = c.id;
   complete = c.complete;
   loop = c.loop;
-- 
2.43.0


From f584f74f5cca4c9bb6941ed815aa4d946d322193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 059/141] fix: intercepting loops, trajectories that turn in
 time, and empty ones

---
 include/ftk/features/feature_curve.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index 69ad102..c9cb373 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -38,7 +38,7 @@ struct feature_curve_t : public std::vector<feature_point_t>
   
   void copy_info(feature_curve_t& t) {id = t.id; complete = t.complete; loop = t.loop;}
 
-  feature_curve_t intercept(int t0, int t1) const; //! assuming the traj is already reordered
+  feature_curve_t intercept(int t0, int t1) const;
 
   template <int k=2> void unwrap(const double period); // unwrap the curve in a periodical domain
 
@@ -348,11 +348,9 @@ inline int feature_curve_t::locate(double t, bool cap) const
   return 0; // TODO: WIP
 }
   
-inline feature_curve_t feature_curve_t::intercept(int t0, int t1) const //! assuming the traj is already reordered
+inline feature_curve_t feature_curve_t::intercept(int t0, int t1) const
 {
   feature_curve_t result;
-  if (t0 > back().t || t1 < front().t) 
-    return result;
 
   for (int i = 0; i < size(); i ++)
     if (at(i).t >= t0 && at(i).t <= t1)
-- 
2.43.0


From 15a05c80135eebf3b607b813bc773760f4f9824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 060/141] fix: unwrapping and rotating empty trajectories

---
 include/ftk/features/feature_curve.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index c9cb373..12d3a5a 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -249,7 +249,7 @@ inline std::vector<int> feature_curve_t::to_ordinals() const
   
 inline void feature_curve_t::rotate() //! if the traj is a loop and the type is inconsistent, rotate the traj before splitting
 { 
-  if (!loop) return;
+  if (!loop || empty()) return;
   if (front().type != back().type) return;
   int i;
   for (i = 0; i < size(); i ++)
@@ -366,7 +366,7 @@ inline feature_curve_t feature_curve_t::intercept(int t0, int t1) const
   
 template <int k> void feature_curve_t::unwrap(const double period)
 {
-  for (int i = 0; i < size()-1; i ++) {
+  for (int i = 0; i + 1 < size(); i ++) {
     const double delta = at(i+1).x[k] - at(i).x[k];
     if (delta >= period/2) {
       for (int j = i+1; j < size(); j ++)
-- 
2.43.0


From 89d877d16d1d78d55bb4102552cf74d1709e6707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 061/141] fix: statistics are missing in trajectories split in
 geo coordinates

---
 include/ftk/features/feature_curve.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ftk/features/feature_curve.hh b/include/ftk/features/feature_curve.hh
index 12d3a5a..d37ccd0 100644
--- a/include/ftk/features/feature_curve.hh
+++ b/include/ftk/features/feature_curve.hh
@@ -206,12 +206,13 @@ inline std::vector<feature_curve_t> feature_curve_t::split_geo() const
 
     if (i < size() - 1) {
       if (std::abs(at(i+1).x[0] - at(i).x[0]) > 180.0) {
+        subtraj.update_statistics();
         results.push_back(subtraj);
         subtraj.clear();
       }
     } else { // the last one
-      if (subtraj.size())
-        results.push_back(subtraj);
+      subtraj.update_statistics();
+      results.push_back(subtraj);
     }
   }
   
-- 
2.43.0


From ae20d7bd6b6e04ab88cd0e44e47cc7e2593ca93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 062/141] fix: slicing trajectories repeatedly duplicates
 points in slices

---
 include/ftk/filters/critical_point_tracker.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index 5abf31c..d60b18e 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -821,6 +821,8 @@ std::vector<feature_curve_t> critical_point_tracker::trace_critical_points_offli
 
 inline void critical_point_tracker::slice_traced_critical_points()
 {
+  sliced_critical_points.clear();
+
   int sum0 = 0;
   for (const auto &kv : traced_critical_points) {
     const auto &traj = kv.second;
-- 
2.43.0


From c8484796d65f3c7129fc6ecc04e39f76b4915169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:22 +0000
Subject: [PATCH 063/141] fix: sets of trajectories read from archives are
 mixed with previous ones

---
 include/ftk/features/feature_curve_set.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ftk/features/feature_curve_set.hh b/include/ftk/features/feature_curve_set.hh
index ae5c60d..16f510f 100644
--- a/include/ftk/features/feature_curve_set.hh
+++ b/include/ftk/features/feature_curve_set.hh
@@ -103,6 +103,7 @@ namespace diy {
   static void load(diy::BinaryBuffer& bb, ftk::feature_curve_set_t &s) {
     size_t size;
     diy::load(bb, size);
+    s.clear();
     for (auto i = 0; i < size; i ++) {
       int id;
       diy::load(bb, id);
-- 
2.43.0


From 6793f841b21eebb6609095c37509c8d231d254f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:22 +0000
Subject: [PATCH 064/141] fix: labels of trajectories change when read from
 JSON

---
 include/ftk/features/feature_curve_set.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/features/feature_curve_set.hh b/include/ftk/features/feature_curve_set.hh
index 16f510f..456118b 100644
--- a/include/ftk/features/feature_curve_set.hh
+++ b/include/ftk/features/feature_curve_set.hh
@@ -132,7 +132,7 @@ inline std::list<feature_curve_t> feature_curve_set_t::to_list() const
 inline void feature_curve_set_t::from_list(const std::list<feature_curve_t>& list)
 {
   for (const auto &c : list)
-    this->insert({get_new_id(), c});
+    this->insert({c.id, c});
 }
 
 inline void feature_curve_set_t::write(const std::string& filename, const std::string& format) const
-- 
2.43.0


From e86b3a234c6797a40b195baa3bdba693a1a7c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:22 +0000
Subject: [PATCH 065/141] fix: write_traced_critical_points_text does not write
 to streams

---
 include/ftk/filters/critical_point_tracker.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index d60b18e..88cf5b6 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -374,6 +374,8 @@ inline void critical_point_tracker::write_traced_critical_points_text(const std:
 
 inline void critical_point_tracker::write_traced_critical_points_text(std::ostream& os) const
 {
+  if (is_root_proc())
+    traced_critical_points.write_text(os, scalar_components);
 }
 
 inline void critical_point_tracker::write_critical_points_text(const std::string& filename) const
-- 
2.43.0


From f01cc6975e782ac69a0b9549f6ce01079e873b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:22 +0000
Subject: [PATCH 066/141] fix: surfaces saved in files without a known
 extension cannot be loaded

---
 include/ftk/features/feature_surface.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/features/feature_surface.hh b/include/ftk/features/feature_surface.hh
index b15f7c4..7eb18ac 100644
--- a/include/ftk/features/feature_surface.hh
+++ b/include/ftk/features/feature_surface.hh
@@ -383,7 +383,7 @@ inline feature_curve_set_t feature_surface_t::slice_time(int t) const
 inline void feature_surface_t::load(const std::string& filename, std::string format)
 {
   const int fmt = file_extension(filename, format);
-  if (fmt == FILE_EXT_BIN) {
+  if (fmt == FILE_EXT_BIN || fmt == FILE_EXT_NULL) {
     diy::unserializeFromFile(filename, *this);
   } else {
     fprintf(stderr, "unsupported file format\n");
-- 
2.43.0


From 1ad6572a9c899b10d222676e9a4970e1c68df2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:22 +0000
Subject: [PATCH 067/141] fix: trajectories read from polydata have wrong
 points and loop flags, and single points are lost

---
 include/ftk/features/feature_curve_set.hh | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/ftk/features/feature_curve_set.hh b/include/ftk/features/feature_curve_set.hh
index 456118b..d493146 100644
--- a/include/ftk/features/feature_curve_set.hh
+++ b/include/ftk/features/feature_curve_set.hh
@@ -258,7 +258,9 @@ inline void feature_curve_set_t::from_vtp(vtkSmartPointer<vtkPolyData> poly, con
   vtkSmartPointer<vtkFloatArray> arr_time = vtkFloatArray::SafeDownCast( pd->GetAbstractArray("time") );
   vtkSmartPointer<vtkFloatArray> arr_cond = vtkFloatArray::SafeDownCast( pd->GetAbstractArray("cond") );
 
-  auto iter = vtk::TakeSmartPointer(lines->NewIterator());
+  for (auto cells : {lines, verts}) // isolated points are in verts
+  {
+  auto iter = vtk::TakeSmartPointer(cells->NewIterator());
   for (iter->GoToFirstCell(); !iter->IsDoneWithTraversal(); iter->GoToNextCell())
   {
     feature_curve_t curve;
@@ -267,7 +269,13 @@ inline void feature_curve_set_t::from_vtp(vtkSmartPointer<vtkPolyData> poly, con
     iter->GetCurrentCell(size, idlist);
     if (size == 0) continue;
 
-    for (auto i = 0; i < size; i ++) {
+    if (size > 1 && idlist[0] == idlist[size-1]) { // the first point is repeated at the end of loops
+      curve.loop = true;
+      size --;
+    }
+
+    for (auto j = 0; j < size; j ++) {
+      const vtkIdType i = idlist[j];
       feature_point_t p;
 
       const double *x = points->GetPoint(i);
@@ -289,10 +297,11 @@ inline void feature_curve_set_t::from_vtp(vtkSmartPointer<vtkPolyData> poly, con
       curve.push_back(p);
     }
 
-    if (curve.front().tag == curve.back().tag)
-      curve.loop = true;
+    curve.id = curve[0].id;
+    curve.update_statistics();
 
-    this->insert({curve[0].id, curve});
+    this->insert({curve.id, curve});
+  }
   }
 }
 
-- 
2.43.0


From 4b32856ef98ea8ea0c22c37f7f8c99a2b5f103e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 068/141] fix: isosurfaces of 2D contours have cracks and
 overlapping triangles

The four points in a tetrahedron were split into triangles by the order of the
mesh edges they are on, which is not always the order around the quadrilateral.
---
 .../ftk/filters/contour_tracker_2d_regular.hh | 58 +++++++++++--------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/include/ftk/filters/contour_tracker_2d_regular.hh b/include/ftk/filters/contour_tracker_2d_regular.hh
index 7cd87a4..75544b4 100644
--- a/include/ftk/filters/contour_tracker_2d_regular.hh
+++ b/include/ftk/filters/contour_tracker_2d_regular.hh
@@ -70,12 +70,44 @@ protected:
 
   void build_surfaces();
 
+  // find the points in a tetrahedron; the last of four points is opposite to the first one in the quadrilateral
+  int intersected_corners(const element_t& e, const std::map<element_t, feature_point_t>& points, unsigned long long ids[4]) const;
+
   virtual void simplex_coordinates(const std::vector<std::vector<int>>& vertices, double X[][3]) const;
   virtual void simplex_scalars(const std::vector<std::vector<int>>& vertices, double values[]) const;
 };
 
 
 ////////////////////
+inline int contour_tracker_2d_regular::intersected_corners(
+    const element_t& e, const std::map<element_t, feature_point_t>& points, unsigned long long ids[4]) const
+{
+  std::set<element_t> unique_edges;
+  for (auto tri : e.sides(m))
+    for (auto edge : tri.sides(m))
+      unique_edges.insert(edge);
+
+  int count = 0;
+  std::vector<std::vector<int>> vertices[4];
+  for (auto edge : unique_edges) {
+    auto it = points.find(edge);
+    if (it != points.end() && count < 4) {
+      vertices[count] = edge.vertices(m);
+      ids[count ++] = it->second.tag;
+    }
+  }
+
+  if (count == 4)
+    for (int i = 1; i < 3; i ++) // opposite corners are on edges that do not share vertices
+      if (vertices[i][0] != vertices[0][0] && vertices[i][0] != vertices[0][1] &&
+          vertices[i][1] != vertices[0][0] && vertices[i][1] != vertices[0][1]) {
+        std::swap(ids[i], ids[3]);
+        break;
+      }
+
+  return count;
+}
+
 inline void contour_tracker_2d_regular::build_surfaces()
 {
   fprintf(stderr, "building spacetime isosurfaces...\n");
@@ -95,19 +127,8 @@ inline void contour_tracker_2d_regular::build_surfaces()
   }
 
   parallel_for<element_t>(related_cells, [&](const element_t &e) {
-    int count = 0;
     unsigned long long ids[4];
-
-    std::set<element_t> unique_edges;
-    for (auto tri : e.sides(m)) {
-      for (auto edge : tri.sides(m)) {
-        unique_edges.insert(edge);
-      }
-    }
-    
-    for (auto edge : unique_edges) 
-      if (my_intersections.find(edge) != my_intersections.end())
-        ids[count ++] = my_intersections[edge].tag;
+    const int count = intersected_corners(e, my_intersections, ids);
 
     if (count == 3) {
       add_triangle(ids[0], ids[1], ids[2]);
@@ -308,19 +329,8 @@ vtkSmartPointer<vtkPolyData> contour_tracker_2d_regular::get_isovolume_vtp() con
 
   for (const auto &e : related_cells) {
   // m.element_for(3, [&](element_t e) {
-    int count = 0;
     unsigned long long ids[4];
-
-    std::set<element_t> unique_edges;
-    for (auto tri : e.sides(m)) {
-      for (auto edge : tri.sides(m)) {
-        unique_edges.insert(edge);
-      }
-    }
-    
-    for (auto edge : unique_edges) 
-      if (my_intersections.find(edge) != my_intersections.end())
-        ids[count ++] = my_intersections[edge].tag;
+    const int count = intersected_corners(e, my_intersections, ids);
 
     if (count == 3) {
       add_triangle(ids[0], ids[1], ids[2]);
-- 
2.43.0


From e36c33c544d18eb2e8acefd29a0a04106bba3687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 069/141] fix: isovolumes of 3D contours have cracks and flat
 cells

Prisms were triangulated in the order of mesh edges, which differs between
neighboring cells, and cells beyond the last timestep with four intersected
edges added degenerate tetrahedra.
---
 .../ftk/filters/contour_tracker_3d_regular.hh | 57 ++++++++-----------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/include/ftk/filters/contour_tracker_3d_regular.hh b/include/ftk/filters/contour_tracker_3d_regular.hh
index c3241c5..d9c378c 100644
--- a/include/ftk/filters/contour_tracker_3d_regular.hh
+++ b/include/ftk/filters/contour_tracker_3d_regular.hh
@@ -117,50 +117,39 @@ inline void contour_tracker_3d_regular::build_isovolume()
         for (auto edge : tri.sides(m))
           unique_edges.insert(edge);
 
-    for (auto edge : unique_edges)
-      if (intersections.find(edge) != intersections.end())
-        ids[count ++] = intersections[edge].id;
+    // neighbors of each vertex through intersected edges, in the order of vertices
+    std::map<std::vector<int>, std::map<std::vector<int>, int>> links;
+    for (auto edge : unique_edges) {
+      const auto it = intersections.find(edge);
+      if (it == intersections.end()) continue;
+
+      const auto vertices = edge.vertices(m);
+      links[vertices[0]][vertices[1]] = it->second.id;
+      links[vertices[1]][vertices[0]] = it->second.id;
+      if (count < 6) ids[count] = it->second.id;
+      count ++;
+    }
 
     if (count == 4) {
-      add_tet(ids[0], ids[1], ids[2], ids[3]);
+      // one of the five vertices must be separated from the others; otherwise 
+      // the pentachoron is partially outside the available timesteps
+      if (links.size() == 5)
+        add_tet(ids[0], ids[1], ids[2], ids[3]);
     } else if (count == 6) {
       // triangulation. // if the pentachoron has six intersected 2-edges, the isovolume must be a prism
-      // (1) find two tets, each of which has a triangular isosurface patch
-      // (2) sort vertices of each patch
+      // (1) find two vertices, each of which has a triangular isosurface patch
+      // (2) sort vertices of each patch (consistent across neighboring cells)
       // (3) staircase triangulation
 
-      int quadrilaterals[3][4], quadrilaterals_count = 0;
       int triangles[2][3], triangle_count = 0;
-
-      for (auto tet : e.sides(m)) {
-        int my_count = 0;
-        int my_ids[4];
-
-        std::set<element_t> my_unique_edges;
-        for (auto tri : tet.sides(m))
-          if (tri.valid(m)) 
-            for (auto edge : tri.sides(m))
-              if (edge.valid(m))
-                my_unique_edges.insert(edge);
-
-        for (auto edge : my_unique_edges)
-          if (intersections.find(edge) != intersections.end())
-            my_ids[my_count ++] = intersections[edge].id;
-
-        // fprintf(stderr, "my_count=%d\n", my_count);
-        if (my_count == 3) { // triangle
-          for (int i = 0; i < 3; i ++)
-            triangles[triangle_count][i] = my_ids[i];
+      for (const auto &kv : links)
+        if (kv.second.size() == 3 && triangle_count < 2) {
+          int k = 0;
+          for (const auto &kv1 : kv.second)
+            triangles[triangle_count][k ++] = kv1.second;
           triangle_count ++;
-        } else if (my_count == 4) { // quadrilateral
-          for (int i = 0; i < 4; i ++) 
-            quadrilaterals[quadrilaterals_count][i] = my_ids[i];
-          quadrilaterals_count ++;
         }
-      }
-      // fprintf(stderr, "triangle_count=%d\n", triangle_count);
       assert(triangle_count == 2);
-      assert(quadrilaterals_count == 3);
 
       // staircase triangulatio8n
       add_tet(triangles[0][0], triangles[0][1], triangles[0][2], triangles[1][2]);
-- 
2.43.0


From 955d336e41cdc8fc26e3e1ebba1551de3077b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:13 +0000
Subject: [PATCH 070/141] fix: slices of isovolumes have no triangles at the
 last timestep

---
 include/ftk/features/feature_volume.hh | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/include/ftk/features/feature_volume.hh b/include/ftk/features/feature_volume.hh
index e62bfc0..505d09f 100644
--- a/include/ftk/features/feature_volume.hh
+++ b/include/ftk/features/feature_volume.hh
@@ -95,23 +95,16 @@ inline feature_surface_t feature_volume_t::slice_time(int t) const
     int count = 0;
     std::array<int, 4> q;
  
-    bool valid = true;
     for (int j = 0; j < 4; j ++)
-      if (pts[c[j]].timestep != t)
-        valid = false;
-
-    if (valid) {
-      for (int j = 0; j < 4; j ++)
-        if (map.find(c[j]) != map.end()) {
-          q[count ++] = map[c[j]];
-        }
-
-      if (count == 3) {
-        std::array<int, 3> q3 = {q[0], q[1], q[2]};
-        std::sort(q3.begin(), q3.end());
-        tris.insert(q3);
-        // surf.conn.push_back({q[0], q[1], q[2]});
+      if (map.find(c[j]) != map.end()) {
+        q[count ++] = map[c[j]];
       }
+
+    if (count == 3) { // tetrahedra on both sides of the slice share the triangle
+      std::array<int, 3> q3 = {q[0], q[1], q[2]};
+      std::sort(q3.begin(), q3.end());
+      tris.insert(q3);
+      // surf.conn.push_back({q[0], q[1], q[2]});
     }
   }
 
-- 
2.43.0


From 1d3c677b3a5abf1a78710706b7ae7a43200b8d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 071/141] fix: gradients on 3D contours ignore the offset of
 the local array

---
 include/ftk/filters/contour_tracker_3d_regular.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ftk/filters/contour_tracker_3d_regular.hh b/include/ftk/filters/contour_tracker_3d_regular.hh
index d9c378c..e23145b 100644
--- a/include/ftk/filters/contour_tracker_3d_regular.hh
+++ b/include/ftk/filters/contour_tracker_3d_regular.hh
@@ -432,7 +432,10 @@ inline void contour_tracker_3d_regular::simplex_values(
         vertices[i][2] - local_array_domain.start(2));
     for (int j = 0; j < 3; j ++)
       grads[i][j] = field_data_snapshots[iv].gradient(
-          j, vertices[i][0], vertices[i][1], vertices[i][2]);
+          j, 
+          vertices[i][0] - local_array_domain.start(0), 
+          vertices[i][1] - local_array_domain.start(1), 
+          vertices[i][2] - local_array_domain.start(2));
   }
 }
 
-- 
2.43.0


From 5931bf957a0100995d2e70fef97fc9a2ac9d4edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 072/141] fix: line features are wrong if field values are
 large

With a scaling factor of 2^21, products of values above a thousand overflow 64-bit
integers in the robust test; use arbitrary precision integers if available.
---
 include/ftk/filters/critical_line_tracker_3d_regular.hh  | 9 +++++++++
 .../ftk/filters/critical_line_tracker_3d_unstructured.hh | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/include/ftk/filters/critical_line_tracker_3d_regular.hh b/include/ftk/filters/critical_line_tracker_3d_regular.hh
index 326675c..65095a2 100644
--- a/include/ftk/filters/critical_line_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_line_tracker_3d_regular.hh
@@ -19,6 +19,10 @@ extract_3dclt_cuda(
     const float *uv_c,
     const float *uv_l);
 
+#if FTK_HAVE_GMP
+#include <gmpxx.h>
+#endif
+
 namespace ftk {
 
 struct critical_line_tracker_3d_regular : public virtual critical_line_tracker, public virtual regular_tracker
@@ -233,9 +237,14 @@ inline bool critical_line_tracker_3d_regular::check_simplex(
         cond; // condition number
 
   const long long factor = 2 << 20; // TODO
+#if FTK_HAVE_GMP
+  mpz_class UVf[3][2];
+#else
   long long UVf[3][2];
+#endif
   for (int i = 0; i < 3; i ++)
     for (int j = 0; j < 2; j ++) {
+      if (!std::isfinite(UV[i][j])) return false;
       UVf[i][j] = factor * UV[i][j];
       uv[i][j] = UV[i][j];
     }
diff --git a/include/ftk/filters/critical_line_tracker_3d_unstructured.hh b/include/ftk/filters/critical_line_tracker_3d_unstructured.hh
index 3bf14dd..3d07312 100644
--- a/include/ftk/filters/critical_line_tracker_3d_unstructured.hh
+++ b/include/ftk/filters/critical_line_tracker_3d_unstructured.hh
@@ -22,6 +22,10 @@
 #include <ftk/mesh/simplicial_unstructured_extruded_3d_mesh.hh>
 #include <ftk/external/diy/serialization.hpp>
 
+#if FTK_HAVE_GMP
+#include <gmpxx.h>
+#endif
+
 namespace ftk {
 
 struct critical_line_tracker_3d_unstructured :
@@ -99,9 +103,14 @@ inline bool critical_line_tracker_3d_unstructured::check_simplex(int i, feature_
         cond; // condition number
 
   const long long factor = 2 << 20; // TODO
+#if FTK_HAVE_GMP
+  mpz_class UVf[3][2];
+#else
   long long UVf[3][2];
+#endif
   for (int i = 0; i < 3; i ++)
     for (int j = 0; j < 2; j ++) {
+      if (!std::isfinite(UV[i][j])) return false;
       UVf[i][j] = factor * UV[i][j];
       uv[i][j] = UV[i][j];
     }
-- 
2.43.0


From ddbbaa37f8076209bce102079268c5a561cca5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 073/141] fix: vorticity magnitude on Levy-Degani-Seginer
 vortex cores ignores the third component

---
 include/ftk/filters/levy_degani_seginer_tracker_3d_regular.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/levy_degani_seginer_tracker_3d_regular.hh b/include/ftk/filters/levy_degani_seginer_tracker_3d_regular.hh
index 1f1a9b9..0cefc37 100644
--- a/include/ftk/filters/levy_degani_seginer_tracker_3d_regular.hh
+++ b/include/ftk/filters/levy_degani_seginer_tracker_3d_regular.hh
@@ -61,7 +61,7 @@ inline bool levy_degani_seginer_tracker_3d_regular::check_simplex(const element_
 
   float vort[3];
   lerp_s2v3(vorts, mu, vort);
-  cp.scalar[1] = vector_2norm_2(vort);
+  cp.scalar[1] = vector_2norm_3(vort);
 
   // fprintf(stderr, "residue=%f, detJ=%f\n", residue, detJ);
   // print3x3("J", J);
-- 
2.43.0


From 551c93fec10c49be45c49acd3a968e22ca38189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 074/141] fix: line trackers keep surfaces and cells of
 previous data after reset

---
 include/ftk/filters/critical_line_tracker_3d_regular.hh | 3 +++
 include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh   | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/ftk/filters/critical_line_tracker_3d_regular.hh b/include/ftk/filters/critical_line_tracker_3d_regular.hh
index 65095a2..2e6b27a 100644
--- a/include/ftk/filters/critical_line_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_line_tracker_3d_regular.hh
@@ -219,6 +219,9 @@ inline void critical_line_tracker_3d_regular::reset()
 
   field_data_snapshots.clear();
   intersections.clear();
+  related_cells.clear();
+  surfaces.clear();
+  traced_curves.clear();
 
   critical_line_tracker::reset();
 }
diff --git a/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh b/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh
index 1da3fc9..df5c187 100644
--- a/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh
+++ b/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh
@@ -159,6 +159,8 @@ inline void tdgl_vortex_tracker_3d_regular::reset()
 
   field_data_snapshots.clear();
   intersections.clear();
+  related_cells.clear();
+  surfaces.clear();
 
   tdgl_vortex_tracker::reset();
 }
-- 
2.43.0


From c7de1fdc952cae5ba0e8f0d952a95b93eafdf433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:14 +0000
Subject: [PATCH 075/141] fix: buffer overflow in cells pierced by many
 vortices

Strong magnetic fields may yield non-zero winding numbers on all ten triangles of a cell.
---
 include/ftk/filters/critical_line_tracker_3d_regular.hh | 2 +-
 include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/filters/critical_line_tracker_3d_regular.hh b/include/ftk/filters/critical_line_tracker_3d_regular.hh
index 2e6b27a..efdb9a4 100644
--- a/include/ftk/filters/critical_line_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_line_tracker_3d_regular.hh
@@ -172,7 +172,7 @@ inline void critical_line_tracker_3d_regular::build_vortex_surfaces()
 
   parallel_for<element_t>(related_cells, [&](const element_t &e) {
     int count = 0;
-    int ids[6];
+    int ids[10]; // a pentachoron has ten triangles
 
     std::set<element_t> unique_tris;
     for (auto tet : e.sides(m))
diff --git a/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh b/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh
index df5c187..c5b1b60 100644
--- a/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh
+++ b/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh
@@ -112,7 +112,7 @@ inline void tdgl_vortex_tracker_3d_regular::build_vortex_surfaces()
 
   parallel_for<element_t>(related_cells, [&](const element_t &e) {
     int count = 0;
-    int ids[6];
+    int ids[10]; // a pentachoron has ten triangles
 
     std::set<element_t> unique_tris;
     for (auto tet : e.sides(m))
-- 
2.43.0


From 0bd637606771b5efd1261f106fa51d1c1a7312c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 076/141] fix: the number of steps per checkpoint is ignored in
 particle tracing

---
 include/ftk/filters/particle_tracer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/particle_tracer.hh b/include/ftk/filters/particle_tracer.hh
index 96891fe..ae81529 100644
--- a/include/ftk/filters/particle_tracer.hh
+++ b/include/ftk/filters/particle_tracer.hh
@@ -40,7 +40,7 @@ public:
 public: // will be overriden by above parameters
   void set_delta_t(double d) { current_delta_t = d; } // overriding delta t
   void set_nsteps_per_interval(int n) { nsteps_per_interval = n; }
-  void set_nsteps_per_checkpoint(int n) { nsteps_per_checkpoint = 16; }
+  void set_nsteps_per_checkpoint(int n) { nsteps_per_checkpoint = n; }
 
 protected:
   virtual bool eval_vt(const double *x, double *v, int *hint = NULL);  // w/ temporal interpolation
-- 
2.43.0


From ac1df74c6416d08af29c058d03a36c80365b6f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 077/141] fix: particles stop at the end of a time interval
 because of rounding errors

Accumulated times may be slightly off the interval, e.g. with ten steps per interval,
and particles could not be continued in the next interval.
---
 include/ftk/filters/particle_tracer.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ftk/filters/particle_tracer.hh b/include/ftk/filters/particle_tracer.hh
index ae81529..8245830 100644
--- a/include/ftk/filters/particle_tracer.hh
+++ b/include/ftk/filters/particle_tracer.hh
@@ -209,8 +209,10 @@ inline bool particle_tracer::eval_vt(
     const double *x, double *v, int *hint)
 {
   if (V[0] && V[1]) { // double time step
-    const double t = (x[nd_] - current_t) / current_delta_t;
-    if (t < 0.0 || t > 1.0) return false; // out of temporal bound
+    double t = (x[nd_] - current_t) / current_delta_t;
+    const double epsilon = 1e-8; // tolerance for accumulated rounding errors
+    if (!(t >= -epsilon && t <= 1.0 + epsilon)) return false; // out of temporal bound
+    t = std::min(std::max(t, 0.0), 1.0);
 
     const double w0 = (1.0 - t), w1 = t;
     double v0[10], v1[10]; // some large number
-- 
2.43.0


From 3b80ea4e67f30e6571a76a5b9b61bc7ca6c3077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 078/141] fix: particle tracing interpolates wrong timesteps if
 delta t is not one

Times of particles increase by delta t per interval, but the interval was assumed to
start at the number of the timestep.
---
 include/ftk/filters/particle_tracer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/particle_tracer.hh b/include/ftk/filters/particle_tracer.hh
index 8245830..edccacf 100644
--- a/include/ftk/filters/particle_tracer.hh
+++ b/include/ftk/filters/particle_tracer.hh
@@ -79,6 +79,7 @@ inline bool particle_tracer::advance_timestep()
   pop_field_data_snapshot();
 
   current_timestep ++;
+  current_t += current_delta_t;
   return snapshots.size() > 0;
 }
 
@@ -130,7 +131,6 @@ inline void particle_tracer::prepare_timestep()
 inline void particle_tracer::update_timestep()
 {
   if (comm.rank() == 0) fprintf(stderr, "current_timestep=%d\n", current_timestep);
-  current_t = current_timestep;
   prepare_timestep();
 
   bool streamlines = false;
-- 
2.43.0


From c2d55426514b34245cbeca9a4bc2affbc739a7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 079/141] fix: velocities of particles are undefined at the
 first checkpoint

---
 include/ftk/filters/particle_tracer.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ftk/filters/particle_tracer.hh b/include/ftk/filters/particle_tracer.hh
index edccacf..21f02f7 100644
--- a/include/ftk/filters/particle_tracer.hh
+++ b/include/ftk/filters/particle_tracer.hh
@@ -158,6 +158,10 @@ inline void particle_tracer::update_timestep()
 
     thread_local int hint[2] = {-1, -1};
 
+    if (!eval_vt(x, v, hint))
+      for (auto k = 0; k < 10; k ++)
+        v[k] = 0.0;
+
     for (auto k = 0; k < nsteps_per_interval; k ++) {
       if (k % nsteps_per_checkpoint == 0) {
         feature_point_t p;
-- 
2.43.0


From b8941164b0c62b5dfb6ed04cdf68bb1d08fae7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:24 +0000
Subject: [PATCH 080/141] fix: particles end at trial positions of the
 Runge-Kutta scheme when they leave the domain

---
 include/ftk/numeric/rk4.hh | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/ftk/numeric/rk4.hh b/include/ftk/numeric/rk4.hh
index 308fae8..adbb310 100644
--- a/include/ftk/numeric/rk4.hh
+++ b/include/ftk/numeric/rk4.hh
@@ -192,8 +192,13 @@ bool rk4(int nd, T *pt, std::function<bool(const T*, T*)> f, T h, T *v0 = nullpt
   
   T v[nd]; 
 
+  auto fail = [&]() { // stay at the last valid position
+    memcpy(pt, p0, sizeof(T)*nd);
+    return false;
+  };
+
   // 1st rk step
-  if (!f(pt, v)) return false; 
+  if (!f(pt, v)) return fail();
   T k1[nd]; 
   for (int i=0; i<nd; i++) k1[i] = h*v[i];
 
@@ -202,19 +207,19 @@ bool rk4(int nd, T *pt, std::function<bool(const T*, T*)> f, T h, T *v0 = nullpt
   
   // 2nd rk step
   for (int i=0; i<nd; i++) pt[i] = p0[i] + 0.5*k1[i]; 
-  if (!f(pt, v)) return false; 
+  if (!f(pt, v)) return fail();
   T k2[nd]; 
   for (int i=0; i<nd; i++) k2[i] = h*v[i]; 
 
   // 3rd rk step
   for (int i=0; i<nd; i++) pt[i] = p0[i] + 0.5*k2[i]; 
-  if (!f(pt, v)) return false; 
+  if (!f(pt, v)) return fail();
   T k3[nd]; 
   for (int i=0; i<nd; i++) k3[i] = h*v[i]; 
 
   // 4th rk step
   for (int i=0; i<nd; i++) pt[i] = p0[i] + k3[i]; 
-  if (!f(pt, v)) return false; 
+  if (!f(pt, v)) return fail();
   for (int i=0; i<nd; i++) 
     pt[i] = p0[i] + (k1[i] + 2.0*(k2[i]+k3[i]) + h*v[i])/6.0; 
 
-- 
2.43.0


From af27c94e881104c12e1c9576a74a89f95dcd113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:38 +0000
Subject: [PATCH 081/141] fix: particles whose seeding time is not a multiple
 of the step stop at the end of the first interval

---
 include/ftk/filters/particle_tracer.hh | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/ftk/filters/particle_tracer.hh b/include/ftk/filters/particle_tracer.hh
index 21f02f7..ce9a144 100644
--- a/include/ftk/filters/particle_tracer.hh
+++ b/include/ftk/filters/particle_tracer.hh
@@ -179,15 +179,22 @@ inline void particle_tracer::update_timestep()
       }
       bool succ = false;
 
+      double h = delta();
+      if (!streamlines) { // the last step must not go beyond the end of the interval
+        const double rest = current_t + current_delta_t - x[nd_];
+        if (rest <= 1e-8 * current_delta_t) break;
+        h = std::min(h, rest);
+      }
+
       // fprintf(stderr, "x=%f, %f, t=%f\n", x[0], x[1], x[2]);
       if (integrator == PARTICLE_TRACER_INTEGRATOR_RK4)
-        succ = rk4<double>(nd_+1, x, [&](const double *x, double *v) { return eval_vt(x, v, hint); }, delta(), v);
+        succ = rk4<double>(nd_+1, x, [&](const double *x, double *v) { return eval_vt(x, v, hint); }, h, v);
       else if (integrator == PARTICLE_TRACER_INTEGRATOR_SPHERICAL_RK1)
-        succ = spherical_rk1<double>(x, [&](const double *x, double *v) { return eval_vt(x, v, hint); }, delta(), v);
+        succ = spherical_rk1<double>(x, [&](const double *x, double *v) { return eval_vt(x, v, hint); }, h, v);
       else if (integrator == PARTICLE_TRACER_INTEGRATOR_SPHERICAL_RK1_WITH_VERTICAL_VELOCITY) 
-        succ = spherical_rk1_with_vertical_velocity<double>(x, [&](const double *x, double *v) { return eval_vt(x, v, hint); }, delta(), v);
+        succ = spherical_rk1_with_vertical_velocity<double>(x, [&](const double *x, double *v) { return eval_vt(x, v, hint); }, h, v);
       else if (integrator == PARTICLE_TRACER_INTEGRATOR_SPHERICAL_RK4_WITH_VERTICAL_VELOCITY) 
-        succ = spherical_rk4_with_vertical_velocity<double>(x, [&](const double *x, double *v) { return eval_vt(x, v, hint); }, delta(), v);
+        succ = spherical_rk4_with_vertical_velocity<double>(x, [&](const double *x, double *v) { return eval_vt(x, v, hint); }, h, v);
 
       if (!succ) 
         break;
-- 
2.43.0


From e4d8dbb1a7a9731dde6848eff19274390db2e73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 082/141] fix: second component of gradients of vector fields
 on triangle meshes is a fraction of the first

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index 8757e0e..33d9515 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -671,7 +671,7 @@ ndarray<F> simplicial_unstructured_2d_mesh<I, F>::vector_gradient(const ndarray<
 
     for (int c = 0; c < vector.dim(0); c ++) {
       grad(0, c, i) = grad(0, c, i) / ntris;
-      grad(1, c, i) = grad(0, c, i) / ntris;
+      grad(1, c, i) = grad(1, c, i) / ntris;
     }
   }
   
-- 
2.43.0


From 3d1c556c158377bd5674832d021d86ad93b86aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 083/141] fix: smoothing into previously used arrays adds to
 their values

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 6 +++++-
 include/ftk/mesh/simplicial_unstructured_3d_mesh.hh | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index 33d9515..e490247 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -590,10 +590,14 @@ void simplicial_unstructured_2d_mesh<I, F>::smooth_scalar_gradient_jacobian(
   const F sigma2 = sigma * sigma, 
           sigma4 = sigma2 * sigma2;
 
-  scalar.reshape({n(0)});
+  scalar.reshape(n(0));
   grad.reshape({2, n(0)});
   J.reshape({2, 2, n(0)});
 
+  scalar.fill(F(0)); // the arrays may have been used before
+  grad.fill(F(0));
+  J.fill(F(0));
+
   // for (auto i = 0; i < smoothing_kernel.size(); i ++) {
   this->parallel_for(smoothing_kernel.size(), [&](int i) {
     for (auto j = 0; j < smoothing_kernel[i].size(); j ++) {
diff --git a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
index 0068425..203232f 100644
--- a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
@@ -613,10 +613,14 @@ void simplicial_unstructured_3d_mesh<I, F>::smooth_scalar_gradient_jacobian(
   const F sigma2 = sigma * sigma, 
           sigma4 = sigma2 * sigma2;
 
-  scalar.reshape({n(0)});
+  scalar.reshape(n(0));
   grad.reshape({3, n(0)});
   J.reshape({3, 3, n(0)});
 
+  scalar.fill(F(0)); // the arrays may have been used before
+  grad.fill(F(0));
+  J.fill(F(0));
+
   // for (auto i = 0; i < smoothing_kernel.size(); i ++) {
   this->parallel_for(smoothing_kernel.size(), [&](int i) {
     for (auto j = 0; j < smoothing_kernel[i].size(); j ++) {
-- 
2.43.0


From e6799cc9b12ec75551654b6b8d5f2d56733d37f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 084/141] fix: building a smoothing kernel again adds to the
 previous one

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 1 +
 include/ftk/mesh/simplicial_unstructured_3d_mesh.hh | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index e490247..14793bc 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -509,6 +509,7 @@ inline void simplicial_unstructured_2d_mesh<I, F>::build_smoothing_kernel(const
   const F limit = F(3) * sigma;
 
   auto neighbors = [&](I i) { return vertex_edge_vertex[i]; };
+  smoothing_kernel.clear(); // discard the previous kernel, if any
   smoothing_kernel.resize(n(0));
 
   // for (auto i = 0; i < n(0); i ++) {
diff --git a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
index 203232f..0ce16b1 100644
--- a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
@@ -564,6 +564,7 @@ inline void simplicial_unstructured_3d_mesh<I, F>::build_smoothing_kernel(const
   const F limit = F(3) * sigma;
 
   auto neighbors = [&](I i) { return vertex_edge_vertex[i]; };
+  smoothing_kernel.clear(); // discard the previous kernel, if any
   smoothing_kernel.resize(n(0));
 
   for (auto i = 0; i < n(0); i ++) {
-- 
2.43.0


From 16022032d2f29888fd1cd3a5addf163376bd5dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 085/141] fix: smoothed gradients on unstructured meshes have
 the wrong sign

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 4 ++--
 include/ftk/mesh/simplicial_unstructured_3d_mesh.hh | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index 14793bc..a03767c 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -617,8 +617,8 @@ void simplicial_unstructured_2d_mesh<I, F>::smooth_scalar_gradient_jacobian(
       scalar[i] += f[k] * w;
 
       // gradient
-      grad(0, i) += - f[k] * w * d[0] / sigma2;
-      grad(1, i) += - f[k] * w * d[1] / sigma2;
+      grad(0, i) += f[k] * w * d[0] / sigma2;
+      grad(1, i) += f[k] * w * d[1] / sigma2;
 
       // jacobian
       J(0, 0, i) += (d[0]*d[0] / sigma2 - 1) / sigma2 * f[k] * w;
diff --git a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
index 0ce16b1..eeb5f9f 100644
--- a/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_3d_mesh.hh
@@ -637,9 +637,9 @@ void simplicial_unstructured_3d_mesh<I, F>::smooth_scalar_gradient_jacobian(
       scalar[i] += f[k] * w;
 
       // gradient
-      grad(0, i) += - f[k] * w * d[0] / sigma2;
-      grad(1, i) += - f[k] * w * d[1] / sigma2;
-      grad(2, i) += - f[k] * w * d[2] / sigma2;
+      grad(0, i) += f[k] * w * d[0] / sigma2;
+      grad(1, i) += f[k] * w * d[1] / sigma2;
+      grad(2, i) += f[k] * w * d[2] / sigma2;
 
       // jacobian
       J(0, 0, i) += (d[0]*d[0] / sigma2 - 1) / sigma2 * f[k] * w;
-- 
2.43.0


From 767c34a2e06664be69f3d7191a277e33e0714b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 086/141] fix: cached smoothing kernels are shared by meshes
 with different coordinates

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index a03767c..75eaa03 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -252,6 +252,8 @@ template <typename I, typename F>
 std::string simplicial_unstructured_2d_mesh<I, F>::default_smoothing_kernel_filename(F sigma) const
 {
   unsigned int h0 = triangles.hash();
+  const unsigned int hc = vertex_coords.hash();
+  h0 = murmurhash2(&hc, sizeof(hc), h0);
   unsigned int h1 = murmurhash2(&sigma, sizeof(F), h0);
 
   std::stringstream ss;
-- 
2.43.0


From 3f4b03bc6e52874bfe99b0a3e85fb5c27932c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 087/141] fix: interpolation of vector fields on triangle
 meshes mixes up components and vertices

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index 75eaa03..9ef7fb0 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -222,11 +222,11 @@ bool simplicial_unstructured_2d_mesh<I, F>::eval(const ndarray<T>& f, const F x[
       return true;
     } else if (f.multicomponents() == 1) { // vector field
       const int d = f.dim(0);
-      T fs[3][d];
+      T fs[d][3];
 
       for (int i = 0; i < 3; i ++)
         for (int j = 0; j < d; j ++)
-          fs[i][j] = f(j, tri[i]);
+          fs[j][i] = f(j, tri[i]);
 
       for (int j = 0; j < d; j ++)
         val[j] = lerp_s2(fs[j], mu);
-- 
2.43.0


From 843a0e81797cde3dc0565ab46853a4cf75ef20dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 088/141] fix: gradients on triangle meshes loaded from files
 access missing connectivities

---
 include/ftk/mesh/simplicial_unstructured_2d_mesh.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
index 9ef7fb0..ff5a09c 100644
--- a/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_unstructured_2d_mesh.hh
@@ -1169,6 +1169,12 @@ namespace diy {
       diy::load(bb, m.triangle_edges);
       diy::load(bb, m.edge_id_map);
       diy::load(bb, m.triangle_id_map);
+
+      m.vertex_triangles.clear(); // not stored in the file
+      m.vertex_triangles.resize(m.n(0));
+      for (size_t i = 0; i < m.n(2); i ++)
+        for (int j = 0; j < 3; j ++)
+          m.vertex_triangles[m.triangles(j, i)].insert(i);
     }
   };
 } // namespace diy
-- 
2.43.0


From 8f2bd6267ce4b32dbed5558db84085ad31cfa4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:35 +0000
Subject: [PATCH 089/141] fix: reading NetCDF variables with more than four
 dimensions overflows the stack

---
 include/ftk/ndarray/ndarray_base.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ftk/ndarray/ndarray_base.hh b/include/ftk/ndarray/ndarray_base.hh
index 26780f9..f39d252 100644
--- a/include/ftk/ndarray/ndarray_base.hh
+++ b/include/ftk/ndarray/ndarray_base.hh
@@ -485,16 +485,16 @@ inline void ndarray_base::read_netcdf(int ncid, int varid, diy::mpi::communicato
 {
 #ifdef FTK_HAVE_NETCDF
   int ndims;
-  int dimids[4];
-  size_t starts[4] = {0}, sizes[4] = {0};
-
   NC_SAFE_CALL( nc_inq_varndims(ncid, varid, &ndims) );
-  NC_SAFE_CALL( nc_inq_vardimid(ncid, varid, dimids) );
+
+  std::vector<int> dimids(ndims);
+  std::vector<size_t> starts(ndims, 0), sizes(ndims, 0);
+  NC_SAFE_CALL( nc_inq_vardimid(ncid, varid, dimids.data()) );
 
   for (int i = 0; i < ndims; i ++)
     NC_SAFE_CALL( nc_inq_dimlen(ncid, dimids[i], &sizes[i]) );
   
-  read_netcdf(ncid, varid, starts, sizes, comm);
+  read_netcdf(ncid, varid, starts.data(), sizes.data(), comm);
 #else
   fatal(FTK_ERR_NOT_BUILT_WITH_NETCDF);
 #endif
-- 
2.43.0


From c487c8f9f717a31723476040c0301e18a9cbc653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:35 +0000
Subject: [PATCH 090/141] fix: writing NetCDF variables with fewer than four
 dimensions prints values beyond the given starts and sizes

---
 include/ftk/ndarray/ndarray_base.hh | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/ftk/ndarray/ndarray_base.hh b/include/ftk/ndarray/ndarray_base.hh
index f39d252..bfff7a3 100644
--- a/include/ftk/ndarray/ndarray_base.hh
+++ b/include/ftk/ndarray/ndarray_base.hh
@@ -407,9 +407,6 @@ inline void ndarray_base::to_netcdf(int ncid, int varid) const
 inline void ndarray_base::to_netcdf(int ncid, int varid, const size_t st[], const size_t sz[]) const
 {
 #ifdef FTK_HAVE_NETCDF
-  fprintf(stderr, "st=%zu, %zu, %zu, %zu, sz=%zu, %zu, %zu, %zu\n", 
-      st[0], st[1], st[2], st[3], sz[0], sz[1], sz[2], sz[3]);
-  
   if (nc_datatype() == NC_DOUBLE) {
     NC_SAFE_CALL( nc_put_vara_double(ncid, varid, st, sz, (double*)pdata()) );
   } else if (nc_datatype() == NC_FLOAT) {
-- 
2.43.0


From 313b9996e09c1a4ca792f4ddde199c079834f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:35 +0000
Subject: [PATCH 091/141] fix: 64-bit unsigned integers are read from NetCDF
 files as 32-bit integers

---
 include/ftk/ndarray.hh              | 2 +-
 include/ftk/ndarray/ndarray_base.hh | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 0d7e248..8371173 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -807,7 +807,7 @@ template <> inline MPI_Datatype ndarray<int>::mpi_datatype() { return MPI_INT; }
 template <> inline int ndarray<double>::nc_datatype() const { return NC_DOUBLE; }
 template <> inline int ndarray<float>::nc_datatype() const { return NC_FLOAT; }
 template <> inline int ndarray<int>::nc_datatype() const { return NC_INT; }
-template <> inline int ndarray<unsigned long>::nc_datatype() const { return NC_UINT; }
+template <> inline int ndarray<unsigned long>::nc_datatype() const { return NC_UINT64; }
 template <> inline int ndarray<char>::nc_datatype() const { return NC_CHAR; }
 #else 
 template <typename T>
diff --git a/include/ftk/ndarray/ndarray_base.hh b/include/ftk/ndarray/ndarray_base.hh
index bfff7a3..c4414b7 100644
--- a/include/ftk/ndarray/ndarray_base.hh
+++ b/include/ftk/ndarray/ndarray_base.hh
@@ -387,6 +387,8 @@ inline void ndarray_base::read_netcdf(int ncid, int varid, int ndims, const size
     NC_SAFE_CALL( nc_get_vara_double(ncid, varid, starts, sizes, (double*)pdata()) );
   } else if (nc_datatype() == NC_UINT) {
     NC_SAFE_CALL( nc_get_vara_uint(ncid, varid, starts, sizes, (unsigned int*)pdata()) );
+  } else if (nc_datatype() == NC_UINT64) {
+    NC_SAFE_CALL( nc_get_vara_ulonglong(ncid, varid, starts, sizes, (unsigned long long*)pdata()) );
   } else if (nc_datatype() == NC_CHAR) {
     NC_SAFE_CALL( nc_get_vara_text(ncid, varid, starts, sizes, (char*)pdata()) );
   } else
-- 
2.43.0


From 5fb34aaabd012c1f3c2615b4c38941f1677b33ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:35 +0000
Subject: [PATCH 092/141] fix: reading an AmiraMesh file reports a failure on
 success

---
 include/ftk/ndarray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 8371173..fb6e39d 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -1344,7 +1344,7 @@ inline bool ndarray<float>::read_amira(const std::string& filename)
   }
 
   fclose(fp);
-  return 0;
+  return idxStartData > 0;
 }
 
 template <typename T>
-- 
2.43.0


From fb9f079c1494ef302450e2c73f5a51cf6f9b24fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 093/141] fix: VTK images that are one vertex wide overflow the
 array read from them

---
 include/ftk/ndarray.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index fb6e39d..3cbeb3e 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -613,27 +613,25 @@ inline void ndarray<T>::from_vtk_regular_data(
   vtkSmartPointer<vtkDataArray> da = d->GetPointData()->GetArray(array_name.c_str());
   if (!da) da = d->GetPointData()->GetArray(0);
   
-  const int nd = d->GetDataDimension(), 
-            nc = da->GetNumberOfComponents();
+  const int nc = da->GetNumberOfComponents();
 
   int vdims[3];
   d->GetDimensions(vdims);
 
+  const int nd = vdims[2] > 1 ? 3 : 2; // axes of one single vertex are kept
+
   if (nd == 2) {
     if (nc == 1) reshape(vdims[0], vdims[1]); //scalar field
     else {
       reshape(nc, vdims[0], vdims[1]); // vector field
       ncd = 1; // multicomponent array
     };
-  } else if (nd == 3) {
+  } else {
     if (nc == 1) reshape(vdims[0], vdims[1], vdims[2]); // scalar field
     else {
       reshape(nc, vdims[0], vdims[1], vdims[2]);
       ncd = 1; // multicomponent array
     }
-  } else {
-    fprintf(stderr, "[FTK] fatal error: unsupported data dimension %d.\n", nd);
-    assert(false);
   }
 
   for (auto i = 0; i < da->GetNumberOfTuples(); i ++) {
-- 
2.43.0


From 93968a040f0b977490bfd2f78d12e79751aaf2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 094/141] fix: reading a scalar VTK image into an array that
 held vectors leaves it multicomponent

---
 include/ftk/ndarray.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 3cbeb3e..57337a4 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -621,14 +621,18 @@ inline void ndarray<T>::from_vtk_regular_data(
   const int nd = vdims[2] > 1 ? 3 : 2; // axes of one single vertex are kept
 
   if (nd == 2) {
-    if (nc == 1) reshape(vdims[0], vdims[1]); //scalar field
-    else {
+    if (nc == 1) {
+      reshape(vdims[0], vdims[1]); //scalar field
+      ncd = 0;
+    } else {
       reshape(nc, vdims[0], vdims[1]); // vector field
       ncd = 1; // multicomponent array
     };
   } else {
-    if (nc == 1) reshape(vdims[0], vdims[1], vdims[2]); // scalar field
-    else {
+    if (nc == 1) {
+      reshape(vdims[0], vdims[1], vdims[2]); // scalar field
+      ncd = 0;
+    } else {
       reshape(nc, vdims[0], vdims[1], vdims[2]);
       ncd = 1; // multicomponent array
     }
-- 
2.43.0


From d57d551babfcd6c38decea91d874878de1f08e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 095/141] fix: sequences of vector VTK images lose their
 components

---
 include/ftk/ndarray.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 57337a4..e364a48 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -694,6 +694,7 @@ inline void ndarray<T>::read_vtk_image_data_file_sequence(const std::string& pat
   auto dims = array.dims;
   dims.push_back(filenames.size());
   reshape(dims);
+  ncd = array.ncd;
 }
 #else
 template<typename T>
-- 
2.43.0


From a1fad2b8c8c25fff4f233c7f5b1fc8b6ede29a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 096/141] fix: read_file reports success when reading HDF5
 fails

---
 include/ftk/ndarray.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index e364a48..6d565cd 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -980,7 +980,7 @@ bool ndarray<T>::read_file(const std::string& filename, const std::string varnam
   if (ext == FILE_EXT_BP) read_bp(filename, varname, -1, comm); // TODO: step
   else if (ext == FILE_EXT_NETCDF) read_netcdf(filename, varname, comm);
   else if (ext == FILE_EXT_VTI) read_vtk_image_data_file(filename, varname);
-  else if (ext == FILE_EXT_HDF5) read_h5(filename, varname);
+  else if (ext == FILE_EXT_HDF5) return read_h5(filename, varname);
   else fatal(FTK_ERR_FILE_UNRECOGNIZED_EXTENSION);
 
   return true; // TODO: return read_* results
-- 
2.43.0


From 52939d1b67a1d232cf3dc0c84aeb79644ff61939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 097/141] fix: NetCDF writer writes wrong values for
 multicomponent data

---
 include/ftk/ndarray/writer.hh | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/ftk/ndarray/writer.hh b/include/ftk/ndarray/writer.hh
index 6d6efa4..5d826c4 100644
--- a/include/ftk/ndarray/writer.hh
+++ b/include/ftk/ndarray/writer.hh
@@ -126,7 +126,7 @@ void ndarray_writer<T>::configure(const json& j_)
     } else 
       fatal("invalid variable");
   } else {
-    if (j["foramt"] == "nc") 
+    if (j["format"] == "nc") 
       fatal("variable name missing");
   }
 
@@ -188,9 +188,10 @@ void ndarray_writer<T>::write_netcdf(int k, const ndarray<T> &data)
   if (unlimited_time) 
     NC_SAFE_CALL( nc_def_dim(ncid, "time", NC_UNLIMITED, &dimids[ncndims++]) );
 
+  const int ncd = data.multicomponents(); // the first dimension is the components of multicomponent data
   for (int i = 0; i < nd; i ++) {
     const std::string dimname = j["dimensions"][nd-i-1];
-    NC_SAFE_CALL( nc_def_dim(ncid, dimname.c_str(), data.dim(nd-i-1), &dimids[ncndims++]) );
+    NC_SAFE_CALL( nc_def_dim(ncid, dimname.c_str(), data.dim(ncd+nd-i-1), &dimids[ncndims++]) );
   }
 
   // variable(s)
@@ -202,11 +203,20 @@ void ndarray_writer<T>::write_netcdf(int k, const ndarray<T> &data)
   nc_enddef(ncid);
 
   // write data
-  for (int i = 0; i < nv; i ++)
+  for (int i = 0; i < nv; i ++) {
+    ndarray<T> component;
+    if (ncd) { // one variable per component
+      component.reshape(std::vector<size_t>(data.shape().begin()+1, data.shape().end()));
+      for (size_t k = 0; k < component.nelem(); k ++)
+        component[k] = data[k * data.dim(0) + i];
+    }
+    const ndarray<T> &var = ncd ? component : data;
+
     if (unlimited_time)
-      data.to_netcdf_unlimited_time(ncid, varids[i]);
+      var.to_netcdf_unlimited_time(ncid, varids[i]);
     else
-      data.to_netcdf(ncid, varids[i]);
+      var.to_netcdf(ncid, varids[i]);
+  }
 
   NC_SAFE_CALL( nc_close(ncid) );
 #else
-- 
2.43.0


From 6941c703c82adba0bef90e42f0f525a94d1c3d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:28 +0000
Subject: [PATCH 098/141] fix: HDF5 dataspaces are never closed

---
 include/ftk/ndarray.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 6d565cd..0d328b0 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -1028,6 +1028,7 @@ inline bool ndarray<T>::read_h5_did(hid_t did)
   } else 
     fatal("unsupported h5 extent type");
 
+  H5Sclose(sid);
   return true;
 }
 
-- 
2.43.0


From 7f2e1fd7f18575742fe37bab0ed375897345e215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:28 +0000
Subject: [PATCH 099/141] fix: raw blocks added to BIL are not read into the
 array and have reversed dimensions

---
 include/ftk/ndarray.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 0d328b0..35c670f 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -506,7 +506,13 @@ void ndarray<T>::bil_add_block_raw(const std::string& filename,
     sz.push_back(ext.size(i));
   }
 
-  BIL_Add_block_raw(nd(), domain.data(), st.data(), sz.data(), filename.c_str(), mpi_datatype(), (void**)&p[0]);
+  // the first dimension is the slowest one in BIL
+  std::reverse(domain.begin(), domain.end());
+  std::reverse(st.begin(), st.end());
+  std::reverse(sz.begin(), sz.end());
+
+  void *buffer = p.data();
+  BIL_Add_block_raw(nd(), domain.data(), st.data(), sz.data(), filename.c_str(), mpi_datatype(), &buffer);
 #else
   fatal(FTK_ERR_NOT_BUILT_WITH_MPI);
 #endif
-- 
2.43.0


From df427b9bcded246689a0d4da9ba12344bfa42ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:28 +0000
Subject: [PATCH 100/141] fix: BIL reads nothing if assertions are disabled

---
 src/bil/bil.c     |  3 ++-
 src/bil/bil_pio.c | 38 +++++++++++++++++++++++---------------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/bil/bil.c b/src/bil/bil.c
index 3e1045d..9dd5ba7 100644
--- a/src/bil/bil.c
+++ b/src/bil/bil.c
@@ -128,7 +128,8 @@ void BIL_Set_io_hints(MPI_Info io_hints) {
     MPI_Info_free(&(BIL->io_hints));
   }
   if (io_hints != MPI_INFO_NULL) {
-    assert(MPI_Info_dup(io_hints, &(BIL->io_hints)) == MPI_SUCCESS);
+    int rtn = MPI_Info_dup(io_hints, &(BIL->io_hints));
+    assert(rtn == MPI_SUCCESS);
   }
 }
 
diff --git a/src/bil/bil_pio.c b/src/bil/bil_pio.c
index a4cb0b1..4bc95f7 100644
--- a/src/bil/bil_pio.c
+++ b/src/bil/bil_pio.c
@@ -146,30 +146,38 @@ void BIL_Pio_read_raw_blocks(MPI_Comm all_readers_comm, MPI_Comm io_comm,
   for (i = 0; i < num_blocks; i++) {
     MPI_File fp;
     BIL_Timing_fopen_start(all_readers_comm);
-    assert(MPI_File_open(io_comm, blocks[i].file_name, MPI_MODE_RDONLY,
-                         BIL->io_hints, &fp) == MPI_SUCCESS);
+    int rtn;
+    rtn = MPI_File_open(io_comm, blocks[i].file_name, MPI_MODE_RDONLY,
+                        BIL->io_hints, &fp);
+    assert(rtn == MPI_SUCCESS);
     BIL_Timing_fopen_stop(all_readers_comm);
 
     // Get variable and subarray datatype for I/O.
     MPI_Datatype var_type;
-    assert(MPI_Type_contiguous(blocks[i].var_size, MPI_BYTE, &var_type)
-           == MPI_SUCCESS);
+    rtn = MPI_Type_contiguous(blocks[i].var_size, MPI_BYTE, &var_type);
+    assert(rtn == MPI_SUCCESS);
     MPI_Datatype file_type;
-    assert(MPI_Type_create_subarray(blocks[i].num_dims,
-                                    blocks[i].file_dim_sizes,
-                                    blocks[i].sizes, blocks[i].starts,
-                                    MPI_ORDER_C, var_type, 
-                                    &file_type) == MPI_SUCCESS);
-    assert(MPI_Type_commit(&file_type) == MPI_SUCCESS);
+    rtn = MPI_Type_create_subarray(blocks[i].num_dims,
+                                   blocks[i].file_dim_sizes,
+                                   blocks[i].sizes, blocks[i].starts,
+                                   MPI_ORDER_C, var_type, 
+                                   &file_type);
+    assert(rtn == MPI_SUCCESS);
+    rtn = MPI_Type_commit(&var_type);
+    assert(rtn == MPI_SUCCESS);
+    rtn = MPI_Type_commit(&file_type);
+    assert(rtn == MPI_SUCCESS);
 
-    assert(MPI_File_set_view(fp, BIL->io_header_size, var_type, file_type,
-                             (char *)"native",
-                             MPI_INFO_NULL) == MPI_SUCCESS);
+    rtn = MPI_File_set_view(fp, BIL->io_header_size, var_type, file_type,
+                            (char *)"native",
+                            MPI_INFO_NULL);
+    assert(rtn == MPI_SUCCESS);
     // Allocate data and read it collectively.
     blocks[i].data = BIL_Misc_malloc(blocks[i].total_size * blocks[i].var_size);
     BIL_Timing_io_start(all_readers_comm);
-    assert(MPI_File_read(fp, blocks[i].data, blocks[i].total_size,
-                         var_type, MPI_STATUS_IGNORE) == MPI_SUCCESS);
+    rtn = MPI_File_read(fp, blocks[i].data, blocks[i].total_size,
+                        var_type, MPI_STATUS_IGNORE);
+    assert(rtn == MPI_SUCCESS);
     BIL_Timing_io_stop(all_readers_comm,
                        blocks[i].total_size * blocks[i].var_size);
 
-- 
2.43.0


From 68993f64123deaa5cd3081629652bbe9143bdd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:44 +0000
Subject: [PATCH 101/141] fix: temporal filter loses steps of short series and
 numbers steps from one

---
 include/ftk/filters/streaming_filter.hh | 60 ++++++++++---------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/include/ftk/filters/streaming_filter.hh b/include/ftk/filters/streaming_filter.hh
index b4b41fe..246eea5 100644
--- a/include/ftk/filters/streaming_filter.hh
+++ b/include/ftk/filters/streaming_filter.hh
@@ -10,7 +10,7 @@ namespace ftk {
 
 template <typename T/*data type such as ndarray*/, typename KT/*kernel type such as float/double*/>
 struct streaming_filter {
-  streaming_filter() : cursor(0) {}
+  streaming_filter() {}
   ~streaming_filter() {};
 
   void set_callback(std::function<void(int, const T&)> f) {callback = f;}
@@ -26,17 +26,15 @@ struct streaming_filter {
   void finish();
 
 protected:
-  bool ready() const {return data.size() >= half_kernel_size();}
+  bool ready() const {return n_fetched_timesteps + half_kernel_size() <= n_pushed_timesteps;}
   T get() const;
+  void fetch();
 
 private:
   std::vector<KT> kernel;
   std::deque<T> data;
-  mutable int cursor;
-  bool finishing = false;
-
   std::function<void(int, const T&)> callback;
-  mutable int n_fetched_timesteps = 0;
+  int n_fetched_timesteps = 0, n_pushed_timesteps = 0;
 };
 
 
@@ -54,52 +52,42 @@ void streaming_filter<T, KT>::push(const T& d)
   assert(kernel.size() % 2 == 1);
 
   data.push_back(d);
-  if (data.size() > kernel.size()) {
+  n_pushed_timesteps ++;
+  if (data.size() > kernel.size())
     data.pop_front();
-    cursor --;
-  }
 
-  if (callback) 
-    if (ready()) {
-      callback(n_fetched_timesteps, get());
-    }
+  if (ready())
+    fetch();
 }
 
 template <typename T, typename KT>
-T streaming_filter<T, KT>::get() const
+void streaming_filter<T, KT>::fetch()
 {
-  assert(ready());
+  if (callback)
+    callback(n_fetched_timesteps, get());
+  n_fetched_timesteps ++;
+}
 
-  // fprintf(stderr, "cursor=%d, #deque=%zu\n", cursor, data.size());
-  T result;
+template <typename T, typename KT>
+T streaming_filter<T, KT>::get() const
+{
+  // the buffer holds timesteps [first, n_pushed_timesteps); timesteps beyond
+  // either end of the series are replaced by the first/last timestep
+  const int first = n_pushed_timesteps - (int)data.size();
+  T result = T();
   for (int i = 0; i < kernel_size(); i++) {
-    int j;
-    if (finishing) 
-      j = std::min((int)data.size() - 1, i);
-    else 
-      j = std::max(0, i + cursor - half_kernel_size() + 1);
-    // fprintf(stderr, "--j=%d\n", j);
+    const int t = n_fetched_timesteps + i - half_kernel_size() + 1, 
+              j = std::min(std::max(t, first), n_pushed_timesteps - 1) - first;
     result += kernel[i] *  data[j];
   }
-
-  if (finishing) cursor --;
-  else cursor ++;
-
-  n_fetched_timesteps ++;
   return result;
 }
 
 template <typename T, typename KT>
 void streaming_filter<T, KT>::finish()
 {
-  finishing = true;
-  while (1) {
-    data.pop_front();
-    if (ready() && callback) {
-      callback(n_fetched_timesteps, get());
-    }
-    if (!ready()) break;
-  }
+  while (n_fetched_timesteps < n_pushed_timesteps)
+    fetch();
 }
 
 }
-- 
2.43.0


From 6541e05d9f3e6d3f7af3af62b74096a930508963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:44 +0000
Subject: [PATCH 102/141] fix: asynchronous streams lose or repeat timesteps,
 and may never end

---
 include/ftk/ndarray/stream.hh | 42 ++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/ftk/ndarray/stream.hh b/include/ftk/ndarray/stream.hh
index 16def43..a2a1a3f 100644
--- a/include/ftk/ndarray/stream.hh
+++ b/include/ftk/ndarray/stream.hh
@@ -1620,7 +1620,8 @@ void ndarray_stream<T>::start()
   if (async) {
     std::condition_variable cond;
     std::mutex mtx;
-    bool all_done = false;
+    bool all_done = false, // no more timesteps
+         available = false; // a timestep waits to be consumed
     int current_timestep;
     ndarray<T> array;
 
@@ -1639,30 +1640,51 @@ void ndarray_stream<T>::start()
         float t = std::chrono::duration_cast<std::chrono::nanoseconds>(t2-t1).count() * 1e-9;
         fprintf(stderr, "timestep=%d, t_io=%f\n", i, t);
 
+        if (array1.empty() && j["type"] == "file") {
+          fprintf(stderr, "got empty array; all files are read.\n"); 
+          break;
+        }
+
         {
           std::unique_lock<std::mutex> lock(mtx);
+          cond.wait(lock, [&]() {return !available;});
 
           array = array1;
           current_timestep = i;
-          if (i == nt-1 || array1.empty()) {
-            all_done = true;
-          }
-          cond.notify_one();
+          available = true;
+          cond.notify_all();
         }
       }
+      
+      {
+        std::unique_lock<std::mutex> lock(mtx);
+        all_done = true;
+        cond.notify_all();
+      }
       // fprintf(stderr, "exiting reader thread..\n");
     });
 
     { // consumer
-      std::unique_lock<std::mutex> lock(mtx);
-      while (!all_done) {
-        cond.wait(lock); // , [&](){return all_done;});
+      while (1) {
+        ndarray<T> array1;
+        int i;
+
+        {
+          std::unique_lock<std::mutex> lock(mtx);
+          cond.wait(lock, [&]() {return available || all_done;});
+          if (!available) break;
+
+          array1 = array;
+          i = current_timestep;
+          available = false;
+          cond.notify_all();
+        }
       
         auto t1 = std::chrono::high_resolution_clock::now();
-        modified_callback(current_timestep, array);
+        modified_callback(i, array1);
         auto t2 = std::chrono::high_resolution_clock::now();
         float t = std::chrono::duration_cast<std::chrono::nanoseconds>(t2-t1).count() * 1e-9;
-        fprintf(stderr, "timestep=%d, t_compute=%f\n", current_timestep, t);
+        fprintf(stderr, "timestep=%d, t_compute=%f\n", i, t);
       }
     }
 
-- 
2.43.0


From 82690148e9597534392dd8533b1eb2e41128026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:44 +0000
Subject: [PATCH 103/141] fix: streams of a list of files ignore the number of
 timesteps

---
 include/ftk/ndarray/stream.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/ftk/ndarray/stream.hh b/include/ftk/ndarray/stream.hh
index a2a1a3f..51235cc 100644
--- a/include/ftk/ndarray/stream.hh
+++ b/include/ftk/ndarray/stream.hh
@@ -454,8 +454,7 @@ void ndarray_stream<T>::set_input_source_json(const json& j_)
     } else if (j["type"] == "file") {
       if (j.contains("filenames")) {
         if (j["filenames"].is_array()) {
-          // j["n_timesteps"] = j["filenames"].size(); // TODO: we are assuming #timesteps = #filenames
-          j["n_timesteps"] = j["filenames"].size(); // TODO: we are assuming #timesteps = #filenames
+          // OK; the number of timesteps is determined by the file format
         } else {
           auto filenames = glob(j["filenames"]);
           if (filenames.empty()) {
-- 
2.43.0


From efefc184e583df06fdd341f087c60af29b290ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 104/141] fix: arithmetic on vector-valued arrays loses the
 component axis

---
 include/ftk/ndarray.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ftk/ndarray.hh b/include/ftk/ndarray.hh
index 35c670f..cd67dfb 100644
--- a/include/ftk/ndarray.hh
+++ b/include/ftk/ndarray.hh
@@ -355,6 +355,8 @@ ndarray<T> operator+(const ndarray<T>& lhs, const ndarray<T>& rhs)
 {
   ndarray<T> array;
   array.reshape(lhs);
+  array.set_multicomponents(lhs.multicomponents());
+  array.set_has_time(lhs.has_time());
 
   for (auto i = 0; i < array.nelem(); i ++)
     array[i] = lhs[i] + rhs[i];
@@ -375,6 +377,8 @@ ndarray<T> operator-(const ndarray<T>& lhs, const ndarray<T>& rhs)
 {
   ndarray<T> array;
   array.reshape(lhs);
+  array.set_multicomponents(lhs.multicomponents());
+  array.set_has_time(lhs.has_time());
 
   for (auto i = 0; i < array.nelem(); i ++)
     array[i] = lhs[i] - rhs[i];
@@ -386,6 +390,8 @@ ndarray<T> operator*(const ndarray<T>& lhs, const T1& rhs)
 {
   ndarray<T> array;
   array.reshape(lhs);
+  array.set_multicomponents(lhs.multicomponents());
+  array.set_has_time(lhs.has_time());
   for (auto i = 0; i < array.nelem(); i ++)
     array[i] = lhs[i] * rhs;
   return array;
@@ -396,6 +402,8 @@ ndarray<T> operator/(const ndarray<T>& lhs, const T1& rhs)
 {
   ndarray<T> array;
   array.reshape(lhs);
+  array.set_multicomponents(lhs.multicomponents());
+  array.set_has_time(lhs.has_time());
   for (auto i = 0; i < array.nelem(); i ++)
     array[i] = lhs[i] / rhs;
   return array;
-- 
2.43.0


From 8205f4443b966031b200384b3607c9a53b2ebf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 105/141] fix: gaussian smoothing mixes the components of
 vector-valued arrays

---
 include/ftk/ndarray/conv.hh | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/ftk/ndarray/conv.hh b/include/ftk/ndarray/conv.hh
index 1d2fe54..01448b3 100644
--- a/include/ftk/ndarray/conv.hh
+++ b/include/ftk/ndarray/conv.hh
@@ -215,6 +215,30 @@ ndarray<T> conv_gaussian(
     const ndarray<T> &data, T sigma,
     size_t ksize=5, size_t padding=0)
 {
+  if (data.multicomponents() == 1) { // smooth components separately
+    const size_t nc = data.dim(0);
+    std::vector<size_t> dims = data.shape();
+    dims.erase(dims.begin());
+
+    ndarray<T> res, component;
+    component.reshape(dims);
+    for (size_t c = 0; c < nc; c ++) {
+      for (size_t i = 0; i < component.nelem(); i ++)
+        component[i] = data[i*nc+c];
+
+      const ndarray<T> res1 = conv_gaussian(component, sigma, ksize, padding);
+      if (c == 0) {
+        std::vector<size_t> shape = res1.shape();
+        shape.insert(shape.begin(), nc);
+        res.reshape(shape);
+        res.set_multicomponents();
+      }
+      for (size_t i = 0; i < res1.nelem(); i ++)
+        res[i*nc+c] = res1[i];
+    }
+    return res;
+  }
+
   if (data.nd() == 2) return conv2D_gaussian<T>(data, sigma, ksize, ksize, padding);
   else if (data.nd() == 3) return conv3D_gaussian<T>(data, sigma, ksize, ksize, ksize, padding);
   else return ndarray<T>();
-- 
2.43.0


From 145a6ca27a1c4c0d3e37e55fa06c5212f4590e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:52 +0000
Subject: [PATCH 106/141] fix: streams of binary files with several variables
 have no component axis, and misread in parallel

---
 include/ftk/ndarray/stream.hh | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/ftk/ndarray/stream.hh b/include/ftk/ndarray/stream.hh
index 51235cc..a68d646 100644
--- a/include/ftk/ndarray/stream.hh
+++ b/include/ftk/ndarray/stream.hh
@@ -1018,14 +1018,22 @@ ndarray<T> ndarray_stream<T>::request_timestep_file_binary(int k)
 
     std::vector<int> dsz = j["dimensions"], bst, bsz;
     if (!part)
-      ext = shape();
+      ext = lattice(j["dimensions"].template get<std::vector<size_t>>());
 
-    std::vector<size_t> sst = ext.starts(), ssz = ext.sizes();
+    std::vector<size_t> ssz = ext.sizes();
     for (int i = 0; i < dsz.size(); i ++) {
       bst.push_back(ext.start(i));
       bsz.push_back(ext.size(i));
     }
 
+    const size_t nc = n_components();
+    if (nc > 1) { // all components
+      dsz.insert(dsz.begin(), nc);
+      bst.insert(bst.begin(), 0);
+      bsz.insert(bsz.begin(), nc);
+      ssz.insert(ssz.begin(), nc);
+    }
+
     std::reverse(dsz.begin(), dsz.end());
     std::reverse(bst.begin(), bst.end());
     std::reverse(bsz.begin(), bsz.end());
@@ -1056,6 +1064,8 @@ ndarray<T> ndarray_stream<T>::request_timestep_file_binary(int k)
     MPI_Type_free(&dtype);
 
     array.from_array(array1);
+    if (nc > 1)
+      array.set_multicomponents();
 #else
     fatal(FTK_ERR_NOT_BUILT_WITH_MPI);
 #endif
@@ -1066,8 +1076,13 @@ ndarray<T> ndarray_stream<T>::request_timestep_file_binary(int k)
     ftk::ndarray<T1> array1(shape());
     array1.read_binary_file(filename);
     array.from_array(array1);
+    if (n_components() > 1)
+      array.set_multicomponents();
     
-    return array;
+    if (part)
+      return array.subarray(ext);
+    else 
+      return array;
   }
 }
 
-- 
2.43.0


From 8f60cf81407763972f0c5c51203c9335ccd6d647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 107/141] fix: streams leave HDF5 files open

---
 include/ftk/ndarray/stream.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ftk/ndarray/stream.hh b/include/ftk/ndarray/stream.hh
index a68d646..8ed004a 100644
--- a/include/ftk/ndarray/stream.hh
+++ b/include/ftk/ndarray/stream.hh
@@ -801,6 +801,8 @@ void ndarray_stream<T>::set_input_source_json(const json& j_)
             warn("ignoring dimensions");
           j["dimensions"] = dims;
 
+          H5Sclose(sid);
+          H5Dclose(did);
           H5Fclose(fid);
           
           // j["n_timesteps"] = j["filenames"].size(); // TODO: we are assuming #timesteps = #filenames
-- 
2.43.0


From ad4831fcc56964ba8f0eaf90d4f8993e7ef9826d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:47 +0000
Subject: [PATCH 108/141] fix: streams misread NetCDF variables with a time
 axis of fixed length or beside unused unlimited axes

---
 include/ftk/ndarray/stream.hh | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/ftk/ndarray/stream.hh b/include/ftk/ndarray/stream.hh
index 8ed004a..8527bba 100644
--- a/include/ftk/ndarray/stream.hh
+++ b/include/ftk/ndarray/stream.hh
@@ -653,8 +653,8 @@ void ndarray_stream<T>::set_input_source_json(const json& j_)
           j["components"] = components;
 
           // determin spatial dimensions
-          int dimids[4]; 
-          size_t dimlens[4];
+          int dimids[NC_MAX_VAR_DIMS]; 
+          size_t dimlens[NC_MAX_VAR_DIMS];
           NC_SAFE_CALL( nc_inq_vardimid(ncid, varids[0], dimids) );
           for (int i = 0; i < ncdims; i ++) 
             NC_SAFE_CALL( nc_inq_dimlen(ncid, dimids[i], &dimlens[i]) );
@@ -663,7 +663,10 @@ void ndarray_stream<T>::set_input_source_json(const json& j_)
           int unlimited_recid;
           NC_SAFE_CALL( nc_inq_unlimdim(ncid, &unlimited_recid) );
           NC_SAFE_CALL( nc_close(ncid) );
-          if (unlimited_recid >= 0) {
+          
+          // the first dimension is time if it is unlimited, or if there are three more dimensions
+          const bool has_time_dimension = ncdims == 4 || (unlimited_recid >= 0 && ncdims > 0 && dimids[0] == unlimited_recid);
+          if (has_time_dimension) {
             j["nc_has_unlimited_time_dimension"] = true;
 
             // check timesteps per file
@@ -706,12 +709,12 @@ void ndarray_stream<T>::set_input_source_json(const json& j_)
             if (ncdims == 4) { // 3 spatial dims + 1 time dimension; nd not required
               j["dimensions"] = {dimlens[3], dimlens[2], dimlens[1]};
             } else if (ncdims == 3) {
-              if (unlimited_recid >= 0)
+              if (has_time_dimension)
                 j["dimensions"] = {dimlens[2], dimlens[1]};
               else 
                 j["dimensions"] = {dimlens[2], dimlens[1], dimlens[0]};
             } else if (ncdims == 2) {
-              if (unlimited_recid >= 0)
+              if (has_time_dimension)
                 j["dimensions"] = {dimlens[1]};
               else 
                 j["dimensions"] = {dimlens[1], dimlens[0]};
-- 
2.43.0


From c5e4d64b44e5edd5f37ba510eb0a5e249d55a36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:16 +0000
Subject: [PATCH 109/141] fix: streams of several VTK variables overflow for
 vectors and unstructured grids

---
 include/ftk/ndarray/stream.hh | 92 +++++++++++++++++------------------
 1 file changed, 44 insertions(+), 48 deletions(-)

diff --git a/include/ftk/ndarray/stream.hh b/include/ftk/ndarray/stream.hh
index 8527bba..cbe2f50 100644
--- a/include/ftk/ndarray/stream.hh
+++ b/include/ftk/ndarray/stream.hh
@@ -106,6 +106,9 @@ protected:
 
   void modified_callback(int, const ndarray<T>&);
 
+  // an array with all components of all given arrays at each point
+  static ndarray<T> concat_components(const std::vector<ndarray<T>>& arrays);
+
 public:
   bool is_partial_read_supported() const;
 
@@ -1144,40 +1147,16 @@ ndarray<T> ndarray_stream<T>::request_timestep_file_vtu(int k)
 
       // read arrays from vti
       const int nv = n_variables();
-      if (nv == 1) { //  (is_single_component()) {
-        array.from_vtk_image_data(vti, j["variables"][0]);
-      } else {
-        std::vector<ftk::ndarray<T>> arrays(nv);
-        for (int i = 0; i < nv; i ++)
-          arrays[i].from_vtk_image_data(vti, j["variables"][i]);
-
-        array.reshape(shape());
-        for (int i = 0; i < arrays[0].nelem(); i ++) {
-          for (int j = 0; j <nv; j ++) {
-            array[i*nv+j] = arrays[j][i];
-          }
-        }
-
-        array.set_multicomponents();
-      }
+      std::vector<ftk::ndarray<T>> arrays(nv);
+      for (int i = 0; i < nv; i ++)
+        arrays[i].from_vtk_image_data(vti, j["variables"][i]);
+      array = concat_components(arrays);
     } else { // no resample
       const int nv = n_variables();
-      if (nv == 1) { //  (is_single_component()) {
-        array.from_vtu(grid, j["variables"][0]);
-      } else {
-        std::vector<ftk::ndarray<T>> arrays(nv);
-        for (int i = 0; i < nv; i ++)
-          arrays[i].from_vtu(grid, j["variables"][i]);
-
-        array.reshape(shape());
-        for (int i = 0; i < arrays[0].nelem(); i ++) {
-          for (int j = 0; j <nv; j ++) {
-            array[i*nv+j] = arrays[j][i];
-          }
-        }
-
-        array.set_multicomponents();
-      }
+      std::vector<ftk::ndarray<T>> arrays(nv);
+      for (int i = 0; i < nv; i ++)
+        arrays[i].from_vtu(grid, j["variables"][i]);
+      array = concat_components(arrays);
     }
   }
   
@@ -1193,6 +1172,35 @@ ndarray<T> ndarray_stream<T>::request_timestep_file_vtu(int k)
     return array;
 }
 
+template <typename T>
+ndarray<T> ndarray_stream<T>::concat_components(const std::vector<ndarray<T>>& arrays)
+{
+  if (arrays.size() == 1) return arrays[0];
+
+  std::vector<size_t> ncs; // number of components per array
+  size_t nc = 0;
+  for (const auto &a : arrays) {
+    ncs.push_back(a.multicomponents() ? a.dim(0) : 1);
+    nc += ncs.back();
+  }
+
+  std::vector<size_t> shape = arrays[0].shape();
+  if (arrays[0].multicomponents()) shape[0] = nc;
+  else shape.insert(shape.begin(), nc);
+
+  ndarray<T> array;
+  array.reshape(shape);
+  array.set_multicomponents();
+
+  const size_t n = array.nelem() / nc;
+  for (size_t i = 0; i < n; i ++)
+    for (size_t k = 0, c = 0; k < arrays.size(); c += ncs[k], k ++)
+      for (size_t j = 0; j < ncs[k]; j ++)
+        array[i*nc+c+j] = arrays[k][i*ncs[k]+j];
+
+  return array;
+}
+
 template <typename T>
 ndarray<T> ndarray_stream<T>::request_timestep_file_vti(int k)
 {
@@ -1202,22 +1210,10 @@ ndarray<T> ndarray_stream<T>::request_timestep_file_vti(int k)
 #if FTK_HAVE_VTK
   if (comm.rank() == 0) {
     const int nv = n_variables();
-    if (nv == 1) { //  (is_single_component()) {
-      array.read_vtk_image_data_file(filename, j["variables"][0]);
-    } else {
-      std::vector<ftk::ndarray<T>> arrays(nv);
-      for (int i = 0; i < nv; i ++)
-        arrays[i].read_vtk_image_data_file(filename, j["variables"][i]);
-
-      array.reshape(shape());
-      for (int i = 0; i < arrays[0].nelem(); i ++) {
-        for (int j = 0; j <nv; j ++) {
-          array[i*nv+j] = arrays[j][i];
-        }
-      }
-
-      array.set_multicomponents();
-    }
+    std::vector<ftk::ndarray<T>> arrays(nv);
+    for (int i = 0; i < nv; i ++)
+      arrays[i].read_vtk_image_data_file(filename, j["variables"][i]);
+    array = concat_components(arrays);
   }
   
   if (comm.size() > 1)
-- 
2.43.0


From 7253a64a911c909088cf268ed1fbb636a71090f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:16 +0000
Subject: [PATCH 110/141] fix: streams take VTK images of one vertex width for
 images of fewer dimensions

---
 include/ftk/ndarray/stream.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/ndarray/stream.hh b/include/ftk/ndarray/stream.hh
index cbe2f50..928adc0 100644
--- a/include/ftk/ndarray/stream.hh
+++ b/include/ftk/ndarray/stream.hh
@@ -531,7 +531,7 @@ void ndarray_stream<T>::set_input_source_json(const json& j_)
 
             if (j.contains("dimensions")) 
               warn("ignoring dimensions");
-            int imageNd = image->GetDataDimension();
+            const int imageNd = image->GetDimensions()[2] > 1 ? 3 : 2; // same as ndarray::from_vtk_image_data
             if (imageNd == 2)
               j["dimensions"] = {image->GetDimensions()[0], image->GetDimensions()[1]};
             else 
-- 
2.43.0


From f489120f86ef4d68328be9a9c1b17ecbc95fe111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 111/141] fix: all2all receives messages of several processes
 at the same place

---
 include/ftk/utils/all2all.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ftk/utils/all2all.hh b/include/ftk/utils/all2all.hh
index b765a60..2fd5efb 100644
--- a/include/ftk/utils/all2all.hh
+++ b/include/ftk/utils/all2all.hh
@@ -37,7 +37,7 @@ inline void all2all(const communicator& comm, const std::vector<Map>& ins, Map &
 
   std::vector<int> recvcounts(np), rdispls(np);
   for (int i = 0; i < np; i ++) {
-    rdispls[i] = recvcounts[i];
+    rdispls[i] = (i == 0) ? 0 : (rdispls[i-1] + recvcounts[i-1]);
     recvcounts[i] = allcounts[i*np+rank];
   }
 
@@ -57,6 +57,8 @@ inline void all2all(const communicator& comm, const std::vector<Map>& ins, Map &
     for (const auto &kv : map)
       out.insert(kv);
   }
+#else
+  out = ins[0];
 #endif
 }
 
-- 
2.43.0


From 575a50cd8ed62a6f1d54ea55e431deb81fc0e30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:11 +0000
Subject: [PATCH 112/141] fix: broadcast and scattered containers keep previous
 items

---
 include/ftk/utils/bcast.hh   | 4 +++-
 include/ftk/utils/scatter.hh | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ftk/utils/bcast.hh b/include/ftk/utils/bcast.hh
index 0bd35ca..a20cabc 100644
--- a/include/ftk/utils/bcast.hh
+++ b/include/ftk/utils/bcast.hh
@@ -48,7 +48,9 @@ inline void bcastv(const communicator& comm, Obj& inout, int root = 0)
 
   if (comm.rank() != root) {
     StringBuffer sb(buf);
-    load(sb, inout);
+    Obj obj; // some containers would keep their previous items when being loaded
+    load(sb, obj);
+    inout = obj;
   }
 #else 
   // nothing to do
diff --git a/include/ftk/utils/scatter.hh b/include/ftk/utils/scatter.hh
index b4a07fe..abe09f2 100644
--- a/include/ftk/utils/scatter.hh
+++ b/include/ftk/utils/scatter.hh
@@ -43,7 +43,9 @@ inline void scatterv(const communicator& comm,
 
   // unseralize
   StringBuffer bb(recvbuf);
-  load(bb, out);
+  Obj obj; // some containers would keep their previous items when being loaded
+  load(bb, obj);
+  out = obj;
 #else
   out = ins[0];
 #endif
-- 
2.43.0


From 0521cdb637bcc980b23ed747f59386b73fb65ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:02 +0000
Subject: [PATCH 113/141] fix: tracing reads the number of trajectories while
 other threads append

---
 include/ftk/filters/critical_point_tracker.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index 88cf5b6..46ce33a 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -721,21 +721,19 @@ std::vector<feature_curve_t> critical_point_tracker::trace_critical_points_offli
 
     auto linear_graphs = ftk::connected_component_to_linear_components<element_t>(component, neighbors);
     for (int j = 0; j < linear_graphs.size(); j ++) {
-      const unsigned int id = traced_critical_points.size(); 
-
       feature_curve_t traj; 
       traj.loop = is_loop(linear_graphs[j], neighbors);
       for (int k = 0; k < linear_graphs[j].size(); k ++) {
         // auto &cp = discrete_critical_points[linear_graphs[j][k]];
-        auto cp = icc->second.at(linear_graphs[j][k]);
-        cp.id = id;
-
-        traj.push_back(cp);
+        traj.push_back(icc->second.at(linear_graphs[j][k]));
         // sum1 ++;
       }
       
       {
         std::lock_guard<std::mutex> guard(my_mutex);
+        const unsigned int id = traced_critical_points.size(); 
+        for (auto &cp : traj)
+          cp.id = id;
         traced_critical_points.emplace_back(traj);
       }
     }
-- 
2.43.0


From 88674ace9b9e64e4fa27d1cfa80d8f3e779b8407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:16 +0000
Subject: [PATCH 114/141] fix: tracking in 3D unstructured meshes drops the
 vector field snapshots it is given

---
 include/ftk/filters/critical_point_tracker_3d_unstructured.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
index 5ff71ea..c47d53b 100644
--- a/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
+++ b/include/ftk/filters/critical_point_tracker_3d_unstructured.hh
@@ -52,7 +52,6 @@ struct critical_point_tracker_3d_unstructured :
   void update_timestep();
 
   void push_scalar_field_snapshot(const ndarray<double>&) {} // TODO
-  void push_vector_field_snapshot(const ndarray<double>&) {} // TODO
 
 public:
   std::vector<feature_point_t> get_critical_points() const;
-- 
2.43.0


From ba350282ed4f02c7a918c077172f22b9b821d752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:16 +0000
Subject: [PATCH 115/141] fix: the output type "intercepted" writes nothing for
 regular grids

---
 include/ftk/filters/json_interface.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/json_interface.hh b/include/ftk/filters/json_interface.hh
index ec0baf7..134e7b1 100644
--- a/include/ftk/filters/json_interface.hh
+++ b/include/ftk/filters/json_interface.hh
@@ -607,7 +607,7 @@ void json_interface::consume_regular(ndarray_stream<> &stream, diy::mpi::communi
 {
   auto t0 = clock_type::now();
 
-  const auto js = stream.get_json();
+  js = stream.get_json();
   const size_t nd = stream.n_dimensions(),
                DW = js["dimensions"][0], 
                DH = js["dimensions"].size() > 1 ? js["dimensions"][1].get<int>() : 0,
-- 
2.43.0


From 5a21bb972a08965e7fba4170a7c8c8126191a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:16 +0000
Subject: [PATCH 116/141] fix: sliced output misses the last timestep

---
 include/ftk/filters/contour_tracker_3d_regular.hh       | 2 +-
 include/ftk/filters/critical_line_tracker_3d_regular.hh | 2 +-
 include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ftk/filters/contour_tracker_3d_regular.hh b/include/ftk/filters/contour_tracker_3d_regular.hh
index e23145b..1dea8d8 100644
--- a/include/ftk/filters/contour_tracker_3d_regular.hh
+++ b/include/ftk/filters/contour_tracker_3d_regular.hh
@@ -454,7 +454,7 @@ inline void contour_tracker_3d_regular::write_isovolume_vtu(const std::string& f
 inline void contour_tracker_3d_regular::write_sliced_vtu(const std::string& pattern) const 
 {
   if (comm.rank() == get_root_proc()) {
-    for (int i = 0; i < current_timestep; i ++) {
+    for (int i = 0; i <= current_timestep; i ++) {
       const auto filename = series_filename(pattern, i);
       
       auto poly = isovolume.slice_time(i).to_vtp();
diff --git a/include/ftk/filters/critical_line_tracker_3d_regular.hh b/include/ftk/filters/critical_line_tracker_3d_regular.hh
index efdb9a4..01f733f 100644
--- a/include/ftk/filters/critical_line_tracker_3d_regular.hh
+++ b/include/ftk/filters/critical_line_tracker_3d_regular.hh
@@ -466,7 +466,7 @@ inline void critical_line_tracker_3d_regular::write_sliced(const std::string& pa
 {
 #if FTK_HAVE_VTK
   if (comm.rank() == get_root_proc()) {
-    for (int i = 0; i < end_timestep; i ++) {
+    for (int i = 0; i <= std::min(current_timestep, end_timestep); i ++) {
       auto sliced = surfaces.slice_time(i);
       fprintf(stderr, "sliced timestep %d, #curves=%zu\n", i, sliced.size());
 
diff --git a/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh b/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh
index c5b1b60..6079579 100644
--- a/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh
+++ b/include/ftk/filters/tdgl_vortex_tracker_3d_regular.hh
@@ -451,7 +451,7 @@ inline void tdgl_vortex_tracker_3d_regular::write_intersections(const std::strin
 inline void tdgl_vortex_tracker_3d_regular::write_sliced(const std::string& pattern) const
 {
   if (comm.rank() == get_root_proc()) {
-    for (int i = 0; i < end_timestep; i ++) {
+    for (int i = 0; i <= std::min(current_timestep, end_timestep); i ++) {
       auto sliced = surfaces.slice_time(i);
       fprintf(stderr, "sliced timestep %d, #curves=%zu\n", i, sliced.size());
 
-- 
2.43.0


From 0ea7a070d486f64a616166df548c62c368640f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:29 +0000
Subject: [PATCH 117/141] fix: reading archived critical points from a missing
 file yields an empty result

---
 include/ftk/filters/critical_point_tracker.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index 46ce33a..009a84a 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -346,7 +346,8 @@ inline void critical_point_tracker::read_critical_points_binary(const std::strin
 {
   if (is_root_proc()) {
     std::vector<feature_point_t> cps;
-    diy::unserializeFromFile(filename, cps);
+    if (!diy::unserializeFromFile(filename, cps))
+      fatal(FTK_ERR_FILE_CANNOT_OPEN, filename);
     put_critical_points(cps);
   }
 }
@@ -360,7 +361,8 @@ inline void critical_point_tracker::write_traced_critical_points_binary(const st
 inline void critical_point_tracker::read_traced_critical_points_binary(const std::string& filename)
 {
   if (is_root_proc()) 
-    diy::unserializeFromFile(filename, traced_critical_points);
+    if (!diy::unserializeFromFile(filename, traced_critical_points))
+      fatal(FTK_ERR_FILE_CANNOT_OPEN, filename);
 }
 
 inline void critical_point_tracker::write_traced_critical_points_text(const std::string& filename) const
-- 
2.43.0


From 5fa18a8a42a029e8f9f10f13802a3c74b7192543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:29 +0000
Subject: [PATCH 118/141] fix: outputs that cannot be produced are silently
 skipped

---
 include/ftk/filters/contour_tracker.hh | 4 ++--
 include/ftk/filters/json_interface.hh  | 3 ++-
 src/cli/ftk.cpp                        | 2 ++
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ftk/filters/contour_tracker.hh b/include/ftk/filters/contour_tracker.hh
index 3232491..e64d4d4 100644
--- a/include/ftk/filters/contour_tracker.hh
+++ b/include/ftk/filters/contour_tracker.hh
@@ -48,8 +48,8 @@ public:
 #endif
 
   virtual void write_isovolume_vtu(const std::string& filename) const = 0;
-  virtual void write_sliced_vtu(const std::string& pattern) const {}
-  virtual void write_sliced_vtp(const std::string& pattern) const {}
+  virtual void write_sliced_vtu(const std::string& pattern) const { fatal(FTK_ERR_NOT_IMPLEMENTED, "write_sliced_vtu"); }
+  virtual void write_sliced_vtp(const std::string& pattern) const { fatal(FTK_ERR_NOT_IMPLEMENTED, "write_sliced_vtp"); }
 
 protected:
   // virtual int cpdims() const = 0;
diff --git a/include/ftk/filters/json_interface.hh b/include/ftk/filters/json_interface.hh
index 134e7b1..07f68eb 100644
--- a/include/ftk/filters/json_interface.hh
+++ b/include/ftk/filters/json_interface.hh
@@ -600,7 +600,8 @@ void json_interface::write_intercepted_results(int k, int nt)
     if (j.contains("intercept_length") && j["intercept_length"].is_number())
       nt = j["intercept_length"];
     tracker->write_intercepted_critical_points_vtk(k-nt, k, filename);
-  }
+  } else
+    fatal(FTK_ERR_VTK_UNSUPPORTED_OUTPUT_FORMAT);
 }
 
 void json_interface::consume_regular(ndarray_stream<> &stream, diy::mpi::communicator comm)
diff --git a/src/cli/ftk.cpp b/src/cli/ftk.cpp
index 361c927..a939247 100644
--- a/src/cli/ftk.cpp
+++ b/src/cli/ftk.cpp
@@ -749,6 +749,8 @@ void execute_critical_line_tracker(diy::mpi::communicator comm)
     tracker_critical_line->write_sliced(output_pattern);
   else if (output_type == "traced")
     tracker_critical_line->write_surfaces(output_pattern, output_format);
+  else if (output_type != "intersections")
+    fatal(FTK_ERR_NOT_IMPLEMENTED, output_type);
 }
 
 void initialize_tdgl_tracker(diy::mpi::communicator comm)
-- 
2.43.0


From 8ff0cf85bc0853816b4520090e191b9ba9480fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:48 +0000
Subject: [PATCH 119/141] fix: results that cannot be written are lost without
 an error (binary: crash)

---
 include/ftk/filters/contour_tracker_3d_regular.hh | 1 +
 include/ftk/filters/critical_point_tracker.hh     | 8 ++++++--
 include/ftk/geometry/write_polydata.hh            | 5 +++++
 include/ftk/utils/serialization.hh                | 6 ++++--
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/ftk/filters/contour_tracker_3d_regular.hh b/include/ftk/filters/contour_tracker_3d_regular.hh
index 1dea8d8..833b379 100644
--- a/include/ftk/filters/contour_tracker_3d_regular.hh
+++ b/include/ftk/filters/contour_tracker_3d_regular.hh
@@ -448,6 +448,7 @@ inline void contour_tracker_3d_regular::write_isovolume_vtu(const std::string& f
     writer->SetFileName(filename.c_str());
     writer->SetInputData( isovolume.to_vtu() );
     writer->Write();
+    if (writer->GetErrorCode()) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);
   }
 }
 
diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index 009a84a..0ab9bc3 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -83,7 +83,7 @@ public: // i/o for traced critical points (trajectories)
 public: // i/o for sliced critical points
   const std::map<int, std::vector<feature_point_t>>& get_sliced_critical_points() const {return sliced_critical_points;}
   json get_sliced_critical_points_json() const {return json(sliced_critical_points);}
-  void write_sliced_critical_points_json(const std::string& filename) const {std::ofstream f(filename); f << get_sliced_critical_points_json(); f.close();}
+  void write_sliced_critical_points_json(const std::string& filename) const {std::ofstream f(filename); f << get_sliced_critical_points_json(); f.close(); if (!f) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);}
   void read_sliced_critical_points_json(const std::string& filename) {std::ifstream f(filename); json j; f >> j; f.close(); sliced_critical_points = j.get<std::map<int, std::vector<feature_point_t>>>();}
   void write_sliced_critical_points_text(int t, std::ostream& os) const;
   void write_sliced_critical_points_text(int t, const std::string& filename) const;
@@ -105,7 +105,7 @@ public: // i/o for discrete (untraced) critical points
   virtual std::vector<feature_point_t> get_critical_points() const = 0;
   json get_critical_points_json() const {return json(get_critical_points());}
   virtual void put_critical_points(const std::vector<feature_point_t>&) = 0;
-  void write_critical_points_json(const std::string& filename) const {std::ofstream f(filename); f << get_critical_points_json(); f.close();}
+  void write_critical_points_json(const std::string& filename) const {std::ofstream f(filename); f << get_critical_points_json(); f.close(); if (!f) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);}
   void read_critical_points_json(const std::string& filename);
   void write_critical_points_binary(const std::string& filename) const;
   void read_critical_points_binary(const std::string& filename);
@@ -371,6 +371,7 @@ inline void critical_point_tracker::write_traced_critical_points_text(const std:
     std::ofstream out(filename);
     traced_critical_points.write_text(out, scalar_components);
     out.close();
+    if (!out) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);
   }
 }
 
@@ -386,6 +387,7 @@ inline void critical_point_tracker::write_critical_points_text(const std::string
     std::ofstream out(filename);
     write_critical_points_text(out);
     out.close();
+    if (!out) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);
   }
 }
 
@@ -395,6 +397,7 @@ inline void critical_point_tracker::write_sliced_critical_points_text(int k, con
     std::ofstream out(filename);
     write_sliced_critical_points_text(k, out);
     out.close();
+    if (!out) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);
   }
 }
 
@@ -484,6 +487,7 @@ inline void critical_point_tracker::write_traced_critical_points_json(const std:
     f << std::setw(indent) 
       << get_traced_critical_points_json(); 
     f.close();
+    if (!f) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);
   }
 }
 
diff --git a/include/ftk/geometry/write_polydata.hh b/include/ftk/geometry/write_polydata.hh
index b23203f..712eb65 100644
--- a/include/ftk/geometry/write_polydata.hh
+++ b/include/ftk/geometry/write_polydata.hh
@@ -3,6 +3,8 @@
 
 #include <ftk/config.hh>
 #include <ftk/utils/string.hh>
+#include <iostream>
+#include <ftk/error.hh>
 #include <ftk/external/diy/mpi.hpp>
 
 #if FTK_HAVE_VTK
@@ -43,6 +45,7 @@ inline void write_polydata(
     pwriter->SetEndPiece(comm.size()-1);
     pwriter->SetInputData(poly);
     pwriter->Write();
+    if (pwriter->GetErrorCode()) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);
     
     comm.barrier();
     const auto prefix = remove_file_extension(filename);
@@ -55,6 +58,7 @@ inline void write_polydata(
       writer->SetFileName(filename.c_str());
       writer->SetInputData(poly);
       writer->Write();
+      if (writer->GetErrorCode()) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);
     }
   } else if (format == "ply") {
 #ifndef FTK_HAVE_PARAVIEW
@@ -75,6 +79,7 @@ inline void write_polydata(
     writer->SetFileName(filename.c_str());
     writer->SetInputData(poly);
     writer->Write();
+    if (writer->GetErrorCode()) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);
   }
 }
 
diff --git a/include/ftk/utils/serialization.hh b/include/ftk/utils/serialization.hh
index b237cf0..d7e5ae4 100644
--- a/include/ftk/utils/serialization.hh
+++ b/include/ftk/utils/serialization.hh
@@ -2,6 +2,8 @@
 #define _DIY_EXT
 
 #include <ftk/config.hh>
+#include <iostream>
+#include <ftk/error.hh>
 #include <ftk/external/diy/serialization.hpp>
 #include <ftk/external/diy/storage.hpp>
 #include <cassert>
@@ -54,7 +56,7 @@ namespace diy {
   template <typename T> void serializeToFile(const T& obj, const std::string& filename)
   {
     FILE *fp = fopen(filename.c_str(), "wb");
-    assert(fp);
+    if (!fp) ftk::fatal(ftk::FTK_ERR_FILE_CANNOT_WRITE, filename);
     diy::detail::FileBuffer bb(fp);
     diy::save(bb, obj);
     fclose(fp);
@@ -63,7 +65,7 @@ namespace diy {
   template <typename T1, typename T2> void serializeToFile(const T1& obj1, const T2& obj2, const std::string& filename)
   {
     FILE *fp = fopen(filename.c_str(), "wb");
-    assert(fp);
+    if (!fp) ftk::fatal(ftk::FTK_ERR_FILE_CANNOT_WRITE, filename);
     diy::detail::FileBuffer bb(fp);
     diy::save(bb, obj1);
     diy::save(bb, obj2);
-- 
2.43.0


From 51cd94ef2008f7974bb69ef8357c35ae27ce7aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:20 +0000
Subject: [PATCH 120/141] fix: unknown output types for contours are taken for
 traced ones

---
 src/cli/ftk.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cli/ftk.cpp b/src/cli/ftk.cpp
index a939247..27e851f 100644
--- a/src/cli/ftk.cpp
+++ b/src/cli/ftk.cpp
@@ -304,9 +304,10 @@ void execute_contour_tracker(diy::mpi::communicator comm)
     tracker_contour->write_intersections_vtp(output_pattern);
   } else if (output_type == "sliced") {
     tracker_contour->write_sliced_vtu(output_pattern);
-  } else {
+  } else if (output_type == "traced") {
     tracker_contour->write_isovolume_vtu(output_pattern);
-  }
+  } else
+    fatal(FTK_ERR_NOT_IMPLEMENTED, output_type);
 }
 
 void initialize_threshold_tracker(diy::mpi::communicator comm)
-- 
2.43.0


From e2a065c30c2188d3f4f0e070ab94ca4ef6c4f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:25 +0000
Subject: [PATCH 121/141] fix: truncated archives are read as if garbage
 followed

---
 include/ftk/external/diy/storage.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ftk/external/diy/storage.hpp b/include/ftk/external/diy/storage.hpp
index f34998b..3626eda 100644
--- a/include/ftk/external/diy/storage.hpp
+++ b/include/ftk/external/diy/storage.hpp
@@ -1,6 +1,7 @@
 #ifndef DIY_STORAGE_HPP
 #define DIY_STORAGE_HPP
 
+#include <stdexcept>
 #include <string>
 #include <map>
 #include <fstream>
@@ -32,7 +33,7 @@ namespace diy
           tail += count;
           fseek(file, temp_pos, SEEK_SET);
       }
-      virtual inline void load_binary(char* x, size_t count) override         { auto n = fread(x, 1, count, file); DIY_UNUSED(n);}
+      virtual inline void load_binary(char* x, size_t count) override         { if (fread(x, 1, count, file) != count) throw std::runtime_error("unexpected end of file"); }
       virtual inline void load_binary_back(char* x, size_t count) override    { fseek(file, static_cast<long>(tail), SEEK_END); auto n = fread(x, 1, count, file); tail += count; fseek(file, static_cast<long>(head), SEEK_SET); DIY_UNUSED(n);}
 
       size_t              size() const                                { return head; }
-- 
2.43.0


From 747e6aaa01452b866813d6d388260d746ae69ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:19 +0000
Subject: [PATCH 122/141] fix: all processes write discrete and sliced critical
 points to the same JSON file

---
 include/ftk/filters/critical_point_tracker.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/filters/critical_point_tracker.hh b/include/ftk/filters/critical_point_tracker.hh
index 0ab9bc3..7ecf452 100644
--- a/include/ftk/filters/critical_point_tracker.hh
+++ b/include/ftk/filters/critical_point_tracker.hh
@@ -83,7 +83,7 @@ public: // i/o for traced critical points (trajectories)
 public: // i/o for sliced critical points
   const std::map<int, std::vector<feature_point_t>>& get_sliced_critical_points() const {return sliced_critical_points;}
   json get_sliced_critical_points_json() const {return json(sliced_critical_points);}
-  void write_sliced_critical_points_json(const std::string& filename) const {std::ofstream f(filename); f << get_sliced_critical_points_json(); f.close(); if (!f) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);}
+  void write_sliced_critical_points_json(const std::string& filename) const {if (!is_root_proc()) return; std::ofstream f(filename); f << get_sliced_critical_points_json(); f.close(); if (!f) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);}
   void read_sliced_critical_points_json(const std::string& filename) {std::ifstream f(filename); json j; f >> j; f.close(); sliced_critical_points = j.get<std::map<int, std::vector<feature_point_t>>>();}
   void write_sliced_critical_points_text(int t, std::ostream& os) const;
   void write_sliced_critical_points_text(int t, const std::string& filename) const;
@@ -105,7 +105,7 @@ public: // i/o for discrete (untraced) critical points
   virtual std::vector<feature_point_t> get_critical_points() const = 0;
   json get_critical_points_json() const {return json(get_critical_points());}
   virtual void put_critical_points(const std::vector<feature_point_t>&) = 0;
-  void write_critical_points_json(const std::string& filename) const {std::ofstream f(filename); f << get_critical_points_json(); f.close(); if (!f) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);}
+  void write_critical_points_json(const std::string& filename) const {if (!is_root_proc()) return; std::ofstream f(filename); f << get_critical_points_json(); f.close(); if (!f) fatal(FTK_ERR_FILE_CANNOT_WRITE, filename);}
   void read_critical_points_json(const std::string& filename);
   void write_critical_points_binary(const std::string& filename) const;
   void read_critical_points_binary(const std::string& filename);
-- 
2.43.0


From a46de13b4004cd582ec15ce4c02e8d68f9f3a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:19 +0000
Subject: [PATCH 123/141] fix: archived critical points are ignored for
 unstructured meshes

---
 include/ftk/filters/json_interface.hh | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/ftk/filters/json_interface.hh b/include/ftk/filters/json_interface.hh
index 07f68eb..c743a82 100644
--- a/include/ftk/filters/json_interface.hh
+++ b/include/ftk/filters/json_interface.hh
@@ -457,6 +457,22 @@ void json_interface::consume_unstructured(ndarray_stream<> &stream, diy::mpi::co
   tracker->initialize();
   
   js = stream.get_json();
+
+  if (j.contains("archived_traced_critical_points_filename")) {
+    fprintf(stderr, "reading archived traced critical points...\n");
+    const std::string filename = j["archived_traced_critical_points_filename"];
+    if (ends_with(filename, "json")) tracker->read_traced_critical_points_json(filename);
+    else tracker->read_traced_critical_points_binary(filename);
+    // fprintf(stderr, "done reading.\n");
+    return;
+  } else if (j.contains("archived_discrete_critical_points_filename")) {
+    const std::string filename = j["archived_discrete_critical_points_filename"];
+    if (ends_with(filename, "json")) tracker->read_critical_points_json(filename);
+    else tracker->read_critical_points_binary(filename);
+    tracker->finalize();
+    return;
+  }
+
   const size_t DT = js["n_timesteps"];
   stream.set_callback([&](int k, const ftk::ndarray<double> &field_data) {
     tracker->push_vector_field_snapshot(field_data);
-- 
2.43.0


From 58755f72f6c6d919919c3c7f4c43b3dfa696c135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:59 +0000
Subject: [PATCH 124/141] fix: coordinates of toroidal meshes ignore the plane
 and write out of bounds

---
 include/ftk/mesh/simplicial_xgc_3d_mesh.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_xgc_3d_mesh.hh b/include/ftk/mesh/simplicial_xgc_3d_mesh.hh
index e56edcc..f0590bb 100644
--- a/include/ftk/mesh/simplicial_xgc_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_xgc_3d_mesh.hh
@@ -53,7 +53,13 @@ public:
   virtual void get_simplex(int d, I i, I verts[]) const;
   virtual bool find_simplex(int d, const I v[], I& i) const;
 
-  void get_coords_rzp(I i, F coords[]) const { return m3->get_coords(i, coords); }
+  void get_coords_rzp(I i, F coords[]) const {
+    F x[4]; // the extruded mesh stores the plane id in the 4th coordinate
+    m3->get_coords(i, x);
+    coords[0] = x[0];
+    coords[1] = x[1];
+    coords[2] = x[3];
+  }
   void get_coords_xyz(I i, F coords[]) const;
   void get_coords(I i, F coords[]) const { get_coords_xyz(i, coords); }
  
-- 
2.43.0


From 854b6cf44523a2f130b8ef580eec26f30e62f2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:59 +0000
Subject: [PATCH 125/141] fix: values of repeated wedges are read out of bounds

---
 include/ftk/mesh/simplicial_xgc_3d_mesh.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/mesh/simplicial_xgc_3d_mesh.hh b/include/ftk/mesh/simplicial_xgc_3d_mesh.hh
index f0590bb..c536654 100644
--- a/include/ftk/mesh/simplicial_xgc_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_xgc_3d_mesh.hh
@@ -456,7 +456,7 @@ void simplicial_xgc_3d_mesh<I, F>::interpolate(
     I i, F f[], F g[2], F j[2][2]) const
 {
   const int m2n0 = m2->n(0);
-  const int p = i / m2n0; // poloidal plane id
+  const int p = i / m2n0 % (nphi * vphi); // poloidal plane id; the field repeats iphi times
 
   if (p % vphi == 0) { // non-virtual plane
     const int p0 = p / vphi;
@@ -503,7 +503,7 @@ F simplicial_xgc_3d_mesh<I, F>::interpolate(
     const ndarray<F>& scalar, I i) // interpolate scalar value
 {
   const int m2n0 = m2->n(0);
-  const int p = i / m2n0; // poloidal plane id
+  const int p = i / m2n0 % (nphi * vphi); // poloidal plane id; the field repeats iphi times
 
   if (p % vphi == 0) { // non-virtual plane
     const int p0 = p / vphi;
-- 
2.43.0


From 1a2c3cedb16ec6d97df5373b7058ffdb3381bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:59 +0000
Subject: [PATCH 126/141] fix: average over poloidal planes in derive_threshold

---
 include/ftk/filters/xgc_tracker.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/xgc_tracker.hh b/include/ftk/filters/xgc_tracker.hh
index f43f71c..e8bcd66 100644
--- a/include/ftk/filters/xgc_tracker.hh
+++ b/include/ftk/filters/xgc_tracker.hh
@@ -204,7 +204,7 @@ inline double xgc_tracker::derive_threshold(const ndarray<double>& scalar, doubl
     }
   }
 
-  const double ave = sum / nroi0;
+  const double ave = sum / (nphi * nroi0);
   for (int p = 0; p < nphi; p ++) {
     for (int i = 0; i < nroi0; i ++) {
       const int idx = roi_nodes[i] + m2n0 * p;
-- 
2.43.0


From 8974a5aa9eacd9ba01d6467cc8020252717768f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:59 +0000
Subject: [PATCH 127/141] fix: perturbations use the gradient of the first
 plane for all planes

---
 include/ftk/mesh/simplicial_xgc_2d_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_xgc_2d_mesh.hh b/include/ftk/mesh/simplicial_xgc_2d_mesh.hh
index cf91de9..6e033b5 100644
--- a/include/ftk/mesh/simplicial_xgc_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_xgc_2d_mesh.hh
@@ -298,7 +298,7 @@ ndarray<F> simplicial_xgc_2d_mesh<I, F>::derive_delta_B(const ndarray<F>& As) co
       Asp.reshape(this->n(0));
       for (int i = 0; i < this->n(0); i ++)
         Asp[i] = As(i, c);
-      ndarray<F> gradAs = this->scalar_gradient(As); // FIXME: this won't work as expected.  need to eval grad plane by plane
+      ndarray<F> gradAs = this->scalar_gradient(Asp);
 
       for (int i = 0; i < this->n(0); i ++) {
         const F dAsdphi = (As(i, cnext) - As(i, cprev)) / (dphi * 2);
-- 
2.43.0


From 0acfbc025c357f0e5e28df446b0466c5b7ebbbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:59 +0000
Subject: [PATCH 128/141] fix: total field behind the last plane follows field
 lines around the torus

---
 include/ftk/mesh/simplicial_xgc_2d_mesh.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_xgc_2d_mesh.hh b/include/ftk/mesh/simplicial_xgc_2d_mesh.hh
index 6e033b5..4219f5c 100644
--- a/include/ftk/mesh/simplicial_xgc_2d_mesh.hh
+++ b/include/ftk/mesh/simplicial_xgc_2d_mesh.hh
@@ -142,6 +142,7 @@ bool simplicial_xgc_2d_mesh<I, F>::eval_total_B(const ndarray<F>& totalB, const
       rzp0[k] = rzp[k];
       rzp1[k] = rzp[k];
     }
+    rzp0[2] = rzp1[2] = mod2pi(rzp[2]); // the planes are within [0, 2pi]
 
     const int nsteps = 512; // TODO
 
@@ -161,7 +162,7 @@ bool simplicial_xgc_2d_mesh<I, F>::eval_total_B(const ndarray<F>& totalB, const
       }
     } else 
       return false;
-    bool b1 = magnetic_map(rzp1, i1 * 2 * M_PI / np, alpha * nsteps);
+    bool b1 = magnetic_map(rzp1, (i0 + 1) * 2 * M_PI / np, alpha * nsteps);
     if (b1) {
       F mu[3];
       I tid = this->locate(rzp1, mu);
-- 
2.43.0


From d1e96ab8adb58df803a53410ec214e3053217b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:18 +0000
Subject: [PATCH 129/141] fix: rotating poloidal planes calls a function that
 does not exist

---
 include/ftk/mesh/simplicial_xgc_3d_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/simplicial_xgc_3d_mesh.hh b/include/ftk/mesh/simplicial_xgc_3d_mesh.hh
index c536654..63be492 100644
--- a/include/ftk/mesh/simplicial_xgc_3d_mesh.hh
+++ b/include/ftk/mesh/simplicial_xgc_3d_mesh.hh
@@ -871,7 +871,7 @@ ndarray<F> simplicial_xgc_3d_mesh<I, F>::rotate(
           f(j, i) = std::numeric_limits<F>::quiet_NaN();
         else {
           I tri[3];
-          m2->get_triange(std::get<0>(l), tri);
+          m2->get_triangle(std::get<0>(l), tri);
 
           F mu[3] = {std::get<1>(l), std::get<2>(l), 0};
           mu[2] = F(1) - mu[0] - mu[1];
-- 
2.43.0


From ab84adf5aea81bb77907697e21c1b262a2a1998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 130/141] fix: normals of MPAS edges are all stored at the
 first edge

---
 include/ftk/mesh/mpas_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/mpas_mesh.hh b/include/ftk/mesh/mpas_mesh.hh
index 2f7ce41..7ca897c 100644
--- a/include/ftk/mesh/mpas_mesh.hh
+++ b/include/ftk/mesh/mpas_mesh.hh
@@ -256,7 +256,7 @@ void mpas_mesh<I, F>::initialize_edge_normals()
 
     vector_normalization2_3(n);
     for (int i = 0; i < 3; i ++)
-      edgeNormalVectors[i] = n[i];
+      edgeNormalVectors(i, ei) = n[i];
   }
 }
 
-- 
2.43.0


From 9579b1852756996ed351681c8c3c1d085e53e60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 131/141] fix: tangent planes of MPAS cells use an edge id as
 an index

---
 include/ftk/mesh/mpas_mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/mesh/mpas_mesh.hh b/include/ftk/mesh/mpas_mesh.hh
index 7ca897c..c827a4d 100644
--- a/include/ftk/mesh/mpas_mesh.hh
+++ b/include/ftk/mesh/mpas_mesh.hh
@@ -277,7 +277,7 @@ void mpas_mesh<I, F>::initialize_cell_tangent_plane()
     cell_i_coords(ci, rhat);
     vector_normalization2_3(rhat);
 
-    const I ei = edgesOnCell(0, ci);
+    const I ei = eid2i( edgesOnCell(0, ci) );
     for (int i = 0; i < 3; i ++)
       n[i] = edgeNormalVectors(i, ei);
 
-- 
2.43.0


From 7447e779313f904c6ab11a310227d35d27c75bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 132/141] fix: reconstruction coefficients of MPAS cells are
 written out of bounds

---
 include/ftk/mesh/mpas_mesh.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ftk/mesh/mpas_mesh.hh b/include/ftk/mesh/mpas_mesh.hh
index c827a4d..c791ff2 100644
--- a/include/ftk/mesh/mpas_mesh.hh
+++ b/include/ftk/mesh/mpas_mesh.hh
@@ -304,7 +304,7 @@ void mpas_mesh<I, F>::initialize_coeffs_reconstruct()
     initialize_cell_tangent_plane();
 
   const auto max_edges = max_edges_on_cell();
-  coeffsReconstruct.reshape(3, max_edges);
+  coeffsReconstruct.reshape(max_edges, n_cells());
 
   for (auto ci = 0; ci < n_cells(); ci ++) {
     F x[3];
@@ -330,8 +330,10 @@ void mpas_mesh<I, F>::initialize_coeffs_reconstruct()
     };
 
     F coeffs[max_edges];
+    for (auto i = 0; i < max_edges; i ++)
+      coeffs[i] = F(0);
     rbf3d_plane_vec_const_dir(
-        max_edges, Xe, Ne, x, alpha, t, coeffs);
+        ne, Xe, Ne, x, alpha, t, coeffs);
 
     for (auto i = 0; i < ne; i ++)
       coeffsReconstruct(i, ci) = coeffs[i];
-- 
2.43.0


From b75cf193c5ffd2e522e8d9cd52c1a8ba47ca59fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 133/141] fix: MPAS cells with other than seven vertices are
 read out of bounds for VTK

---
 include/ftk/mesh/mpas_mesh.hh | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/ftk/mesh/mpas_mesh.hh b/include/ftk/mesh/mpas_mesh.hh
index c791ff2..7e5b4d1 100644
--- a/include/ftk/mesh/mpas_mesh.hh
+++ b/include/ftk/mesh/mpas_mesh.hh
@@ -482,16 +482,14 @@ vtkSmartPointer<vtkUnstructuredGrid> mpas_mesh<I, F>::surface_cells_to_vtu(const
   grid->SetPoints(pts);
 
   for (auto i = 0; i < n_cells(); i ++) {
-    vtkIdType ids[7];
-    for (auto j = 0; j < 7; j ++) {
-      auto id = vid2i( verticesOnCell(j, i) );
-      ids[j] = id;
-    }
-
     const int n = nEdgesOnCell[i];
+    std::vector<vtkIdType> ids(n);
+    for (auto j = 0; j < n; j ++)
+      ids[j] = vid2i( verticesOnCell(j, i) );
+
     // fprintf(stderr, "%zu, %d\n", i, n);
       
-    grid->InsertNextCell( VTK_POLYGON, n, ids );
+    grid->InsertNextCell( VTK_POLYGON, n, ids.data() );
 
 #if 0
     if (n == 6)
-- 
2.43.0


From d2dcc9ce01dcaa11cea4b05e5dc4b45c9ce67a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 134/141] fix: spherical steps with zero velocity give NaN
 positions

---
 include/ftk/numeric/quaternion.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ftk/numeric/quaternion.hh b/include/ftk/numeric/quaternion.hh
index a6f3cbb..2dae62d 100644
--- a/include/ftk/numeric/quaternion.hh
+++ b/include/ftk/numeric/quaternion.hh
@@ -33,7 +33,12 @@ void axis_rotate_vector(
     T x1[3])
 {
   T axis[3];
-  vector_normalization2<3, T>(axis_, axis);
+  if (!(vector_normalization2<3, T>(axis_, axis) > T(0))) { // no axis, no rotation
+    x1[0] = x[0];
+    x1[1] = x[1];
+    x1[2] = x[2];
+    return;
+  }
 
   const T c = std::cos(theta / 2), 
           s = std::sin(theta / 2);
-- 
2.43.0


From 0e749b48f0803a7ebff9ca626f3b510ec9d3cb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 135/141] fix: MPAS particles do not move when snapshots are
 less than a day apart

---
 include/ftk/filters/particle_tracer_mpas_ocean.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ftk/filters/particle_tracer_mpas_ocean.hh b/include/ftk/filters/particle_tracer_mpas_ocean.hh
index 874afe4..3998cc4 100644
--- a/include/ftk/filters/particle_tracer_mpas_ocean.hh
+++ b/include/ftk/filters/particle_tracer_mpas_ocean.hh
@@ -227,8 +227,8 @@ inline void particle_tracer_mpas_ocean::update_timestep()
   
   typedef std::chrono::high_resolution_clock clock_type;
     
-  const int ndays = current_delta_t / 86400.;
-  nsteps_per_interval = nsteps_per_day * ndays;
+  const double ndays = current_delta_t / 86400.;
+  nsteps_per_interval = std::max(1, (int)std::round(nsteps_per_day * ndays));
 
   if (checkpoint_days) 
     nsteps_per_checkpoint = nsteps_per_day * checkpoint_days;
-- 
2.43.0


From 39fac0a2f126a720fcea5e2bf8a5a78dcfa6f943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 136/141] fix: seeds outside the MPAS mesh look up the id of
 cell -1

---
 include/ftk/filters/particle_tracer_mpas_ocean.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ftk/filters/particle_tracer_mpas_ocean.hh b/include/ftk/filters/particle_tracer_mpas_ocean.hh
index 3998cc4..734d57f 100644
--- a/include/ftk/filters/particle_tracer_mpas_ocean.hh
+++ b/include/ftk/filters/particle_tracer_mpas_ocean.hh
@@ -133,15 +133,15 @@ inline void particle_tracer_mpas_ocean::initialize_particles_latlonz(
 
         p.id = curve.id;
         const int ci = m->locate_cell_i({p.x[0], p.x[1], p.x[2]}, hint);
-        p.tag = m->i2cid(ci);
        
 #if 0
-        fprintf(stderr, "lat=%f, lon=%f, z=%f, x=%f, %f, %f, tag=%llu\n", 
+        fprintf(stderr, "lat=%f, lon=%f, z=%f, x=%f, %f, %f\n", 
             rad2deg(lat), rad2deg(lon), z, 
-            p.x[0], p.x[1], p.x[2], p.tag);
+            p.x[0], p.x[1], p.x[2]);
 #endif
 
         if (ci >= 0) {
+          p.tag = m->i2cid(ci);
           curve.push_back(p);
           trajectories.add(curve);
         }
-- 
2.43.0


From 1f990c4678c16e40af1e162af5d0beb09b6c4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 137/141] fix: the search hint of a particle is shared with
 other particles

---
 include/ftk/filters/particle_tracer.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ftk/filters/particle_tracer.hh b/include/ftk/filters/particle_tracer.hh
index ce9a144..6c0b88a 100644
--- a/include/ftk/filters/particle_tracer.hh
+++ b/include/ftk/filters/particle_tracer.hh
@@ -156,7 +156,7 @@ inline void particle_tracer::update_timestep()
       x[k] = last_point.x[k];
     x[nd_] = last_point.t;
 
-    thread_local int hint[2] = {-1, -1};
+    int hint[2] = {-1, -1};
 
     if (!eval_vt(x, v, hint))
       for (auto k = 0; k < 10; k ++)
-- 
2.43.0


From 8b5d30a83b6a6d0080bbb297a347587051bbb240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 138/141] fix: MPAS particles never find the top layer, and
 invalid layers count as found

---
 .../ftk/filters/particle_tracer_mpas_ocean.hh | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/ftk/filters/particle_tracer_mpas_ocean.hh b/include/ftk/filters/particle_tracer_mpas_ocean.hh
index 734d57f..86a5bf0 100644
--- a/include/ftk/filters/particle_tracer_mpas_ocean.hh
+++ b/include/ftk/filters/particle_tracer_mpas_ocean.hh
@@ -549,26 +549,22 @@ inline bool particle_tracer_mpas_ocean::eval_v_with_vertical_velocity(int t, con
   bool succ = false;
   const double z = vector_2norm<3>(x) - earth_radius;
   
-  int layer = hint[1];
+  int layer = std::max(hint[1], 0);
   double upper = 0.0, lower = 0.0;
   int dir; // search dir: 0=up, 1=down
 
-  if (layer >= 0) { // try if the point is still in the layer
-    for (int i = 0; i < nverts; i ++) {
-      upper += omega[i] * zTop[t]->at(0, layer, verts_i[i]);
-      lower += omega[i] * zTop[t]->at(0, layer+1, verts_i[i]);
-    }
+  // try if the point is still in the layer
+  for (int i = 0; i < nverts; i ++) {
+    upper += omega[i] * zTop[t]->at(0, layer, verts_i[i]);
+    lower += omega[i] * zTop[t]->at(0, layer+1, verts_i[i]);
+  }
 
-    if (z > upper)
-      dir = 0; // upward
-    else if (z <= lower)
-      dir = 1; // downward
-    else 
-      succ = true;
-  } else {
-    layer = 0;
+  if (z <= upper && z > lower)
+    succ = true;
+  else if (z <= lower)
     dir = 1; // downward
-  }
+  else
+    dir = 0; // upward, also if the layer does not exist here
 
   if (!succ) { // search along the dir
     if (dir == 1) { // downward
-- 
2.43.0


From 0b854c122aa05c3ecdda9962ab8b2713a565dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:13 +0000
Subject: [PATCH 139/141] fix: time between MPAS snapshots depends on the local
 time zone

---
 include/ftk/filters/particle_tracer_mpas_ocean.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ftk/filters/particle_tracer_mpas_ocean.hh b/include/ftk/filters/particle_tracer_mpas_ocean.hh
index 86a5bf0..e42d2e3 100644
--- a/include/ftk/filters/particle_tracer_mpas_ocean.hh
+++ b/include/ftk/filters/particle_tracer_mpas_ocean.hh
@@ -346,8 +346,8 @@ inline double particle_tracer_mpas_ocean::deltaT(std::tm tm0, std::tm tm1)
   if (tm1.tm_year < 2000)
     tm1.tm_year += 2000;
 
-  std::time_t t0 = std::mktime(&tm0),
-              t1 = std::mktime(&tm1);
+  std::time_t t0 = timegm(&tm0), // model time knows no daylight saving
+              t1 = timegm(&tm1);
 
   return std::difftime(t1, t0);
 }
@@ -375,6 +375,7 @@ inline void particle_tracer_mpas_ocean::prepare_timestep()
     const auto xtime = snapshots[i]->get_ptr<char>("xtime");
     const std::string xtimestr(xtime->data(), xtime->size());
     std::istringstream ss(xtimestr);
+    timestamp[i] = std::tm();
     ss >> std::get_time(&timestamp[i], "%Y-%m-%d_%H:%M:%S");
   }
 
-- 
2.43.0


From 98138b4cfe35cca906d1a22a5dc82cd9d6b80a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:05 +0000
Subject: [PATCH 140/141] fix: seeds below MPAS cells sink with every layer

---
 include/ftk/filters/particle_tracer_mpas_ocean.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ftk/filters/particle_tracer_mpas_ocean.hh b/include/ftk/filters/particle_tracer_mpas_ocean.hh
index e42d2e3..48dd4b0 100644
--- a/include/ftk/filters/particle_tracer_mpas_ocean.hh
+++ b/include/ftk/filters/particle_tracer_mpas_ocean.hh
@@ -179,15 +179,16 @@ inline void particle_tracer_mpas_ocean::initialize_particles_at_grid_points(std:
     for (auto j = 0; j < m->n_layers(); j += stride_vertical) {
       const double thickness = m->accRestingThickness(j, i);
       const double r = R - thickness;
+      double x[3];
       for (auto k = 0; k < 3; k ++)
-        x0[k] = x0[k] * r / R;
+        x[k] = x0[k] * r / R;
 
       feature_curve_t curve;
       curve.id = nparticles;
       
       feature_point_t p;
       for (auto k = 0; k < 3; k ++)
-        p.x[k] = x0[k]; // m->xyzCells(k, i); 
+        p.x[k] = x[k]; // m->xyzCells(k, i); 
       p.id = nparticles;
       p.tag = i + 1; // cell id for now for GPU code
 
-- 
2.43.0


From 7fdcc21be62b1a68673757039151be6c23a66e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:42 +0000
Subject: [PATCH 141/141] fix: streamlines of MPAS files are only traced if the
 number of timesteps is given

---
 src/cli/ftk.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/ftk.cpp b/src/cli/ftk.cpp
index 27e851f..dfa9281 100644
--- a/src/cli/ftk.cpp
+++ b/src/cli/ftk.cpp
@@ -628,7 +628,7 @@ void initialize_particle_tracer_mpas_ocean(diy::mpi::communicator comm)
     tracker_particle_mpas_ocean->push_field_data_snapshot(g); // field_data);
 
     if (k != 0) tracker_particle_mpas_ocean->advance_timestep();
-    if (k == ntimesteps - 1) tracker_particle_mpas_ocean->update_timestep();
+    if (k == mpas_data_stream->ntimesteps - 1) tracker_particle_mpas_ocean->update_timestep();
   });
 
   while (mpas_data_stream->advance_timestep()) { }
-- 
2.43.0

