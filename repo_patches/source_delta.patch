From fcffb93a5b2c4430b86c6df46e4ba98b816c7981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:46 +0000
Subject: [PATCH 01/36] fix: keep the value when appending an element of a full
 vector to itself

---
 include/um2/stdlib/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/vector.hpp b/include/um2/stdlib/vector.hpp
index 6560658..b969ce7 100644
--- a/include/um2/stdlib/vector.hpp
+++ b/include/um2/stdlib/vector.hpp
@@ -362,8 +362,9 @@ Vector<T>::emplaceBackSlowPath(Args &&... args) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // Construct the new element before relocating the others, since args may refer to them
+  um2::construct_at(temp._begin + size(), um2::forward<Args>(args)...);
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<Args>(args)...);
   ++_end;
   return _end;
 }
@@ -376,8 +377,9 @@ Vector<T>::pushBackSlowPath(U && value) noexcept -> Ptr
 {
   Vector<T> temp;
   temp.allocate(recommend(size() + 1));
+  // Construct the new element before relocating the others, since value may be one of them
+  um2::construct_at(temp._begin + size(), um2::forward<U>(value));
   swapBuffers(temp);
-  um2::construct_at(_end, um2::forward<U>(value));
   ++_end;
   return _end;
 }
-- 
2.43.0


From f266fd79e2e487a5f5299d119feb591f57adade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:46 +0000
Subject: [PATCH 02/36] fix: allow empty strings in assignment, comparison and
 append

---
 include/um2/stdlib/string.hpp      | 2 +-
 include/um2/stdlib/string_view.hpp | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/um2/stdlib/string.hpp b/include/um2/stdlib/string.hpp
index fb91d59..8a3f089 100644
--- a/include/um2/stdlib/string.hpp
+++ b/include/um2/stdlib/string.hpp
@@ -853,7 +853,7 @@ HOSTDEV inline auto
 String::append(char const * s, Int n) -> String &
 {
   ASSERT(s != nullptr);
-  ASSERT(n > 0);
+  ASSERT(n >= 0);
   Int const cap = capacity(); // not including null terminator
   Int sz = size();
   Int const remaining = cap - sz;
diff --git a/include/um2/stdlib/string_view.hpp b/include/um2/stdlib/string_view.hpp
index 95bacd8..a67dc7c 100644
--- a/include/um2/stdlib/string_view.hpp
+++ b/include/um2/stdlib/string_view.hpp
@@ -228,7 +228,6 @@ HOSTDEV constexpr StringView::StringView(char const * s, uint64_t size) noexcept
       _size(size)
 {
   ASSERT(s != nullptr);
-  ASSERT(size > 0);
 }
 
 HOSTDEV constexpr StringView::StringView(char const * s) noexcept
@@ -236,7 +235,6 @@ HOSTDEV constexpr StringView::StringView(char const * s) noexcept
       _size(strlen(s))
 {
   ASSERT(s != nullptr);
-  ASSERT(_size > 0);
 }
 
 HOSTDEV constexpr StringView::StringView(char const * begin, char const * end) noexcept
@@ -245,7 +243,7 @@ HOSTDEV constexpr StringView::StringView(char const * begin, char const * end) n
 {
   ASSERT(begin != nullptr);
   ASSERT(end != nullptr);
-  ASSERT(_size > 0);
+  ASSERT(begin <= end);
 }
 
 //==============================================================================
-- 
2.43.0


From 34bd6eb67958208b3b43c37b7a8977a6bc06523d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:46 +0000
Subject: [PATCH 03/36] fix: leave the model unchanged when a pin mesh or pin
 cell is rejected

---
 src/mpact/model.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 9e4a9b8..112cef3 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -658,10 +658,6 @@ Model::addCylindricalPinCell(Float const pitch, Vector<Float> const & radii,
                              Vector<Int> const & num_rings, Int const num_azimuthal,
                              Int const mesh_order) -> Int
 {
-  // Make the mesh
-  Int const mesh_id =
-      addCylindricalPinMesh(pitch, radii, num_rings, num_azimuthal, mesh_order);
-
   // We need 1 more material than the number of rings
   if (materials.size() != num_rings.size() + 1) {
     logger::error("The number of materials must be one more than the number of rings");
@@ -685,6 +681,13 @@ Model::addCylindricalPinCell(Float const pitch, Vector<Float> const & radii,
     }
   }
 
+  // Make the mesh
+  Int const mesh_id =
+      addCylindricalPinMesh(pitch, radii, num_rings, num_azimuthal, mesh_order);
+  if (mesh_id < 0) {
+    return -1;
+  }
+
   Vec2F const xy_extents(pitch, pitch);
   MeshType const mesh_type = mesh_order == 1 ? MeshType::Quad : MeshType::QuadraticQuad;
 
@@ -718,9 +721,6 @@ Model::addRectangularPinMesh(Vec2F const xy_extents, Int const nx_faces,
 {
   Int const mesh_id = _quads.size();
   LOG_DEBUG("Adding rectangular pin mesh ", mesh_id);
-  _quads.emplace_back();
-  auto & mesh = _quads.back();
-
   if (xy_extents[0] <= 0 || xy_extents[1] <= 0) {
     logger::error("Pin dimensions must be positive");
     return -1;
@@ -730,6 +730,9 @@ Model::addRectangularPinMesh(Vec2F const xy_extents, Int const nx_faces,
     return -1;
   }
 
+  _quads.emplace_back();
+  auto & mesh = _quads.back();
+
   // Make the vertices
   auto & vertices = mesh.vertices();
   vertices.resize((nx_faces + 1) * (ny_faces + 1));
-- 
2.43.0


From 771fbe0c3a954fcaec489997a1f064a6382f13e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:40:46 +0000
Subject: [PATCH 04/36] fix: reject an RTM or core whose rows have different
 lengths

---
 src/mpact/model.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 112cef3..af0d770 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -919,6 +919,13 @@ Model::addRTM(Vector<Vector<Int>> const & cc_ids) -> Int
       }
     }
   }
+  // Ensure each row has the same number of columns
+  for (Int i = 1; i < cc_ids.size(); ++i) {
+    if (cc_ids[i].size() != cc_ids[0].size()) {
+      logger::error("Each row must have the same number of columns");
+      return -1;
+    }
+  }
   // For a max pin ID N, the RectilinearGrid constructor needs all dxdy from 0 to N.
   // To get around this requirement, we will renumber the coarse cells to be 0, 1, 2,
   // 3, ..., and then use the renumbered IDs to create the RectilinearGrid.
@@ -1081,6 +1088,13 @@ Model::addCore(Vector<Vector<Int>> const & asy_ids) -> Int
       }
     }
   }
+  // Ensure each row has the same number of columns
+  for (Int i = 1; i < asy_ids.size(); ++i) {
+    if (asy_ids[i].size() != asy_ids[0].size()) {
+      logger::error("Each row must have the same number of columns");
+      return -1;
+    }
+  }
   Vector<Vec2F> xy_extents(num_asy);
   for (Int i = 0; i < num_asy; ++i) {
     auto const lat_id = _assemblies[i].getChild(0);
-- 
2.43.0


From 6b6edd05c91e72548f56fc2931486f92e186cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:29 +0000
Subject: [PATCH 05/36] fix: keep every lattice when reading a model with more
 than one assembly

---
 src/mpact/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index af0d770..2061007 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2613,7 +2613,7 @@ readXDMFFile(String const & filename, Model & model)
       }
 
       LOG_DEBUG("New lattice ID: ", lattice_id);
-      lattice_ids.emplace_back(assembly_id);
+      lattice_ids.emplace_back(lattice_id);
 
       // Get NX by NY size of the lattice
       Int lattice_nx = 0;
-- 
2.43.0


From c4545f2d39b4e31c0fb039196cda1498df3ae30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:29 +0000
Subject: [PATCH 06/36] fix: write a model that has a material no cell uses

---
 src/mpact/model.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 2061007..785a923 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2163,8 +2163,11 @@ writeMaterialVolumes(String const & filename, Model const & model)
   for (Int imat = 0; imat < nmats; ++imat) {
     // Sort and use the sum function for minimal floating point error
     // (sum uses pairwise summation)
-    std::sort(volumes[imat].begin(), volumes[imat].end());
-    total_volumes[imat] = um2::sum(volumes[imat].cbegin(), volumes[imat].cend());
+    // A material that is not used in the model has a volume of zero
+    if (!volumes[imat].empty()) {
+      std::sort(volumes[imat].begin(), volumes[imat].end());
+      total_volumes[imat] = um2::sum(volumes[imat].cbegin(), volumes[imat].cend());
+    }
   }
 
   Int p = 6;
-- 
2.43.0


From 64713ce793255f35a9f189aa5f553178d361b552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:24 +0000
Subject: [PATCH 07/36] fix: getElset returns empty data for an elset without
 data

---
 src/mesh/polytope_soup.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index f9af604..3f2948c 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -74,9 +74,7 @@ PolytopeSoup::getElset(Int const i, String & name, Vector<Int> & ids,
   auto const n = iend - istart;
   ids.resize(n);
   um2::copy(_elset_ids.cbegin() + istart, _elset_ids.cbegin() + iend, ids.begin());
-  if (!_elset_data[i].empty()) {
-    data = _elset_data[i];
-  }
+  data = _elset_data[i];
 }
 
 void
@@ -90,9 +88,7 @@ PolytopeSoup::getElset(String const & name, Vector<Int> & ids, Vector<Float> & d
       auto const n = iend - istart;
       ids.resize(n);
       um2::copy(_elset_ids.cbegin() + istart, _elset_ids.cbegin() + iend, ids.begin());
-      if (!_elset_data[i].empty()) {
-        data = _elset_data[i];
-      }
+      data = _elset_data[i];
       return;
     }
   }
-- 
2.43.0


From 10cc9595544e6f8ff4ce30c9deecd8abe1fc49bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:24 +0000
Subject: [PATCH 08/36] fix: sortElsets on a soup without elsets

---
 src/mesh/polytope_soup.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 3f2948c..0dddb35 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -202,6 +202,9 @@ PolytopeSoup::sortElsets()
   // Create a vector that stores the name and index of each elset.
   using NameIndexPair = um2::Pair<String, Int>;
   Int const num_elsets = _elset_names.size();
+  if (num_elsets == 0) {
+    return;
+  }
   Vector<NameIndexPair> elset_name_index_pairs(num_elsets);
   for (Int i = 0; i < num_elsets; ++i) {
     elset_name_index_pairs[i] = NameIndexPair(_elset_names[i], i);
-- 
2.43.0


From d49d42857ddde7f3effbf4cff043da4ccca13b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:24 +0000
Subject: [PATCH 09/36] fix: append a polytope soup without elements, or to
 itself

---
 src/mesh/polytope_soup.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mesh/polytope_soup.cpp b/src/mesh/polytope_soup.cpp
index 0dddb35..d8ed1c6 100644
--- a/src/mesh/polytope_soup.cpp
+++ b/src/mesh/polytope_soup.cpp
@@ -256,6 +256,12 @@ auto
 // NOLINTNEXTLINE(readability-function-cognitive-complexity)
 PolytopeSoup::operator+=(PolytopeSoup const & other) noexcept -> PolytopeSoup &
 {
+  // Appending a soup to itself: append a copy, since the data is modified in place
+  if (this == &other) {
+    PolytopeSoup const copy = other;
+    return *this += copy;
+  }
+
   // Vertices
   auto const this_num_verts = numVertices();
   auto const other_num_verts = other.numVertices();
@@ -272,9 +278,11 @@ PolytopeSoup::operator+=(PolytopeSoup const & other) noexcept -> PolytopeSoup &
 
   // Element offsets
   Int const last_offset = _element_offsets.empty() ? 0 : _element_offsets.back();
-  _element_offsets.resize(this_num_elems + other_num_elems + 1);
-  for (Int i = 0; i < other_num_elems + 1; ++i) {
-    _element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;
+  if (other_num_elems > 0) {
+    _element_offsets.resize(this_num_elems + other_num_elems + 1);
+    for (Int i = 0; i < other_num_elems + 1; ++i) {
+      _element_offsets[this_num_elems + i] = other._element_offsets[i] + last_offset;
+    }
   }
 
   // Element connectivity
-- 
2.43.0


From c73d095f27f302fcf745847d9a83df2647c9857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:00 +0000
Subject: [PATCH 10/36] fix: keep the edges of a quadratic quadrilateral when
 flipping it

Reversing the direction of an 8-node face has to exchange the midpoints of
the second and third edge as well. Otherwise the flipped face had those two
midpoints on the wrong edges.
---
 include/um2/geometry/quadratic_quadrilateral.hpp | 1 +
 include/um2/mesh/face_vertex_mesh.hpp            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/um2/geometry/quadratic_quadrilateral.hpp b/include/um2/geometry/quadratic_quadrilateral.hpp
index e2d4bab..2640bf0 100644
--- a/include/um2/geometry/quadratic_quadrilateral.hpp
+++ b/include/um2/geometry/quadratic_quadrilateral.hpp
@@ -273,6 +273,7 @@ QuadraticQuadrilateral<D, T>::flip() noexcept
 {
   um2::swap(_v[1], _v[3]);
   um2::swap(_v[4], _v[7]);
+  um2::swap(_v[5], _v[6]);
 }
 
 //==============================================================================
diff --git a/include/um2/mesh/face_vertex_mesh.hpp b/include/um2/mesh/face_vertex_mesh.hpp
index 8a35846..b7944f0 100644
--- a/include/um2/mesh/face_vertex_mesh.hpp
+++ b/include/um2/mesh/face_vertex_mesh.hpp
@@ -422,6 +422,7 @@ FaceVertexMesh<P, N>::flipFace(Int i) noexcept
   } else if constexpr (P == 2 && N == 8) {
     um2::swap(_fv[i][1], _fv[i][3]);
     um2::swap(_fv[i][4], _fv[i][7]);
+    um2::swap(_fv[i][5], _fv[i][6]);
   }
 }
 
-- 
2.43.0


From 80868e0f96f53ac3b1f6a1d9135ff4cdefb6cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:00 +0000
Subject: [PATCH 11/36] fix: copy all vertices of a non-planar soup into a
 face-vertex mesh

The loop stopped at the first vertex with a different z coordinate, which
left the remaining vertices at the origin although only a warning is given.
---
 src/mesh/face_vertex_mesh.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 58e7d88..1979a36 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -71,16 +71,19 @@ FaceVertexMesh<P, N>::FaceVertexMesh(PolytopeSoup const & soup, bool validate)
   // Ensure each of the vertices has approximately the same z
   _v.resize(num_vertices);
   Float const z = soup.getVertex(0)[2];
+  bool planar = true;
   for (Int i = 0; i < num_vertices; ++i) {
     auto const & p = soup.getVertex(i);
     _v[i][0] = p[0];
     _v[i][1] = p[1];
     if (um2::abs(p[2] - z) > epsDistance<Float>()) {
-      LOG_WARN(
-          "Constructing a FaceVertexMesh from a PolytopeSoup with non-planar vertices");
-      break;
+      planar = false;
     }
   }
+  if (!planar) {
+    LOG_WARN(
+        "Constructing a FaceVertexMesh from a PolytopeSoup with non-planar vertices");
+  }
 
   // -- Face/Vertex connectivity --
   _fv.resize(num_faces);
-- 
2.43.0


From cda49ef96fa669af0b5092d1be3d8485a34d27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:00 +0000
Subject: [PATCH 12/36] fix: report faces that use an edge twice in the same
 direction

Two counter-clockwise faces sharing an edge in the same direction overlap.
The edge was taken for an interior one, so duplicate faces went unnoticed or
left no boundary edge and the check read outside an empty array.
---
 src/mesh/face_vertex_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 1979a36..25d0256 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -376,7 +376,7 @@ checkManifoldWatertight(FaceVertexMesh<P, N> const & mesh)
   for (Int i = 0; i < edge_counts.size(); ++i) {
     auto const & edge_count = edge_counts[i];
     Int const sum = edge_count[0] + edge_count[1];
-    if (sum > 2) {
+    if (sum > 2 || edge_count[0] > 1 || edge_count[1] > 1) {
       LOG_ERROR("Mesh has overlapping faces");
       return;
     }
-- 
2.43.0


From 5fb6866980e8704f59821e76fca505d46658480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:00 +0000
Subject: [PATCH 13/36] fix: Morton sort meshes whose bounding box is not at
 the origin

The points were scaled by the extents of the bounding box but not shifted to
its minima, so they left the unit square and tripped assertions.
---
 src/mesh/face_vertex_mesh.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 25d0256..60e9e8b 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -128,14 +128,14 @@ FaceVertexMesh<P, N>::mortonSortFaces() noexcept
   // Sort the centroid of each face using the morton encoding.
   Int const num_faces = numFaces();
   Vector<Point2F> centroids(num_faces);
-  for (Int i = 0; i < num_faces; ++i) {
-    centroids[i] = getFace(i).centroid();
-  }
   // We need to scale the centroids to the unit cube before we can apply
   // the morton encoding. Therefore we need to find the bounding box of
   // all faces.
   auto const aabb = boundingBox();
   Vec2F const inv_scale = 1 / aabb.extents();
+  for (Int i = 0; i < num_faces; ++i) {
+    centroids[i] = getFace(i).centroid() - aabb.minima();
+  }
 
   // Get the permutation vector which sorts the centroids according to the morton
   // encoding.
@@ -164,7 +164,11 @@ FaceVertexMesh<P, N>::mortonSortVertices() noexcept
   Int const num_verts = numVertices();
   Vector<Int> perm(num_verts);
   Vector<Int> inv_perm(num_verts);
-  mortonSortPermutation(_v.cbegin(), _v.cend(), perm.begin(), inv_scale);
+  Vector<Point2F> shifted(num_verts);
+  for (Int i = 0; i < num_verts; ++i) {
+    shifted[i] = _v[i] - aabb.minima();
+  }
+  mortonSortPermutation(shifted.cbegin(), shifted.cend(), perm.begin(), inv_scale);
   invertPermutation(perm.cbegin(), perm.cend(), inv_perm.begin());
 
   // Sort the vertices according to the permutation vector.
-- 
2.43.0


From 49e349bf6b76294e3a19f86806c0a2ec8038bd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:00 +0000
Subject: [PATCH 14/36] fix: sort ray intersections by the two smallest
 coordinates of a face

If the first coordinate of a face was its smallest one, the second smallest
was never taken into account. A face holding the start of the ray could then
be placed after the face the ray enters next.
---
 src/mesh/face_vertex_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index 60e9e8b..dbe00a7 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -565,7 +565,7 @@ sortRayMeshIntersections(Float const * RESTRICT coords,  // size >= total_hits
     Int const offset = offsets[iface];
     Int const next_offset = offsets[iface + 1];
     Float r0 = coords[offset];
-    Float r1 = coords[offset];
+    Float r1 = next_offset - offset > 1 ? infDistance<Float>() : r0;
     for (Int i = offset + 1; i < next_offset; ++i) {
       Float const r = coords[i];
       if (r < r0) {
-- 
2.43.0


From c747591fa95197b5055e69010fec9016fcf517cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:56 +0000
Subject: [PATCH 15/36] fix: include every vertex in the box used to Morton
 sort vertices

The bounding box of a quadratic mesh covers its faces only. A vertex that no
face uses, or one that rounding puts just outside the box, tripped an
assertion.
---
 src/mesh/face_vertex_mesh.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mesh/face_vertex_mesh.cpp b/src/mesh/face_vertex_mesh.cpp
index dbe00a7..3f3cc60 100644
--- a/src/mesh/face_vertex_mesh.cpp
+++ b/src/mesh/face_vertex_mesh.cpp
@@ -155,7 +155,10 @@ FaceVertexMesh<P, N>::mortonSortVertices() noexcept
 
   // We need to scale the vertices to the unit cube before we can apply
   // the morton encoding.
-  auto const aabb = boundingBox();
+  auto aabb = boundingBox();
+  for (auto const & v : _v) {
+    aabb += v;
+  }
   Vec2F const inv_scale = 1 / aabb.extents();
 
   // Get the permutation vector which sorts the vertices according to the morton
-- 
2.43.0


From 386b93676a8577e23237a421e190b8007da394e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:25 +0000
Subject: [PATCH 16/36] fix: reject pins with non-increasing radii or regions
 without rings

---
 src/mpact/model.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 785a923..4bb3846 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -167,6 +167,23 @@ Model::addCylindricalPinMesh(Float const pitch, Vector<Float> const & radii,
     return -1;
   }
 
+  if (radii.empty()) {
+    logger::error("There must be at least one radius");
+    return -1;
+  }
+
+  for (Int i = 0; i < radii.size(); ++i) {
+    Float const r_prev = i == 0 ? 0 : radii[i - 1];
+    if (radii[i] <= r_prev) {
+      logger::error("The radii must be positive and increasing");
+      return -1;
+    }
+    if (num_rings[i] < 1) {
+      logger::error("The number of rings in each region must be at least 1");
+      return -1;
+    }
+  }
+
   if (std::any_of(radii.begin(), radii.end(),
                   [pitch](Float r) { return r > pitch / 2; })) {
     logger::error("The radii must be less than half the pitch");
-- 
2.43.0


From a74d7b592c25f9e0918136ef8cfd4f5c2edd2715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:05 +0000
Subject: [PATCH 17/36] fix: make RegularGrid constructible from a box

The constructor named the box accessors without calling them, so it did not compile
when used.
---
 include/um2/mesh/regular_grid.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/mesh/regular_grid.hpp b/include/um2/mesh/regular_grid.hpp
index 76f2a26..8f5d1d7 100644
--- a/include/um2/mesh/regular_grid.hpp
+++ b/include/um2/mesh/regular_grid.hpp
@@ -165,8 +165,8 @@ HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(Point<D, T> const & minima,
 template <Int D, class T>
 HOSTDEV constexpr RegularGrid<D, T>::RegularGrid(
     AxisAlignedBox<D, T> const & box) noexcept
-    : _minima(box.minima),
-      _spacing(box.maxima - box.minima)
+    : _minima(box.minima()),
+      _spacing(box.maxima() - box.minima())
 {
   for (Int i = 0; i < D; ++i) {
     _num_cells[i] = 1;
-- 
2.43.0


From bb5ba2cbeea1feb1bd18cc355ba44b1093812e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:05 +0000
Subject: [PATCH 18/36] fix: end the line of a material without nuclides in the
 input file

The next material's comment or the GEOM card was written on the same line.
---
 src/mpact/model.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpact/model.cpp b/src/mpact/model.cpp
index 4bb3846..0bcd961 100644
--- a/src/mpact/model.cpp
+++ b/src/mpact/model.cpp
@@ -2041,6 +2041,8 @@ writeInputFile(String const & filename, Model const & model)
         }
         file << zaids[i] << " " << densities[i] << '\n';
       }
+    } else {
+      file << '\n';
     }
   } // for (imat)
 
-- 
2.43.0


From 629bcd983df6ea16515dafa6ab86ec1a48db98f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:43 +0000
Subject: [PATCH 19/36] fix: mark an interpolated cross section fissile if
 either endpoint is

Only the lower temperature's flag was used, so positive fission values could end up
in a cross section marked as not fissile.
---
 src/physics/nuclide.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/nuclide.cpp b/src/physics/nuclide.cpp
index f6fcc11..aa70b03 100644
--- a/src/physics/nuclide.cpp
+++ b/src/physics/nuclide.cpp
@@ -104,7 +104,7 @@ Nuclide::interpXS(Float const temperature) const noexcept -> XSec
   XSec xs(xs0.numGroups());
   ASSERT(xs1.numGroups() == ng);
   xs.isMacro() = xs0.isMacro();
-  xs.isFissile() = xs0.isFissile();
+  xs.isFissile() = xs0.isFissile() || xs1.isFissile();
 
   // Interpolate the cross sections
   // TODO(kcvaughn): This should be handled with arithmetic operators on the XSec
-- 
2.43.0


From e2801b768ef44dc2ddf0a0631efea3b3c262a5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:43 +0000
Subject: [PATCH 20/36] fix: accept zero enrichment and pure Gd2O3 in setUO2

Both are within the accepted range of the arguments, but isotopes with zero density
were added, which is an error.
---
 src/physics/material.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/physics/material.cpp b/src/physics/material.cpp
index bf8c24a..0c96288 100644
--- a/src/physics/material.cpp
+++ b/src/physics/material.cpp
@@ -569,10 +569,15 @@ Material::setUO2(Float wt_u235, Float wt_gad) noexcept
   Float const n_u235 = at_u235 * n_u;
   Float const n_u236 = at_u236 * n_u;
   Float const n_u238 = at_u238 * n_u;
-  addNuclide(92234, n_u234);
-  addNuclide(92235, n_u235);
-  addNuclide(92236, n_u236);
-  addNuclide(92238, n_u238);
+  // Zero enrichment or pure Gd2O3 leaves out the isotopes that are not present
+  if (n_u235 > 0) {
+    addNuclide(92234, n_u234);
+    addNuclide(92235, n_u235);
+    addNuclide(92236, n_u236);
+  }
+  if (n_u238 > 0) {
+    addNuclide(92238, n_u238);
+  }
 
   // Compute the average mass of Gd2O3
   //---------------------------------------------------------------------------
-- 
2.43.0


From e49e288099371d59afddf67a46ff3398622cf77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:43 +0000
Subject: [PATCH 21/36] fix: accept trailing blanks on the lines of group
 bounds and chi

Blanks left at the end of a line were taken as another value.
---
 src/physics/cross_section_library.cpp | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/physics/cross_section_library.cpp b/src/physics/cross_section_library.cpp
index 1be97eb..479d6bf 100644
--- a/src/physics/cross_section_library.cpp
+++ b/src/physics/cross_section_library.cpp
@@ -118,17 +118,9 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
-      bool const one_more_token = !line_view.empty();
-      if (one_more_token) {
-        token = line_view;
-      }
-      // If this is the last group, we don't need to read another line
       file.getline(line, max_line_length);
       line_view = StringView(line);
-      line_view.removeLeadingSpaces();
-      if (!one_more_token) {
-        token = line_view.getTokenAndShrink();
-      }
+      token = line_view.getTokenAndShrink();
     }
 
     group_bounds[ig] = strto<Float>(token.data(), &end);
@@ -158,17 +150,9 @@ readMPACTLibrary(String const & filename, XSLibrary & lib)
 
     // If the token is empty, we have reached the end of the line
     if (token.empty()) {
-      bool const one_more_token = !line_view.empty();
-      if (one_more_token) {
-        token = line_view;
-      }
-      // If this is the last group, we don't need to read another line
       file.getline(line, max_line_length);
       line_view = StringView(line);
-      line_view.removeLeadingSpaces();
-      if (!one_more_token) {
-        token = line_view.getTokenAndShrink();
-      }
+      token = line_view.getTokenAndShrink();
     }
 
     chi[ig] = strto<Float>(token.data(), &end);
-- 
2.43.0


From cfe7a49522aac809f5aa9fc979b5597ecd727722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:40 +0000
Subject: [PATCH 22/36] fix: leave the model alone when a group preserving
 operation is refused

The error was logged, but the operation went on with the refused input. That removed the
physical groups or aborted with an exception.
---
 src/gmsh/model.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 34b9e75..599b361 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -434,6 +434,9 @@ groupPreservingFragment(gmsh::vectorpair const & object_dimtags,
   // Input checking
   //==============================================================================
   int const model_dim = groupPreservingInputChecking(object_dimtags, tool_dimtags);
+  if (model_dim < 0) {
+    return;
+  }
 
   //==============================================================================
   // Fragment the object and tool
@@ -524,6 +527,9 @@ groupPreservingIntersect(gmsh::vectorpair const & object_dimtags,
   // Input checking
   //==============================================================================-
   int const model_dim = groupPreservingInputChecking(object_dimtags, tool_dimtags);
+  if (model_dim < 0) {
+    return;
+  }
 
   //==============================================================================
   // Intersect the object and tool
@@ -606,6 +612,9 @@ groupPreservingCut(gmsh::vectorpair const & object_dimtags,
   // Input checking
   //==============================================================================-
   int const model_dim = groupPreservingInputChecking(object_dimtags, tool_dimtags);
+  if (model_dim < 0) {
+    return;
+  }
 
   //==============================================================================
   // Cut the object and tool
-- 
2.43.0


From 70024d40f1378df4d3c6ac375b588c51b009bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:40 +0000
Subject: [PATCH 23/36] fix: keep the order of the other materials when the
 fill material goes last

The fill material was swapped with the last material, which gave that material the
priority of the fill material.
---
 src/gmsh/model.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 599b361..048f441 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -1227,7 +1227,9 @@ overlayCoarseGrid(mpact::Model const & model, Material const & fill_material)
     if (name == fill_material_name) {
       // Move the material to the end of the list to ensure
       // it is the fill material
-      std::swap(materials[i], materials[num_materials - 1]);
+      std::rotate(materials.begin() + static_cast<std::ptrdiff_t>(i),
+                  materials.begin() + static_cast<std::ptrdiff_t>(i) + 1,
+                  materials.end());
       fill_exists = true;
       LOG_DEBUG("Found fill material: ", fill_material_name.c_str());
       break;
-- 
2.43.0


From beffbbabf7ceff0201919c08518879d9ce811d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:58 +0000
Subject: [PATCH 24/36] fix: do not color materials when no physical groups are
 left

An intersection that leaves nothing removes all groups, and the last group was then read
from an empty list.
---
 src/gmsh/model.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 048f441..471efb6 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -130,6 +130,9 @@ colorMaterialPhysicalGroupEntities(std::vector<Material> const & materials)
   std::vector<int> ptags(num_materials, -1);
   gmsh::vectorpair dimtags;
   gmsh::model::getPhysicalGroups(dimtags);
+  if (dimtags.empty()) {
+    return;
+  }
   // We only care about the highest dimension physical groups.
   int const dim_max = dimtags.back().first;
   for (auto const & dimtag : dimtags) {
-- 
2.43.0


From 7aec947ca0e244f4bc6f02f2bf15a4369e9eef5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:43 +0000
Subject: [PATCH 25/36] fix: survive adding to an existing physical group

Adding to a group removed that group alone. In Gmsh this leaves a freed entry behind, and
the next removal of all groups, as in a group preserving fragment, crashes. All groups are
removed and added again instead.
---
 src/gmsh/model.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 471efb6..537af3c 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -53,9 +53,24 @@ addToPhysicalGroup(int const dim, std::vector<int> const & tags, int const tag,
       std::vector<int> new_tags(tags.size() + existing_tags.size());
       std::merge(tags.begin(), tags.end(), existing_tags.begin(), existing_tags.end(),
                  new_tags.begin());
-      gmsh::model::removePhysicalGroups({
-          {dim, existing_group_tag}
-      });
+      // Removing a single group corrupts Gmsh's list of groups, which crashes when all
+      // groups are removed later. Remove all groups and add the others again.
+      gmsh::vectorpair all_dimtags;
+      gmsh::model::getPhysicalGroups(all_dimtags);
+      std::vector<std::string> all_names(all_dimtags.size());
+      std::vector<std::vector<int>> all_tags(all_dimtags.size());
+      for (size_t i = 0; i < all_dimtags.size(); ++i) {
+        auto const [g_dim, g_tag] = all_dimtags[i];
+        gmsh::model::getPhysicalName(g_dim, g_tag, all_names[i]);
+        gmsh::model::getEntitiesForPhysicalGroup(g_dim, g_tag, all_tags[i]);
+      }
+      gmsh::model::removePhysicalGroups();
+      for (size_t i = 0; i < all_dimtags.size(); ++i) {
+        if (all_dimtags[i] != existing_group_dimtag) {
+          gmsh::model::addPhysicalGroup(all_dimtags[i].first, all_tags[i],
+                                        all_dimtags[i].second, all_names[i]);
+        }
+      }
 #  if UM2_ENABLE_ASSERTS
       int const new_tag =
           gmsh::model::addPhysicalGroup(dim, new_tags, existing_group_tag, name);
-- 
2.43.0


From 5327315a46811e80935fae37359263aade5f5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:43 +0000
Subject: [PATCH 26/36] fix: list an entity once when it is added to its group
 again

---
 src/gmsh/model.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 537af3c..8680d41 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -50,9 +50,10 @@ addToPhysicalGroup(int const dim, std::vector<int> const & tags, int const tag,
     if (existing_group_name == name) {
       std::vector<int> existing_tags;
       gmsh::model::getEntitiesForPhysicalGroup(dim, existing_group_tag, existing_tags);
-      std::vector<int> new_tags(tags.size() + existing_tags.size());
-      std::merge(tags.begin(), tags.end(), existing_tags.begin(), existing_tags.end(),
-                 new_tags.begin());
+      std::vector<int> new_tags;
+      new_tags.reserve(tags.size() + existing_tags.size());
+      std::set_union(tags.begin(), tags.end(), existing_tags.begin(), existing_tags.end(),
+                     std::back_inserter(new_tags));
       // Removing a single group corrupts Gmsh's list of groups, which crashes when all
       // groups are removed later. Remove all groups and add the others again.
       gmsh::vectorpair all_dimtags;
-- 
2.43.0


From f5c889cb2124e2b1b4a88fcdc0928430550ac2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:11 +0000
Subject: [PATCH 27/36] fix: name a physical group like one that has lost all
 of its entities

Gmsh keeps the name of the lost group, so the new group was left without a name.
---
 src/gmsh/model.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/gmsh/model.cpp b/src/gmsh/model.cpp
index 8680d41..8e9eff8 100644
--- a/src/gmsh/model.cpp
+++ b/src/gmsh/model.cpp
@@ -83,7 +83,15 @@ addToPhysicalGroup(int const dim, std::vector<int> const & tags, int const tag,
     }
   }
   // If we get here, the physical group does not exist yet.
-  gmsh::model::addPhysicalGroup(dim, tags, tag, name);
+  int const group_tag = gmsh::model::addPhysicalGroup(dim, tags, tag, name);
+  // A group that lost all of its entities leaves its name behind, in which case the name
+  // is not given to the new group.
+  std::string group_name;
+  gmsh::model::getPhysicalName(dim, group_tag, group_name);
+  if (group_name != name) {
+    gmsh::model::removePhysicalName(name);
+    gmsh::model::setPhysicalName(dim, group_tag, name);
+  }
 }
 
 //=============================================================================
-- 
2.43.0


From c67d27e26b168bbd0c97143be36162fe82b9270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:05 +0000
Subject: [PATCH 28/36] fix: accept points on the chord of a curved segment in
 isLeft

Rounding in the rotation puts such a point below the chord, which failed an assertion.
---
 include/um2/geometry/quadratic_segment.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 47b58ec..e4efd60 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -572,8 +572,10 @@ QuadraticSegment<D, T>::isLeft(Point2<T> const p) const noexcept -> bool
     p_r[1] = -p_r[1];
   }
   ASSERT(q[2][1] >= 0);
-  // The point must be above the origin if it was in the bounding triangle.
-  ASSERT(p_r[1] >= 0);
+  // The point must be above the origin if it was in the bounding triangle. The rotation
+  // can put a point on the chord slightly below it.
+  ASSERT(p_r[1] > -epsDistance<T>());
+  p_r[1] = um2::max(p_r[1], static_cast<T>(0));
 
   // Now, since we may have flipped the y-coordinates, we will always need to
   // account for this when we return the result.
-- 
2.43.0


From e365a036d0b750b884d2708a88feceb0f31974a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:05 +0000
Subject: [PATCH 29/36] fix: sort the hits of a ray on a curved segment by
 distance

They were in the order along the segment.
---
 include/um2/geometry/quadratic_segment.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index e4efd60..3b51a74 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -699,6 +699,10 @@ QuadraticSegment<D, T>::intersect(Ray2<T> const ray,
       }
     }
   }
+  // The roots are sorted by s, not by r.
+  if (hits == 2 && buffer[0] > buffer[1]) {
+    um2::swap(buffer[0], buffer[1]);
+  }
   return hits;
 }
 
-- 
2.43.0


From ffad0847c9952e7e3ff80705e63ad8725a74e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:00:05 +0000
Subject: [PATCH 30/36] fix: find the closest point on a straight segment with
 an off-center middle vertex

The coordinate on the line between the end points was used for the segment.
---
 include/um2/geometry/quadratic_segment.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/um2/geometry/quadratic_segment.hpp b/include/um2/geometry/quadratic_segment.hpp
index 3b51a74..ed8830c 100644
--- a/include/um2/geometry/quadratic_segment.hpp
+++ b/include/um2/geometry/quadratic_segment.hpp
@@ -412,7 +412,9 @@ PURE HOSTDEV constexpr auto
 QuadraticSegment<D, T>::pointClosestTo(Point<D, T> const & p) const noexcept -> T
 {
 
-  if (isStraight(*this)) {
+  // The parametric coordinates of the segment and the line between its end points only
+  // agree if the middle vertex is at the midpoint.
+  if (_v[2].isApprox(midpoint<D, T>(_v[0], _v[1]))) {
     return LineSegment<D, T>(_v[0], _v[1]).pointClosestTo(p);
   }
 
-- 
2.43.0


From 4bda1a37122d9eaae73e1f79c830195e8196045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:07 +0000
Subject: [PATCH 31/36] fix: cut log messages that do not fit in the buffer

They tripped assertions, or were written past the end of the buffer without assertions.
---
 src/common/logger.cpp | 104 +++++++++++++++---------------------------
 1 file changed, 38 insertions(+), 66 deletions(-)

diff --git a/src/common/logger.cpp b/src/common/logger.cpp
index 29be0e0..5915b06 100644
--- a/src/common/logger.cpp
+++ b/src/common/logger.cpp
@@ -53,24 +53,31 @@ reset() noexcept
 // toBuffer functions
 //==============================================================================
 
-// When we don't use assertions, suppress warnings for unused variables
-// It's a catch-22, since what are we supposed to do when we aren't using assertions,
-// but the log function failed? We can't log it, since the log is broken. So we just
-// do nothing and hope for the best. The dangers of Release mode.
-#pragma GCC diagnostic push
-#pragma GCC diagnostic ignored "-Wunused-variable"
-// NOLINTBEGIN(clang-analyzer-deadcode.DeadStores,clang-diagnostic-unused-variable)
-
 namespace
 {
 
+// Room for the color reset and the null terminator at the end of the buffer
+inline constexpr int32_t postamble_size = 5;
+
+// Enough for any number, since the longest double in %f format has 317 characters
+inline constexpr int32_t number_size = 320;
+
+// Append what there is room for. Messages that do not fit are cut.
+auto
+appendToBuffer(char * buffer_pos, char const * const chars, int64_t n) noexcept -> char *
+{
+  int64_t const room = (buffer_end - postamble_size) - buffer_pos;
+  if (n > room) {
+    n = room;
+  }
+  um2::copy(chars, chars + n, buffer_pos);
+  return buffer_pos + n;
+}
+
 auto
 appendStringViewToBuffer(char * buffer_pos, StringView const sv) noexcept -> char *
 {
-  auto * const new_pos = buffer_pos + sv.size();
-  ASSERT(new_pos < buffer_end);
-  um2::copy(sv.begin(), sv.end(), buffer_pos);
-  return new_pos;
+  return appendToBuffer(buffer_pos, sv.begin(), static_cast<int64_t>(sv.size()));
 }
 
 } // namespace
@@ -90,23 +97,17 @@ template <>
 auto
 toBuffer(char * buffer_pos, char const & value) noexcept -> char *
 {
-  *buffer_pos = value;
-  ++buffer_pos;
-  ASSERT(buffer_pos < buffer_end);
-  return buffer_pos;
+  return appendToBuffer(buffer_pos, &value, 1);
 }
 
-// Use snprintf to convert the value to a string and store it in the buffer
+// Use snprintf to convert the value to a string, then store it in the buffer
 template <>
 auto
 toBuffer(char * buffer_pos, int32_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%d", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%d", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  char number[number_size];
+  int32_t const len = snprintf(number, number_size, "%d", value);
+  return appendToBuffer(buffer_pos, number, len);
 }
 
 template <>
@@ -122,48 +123,36 @@ template <>
 auto
 toBuffer(char * buffer_pos, uint32_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%u", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%u", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  char number[number_size];
+  int32_t const len = snprintf(number, number_size, "%u", value);
+  return appendToBuffer(buffer_pos, number, len);
 }
 
 template <>
 auto
 toBuffer(char * buffer_pos, int64_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%ld", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%ld", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  char number[number_size];
+  int32_t const len = snprintf(number, number_size, "%ld", value);
+  return appendToBuffer(buffer_pos, number, len);
 }
 
 template <>
 auto
 toBuffer(char * buffer_pos, uint64_t const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%lu", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%lu", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  char number[number_size];
+  int32_t const len = snprintf(number, number_size, "%lu", value);
+  return appendToBuffer(buffer_pos, number, len);
 }
 
 template <>
 auto
 toBuffer(char * buffer_pos, double const & value) noexcept -> char *
 {
-  int32_t const len = snprintf(nullptr, 0, "%f", value);
-  int32_t const written =
-      snprintf(buffer_pos, static_cast<uint64_t>(buffer_end - buffer_pos), "%f", value);
-  ASSERT(len == written);
-  ASSERT(buffer_pos + len < buffer_end);
-  return buffer_pos + len;
+  char number[number_size];
+  int32_t const len = snprintf(number, number_size, "%f", value);
+  return appendToBuffer(buffer_pos, number, len);
 }
 
 template <>
@@ -179,22 +168,8 @@ template <>
 auto
 toBuffer(char * buffer_pos, bool const & value) noexcept -> char *
 {
-  if (value) {
-    buffer_pos[0] = 't';
-    buffer_pos[1] = 'r';
-    buffer_pos[2] = 'u';
-    buffer_pos[3] = 'e';
-    buffer_pos += 4;
-  } else {
-    buffer_pos[0] = 'f';
-    buffer_pos[1] = 'a';
-    buffer_pos[2] = 'l';
-    buffer_pos[3] = 's';
-    buffer_pos[4] = 'e';
-    buffer_pos += 5;
-  }
-  ASSERT(buffer_pos < buffer_end);
-  return buffer_pos;
+  return value ? appendToBuffer(buffer_pos, "true", 4)
+               : appendToBuffer(buffer_pos, "false", 5);
 }
 
 template <>
@@ -212,9 +187,6 @@ toBuffer(char * buffer_pos, String const & value) noexcept -> char *
   return toBuffer(buffer_pos, sv);
 }
 
-// NOLINTEND(clang-analyzer-deadcode.DeadStores,clang-diagnostic-unused-variable)
-#pragma GCC diagnostic pop
-
 //==============================================================================
 
 // Add the timestamp to the buffer if the log is timestamped
-- 
2.43.0


From ad6e89b322972d8076d336b504422e80027d7312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:07 +0000
Subject: [PATCH 32/36] fix: multiply fixed-size matrices of any shape

The product has as many columns as the right factor, not as the left one.
---
 include/um2/math/mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/um2/math/mat.hpp b/include/um2/math/mat.hpp
index 7f00676..18693cf 100644
--- a/include/um2/math/mat.hpp
+++ b/include/um2/math/mat.hpp
@@ -238,7 +238,7 @@ operator*(Mat<M, N, T> const & a, Mat<N, P, T> const & b) noexcept -> Mat<M, P,
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wuninitialized"
   Mat<M, P, T> result;
-  for (Int i = 0; i < N; ++i) {
+  for (Int i = 0; i < P; ++i) {
     result.col(i) = a * b.col(i);
   }
   return result;
-- 
2.43.0


From 9240d7a9e3373ad884bcba353578008f85cb8db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:07 +0000
Subject: [PATCH 33/36] fix: overwrite the target of matmul without BLAS

C = A * B was added to what C held before.
---
 include/um2/math/matrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/um2/math/matrix.hpp b/include/um2/math/matrix.hpp
index e8b7c35..38c92f1 100644
--- a/include/um2/math/matrix.hpp
+++ b/include/um2/math/matrix.hpp
@@ -475,6 +475,7 @@ matmul(Matrix<T> & c, Matrix<T> const & a, Matrix<T> const & b)
   ASSERT(c.rows() == a.rows());
   ASSERT(c.cols() == b.cols());
 
+  c.zero();
   for (Int i = 0; i < a.rows(); ++i) {
     for (Int j = 0; j < b.cols(); ++j) {
       for (Int k = 0; k < a.cols(); ++k) {
-- 
2.43.0


From e5d0bd4d6935bf889e0d827e279901ef45399b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:07 +0000
Subject: [PATCH 34/36] fix: assign vectors of standard library types

The unqualified call was ambiguous for elements such as std::complex.
---
 include/um2/stdlib/vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/um2/stdlib/vector.hpp b/include/um2/stdlib/vector.hpp
index b969ce7..0578248 100644
--- a/include/um2/stdlib/vector.hpp
+++ b/include/um2/stdlib/vector.hpp
@@ -523,7 +523,7 @@ template <class T>
 HOSTDEV inline auto
 Vector<T>::operator=(Vector<T> const & v) noexcept -> Vector<T> &
 {
-  if (this != addressof(v)) {
+  if (this != um2::addressof(v)) {
     assign(v._begin, v._end);
   }
   return *this;
@@ -533,7 +533,7 @@ template <class T>
 HOSTDEV inline auto
 Vector<T>::operator=(Vector<T> && v) noexcept -> Vector<T> &
 {
-  if (this != addressof(v)) {
+  if (this != um2::addressof(v)) {
     deallocate();
     // Move the buffer from v
     _begin = v._begin;
-- 
2.43.0


From 6b139b1b3786bfa12bd824f096b59247b3c5ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:07 +0000
Subject: [PATCH 35/36] fix: skip blank lines in layouts

A blank line ended the layout: the rows after it were lost.
---
 include/um2/common/string_to_lattice.hpp | 25 ++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/um2/common/string_to_lattice.hpp b/include/um2/common/string_to_lattice.hpp
index c4e23f3..09b5d3a 100644
--- a/include/um2/common/string_to_lattice.hpp
+++ b/include/um2/common/string_to_lattice.hpp
@@ -21,9 +21,19 @@ stringToLattice(String const & str, char const delimiter = ' ') -> Vector<Vector
   StringView str_view(str);
   str_view.removeLeadingSpaces();
 
+  // The next line that is not blank, empty if there is none
+  auto const get_line = [&str_view]() {
+    StringView next = str_view.getTokenAndShrink('\n');
+    next.removeLeadingSpaces();
+    while (next.empty() && str_view.find_first_not_of('\n') != StringView::npos) {
+      next = str_view.getTokenAndShrink('\n');
+      next.removeLeadingSpaces();
+    }
+    return next;
+  };
+
   // For each new line
-  StringView line = str_view.getTokenAndShrink('\n');
-  line.removeLeadingSpaces();
+  StringView line = get_line();
   while (!line.empty()) {
     Vector<T> line_vec;
 
@@ -41,18 +51,9 @@ stringToLattice(String const & str, char const delimiter = ' ') -> Vector<Vector
     result.emplace_back(um2::move(line_vec));
 
     // Get the next line
-    line = str_view.getTokenAndShrink('\n');
-    line.removeLeadingSpaces();
+    line = get_line();
   }
 
-#if UM2_ENABLE_ASSERTS
-  str_view.removeLeadingSpaces();
-  bool const last_line_empty = str_view.empty();
-  bool const last_line_has_more_values =
-      str_view.find_first_not_of(delimiter) == StringView::npos;
-  ASSERT(last_line_empty || last_line_has_more_values);
-#endif
-
   return result;
 }
 
-- 
2.43.0


From 2f80e14ec7021691de7071c007b23efccbfeb9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:28 +0000
Subject: [PATCH 36/36] fix: let a global mesh size take effect after a mesh
 field was used

---
 src/gmsh/mesh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/gmsh/mesh.cpp b/src/gmsh/mesh.cpp
index 8bbf62c..fd3bea0 100644
--- a/src/gmsh/mesh.cpp
+++ b/src/gmsh/mesh.cpp
@@ -32,6 +32,9 @@ setGlobalMeshSize(double const size)
   gmsh::vectorpair dimtags;
   gmsh::model::getEntities(dimtags, 0);
   gmsh::model::mesh::setSize(dimtags, size);
+  // These are switched off for the session when a mesh field is used
+  gmsh::option::setNumber("Mesh.MeshSizeExtendFromBoundary", 1);
+  gmsh::option::setNumber("Mesh.MeshSizeFromPoints", 1);
 }
 
 //=============================================================================
-- 
2.43.0

