From 1f0f1b32518566263a63694f6dbdf13159b3a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 01/40] fix: copying a null shared pointer dereferences the
 null handle

---
 lib/mito/utilities/SharedPointer.icc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 5e7bdda..0ec2b6b 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -172,8 +172,12 @@ template <class resourceT>
 constexpr auto
 mito::utilities::SharedPointer<resourceT>::_acquire() const -> void
 {
-    // acquire resource (increment reference count)
-    _handle->_acquire();
+    // if the handle is in valid state
+    if (_handle != nullptr) {
+        // acquire resource (increment reference count)
+        _handle->_acquire();
+    }
+
     // all done
     return;
 }
-- 
2.43.0


From 59a748020db3ca555bf32fb385b3c48b1edfbe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 02/40] fix: move assignment of shared pointers to the same
 resource leaks a reference

---
 lib/mito/utilities/SharedPointer.icc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 0ec2b6b..04c5e44 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -152,17 +152,16 @@ constexpr mito::utilities::SharedPointer<resourceT> &
 mito::utilities::SharedPointer<resourceT>::operator=(
     mito::utilities::SharedPointer<resourceT> && other) noexcept
 {
-    // if {other} and I point to different handles
-    if (other._handle != _handle) {
+    // if {other} and I are not the same object
+    if (&other != this) {
         // release my current handle
         _release();
-        // adopt the new shareable
+        // adopt the new shareable, along with the reference held by {other}
         _handle = std::move(other._handle);
+        // invalidate {other}
+        other._handle = nullptr;
     }
 
-    // invalidate {other}
-    other._handle = nullptr;
-
     // all done
     return *this;
 }
-- 
2.43.0


From defaba531df706fd41509bc6d6dfa67517563072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 03/40] fix: post-increment of segmented container iterators
 stops on erased elements

---
 lib/mito/utilities/SegmentedContainerIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/SegmentedContainerIterator.h b/lib/mito/utilities/SegmentedContainerIterator.h
index 99304a0..ddfd157 100644
--- a/lib/mito/utilities/SegmentedContainerIterator.h
+++ b/lib/mito/utilities/SegmentedContainerIterator.h
@@ -103,8 +103,8 @@ namespace mito::utilities {
         {
             // make a copy of me
             auto clone = *this;
-            // increment me
-            ++_segmented_iterator;
+            // increment me (skipping the invalid elements)
+            ++(*this);
             // and return the clone
             return clone;
         }
-- 
2.43.0


From f933d1a2a623760e20c4b72a673bf05a97cf02fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 04/40] fix: iterating over a long run of erased elements
 overflows the stack

---
 .../utilities/SegmentedContainerIterator.h    | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/lib/mito/utilities/SegmentedContainerIterator.h b/lib/mito/utilities/SegmentedContainerIterator.h
index ddfd157..4aed3b0 100644
--- a/lib/mito/utilities/SegmentedContainerIterator.h
+++ b/lib/mito/utilities/SegmentedContainerIterator.h
@@ -81,18 +81,13 @@ namespace mito::utilities {
         // arithmetic: prefix
         constexpr auto operator++() -> iterator_reference
         {
-            // increment the iterator to the segmented allocator
-            ++_segmented_iterator;
-
-            if (_segmented_iterator.ptr() == std::end(_segmented_iterator)) {
-                return *this;
-            }
-
-            // if you found an invalid element
-            if (!_segmented_iterator->is_valid()) {
-                // move on to the next one
-                return operator++();
-            }
+            do {
+                // increment the iterator to the segmented allocator
+                ++_segmented_iterator;
+                // and skip the invalid elements (without recursion, as there may be many)
+            } while (
+                _segmented_iterator.ptr() != std::end(_segmented_iterator)
+                && !_segmented_iterator->is_valid());
 
             // all done
             return *this;
-- 
2.43.0


From 4972ee8e3b8159cba4a872209400a469c7a94daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 05/40] fix: repository erases resources that are still in use
 by other handles

---
 lib/mito/utilities/Repository.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mito/utilities/Repository.h b/lib/mito/utilities/Repository.h
index 1fde5a3..5644a8d 100644
--- a/lib/mito/utilities/Repository.h
+++ b/lib/mito/utilities/Repository.h
@@ -107,6 +107,11 @@ namespace mito::utilities {
                 return false;
             }
 
+            // if someone else is using the resource, do not erase it
+            if (resource.references() > 1) {
+                return false;
+            }
+
             // remove this resource from the collection of resources
             _resources.erase(resource.handle());
             // destroy the resource
-- 
2.43.0


From c5301303e3ee933e9b1841df767bd74bfad14117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 06/40] fix: repository destructor destroys again the resources
 that were erased

---
 lib/mito/utilities/Repository.h         |  9 +++++++--
 lib/mito/utilities/SegmentedAllocator.h | 17 +++++++++++++++++
 lib/mito/utilities/externals.h          |  1 +
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/Repository.h b/lib/mito/utilities/Repository.h
index 5644a8d..e43b789 100644
--- a/lib/mito/utilities/Repository.h
+++ b/lib/mito/utilities/Repository.h
@@ -70,9 +70,14 @@ namespace mito::utilities {
         // destructor
         ~Repository()
         {
-            // destroy all resources
+            // the locations of the erased resources (which are already destroyed)
+            const auto erased = _resources.available_locations();
+
+            // destroy all resources that have not been destroyed yet
             for (const auto & resource : _resources) {
-                resource.~resource_type();
+                if (!erased.contains(&resource)) {
+                    resource.~resource_type();
+                }
             }
         }
 
diff --git a/lib/mito/utilities/SegmentedAllocator.h b/lib/mito/utilities/SegmentedAllocator.h
index eb6264b..4f57791 100644
--- a/lib/mito/utilities/SegmentedAllocator.h
+++ b/lib/mito/utilities/SegmentedAllocator.h
@@ -130,6 +130,23 @@ namespace mito::utilities {
 
         inline auto segment_size() const noexcept -> int { return _segment_size; }
 
+        // the locations of the erased elements, which are available for reuse
+        auto available_locations() const -> std::set<const resource_type *>
+        {
+            // make a copy of the queue of the available locations (which cannot be iterated on)
+            auto queue = _available_locations;
+
+            // empty the copy into a set
+            std::set<const resource_type *> locations;
+            while (!queue.empty()) {
+                locations.insert(queue.front());
+                queue.pop();
+            }
+
+            // all done
+            return locations;
+        }
+
       private:
         auto _allocate_new_segment() -> unqualified_pointer
         {
diff --git a/lib/mito/utilities/externals.h b/lib/mito/utilities/externals.h
index 53b64ec..f2c1031 100644
--- a/lib/mito/utilities/externals.h
+++ b/lib/mito/utilities/externals.h
@@ -10,6 +10,7 @@
 // externals
 #include <cassert>
 #include <queue>
+#include <set>
 #include <vector>
 #include <utility>
 #include <memory>
-- 
2.43.0


From 49d2362609a167df497ae2393e97612ee37e11b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 07/40] fix: segment existence query misses segments whose tips
 have the opposite orientation

---
 lib/mito/topology/Topology.icc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/Topology.icc b/lib/mito/topology/Topology.icc
index c675660..eaca815 100644
--- a/lib/mito/topology/Topology.icc
+++ b/lib/mito/topology/Topology.icc
@@ -265,9 +265,16 @@ mito::topology::Topology::exists(const simplex_composition_t<N> & simplices) con
 inline auto
 mito::topology::Topology::exists(const vertex_simplex_composition_t<1> & vertices) const -> bool
 {
+    // find a tip simplex riding on {vertex}, possibly with the opposite of the requested orientation
+    // (a flipped segment does not need the existence of flipped tips)
+    auto find_tip = [this](const vertex_t & vertex, orientation_t orientation) {
+        auto tip = _get_factory<0>().findOrientedSimplex(vertex, orientation);
+        return tip.is_nullptr() ? _get_factory<0>().findOrientedSimplex(vertex, -orientation) : tip;
+    };
+
     // find left and right tip simplices
-    auto simplex_left_tip = _get_factory<0>().findOrientedSimplex(vertices[0], -1);
-    auto simplex_right_tip = _get_factory<0>().findOrientedSimplex(vertices[1], +1);
+    auto simplex_left_tip = find_tip(vertices[0], -1);
+    auto simplex_right_tip = find_tip(vertices[1], +1);
 
     // if both are are found
     if (!simplex_left_tip.is_nullptr() && !simplex_right_tip.is_nullptr()) {
-- 
2.43.0


From 96c10fe6c6c84c80ef35fb94775bbf181ad17c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 08/40] fix: flip_diagonal failed on triangles riding an
 oppositely oriented footprint

---
 lib/mito/topology/FlipDiagonal.icc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/FlipDiagonal.icc b/lib/mito/topology/FlipDiagonal.icc
index 2f7b1ea..27f9773 100644
--- a/lib/mito/topology/FlipDiagonal.icc
+++ b/lib/mito/topology/FlipDiagonal.icc
@@ -100,7 +100,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex0->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // insert it as it is oriented in the boundary of {simplex0}
+                boundary_simplices.insert(
+                    simplex0->orientation() == +1 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 2);
@@ -108,7 +110,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex1->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // insert it as it is oriented in the boundary of {simplex1}
+                boundary_simplices.insert(
+                    simplex1->orientation() == +1 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 4);
-- 
2.43.0


From e2b49569154a0394d5322b2a154c9ce76f4c8dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 09/40] fix: the wedge product of a one-form and a two-form
 dropped a term of the alternating sum

---
 lib/mito/tensor/wedge.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/mito/tensor/wedge.h b/lib/mito/tensor/wedge.h
index 9d62b50..9da58d0 100644
--- a/lib/mito/tensor/wedge.h
+++ b/lib/mito/tensor/wedge.h
@@ -67,7 +67,7 @@ namespace mito::tensor {
     requires(P1 == 1 && P2 == 2)
     {
         // positive sign if P1 is even, negative sign if P1 is odd
-        constexpr int sign = (P1 % 2 ? +1 : -1);
+        constexpr int sign = (P1 % 2 ? -1 : +1);
 
         return form<P1 + P2>(
                    [a_tilda, b_tilda]<class X, class Y, class Z>(
@@ -78,7 +78,10 @@ namespace mito::tensor {
                    * form<P1 + P2>(
                        [a_tilda, b_tilda]<class X, class Y, class Z>(
                            const X & x, const Y & y, const Z & z) -> auto {
-                           return wedge(b_tilda, a_tilda(x, y))(z);
+                           // the contraction of the first slot of {a_tilda} with {x}
+                           auto a_tilda_x =
+                               one_form([a_tilda, x](const auto & v) { return a_tilda(x, v); });
+                           return wedge(b_tilda, a_tilda_x)(y, z);
                        });
     }
 }
-- 
2.43.0


From 34baa062e9ac8972ae3cc6e4c584c4e35404320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 10/40] fix: cartesian x_2 extracted the wrong coordinate

---
 lib/mito/geometry/cartesian/api.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/geometry/cartesian/api.h b/lib/mito/geometry/cartesian/api.h
index 25e4626..94dec70 100644
--- a/lib/mito/geometry/cartesian/api.h
+++ b/lib/mito/geometry/cartesian/api.h
@@ -37,7 +37,7 @@ namespace mito::geometry::cartesian {
     // the function extracting the 2-nd coordinate from a cartesian coordinate set
     template <int D>
     requires(D > 2)
-    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 1>;
+    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 2>;
 
     // the basis for vector fields (e_0)
     template <int D>
-- 
2.43.0


From 893ba27b646c36788b43cf6d4e725f5d5231ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 11/40] fix: the one-form equivalent to a vector contracted it
 with the inverse metric

---
 lib/mito/geometry/metric_space.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mito/geometry/metric_space.h b/lib/mito/geometry/metric_space.h
index e6e5343..6d98c61 100644
--- a/lib/mito/geometry/metric_space.h
+++ b/lib/mito/geometry/metric_space.h
@@ -88,7 +88,11 @@ namespace mito::geometry {
         const fields::vector_field_c auto & vector)
     {
         // return a one form field that, once evaluated at {x}...
-        return _one_form(vector, g_inv);
+        return functions::function([vector](const coordinates_type & x) {
+            // returns the scalar product with {vector(x)} (the components of vectors refer to the
+            // normalized basis, so the metric contributes nothing else)
+            return tensor::one_form(vector(x), tensor::identity<D>);
+        });
     }
 
     template <coordinates_c coordsT>
-- 
2.43.0


From 2411c32acaa49aa7414d5294424790fffa89986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 12/40] fix: facets of cells oriented against their footprint
 were misclassified

---
 lib/mito/mesh/Boundary.icc | 15 +++++++++------
 lib/mito/mesh/Mesh.h       | 27 ++++++++++++++++++++++++---
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/lib/mito/mesh/Boundary.icc b/lib/mito/mesh/Boundary.icc
index 374cb47..e568c7b 100644
--- a/lib/mito/mesh/Boundary.icc
+++ b/lib/mito/mesh/Boundary.icc
@@ -21,8 +21,8 @@ mito::mesh::Boundary<meshT>::boundary_size(const mesh_type & mesh) -> int
         // loop on the topological composition of {cell} and
         // increment counter if {subcell} is on the boundary of the mesh
         count +=
-            std::ranges::count_if(cell.simplex()->composition(), [&mesh](const auto & subcell) {
-                return mesh.isOnBoundary(subcell);
+            std::ranges::count_if(cell.simplex()->composition(), [&mesh, &cell](const auto & subcell) {
+                return mesh.isOnBoundary(cell, subcell);
             });
     }
 
@@ -41,13 +41,16 @@ mito::mesh::Boundary<meshT>::boundary(const mesh_type & mesh) -> boundary_mesh_t
     for (const auto & cell : mesh.cells()) {
         // create view of {subcell}s on the boundary of the mesh
         auto subcellsOnBoundary =
-            cell.simplex()->composition() | std::views::filter([&mesh](const auto & subcell) {
-                return mesh.isOnBoundary(subcell);
+            cell.simplex()->composition() | std::views::filter([&mesh, &cell](const auto & subcell) {
+                return mesh.isOnBoundary(cell, subcell);
             });
         // loop on the {subcell} on the boundary
         for (const auto & subcell : subcellsOnBoundary) {
-            // add {cell} to the boundary mesh
-            boundary.insert(mito::geometry::geometric_simplex<D>(subcell, cell.nodes()));
+            // add {subcell}, as it is oriented in the boundary of {cell}, to the boundary mesh
+            boundary.insert(
+                mito::geometry::geometric_simplex<D>(
+                    cell.simplex()->orientation() == +1 ? subcell : topology::flip(subcell),
+                    cell.nodes()));
         }
     }
 
diff --git a/lib/mito/mesh/Mesh.h b/lib/mito/mesh/Mesh.h
index 1c529b6..a252cea 100644
--- a/lib/mito/mesh/Mesh.h
+++ b/lib/mito/mesh/Mesh.h
@@ -67,14 +67,23 @@ namespace mito::mesh {
         Mesh & operator=(Mesh &&) noexcept = delete;
 
       private:
+        // the orientation of the subcell {subcell} in the boundary of {cell}
+        static inline auto _subcell_orientation(
+            const cell_type & cell, const cell_topological_family_type<N - 1> & subcell) -> int
+        {
+            // a cell oriented opposite to its footprint has the boundary of the footprint, reversed
+            return cell.simplex()->orientation() * subcell->orientation();
+        }
+
         inline auto _register_cell_orientation(const cell_type & cell) -> void
         {
             // loop on the subcells of {cell}
             for (const auto & subcell : cell.simplex()->composition()) {
                 // increment the orientations count for this cell footprint id, depending on the
                 // orientation
-                (subcell->orientation() == +1 ? _orientations[subcell->footprint().id()][0] += 1 :
-                                                _orientations[subcell->footprint().id()][1] += 1);
+                (_subcell_orientation(cell, subcell) == +1 ?
+                     _orientations[subcell->footprint().id()][0] += 1 :
+                     _orientations[subcell->footprint().id()][1] += 1);
             }
 
             // all done
@@ -111,7 +120,7 @@ namespace mito::mesh {
                 for (const auto & subcell : cell.simplex()->composition()) {
                     // decrement the orientations count for this cell footprint id, depending on
                     // the orientation
-                    (subcell->orientation() == +1 ?
+                    (_subcell_orientation(cell, subcell) == +1 ?
                          _orientations[subcell->footprint().id()][0] -= 1 :
                          _orientations[subcell->footprint().id()][1] -= 1);
 
@@ -176,6 +185,18 @@ namespace mito::mesh {
             return false;
         }
 
+        // returns whether the subcell {subcell} of {cell} is on the boundary
+        inline auto isOnBoundary(
+            const cell_type & cell, const cell_topological_family_type<N - 1> & subcell) const
+            -> bool
+        {
+            // the subcell is on the boundary if it never occurs in the mesh with the opposite of
+            // the orientation it has in the boundary of {cell}
+            return _orientations.at(
+                       subcell->footprint().id())[_subcell_orientation(cell, subcell) == -1 ? 0 : 1]
+                == 0;
+        }
+
         // insert {cell} in mesh
         inline auto insert(const cell_type & cell) -> cell_type &
         requires(N > 0)
-- 
2.43.0


From 71845d346b529ef08a69784441b051098461e1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 13/40] fix: refining a mesh duplicated the nodes on edges
 shared by cells

---
 lib/mito/mesh/externals.h |   2 +
 lib/mito/mesh/tetra.h     | 123 +++++++++++++++++++++++++++-----------
 2 files changed, 91 insertions(+), 34 deletions(-)

diff --git a/lib/mito/mesh/externals.h b/lib/mito/mesh/externals.h
index 6b9ac64..bad7c03 100644
--- a/lib/mito/mesh/externals.h
+++ b/lib/mito/mesh/externals.h
@@ -7,6 +7,8 @@
 #pragma once
 
 // externals
+#include <algorithm>
+#include <map>
 #include <ranges>
 #include <unordered_map>
 
diff --git a/lib/mito/mesh/tetra.h b/lib/mito/mesh/tetra.h
index b814332..92b415a 100644
--- a/lib/mito/mesh/tetra.h
+++ b/lib/mito/mesh/tetra.h
@@ -9,15 +9,53 @@
 
 namespace mito::mesh {
 
+    // the nodes at the midpoints of the edges subdivided so far
+    template <int D /*spatial dimension*/>
+    struct midnodes_t {
+        // a map from an edge (the ids of its two ends) to the node at its midpoint
+        using map_type =
+            std::map<std::pair<std::uintptr_t, std::uintptr_t>, geometry::node_t<D>>;
+        // the midpoints of the edges between two nodes
+        map_type of_nodes;
+        // the midpoints of the edges between two vertices (different nodes can ride on a vertex)
+        map_type of_vertices;
+    };
+
     template <int D /*spatial dimension*/, geometry::coordinates_c coordT>
     requires(coordT::dim == D)
     auto midnode(
         const geometry::node_t<D> & node_a, const geometry::node_t<D> & node_b,
-        geometry::coordinate_system_t<coordT> & coordinate_system) -> geometry::node_t<D>
+        geometry::coordinate_system_t<coordT> & coordinate_system, midnodes_t<D> & midnodes)
+        -> geometry::node_t<D>
     {
-        // return a new node at the midpoint between {node_a} and {node_b}
-        return mito::geometry::node(
-            coordinate_system, coordinate_system.midpoint(node_a->point(), node_b->point()));
+        // if the edge between {node_a} and {node_b} has a midpoint already, return it
+        auto nodes = std::pair(std::minmax({ node_a.id(), node_b.id() }));
+        auto it = midnodes.of_nodes.find(nodes);
+        if (it != std::end(midnodes.of_nodes)) {
+            return it->second;
+        }
+
+        // if no edge between the vertices of {node_a} and {node_b} has a midpoint yet
+        auto vertices = std::pair(std::minmax({ node_a->vertex().id(), node_b->vertex().id() }));
+        auto it_vertices = midnodes.of_vertices.find(vertices);
+        if (it_vertices == std::end(midnodes.of_vertices)) {
+            // make a new node at the midpoint between {node_a} and {node_b}
+            auto node = mito::geometry::node(
+                coordinate_system, coordinate_system.midpoint(node_a->point(), node_b->point()));
+            // take note of it
+            midnodes.of_nodes.emplace(nodes, node);
+            midnodes.of_vertices.emplace(vertices, node);
+            // and return it
+            return node;
+        }
+
+        // otherwise, make a new node riding on the same vertex and the same point
+        const auto & twin = it_vertices->second;
+        auto node = geometry::node_t<D>(twin->vertex(), twin->point());
+        // take note of it
+        midnodes.of_nodes.emplace(nodes, node);
+        // and return it
+        return node;
     }
 
     template <int D /*spatial dimension*/, geometry::coordinates_c coordT>
@@ -25,10 +63,11 @@ namespace mito::mesh {
     auto subdivide(
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         geometry::coordinate_system_t<coordT> & coordinate_system,
-        mesh_t<geometry::segment_t<D>> & subdivided_mesh, int n_refinements) -> void
+        mesh_t<geometry::segment_t<D>> & subdivided_mesh, midnodes_t<D> & midnodes,
+        int n_refinements) -> void
     {
         // compute the middle node of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -42,8 +81,10 @@ namespace mito::mesh {
         }
 
         // otherwise recursively subdivide the four cells
-        subdivide(node_0, node_01, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_01, node_1, coordinate_system, subdivided_mesh, n_refinements - 1);
+        subdivide(
+            node_0, node_01, coordinate_system, subdivided_mesh, midnodes, n_refinements - 1);
+        subdivide(
+            node_01, node_1, coordinate_system, subdivided_mesh, midnodes, n_refinements - 1);
 
         // all done
         return;
@@ -55,16 +96,17 @@ namespace mito::mesh {
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         const geometry::node_t<D> & node_2,
         geometry::coordinate_system_t<coordT> & coordinate_system,
-        mesh_t<geometry::triangle_t<D>> & subdivided_mesh, int n_refinements) -> void
+        mesh_t<geometry::triangle_t<D>> & subdivided_mesh, midnodes_t<D> & midnodes,
+        int n_refinements) -> void
     {
         // compute the middle point of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->2
-        auto node_12 = midnode(node_1, node_2, coordinate_system);
+        auto node_12 = midnode(node_1, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 2->0
-        auto node_20 = midnode(node_2, node_0, coordinate_system);
+        auto node_20 = midnode(node_2, node_0, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -80,10 +122,18 @@ namespace mito::mesh {
         }
 
         // otherwise recursively subdivide the four cells
-        subdivide(node_0, node_01, node_20, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_01, node_1, node_12, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_12, node_2, node_20, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_20, node_01, node_12, coordinate_system, subdivided_mesh, n_refinements - 1);
+        subdivide(
+            node_0, node_01, node_20, coordinate_system, subdivided_mesh, midnodes,
+            n_refinements - 1);
+        subdivide(
+            node_01, node_1, node_12, coordinate_system, subdivided_mesh, midnodes,
+            n_refinements - 1);
+        subdivide(
+            node_12, node_2, node_20, coordinate_system, subdivided_mesh, midnodes,
+            n_refinements - 1);
+        subdivide(
+            node_20, node_01, node_12, coordinate_system, subdivided_mesh, midnodes,
+            n_refinements - 1);
 
         // all done
         return;
@@ -95,25 +145,26 @@ namespace mito::mesh {
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         const geometry::node_t<D> & node_2, const geometry::node_t<D> & node_3,
         geometry::coordinate_system_t<coordT> & coordinate_system,
-        mesh_t<geometry::tetrahedron_t<D>> & subdivided_mesh, int n_refinements) -> void
+        mesh_t<geometry::tetrahedron_t<D>> & subdivided_mesh, midnodes_t<D> & midnodes,
+        int n_refinements) -> void
     {
         // compute the middle point of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // compute the middle point of the segment 0->2
-        auto node_02 = midnode(node_0, node_2, coordinate_system);
+        auto node_02 = midnode(node_0, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 0->3
-        auto node_03 = midnode(node_0, node_3, coordinate_system);
+        auto node_03 = midnode(node_0, node_3, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->2
-        auto node_12 = midnode(node_1, node_2, coordinate_system);
+        auto node_12 = midnode(node_1, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->3
-        auto node_13 = midnode(node_1, node_3, coordinate_system);
+        auto node_13 = midnode(node_1, node_3, coordinate_system, midnodes);
 
         // compute the middle point of the segment 2->3
-        auto node_23 = midnode(node_2, node_3, coordinate_system);
+        auto node_23 = midnode(node_2, node_3, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -134,28 +185,28 @@ namespace mito::mesh {
 
         // otherwise recursively subdivide the four cells
         subdivide(
-            node_0, node_01, node_02, node_03, coordinate_system, subdivided_mesh,
+            node_0, node_01, node_02, node_03, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_1, node_01, node_13, node_12, coordinate_system, subdivided_mesh,
+            node_1, node_01, node_13, node_12, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_2, node_02, node_12, node_23, coordinate_system, subdivided_mesh,
+            node_2, node_02, node_12, node_23, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_03, node_3, node_13, node_23, coordinate_system, subdivided_mesh,
+            node_03, node_3, node_13, node_23, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_02, node_01, node_13, node_03, coordinate_system, subdivided_mesh,
+            node_02, node_01, node_13, node_03, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_02, node_03, node_13, node_23, coordinate_system, subdivided_mesh,
+            node_02, node_03, node_13, node_23, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_01, node_02, node_13, node_12, coordinate_system, subdivided_mesh,
+            node_01, node_02, node_13, node_12, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_02, node_23, node_13, node_12, coordinate_system, subdivided_mesh,
+            node_02, node_23, node_13, node_12, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
 
         // all done
@@ -184,6 +235,9 @@ namespace mito::mesh {
             return subdivided_mesh;
         }
 
+        // the nodes at the midpoints of the edges of the mesh (which are shared among the cells)
+        midnodes_t<cellT::dim> midnodes;
+
         // loop on the cells of the mesh
         for (const auto & cell : mesh.cells()) {
 
@@ -194,14 +248,15 @@ namespace mito::mesh {
             constexpr auto _subdivide =
                 []<size_t... J>(
                     const auto & nodes, geometry::coordinate_system_t<coordT> & coordinate_system,
-                    mesh_t<cellT> & subdivided_mesh, int n_refinements, std::index_sequence<J...>) {
+                    mesh_t<cellT> & subdivided_mesh, midnodes_t<cellT::dim> & midnodes,
+                    int n_refinements, std::index_sequence<J...>) {
                     return subdivide(
-                        nodes[J]..., coordinate_system, subdivided_mesh, n_refinements);
+                        nodes[J]..., coordinate_system, subdivided_mesh, midnodes, n_refinements);
                 };
 
             // recursively subdivide the cell identified by these vertices
             _subdivide(
-                nodes, coordinate_system, subdivided_mesh, n_refinements,
+                nodes, coordinate_system, subdivided_mesh, midnodes, n_refinements,
                 std::make_index_sequence<cellT::order + 1>{});
         }
 
-- 
2.43.0


From ad6e7babe9063a0cb7024efe7bf0a503e2a9aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 14/40] fix: sum of a function and a constant was converted
 back to the type of the function

---
 lib/mito/functions/function.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mito/functions/function.h b/lib/mito/functions/function.h
index c0f2f87..d0dba5d 100644
--- a/lib/mito/functions/function.h
+++ b/lib/mito/functions/function.h
@@ -244,11 +244,12 @@ namespace mito::functions {
 
     // the sum of a function with a constant
     template <tensor::tensor_or_scalar_c T, function_c F>
-    class FunctionPlusConstant : public function_type<F> {
+    class FunctionPlusConstant :
+        public function_sum<F, Constant<typename F::input_type, T>>::type {
 
       public:
         // the type of function (what I derive from)
-        using function_type = functions::function_type<F>;
+        using function_type = function_sum<F, Constant<typename F::input_type, T>>::type;
         // the input type of the sum
         using input_type = function_type::input_type;
         // the output type of the sum
-- 
2.43.0


From 89637cdd152ef143b13d765a780ea6ddf9af8ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 15/40] fix: reciprocal of an integer valued function was
 truncated

---
 lib/mito/functions/function.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/functions/function.h b/lib/mito/functions/function.h
index d0dba5d..d0f60ea 100644
--- a/lib/mito/functions/function.h
+++ b/lib/mito/functions/function.h
@@ -463,11 +463,11 @@ namespace mito::functions {
 
     // the reciprocal of a scalar function
     template <scalar_valued_function_c F>
-    class Reciprocal : public function_type<F> {
+    class Reciprocal : public Function<typename F::input_type, tensor::scalar_t> {
 
       public:
         // the type of function (what I derive from)
-        using function_type = functions::function_type<F>;
+        using function_type = Function<typename F::input_type, tensor::scalar_t>;
         // the input type of the sum
         using input_type = function_type::input_type;
         // the output type of the sum
-- 
2.43.0


From 48ebd0462f6b2dca00e8dd6269e8b1982b4b6803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 16/40] fix: transpose, inverse and reciprocal of a function of
 the same kind returned the function itself

---
 lib/mito/functions/algebra.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/lib/mito/functions/algebra.h b/lib/mito/functions/algebra.h
index 4a127c2..6542efd 100644
--- a/lib/mito/functions/algebra.h
+++ b/lib/mito/functions/algebra.h
@@ -79,22 +79,24 @@ namespace mito::functions {
     }
 
     // a / f
-    constexpr auto operator/(
-        const tensor::tensor_or_scalar_c auto & a, const scalar_valued_function_c auto & f)
+    template <scalar_valued_function_c F>
+    constexpr auto operator/(const tensor::tensor_or_scalar_c auto & a, const F & f)
     {
-        return a * Reciprocal(f);
+        return a * Reciprocal<F>(f);
     }
 
     // f1 / f2
-    constexpr auto operator/(const function_c auto & f1, const scalar_valued_function_c auto & f2)
+    template <function_c F1, scalar_valued_function_c F2>
+    constexpr auto operator/(const F1 & f1, const F2 & f2)
     {
-        return f1 * Reciprocal(f2);
+        return f1 * Reciprocal<F2>(f2);
     }
 
     // f transposed
-    constexpr auto transpose(const function_c auto & f)
+    template <function_c F>
+    constexpr auto transpose(const F & f)
     {
-        return Transpose(f);
+        return Transpose<F>(f);
     }
 
     // determinant of f
@@ -104,9 +106,10 @@ namespace mito::functions {
     }
 
     // f inverse
-    constexpr auto inverse(const function_c auto & f)
+    template <function_c F>
+    constexpr auto inverse(const F & f)
     {
-        return Inverse(f);
+        return Inverse<F>(f);
     }
 
     // dyadic product of vector-valued functions f and g
-- 
2.43.0


From ce0ae6786f95335357c6f58fe0ebb93740546212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 17/40] fix: composing a composition with a function did not
 compile

---
 lib/mito/functions/function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/functions/function.h b/lib/mito/functions/function.h
index d0f60ea..c7cbe06 100644
--- a/lib/mito/functions/function.h
+++ b/lib/mito/functions/function.h
@@ -515,7 +515,7 @@ namespace mito::functions {
         template <function_c H>
         constexpr auto operator()(const H & f) const
         {
-            return Composition(*this, f);
+            return Composition<Composition, H>(*this, f);
         }
 
         // subscript operator: only available if {output_type} is subscriptable
-- 
2.43.0


From 138554ce70f45e88ec947884c6c0b0db8d683665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:35 +0000
Subject: [PATCH 18/40] fix: derivative of a linear combination of functions of
 the same type did not compile

---
 lib/mito/functions/derivation_rules.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/mito/functions/derivation_rules.h b/lib/mito/functions/derivation_rules.h
index e535412..d29a59b 100644
--- a/lib/mito/functions/derivation_rules.h
+++ b/lib/mito/functions/derivation_rules.h
@@ -108,8 +108,11 @@ namespace mito::functions {
     constexpr auto derivative(const LinearCombination<T, Funcs...> & f)
     {
         // the derivative of a linear combination is the linear combination of the derivatives
-        return linear_combination(
-            f.coefficients(), derivative<I>(std::get<Funcs>(f.functions()))...);
+        return std::apply(
+            [&](const auto &... funcs) {
+                return linear_combination(f.coefficients(), derivative<I>(funcs)...);
+            },
+            f.functions());
     }
 }
 
-- 
2.43.0


From f687266d56bd4100f7803e1c266ca62bb2cacf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 19/40] fix: derivative of a component of a function used the
 index of a different packing

---
 lib/mito/functions/derivation_rules.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/mito/functions/derivation_rules.h b/lib/mito/functions/derivation_rules.h
index d29a59b..f20419c 100644
--- a/lib/mito/functions/derivation_rules.h
+++ b/lib/mito/functions/derivation_rules.h
@@ -99,8 +99,17 @@ namespace mito::functions {
     template <int I, class F, typename indexT>
     constexpr auto derivative(const Subscript<F, indexT> & f)
     {
-        // the derivative of the subscript is the subscript of the derivative
-        return Subscript(derivative<I>(f.f()), f.index());
+        // the output type of the function
+        using output_type = typename F::output_type;
+        // the derivative of the function
+        auto df = derivative<I>(f.f());
+        // the derivative of the subscript is the subscript of the derivative...
+        if constexpr (std::is_same_v<typename decltype(df)::output_type, output_type>) {
+            return Subscript(df, f.index());
+        } else {
+            // ... once represented with the same packing as the function
+            return Subscript(df + output_type{}, f.index());
+        }
     }
 
     // the I-th first partial derivative of a linear combination
-- 
2.43.0


From 044d763564ec1cfcaf1de5f20b4700c71507f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 20/40] fix: iterating over a point cloud used references to
 temporary iterators

---
 lib/mito/geometry/PointCloud.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/geometry/PointCloud.h b/lib/mito/geometry/PointCloud.h
index 3d011a5..0af9a69 100644
--- a/lib/mito/geometry/PointCloud.h
+++ b/lib/mito/geometry/PointCloud.h
@@ -47,8 +47,8 @@ namespace mito::geometry {
         }
 
         // support for ranged for loops (wrapping grid)
-        inline auto begin() const -> const auto & { return std::begin(_cloud); }
-        inline auto end() const -> const auto & { return std::end(_cloud); }
+        inline auto begin() const { return std::begin(_cloud); }
+        inline auto end() const { return std::end(_cloud); }
 
         auto size() const noexcept -> int { return std::size(_cloud); }
 
-- 
2.43.0


From 20eba5b4f379255eded49507380b2a9ea494fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:45 +0000
Subject: [PATCH 21/40] fix: parametrization of cells in curvilinear
 coordinates divided by zero

---
 lib/mito/geometry/GeometricSimplex.h | 34 ++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/lib/mito/geometry/GeometricSimplex.h b/lib/mito/geometry/GeometricSimplex.h
index e5bd3aa..46c5987 100644
--- a/lib/mito/geometry/GeometricSimplex.h
+++ b/lib/mito/geometry/GeometricSimplex.h
@@ -153,8 +153,38 @@ namespace mito::geometry {
                       * (coordinate_system.coordinates(nodes[a]->point()) - origin)))
                     + ...);
             };
-            return _assemble(
-                _nodes, coordinate_system, tensor::make_integer_sequence<n_vertices>{});
+            // helper to assemble the parametrization on this simplex in curvilinear coordinates, where
+            // vectors stemming from different points cannot be combined: reach the points of the
+            // simplex from the first node along the directors of the simplex
+            constexpr auto _assemble_curvilinear = []<int... a>(
+                                                       const auto & nodes,
+                                                       const auto & coordinate_system,
+                                                       tensor::integer_sequence<a...>) {
+                // get the coordinates of the first node
+                const auto x0 = coordinate_system.coordinates(nodes[0]->point());
+
+                // get the directors of the simplex
+                const auto directors =
+                    std::array{ (coordinate_system.coordinates(nodes[a + 1]->point()) - x0)... };
+
+                // assemble the parametrization as x0 + xi<1> * (x1 - x0) + ...
+                return functions::function(
+                    [x0, directors](const parametric_coordinates_type & xi) {
+                        return x0
+                             + ((reference_simplex_type::template xi<a + 1>(xi) * directors[a])
+                                + ...);
+                    });
+            };
+
+            if constexpr (std::is_same_v<
+                              typename coordinateSystemT::coordinates_type,
+                              coordinates_t<D, CARTESIAN>>) {
+                return _assemble(
+                    _nodes, coordinate_system, tensor::make_integer_sequence<n_vertices>{});
+            } else {
+                return _assemble_curvilinear(
+                    _nodes, coordinate_system, tensor::make_integer_sequence<N>{});
+            }
         }
 
       private:
-- 
2.43.0


From fd46f19dc94485f3a24d18389b3d20b9ed112a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 22/40] fix: the factory of quadrature fields did not compile

---
 lib/mito/discrete/factories.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/mito/discrete/factories.h b/lib/mito/discrete/factories.h
index 4dffe31..86b82bb 100644
--- a/lib/mito/discrete/factories.h
+++ b/lib/mito/discrete/factories.h
@@ -13,10 +13,18 @@ namespace mito::discrete {
     template <class Y, int Q, mesh::mesh_c meshT>
     constexpr auto quadrature_field(const meshT & mesh, std::string name)
     {
+        // the type of the topological cells
+        using cell_type = typename meshT::cell_type::simplex_type;
+
+        // collect the topological cells in the mesh
+        std::unordered_set<cell_type, utilities::hash_function<cell_type>> cells;
+        for (const auto & cell : mesh.cells()) {
+            cells.insert(cell.simplex());
+        }
+
         // build a quadrature field on the cells collected from the mesh
         // ({Q} quad points per cell)
-        return quadrature_field_t<typename meshT::cell_type::simplex_type, Q, Y>(
-            mesh.cells(), name);
+        return quadrature_field_t<cell_type, Q, Y>(cells, name);
     }
 
     // mesh field factory
-- 
2.43.0


From 0cb3541230dcce33d6393bb09d51fa499952d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:12 +0000
Subject: [PATCH 23/40] fix: discretizers dereferenced the end of the node map
 for constrained nodes outside of the manifold

---
 lib/mito/fem/elements/seg1/DiscretizerCG.h |  6 ++++--
 lib/mito/fem/elements/tri1/DiscretizerCG.h |  6 ++++--
 lib/mito/fem/elements/tri2/DiscretizerCG.h | 24 +++++++++++++++-------
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/lib/mito/fem/elements/seg1/DiscretizerCG.h b/lib/mito/fem/elements/seg1/DiscretizerCG.h
index 0043129..e335ef7 100644
--- a/lib/mito/fem/elements/seg1/DiscretizerCG.h
+++ b/lib/mito/fem/elements/seg1/DiscretizerCG.h
@@ -53,8 +53,10 @@ namespace mito::fem {
             for (const auto & node : constraints.domain()) {
                 // get the discretization node associated with the mesh node from the map
                 auto it = node_map.find(node);
-                // add the node to the constrained nodes
-                constrained_nodes.insert(it->second);
+                // add the node to the constrained nodes, if it belongs to the manifold
+                if (it != node_map.end()) {
+                    constrained_nodes.insert(it->second);
+                }
             }
 
             // all done
diff --git a/lib/mito/fem/elements/tri1/DiscretizerCG.h b/lib/mito/fem/elements/tri1/DiscretizerCG.h
index 2c4f2bc..011e4d7 100644
--- a/lib/mito/fem/elements/tri1/DiscretizerCG.h
+++ b/lib/mito/fem/elements/tri1/DiscretizerCG.h
@@ -54,8 +54,10 @@ namespace mito::fem {
                 for (const auto & node : cell.nodes()) {
                     // get the discretization node associated with the mesh node from the map
                     auto it = node_map.find(node);
-                    // add the node to the constrained nodes
-                    constrained_nodes.insert(it->second);
+                    // add the node to the constrained nodes, if it belongs to the manifold
+                    if (it != node_map.end()) {
+                        constrained_nodes.insert(it->second);
+                    }
                 }
             }
 
diff --git a/lib/mito/fem/elements/tri2/DiscretizerCG.h b/lib/mito/fem/elements/tri2/DiscretizerCG.h
index 6ab2511..1192271 100644
--- a/lib/mito/fem/elements/tri2/DiscretizerCG.h
+++ b/lib/mito/fem/elements/tri2/DiscretizerCG.h
@@ -87,17 +87,27 @@ namespace mito::fem {
                 for (const auto & node : cell.nodes()) {
                     // get the discretization node associated with the mesh node from the map
                     auto it = node_map.find(node);
-                    // add the node to the constrained nodes
-                    constrained_nodes.insert(it->second);
+                    // add the node to the constrained nodes, if it belongs to the manifold
+                    if (it != node_map.end()) {
+                        constrained_nodes.insert(it->second);
+                    }
                 }
-                auto node_0 = node_map.at(cell.nodes()[0]);
-                auto node_1 = node_map.at(cell.nodes()[1]);
+                auto it_0 = node_map.find(cell.nodes()[0]);
+                auto it_1 = node_map.find(cell.nodes()[1]);
+                // if the nodes of the cell do not belong to the manifold, neither does the mid node
+                if (it_0 == node_map.end() || it_1 == node_map.end()) {
+                    continue;
+                }
+                auto node_0 = it_0->second;
+                auto node_1 = it_1->second;
                 auto ordered_nodes = (node_0.id() < node_1.id()) ?
                                          std::array{ node_0.id(), node_1.id() } :
                                          std::array{ node_1.id(), node_0.id() };
-                auto node = mid_nodes_map.at(ordered_nodes);
-                // add the node to the constrained nodes
-                constrained_nodes.insert(node);
+                auto it_mid = mid_nodes_map.find(ordered_nodes);
+                // add the mid node to the constrained nodes, if it belongs to the manifold
+                if (it_mid != mid_nodes_map.end()) {
+                    constrained_nodes.insert(it_mid->second);
+                }
             }
 
             // all done
-- 
2.43.0


From 88b276ca654f47da750db054710ee388079dfa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 24/40] fix: the H1 norm measured gradients in the parametric
 coordinates of the elements, not in physical space

---
 lib/mito/fem/norms.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/mito/fem/norms.h b/lib/mito/fem/norms.h
index 79ea71a..ba745dd 100644
--- a/lib/mito/fem/norms.h
+++ b/lib/mito/fem/norms.h
@@ -62,11 +62,18 @@ namespace mito::fem {
             auto u1_local_gradient = fields::gradient(u1_local);
             // localize the gradient of the exact solution on this element
             auto u2_local_gradient = fields::gradient(u2_local);
+            // the difference of the gradients in the parametric coordinates of the element
+            auto parametric_gradient = u1_local_gradient - u2_local_gradient;
+            // the difference of the gradients in physical space
+            auto spatial_gradient = functions::function(
+                [&](const typename quadratureRuleT::quadrature_point_type & xi) {
+                    // push the gradient forward with the inverse jacobian of the element
+                    return parametric_gradient(xi) * tensor::inverse(element.jacobian()(xi));
+                });
             // compute the elementary contributions to the H1 norm
             norm += blocks::l2_norm_block<element_type, quadratureRuleT>(u1_local - u2_local)
                         .compute(element)
-                  + blocks::l2_norm_block<element_type, quadratureRuleT>(
-                        u1_local_gradient - u2_local_gradient)
+                  + blocks::l2_norm_block<element_type, quadratureRuleT>(spatial_gradient)
                         .compute(element);
         }
 
-- 
2.43.0


From 1318c3304a8559c76fa98616d2f478361319445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 25/40] fix: setting and adding entries of the same linear
 system lost values

---
 .../backend/petsc/PETScLinearSystem.cc        | 57 ++++++++++++++++++-
 .../backend/petsc/PETScLinearSystem.h         | 12 ++++
 2 files changed, 68 insertions(+), 1 deletion(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
index 3e96648..085092c 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
@@ -12,7 +12,9 @@
 // constructor
 mito::matrix_solvers::petsc::PETScLinearSystem::PETScLinearSystem(const label_type & label) :
     _label(label),
-    _n_equations(0)
+    _n_equations(0),
+    _matrix_insert_mode(NOT_SET_VALUES),
+    _rhs_insert_mode(NOT_SET_VALUES)
 {}
 
 // destructor
@@ -25,6 +27,10 @@ mito::matrix_solvers::petsc::PETScLinearSystem::create(index_type size) -> void
     // take note of the number of equations
     _n_equations = size;
 
+    // there are no entries yet
+    _matrix_insert_mode = NOT_SET_VALUES;
+    _rhs_insert_mode = NOT_SET_VALUES;
+
     // create the vectors
     PetscCallVoid(VecCreate(PETSC_COMM_WORLD, &_solution));
     PetscCallVoid(VecSetSizes(_solution, PETSC_DECIDE, size));
@@ -73,6 +79,7 @@ mito::matrix_solvers::petsc::PETScLinearSystem::assemble() -> void
     // assemble matrix
     PetscCallVoid(MatAssemblyBegin(_matrix, MAT_FINAL_ASSEMBLY));
     PetscCallVoid(MatAssemblyEnd(_matrix, MAT_FINAL_ASSEMBLY));
+    _matrix_insert_mode = NOT_SET_VALUES;
 
     // // show the matrix and the right-hand-side
     // PetscCallVoid(MatView(_matrix, PETSC_VIEWER_STDOUT_WORLD));
@@ -82,11 +89,50 @@ mito::matrix_solvers::petsc::PETScLinearSystem::assemble() -> void
     return;
 }
 
+// get the matrix ready for entries in a given mode
+auto
+mito::matrix_solvers::petsc::PETScLinearSystem::_matrix_mode(InsertMode mode) -> void
+{
+    // if there are pending entries in another mode
+    if (_matrix_insert_mode != NOT_SET_VALUES && _matrix_insert_mode != mode) {
+        // assemble them (flushing is not enough for matrices that are distributed)
+        PetscCallVoid(MatAssemblyBegin(_matrix, MAT_FINAL_ASSEMBLY));
+        PetscCallVoid(MatAssemblyEnd(_matrix, MAT_FINAL_ASSEMBLY));
+    }
+
+    // take note of the mode
+    _matrix_insert_mode = mode;
+
+    // all done
+    return;
+}
+
+// get the right-hand side ready for entries in a given mode
+auto
+mito::matrix_solvers::petsc::PETScLinearSystem::_rhs_mode(InsertMode mode) -> void
+{
+    // if there are pending entries in another mode
+    if (_rhs_insert_mode != NOT_SET_VALUES && _rhs_insert_mode != mode) {
+        // assemble them
+        PetscCallVoid(VecAssemblyBegin(_rhs));
+        PetscCallVoid(VecAssemblyEnd(_rhs));
+    }
+
+    // take note of the mode
+    _rhs_insert_mode = mode;
+
+    // all done
+    return;
+}
+
 // set the matrix entry at ({row}, {col}) to {value}
 auto
 mito::matrix_solvers::petsc::PETScLinearSystem::insert_matrix_value(
     index_type row, index_type col, const scalar_type & value) -> void
 {
+    // get ready
+    _matrix_mode(INSERT_VALUES);
+
     // delegate to PETSc
     PetscCallVoid(MatSetValue(_matrix, row, col, value, INSERT_VALUES));
 
@@ -99,6 +145,9 @@ auto
 mito::matrix_solvers::petsc::PETScLinearSystem::add_matrix_value(
     index_type row, index_type col, const scalar_type & value) -> void
 {
+    // get ready
+    _matrix_mode(ADD_VALUES);
+
     // delegate to PETSc
     PetscCallVoid(MatSetValue(_matrix, row, col, value, ADD_VALUES));
 
@@ -111,6 +160,9 @@ auto
 mito::matrix_solvers::petsc::PETScLinearSystem::insert_rhs_value(
     index_type row, const scalar_type & value) -> void
 {
+    // get ready
+    _rhs_mode(INSERT_VALUES);
+
     // delegate to PETSc
     PetscCallVoid(VecSetValue(_rhs, row, value, INSERT_VALUES));
 
@@ -123,6 +175,9 @@ auto
 mito::matrix_solvers::petsc::PETScLinearSystem::add_rhs_value(
     index_type row, const scalar_type & value) -> void
 {
+    // get ready
+    _rhs_mode(ADD_VALUES);
+
     // delegate to PETSc
     PetscCallVoid(VecSetValue(_rhs, row, value, ADD_VALUES));
 
diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
index 5f89f78..6f93ccf 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
@@ -68,6 +68,14 @@ namespace mito::matrix_solvers::petsc {
         // print the linear system
         auto print() const -> void;
 
+      private:
+        // get the matrix ready for entries in a given mode (PETSc does not allow to mix set and
+        // added entries without an assembly in between)
+        auto _matrix_mode(InsertMode) -> void;
+
+        // get the right-hand side ready for entries in a given mode
+        auto _rhs_mode(InsertMode) -> void;
+
       private:
         // a flag to recall if this instance has initialized PETSc
         bool _initialized_petsc;
@@ -81,6 +89,10 @@ namespace mito::matrix_solvers::petsc {
         vector_type _solution;
         // the number of equations
         int _n_equations;
+        // the mode of the matrix entries that are not assembled yet
+        InsertMode _matrix_insert_mode;
+        // the mode of the right-hand side entries that are not assembled yet
+        InsertMode _rhs_insert_mode;
     };
 
 }    // namespace mito
-- 
2.43.0


From fb939038cc151690dac698ef92399c1e8947ae52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 26/40] fix: right-hand side of linear systems was not
 assembled

---
 lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
index 085092c..76cd808 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
@@ -81,6 +81,11 @@ mito::matrix_solvers::petsc::PETScLinearSystem::assemble() -> void
     PetscCallVoid(MatAssemblyEnd(_matrix, MAT_FINAL_ASSEMBLY));
     _matrix_insert_mode = NOT_SET_VALUES;
 
+    // assemble right-hand side
+    PetscCallVoid(VecAssemblyBegin(_rhs));
+    PetscCallVoid(VecAssemblyEnd(_rhs));
+    _rhs_insert_mode = NOT_SET_VALUES;
+
     // // show the matrix and the right-hand-side
     // PetscCallVoid(MatView(_matrix, PETSC_VIEWER_STDOUT_WORLD));
     // PetscCallVoid(VecView(_rhs, PETSC_VIEWER_STDOUT_WORLD));
-- 
2.43.0


From a20b620340fcba19a9f4458d074f4b97375f7843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 27/40] fix: solver options lost negative values and were split
 at blanks only

---
 .../backend/petsc/PETScKrylovSolver.cc           | 16 ++++++----------
 .../matrix_solvers/backend/petsc/externals.h     |  2 ++
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
index c054596..48cb052 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
@@ -54,21 +54,17 @@ namespace {
         -> std::string
     {
         // split the {options} string into words and store them in a vector
-        size_t pos_old = 0;
-        size_t pos_new = 0;
+        std::istringstream stream(options);
         std::vector<std::string> options_vector;
-        while ((pos_new = options.find(" ", pos_old)) != std::string::npos) {
-            std::string word_string = options.substr(pos_old, pos_new - pos_old);
+        std::string word_string;
+        while (stream >> word_string) {
             options_vector.push_back(word_string);
-            pos_old = pos_new + 1;
         }
-        std::string word_string = options.substr(pos_old, pos_new - pos_old);
-        options_vector.push_back(word_string);
 
-        // for each word, if the leading character is '-', insert the {prefix} between '-' and the
-        // rest of the word
+        // for each word, if the leading character is '-' and a letter follows (negative numbers are
+        // values, not options), insert the {prefix} between '-' and the rest of the word
         for (auto & word : options_vector) {
-            if (word[0] == '-') {
+            if (word.size() > 1 && word[0] == '-' && std::isalpha((unsigned char) word[1])) {
                 word.erase(0, 1);
                 word = "-" + prefix + word;
             }
diff --git a/lib/mito/matrix_solvers/backend/petsc/externals.h b/lib/mito/matrix_solvers/backend/petsc/externals.h
index 08ed8f3..c968704 100644
--- a/lib/mito/matrix_solvers/backend/petsc/externals.h
+++ b/lib/mito/matrix_solvers/backend/petsc/externals.h
@@ -11,6 +11,8 @@
 #include <string>
 #include <vector>
 #include <cassert>
+#include <cctype>
+#include <sstream>
 
 // support
 #include "../../../journal.h"
-- 
2.43.0


From 269b3160ae92bfe3d03fba937cf2e9fdf676e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 28/40] fix: parallel solution of linear systems was read
 beyond the local entries

---
 .../backend/petsc/PETScLinearSystem.icc       | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
index 37957a9..a3c9e37 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
@@ -14,10 +14,6 @@ template <class solutionT>
 auto
 mito::matrix_solvers::petsc::PETScLinearSystem::get_solution(solutionT & solution) const -> void
 {
-    // get a pointer to the beginning of {_solution}
-    const scalar_type * u;
-    PetscCallVoid(VecGetArrayRead(_solution, &u));
-
     // get the size of the vector
     PetscInt size;
     PetscCallVoid(VecGetSize(_solution, &size));
@@ -25,11 +21,26 @@ mito::matrix_solvers::petsc::PETScLinearSystem::get_solution(solutionT & solutio
     // check that the size of {_solution} matches the size of {solution}
     assert(size == (int) std::size(solution));
 
-    // copy {_solution} into {solution}
+    // gather the entries of {_solution} owned by all the processes
+    VecScatter scatter;
+    Vec all;
+    PetscCallVoid(VecScatterCreateToAll(_solution, &scatter, &all));
+    PetscCallVoid(VecScatterBegin(scatter, _solution, all, INSERT_VALUES, SCATTER_FORWARD));
+    PetscCallVoid(VecScatterEnd(scatter, _solution, all, INSERT_VALUES, SCATTER_FORWARD));
+
+    // get a pointer to the beginning of the entries
+    const scalar_type * u;
+    PetscCallVoid(VecGetArrayRead(all, &u));
+
+    // copy the entries into {solution}
     std::copy(u, u + size, std::begin(solution));
 
     // restore the array after reading
-    PetscCallVoid(VecRestoreArrayRead(_solution, &u));
+    PetscCallVoid(VecRestoreArrayRead(all, &u));
+
+    // free the gathered entries
+    PetscCallVoid(VecScatterDestroy(&scatter));
+    PetscCallVoid(VecDestroy(&all));
 
     // all done
     return;
-- 
2.43.0


From 7a08322cc3b808e18a47daf733875124d279ec1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 29/40] fix: non-inline functions in headers were multiply
 defined across translation units

---
 lib/mito/matrix_solvers/backend/petsc/factories.h |  4 ++--
 lib/mito/simulation/Context.icc                   |  8 ++++----
 lib/mito/simulation/Simulation.icc                |  6 +++---
 lib/mito/simulation/factories.h                   |  2 +-
 lib/mito/topology/FlipDiagonal.h                  |  2 +-
 lib/mito/topology/SimplexFactory.h                |  6 +++---
 lib/mito/topology/Topology.icc                    |  4 ++--
 lib/mito/topology/utilities.h                     | 10 +++++-----
 8 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/factories.h b/lib/mito/matrix_solvers/backend/petsc/factories.h
index ef9e75d..b5e82b3 100644
--- a/lib/mito/matrix_solvers/backend/petsc/factories.h
+++ b/lib/mito/matrix_solvers/backend/petsc/factories.h
@@ -10,13 +10,13 @@
 namespace mito::matrix_solvers::petsc {
 
     // petsc linear system
-    auto linear_system(const std::string & name)
+    inline auto linear_system(const std::string & name)
     {
         return linear_system_t(name);
     }
 
     // petsc Krylov solver
-    auto ksp(linear_system_t & linear_system)
+    inline auto ksp(linear_system_t & linear_system)
     {
         return ksp_t(linear_system);
     }
diff --git a/lib/mito/simulation/Context.icc b/lib/mito/simulation/Context.icc
index fce5fc8..ace12ab 100644
--- a/lib/mito/simulation/Context.icc
+++ b/lib/mito/simulation/Context.icc
@@ -9,7 +9,7 @@
 #else
 
 
-mito::simulation::Context::Context() : _task_id(0), _n_tasks(1)
+inline mito::simulation::Context::Context() : _task_id(0), _n_tasks(1)
 {
 #if (WITH_MPI)
     // initialize MPI
@@ -29,7 +29,7 @@ mito::simulation::Context::Context() : _task_id(0), _n_tasks(1)
     channel << "Job partitioned in " << _n_tasks << " processes" << journal::endl;
 }
 
-mito::simulation::Context::~Context()
+inline mito::simulation::Context::~Context()
 {
 #if (WITH_MPI)
     // finalize MPI
@@ -37,13 +37,13 @@ mito::simulation::Context::~Context()
 #endif
 }
 
-auto
+inline auto
 mito::simulation::Context::task_id() const -> int
 {
     return _task_id;
 }
 
-auto
+inline auto
 mito::simulation::Context::n_tasks() const -> int
 {
     return _n_tasks;
diff --git a/lib/mito/simulation/Simulation.icc b/lib/mito/simulation/Simulation.icc
index 6992366..ac2b8d5 100644
--- a/lib/mito/simulation/Simulation.icc
+++ b/lib/mito/simulation/Simulation.icc
@@ -9,15 +9,15 @@
 #else
 
 
-mito::simulation::Simulation::Simulation() : _execution_context(), _clock() {}
+inline mito::simulation::Simulation::Simulation() : _execution_context(), _clock() {}
 
-auto
+inline auto
 mito::simulation::Simulation::context() const -> const execution_context_type &
 {
     return _execution_context;
 }
 
-auto
+inline auto
 mito::simulation::Simulation::clock() const -> const clock_type &
 {
     return _clock;
diff --git a/lib/mito/simulation/factories.h b/lib/mito/simulation/factories.h
index 6c47cfd..32c304d 100644
--- a/lib/mito/simulation/factories.h
+++ b/lib/mito/simulation/factories.h
@@ -10,7 +10,7 @@
 namespace mito::simulation {
 
     // simulation factory
-    auto simulation() -> simulation_t &
+    inline auto simulation() -> simulation_t &
     {
         return utilities::Singleton<simulation_t>::GetInstance();
     }
diff --git a/lib/mito/topology/FlipDiagonal.h b/lib/mito/topology/FlipDiagonal.h
index 7ab6f9b..1c0620d 100644
--- a/lib/mito/topology/FlipDiagonal.h
+++ b/lib/mito/topology/FlipDiagonal.h
@@ -46,7 +46,7 @@ namespace mito::topology {
             -> simplex_pair_type;
     };
 
-    auto flip_diagonal(const std::pair<simplex_t<2>, simplex_t<2>> & simplex_pair)
+    inline auto flip_diagonal(const std::pair<simplex_t<2>, simplex_t<2>> & simplex_pair)
         -> std::pair<simplex_t<2>, simplex_t<2>>
     {
         return FlipDiagonal::flip_diagonal(simplex_pair);
diff --git a/lib/mito/topology/SimplexFactory.h b/lib/mito/topology/SimplexFactory.h
index 47442c4..8d7d976 100644
--- a/lib/mito/topology/SimplexFactory.h
+++ b/lib/mito/topology/SimplexFactory.h
@@ -145,7 +145,7 @@ namespace mito::topology {
 
     // equivalence class relation for a simplex in 1D
     template <>
-    auto SimplexFactory<1>::_representative(const simplex_composition_t<1> & composition) const
+    inline auto SimplexFactory<1>::_representative(const simplex_composition_t<1> & composition) const
         -> composition_t
     {
         // initialize representative with footprints of simplices in current composition
@@ -159,7 +159,7 @@ namespace mito::topology {
 
     // equivalence class relation for a simplex in 2D
     template <>
-    auto SimplexFactory<2>::_representative(const simplex_composition_t<2> & composition) const
+    inline auto SimplexFactory<2>::_representative(const simplex_composition_t<2> & composition) const
         -> composition_t
     {
         // initialize representative with footprints of simplices in current composition
@@ -176,7 +176,7 @@ namespace mito::topology {
 
     // equivalence class relation for a simplex in 3D
     template <>
-    auto SimplexFactory<3>::_representative(const simplex_composition_t<3> & composition) const
+    inline auto SimplexFactory<3>::_representative(const simplex_composition_t<3> & composition) const
         -> composition_t
     {
         // initialize representative with footprints of simplices in current composition
diff --git a/lib/mito/topology/Topology.icc b/lib/mito/topology/Topology.icc
index eaca815..7a2c096 100644
--- a/lib/mito/topology/Topology.icc
+++ b/lib/mito/topology/Topology.icc
@@ -8,14 +8,14 @@
 #error This header file contains implementation details of class mito::topology::Topology
 #else
 
-mito::topology::Topology::Topology() :
+inline mito::topology::Topology::Topology() :
     _vertex_factory(),
     _segment_factory(),
     _triangle_factory(),
     _tetrahedron_factory()
 {}
 
-mito::topology::Topology::~Topology() {}
+inline mito::topology::Topology::~Topology() {}
 
 template <>
 inline auto
diff --git a/lib/mito/topology/utilities.h b/lib/mito/topology/utilities.h
index 3ececd0..1c84504 100644
--- a/lib/mito/topology/utilities.h
+++ b/lib/mito/topology/utilities.h
@@ -45,7 +45,7 @@ namespace mito::topology {
 
     // overload operator<< for oriented simplices
     template <>
-    std::ostream & operator<<(std::ostream & os, const unoriented_simplex_t<0> & s)
+    inline std::ostream & operator<<(std::ostream & os, const unoriented_simplex_t<0> & s)
     {
         os << "vertex: " << s.id() << std::endl;
         return os;
@@ -98,7 +98,7 @@ namespace mito::topology {
 
     // overload operator<< for oriented simplices
     template <>
-    auto print(const unoriented_simplex_t<0> & s) -> void
+    inline auto print(const unoriented_simplex_t<0> & s) -> void
     {
         // make a channel
         journal::info_t channel("lib.topology.simplex");
@@ -107,17 +107,17 @@ namespace mito::topology {
         return;
     }
 
-    auto tail(const simplex_t<1> & oriented_simplex) -> vertex_t
+    inline auto tail(const simplex_t<1> & oriented_simplex) -> vertex_t
     {
         return oriented_simplex->composition()[0]->footprint();
     }
 
-    auto head(const simplex_t<1> & oriented_simplex) -> vertex_t
+    inline auto head(const simplex_t<1> & oriented_simplex) -> vertex_t
     {
         return oriented_simplex->composition()[1]->footprint();
     }
 
-    bool headTailConnected(const simplex_t<1> & simplex_1, const simplex_t<1> & simplex_2)
+    inline bool headTailConnected(const simplex_t<1> & simplex_1, const simplex_t<1> & simplex_2)
     {
         if (head(simplex_1) == tail(simplex_2)) {
             return true;
-- 
2.43.0


From 25d04112ce339676ea89feea07da7e3803d3acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:10 +0000
Subject: [PATCH 30/40] fix: simulation context clashed with message passing
 initialized or finalized elsewhere

---
 lib/mito/simulation/Context.h   |  3 +++
 lib/mito/simulation/Context.icc | 23 +++++++++++++++++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/mito/simulation/Context.h b/lib/mito/simulation/Context.h
index 9537955..9e5a014 100644
--- a/lib/mito/simulation/Context.h
+++ b/lib/mito/simulation/Context.h
@@ -48,6 +48,9 @@ namespace mito::simulation {
 
         // the number of tasks
         int _n_tasks;
+
+        // whether it is up to me to finalize MPI
+        bool _owns_mpi = false;
     };
 
 }    // namespace mito
diff --git a/lib/mito/simulation/Context.icc b/lib/mito/simulation/Context.icc
index ace12ab..f3b5411 100644
--- a/lib/mito/simulation/Context.icc
+++ b/lib/mito/simulation/Context.icc
@@ -12,8 +12,16 @@
 inline mito::simulation::Context::Context() : _task_id(0), _n_tasks(1)
 {
 #if (WITH_MPI)
-    // initialize MPI
-    MPI_Init(nullptr, nullptr);
+    // check whether someone else (e.g. the solvers backend) has initialized MPI already
+    int initialized = 0;
+    MPI_Initialized(&initialized);
+
+    // if not, initialize MPI
+    if (!initialized) {
+        MPI_Init(nullptr, nullptr);
+        // and remember that it is up to me to finalize it
+        _owns_mpi = true;
+    }
 
     // get my process' rank
     MPI_Comm_rank(MPI_COMM_WORLD, &_task_id);
@@ -32,8 +40,15 @@ inline mito::simulation::Context::Context() : _task_id(0), _n_tasks(1)
 inline mito::simulation::Context::~Context()
 {
 #if (WITH_MPI)
-    // finalize MPI
-    MPI_Finalize();
+    // check whether someone else has finalized MPI already
+    int finalized = 0;
+    MPI_Finalized(&finalized);
+
+    // if I initialized MPI, and nobody has finalized it yet
+    if (_owns_mpi && !finalized) {
+        // finalize MPI
+        MPI_Finalize();
+    }
 #endif
 }
 
-- 
2.43.0


From af05481abbaa14e968a4bbd288e0f79c62195263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:17 +0000
Subject: [PATCH 31/40] fix: summit reader could not read back meshes written
 with an element type

---
 lib/mito/io/summit/reader.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/mito/io/summit/reader.h b/lib/mito/io/summit/reader.h
index 137387a..c480f83 100644
--- a/lib/mito/io/summit/reader.h
+++ b/lib/mito/io/summit/reader.h
@@ -94,11 +94,11 @@ namespace mito::io::summit {
             _insert(mesh, index, nodes, std::make_index_sequence<N>{});
         }
 
-        // QUESTION: Can the label be more than one?
-        // read label for cell
+        // read the labels of the cell (material label, possibly followed by the element type): all
+        // that is left on this line
         // TOFIX: Ignored for now
-        std::string cell_set_id;
-        fileStream >> cell_set_id;
+        std::string labels;
+        std::getline(fileStream, labels);
 
         // all done
         return;
-- 
2.43.0


From 9b186af03f07bf7b75b1cd92209a11d706ae4a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 32/40] fix: summit reader trusted damaged files

---
 lib/mito/io/summit/externals.h |  1 +
 lib/mito/io/summit/reader.h    | 38 ++++++++++++++++++++++++++++++----
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/lib/mito/io/summit/externals.h b/lib/mito/io/summit/externals.h
index a6ff20d..d87f5b1 100644
--- a/lib/mito/io/summit/externals.h
+++ b/lib/mito/io/summit/externals.h
@@ -8,6 +8,7 @@
 
 
 // externals
+#include <algorithm>
 #include <fstream>
 
 
diff --git a/lib/mito/io/summit/reader.h b/lib/mito/io/summit/reader.h
index c480f83..f7a88e1 100644
--- a/lib/mito/io/summit/reader.h
+++ b/lib/mito/io/summit/reader.h
@@ -23,6 +23,11 @@ namespace mito::io::summit {
                 fileStream >> coordinates[d];
             }
 
+            // if the coordinates could not be read
+            if (!fileStream) {
+                throw std::runtime_error("reader: Mesh file has fewer vertices than declared");
+            }
+
             // the type of coordinates
             using coordinates_type = coordT;
 
@@ -52,8 +57,16 @@ namespace mito::io::summit {
             // read from file the id of the node
             int id = 0;
             fileStream >> id;
+            // if there is no such node
+            if (!fileStream || id < 1 || static_cast<size_t>(id) > std::size(nodes)) {
+                throw std::runtime_error("reader: Mesh file has a cell with an invalid node");
+            }
             // start from zero (the summit format starts counting from one)
             --id;
+            // if this cell has this node already
+            if (std::find(index.begin(), index.begin() + i, id) != index.begin() + i) {
+                throw std::runtime_error("reader: Mesh file has a cell with a repeated node");
+            }
             // take a note of it
             index[i] = id;
         }
@@ -115,11 +128,22 @@ namespace mito::io::summit {
             int cell_type = 0;
             fileStream >> cell_type;
 
+            // if the cell type could not be read
+            if (!fileStream) {
+                throw std::runtime_error("reader: Mesh file has fewer cells than declared");
+            }
+
             // if the cell type read from file matches with the cell of the mesh to be populated
             if (cell_type == summit::cell<cellT>::type) {
                 // read the element and insert it in the mesh
                 readElement<galerkinT>(fileStream, mesh, nodes);
             }
+            // otherwise
+            else {
+                // skip the rest of this cell, as it does not belong in this mesh
+                std::string skipped;
+                std::getline(fileStream, skipped);
+            }
         }
 
         // all done
@@ -149,8 +173,10 @@ namespace mito::io::summit {
         // the dimension of the physical space
         constexpr int D = cellT::dim;
 
-        // assert this mesh object is of same dimension of the mesh being read
-        assert(D == dim);
+        // check that this mesh object is of same dimension of the mesh being read
+        if (!fileStream || dim != D) {
+            throw std::runtime_error("reader: Mesh file has the wrong dimension");
+        }
 
         // instantiate mesh
         auto mesh = mesh::mesh<cellT>();
@@ -158,9 +184,8 @@ namespace mito::io::summit {
         // read number of vertices
         int N_vertices = 0;
         fileStream >> N_vertices;
-        // reserve space for nodes
+        // the nodes
         std::vector<geometry::node_t<D>> nodes;
-        nodes.reserve(N_vertices);
 
         // read number of cells
         int N_cells = 0;
@@ -170,6 +195,11 @@ namespace mito::io::summit {
         int N_cell_types = 0;
         fileStream >> N_cell_types;
 
+        // if the heading could not be read
+        if (!fileStream || N_vertices < 0 || N_cells < 0) {
+            throw std::runtime_error("reader: Mesh file has an invalid heading");
+        }
+
         // QUESTION: Not sure that we need this...
         assert(N_cell_types == 1);
 
-- 
2.43.0


From 56cacea35e554aa2b5a5b95ab1c5b67fb940f3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 33/40] fix: material consistency test kept references to
 arguments that may be gone

---
 lib/mito/materials/MaterialConsistencyTest.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mito/materials/MaterialConsistencyTest.h b/lib/mito/materials/MaterialConsistencyTest.h
index 04f6f3c..30c54c3 100644
--- a/lib/mito/materials/MaterialConsistencyTest.h
+++ b/lib/mito/materials/MaterialConsistencyTest.h
@@ -152,11 +152,11 @@ class mito::materials::MaterialConsistencyTest {
 
   private:
     // the material
-    const material_type & _material;
+    const material_type _material;
     // the perturbation for the numerical derivatives
-    const real & _perturbation;
+    const real _perturbation;
     // the tolerance for passing the test
-    const real & _tolerance;
+    const real _tolerance;
 };
 
 
-- 
2.43.0


From d0ef92d2ea67207f36b0afff6b79d40f334f5e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 34/40] fix: handles in static objects outlived the topology
 and point clouds at program exit

---
 lib/mito/geometry/factories.h  | 2 +-
 lib/mito/topology/factories.h  | 2 +-
 lib/mito/utilities/Singleton.h | 9 +++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/mito/geometry/factories.h b/lib/mito/geometry/factories.h
index 2de98c0..3a9927e 100644
--- a/lib/mito/geometry/factories.h
+++ b/lib/mito/geometry/factories.h
@@ -29,7 +29,7 @@ namespace mito::geometry {
     template <int D>
     auto point_cloud() -> point_cloud_t<D> &
     {
-        return utilities::Singleton<point_cloud_t<D>>::GetInstance();
+        return utilities::Singleton<point_cloud_t<D>>::GetPersistentInstance();
     }
 
     // node factory
diff --git a/lib/mito/topology/factories.h b/lib/mito/topology/factories.h
index a373117..ea15a6f 100644
--- a/lib/mito/topology/factories.h
+++ b/lib/mito/topology/factories.h
@@ -12,7 +12,7 @@ namespace mito::topology {
     // topology factory
     inline auto topology() -> topology_t &
     {
-        return utilities::Singleton<topology_t>::GetInstance();
+        return utilities::Singleton<topology_t>::GetPersistentInstance();
     }
 
     // returns a new vertex
diff --git a/lib/mito/utilities/Singleton.h b/lib/mito/utilities/Singleton.h
index 989b105..dca0df3 100644
--- a/lib/mito/utilities/Singleton.h
+++ b/lib/mito/utilities/Singleton.h
@@ -22,6 +22,15 @@ namespace mito::utilities {
             return resource;
         }
 
+        // same as above, but the resource is never destroyed: objects with static storage duration
+        // can use the resource until the very end of the program
+        template <class... Args>
+        static auto GetPersistentInstance(Args &&... args) -> resource_t &
+        {
+            static resource_t * const resource = new resource_t(std::forward<Args>(args)...);
+            return *resource;
+        }
+
         // delete metamethods
         Singleton() = delete;
         ~Singleton() = delete;
-- 
2.43.0


From 6b7ba720aa0c39b0fff61f90f006e8458c94eb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 35/40] fix: the order of flipped triangles depended on the
 addresses of the vertices

---
 lib/mito/topology/FlipDiagonal.icc | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/lib/mito/topology/FlipDiagonal.icc b/lib/mito/topology/FlipDiagonal.icc
index 27f9773..63089b9 100644
--- a/lib/mito/topology/FlipDiagonal.icc
+++ b/lib/mito/topology/FlipDiagonal.icc
@@ -36,25 +36,22 @@ namespace mito::topology {
         const simplex_type & simplex0, const simplex_type & simplex1, const auto & shared_simplex)
         -> auto
     {
-        // need a regular set (not an unordered one) because set_difference works with ordered sets
         using vertex_set_type = std::set<vertex_t>;
 
-        vertex_set_type vertices;
-        simplex0->vertices(vertices);
-        simplex1->vertices(vertices);
-
         vertex_set_type shared_simplex_vertices;
         shared_simplex->vertices(shared_simplex_vertices);
 
-        vertex_set_type opposite_vertices;
-        std::set_difference(
-            std::begin(vertices), std::end(vertices), std::begin(shared_simplex_vertices),
-            std::end(shared_simplex_vertices),
-            std::inserter(opposite_vertices, std::end(opposite_vertices)));
-
-        std::vector<vertex_t> opposite_vertices_vector(
-            std::begin(opposite_vertices), std::end(opposite_vertices));
-        assert(std::size(opposite_vertices) == 2);
+        // the vertex of {simplex0} first, then the one of {simplex1} (sorting them would make the
+        // order depend on where the vertices are in memory)
+        std::vector<vertex_t> opposite_vertices_vector;
+        for (const auto & simplex : { simplex0, simplex1 }) {
+            for (const auto & vertex : simplex->vertices()) {
+                if (!shared_simplex_vertices.contains(vertex)) {
+                    opposite_vertices_vector.push_back(vertex);
+                }
+            }
+        }
+        assert(std::size(opposite_vertices_vector) == 2);
 
         return opposite_vertices_vector;
     }
-- 
2.43.0


From 527ff82d9e03fbccdc1b906290fc4daf935b656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:28 +0000
Subject: [PATCH 36/40] fix: python manifolds and integrators used meshes and
 coordinate systems already deleted

---
 extensions/mito/mito.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/extensions/mito/mito.cc b/extensions/mito/mito.cc
index 7c15abb..0e0f076 100644
--- a/extensions/mito/mito.cc
+++ b/extensions/mito/mito.cc
@@ -148,7 +148,9 @@ PYBIND11_MODULE(mito, m)
                 [](const mesh_triangle_2D_t & mesh, const coordinate_system_2D_t & coord_system) {
                     // create the manifold
                     return mito::manifolds::manifold(mesh, coord_system);
-                }))
+                }),
+            // the manifold refers to the mesh and the coordinate system: keep them alive
+            mito::py::keep_alive<1, 2>(), mito::py::keep_alive<1, 3>())
         // done
         ;
 
@@ -160,7 +162,9 @@ PYBIND11_MODULE(mito, m)
         // the constructor
         .def(
             // the implementation
-            mito::py::init<const manifold_triangle_2D_t &>())
+            mito::py::init<const manifold_triangle_2D_t &>(),
+            // the integrator refers to the manifold: keep it alive
+            mito::py::keep_alive<1, 2>())
         // interface
         // integrate a scalar field
         .def(
-- 
2.43.0


From b663d82d41c1f730b2c68ee978ae40f5a2a974c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 37/40] fix: python meshes could not hand out their cells

---
 extensions/mito/mito.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/extensions/mito/mito.cc b/extensions/mito/mito.cc
index 0e0f076..4d43257 100644
--- a/extensions/mito/mito.cc
+++ b/extensions/mito/mito.cc
@@ -115,6 +115,26 @@ PYBIND11_MODULE(mito, m)
     using cell_2D_t = mito::geometry::triangle_t<2>;
     // alias for a mesh of triangles embedded in 2D
     using mesh_triangle_2D_t = mito::mesh::mesh_t<cell_2D_t>;
+    // the type of the cells
+    mito::py::class_<cell_2D_t>(m, "Triangle2D")
+        // done
+        ;
+    // the type of the collection of cells
+    using cells_triangle_2D_t = mesh_triangle_2D_t::cells_type;
+    mito::py::class_<cells_triangle_2D_t>(m, "Cells2D")
+        // the number of cells
+        .def("__len__", [](const cells_triangle_2D_t & self) { return std::size(self); })
+        // iterate over the cells
+        .def(
+            "__iter__",
+            // the implementation
+            [](const cells_triangle_2D_t & self) {
+                return mito::py::make_iterator(self.begin(), self.end());
+            },
+            // the iterator refers to the cells: keep them alive
+            mito::py::keep_alive<0, 1>())
+        // done
+        ;
     // the mito Mesh interface
     mito::py::class_<mesh_triangle_2D_t>(m, "SimplicialMesh2D")
         // the default constructor
-- 
2.43.0


From c2ff38b8c640bb164f0b1d96276569c783b6e518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:01 +0000
Subject: [PATCH 38/40] fix: the vtk writers could not be used in more than one
 translation unit of a program

---
 lib/mito/io/vtk/vtk_point.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/mito/io/vtk/vtk_point.h b/lib/mito/io/vtk/vtk_point.h
index 4c9f161..fdc6a1a 100644
--- a/lib/mito/io/vtk/vtk_point.h
+++ b/lib/mito/io/vtk/vtk_point.h
@@ -13,7 +13,7 @@ namespace mito::io::vtk {
     auto insert_vtk_point(const coordT &, vtkSmartPointer<vtkPoints> &) -> void;
 
     template <>
-    auto insert_vtk_point(
+    inline auto insert_vtk_point(
         const geometry::coordinates_t<3, geometry::CARTESIAN> & coord,
         vtkSmartPointer<vtkPoints> & pointsVtk) -> void
     {
@@ -22,7 +22,7 @@ namespace mito::io::vtk {
     }
 
     template <>
-    auto insert_vtk_point(
+    inline auto insert_vtk_point(
         const geometry::coordinates_t<2, geometry::CARTESIAN> & coord,
         vtkSmartPointer<vtkPoints> & pointsVtk) -> void
     {
@@ -31,7 +31,7 @@ namespace mito::io::vtk {
     }
 
     template <>
-    auto insert_vtk_point(
+    inline auto insert_vtk_point(
         const geometry::coordinates_t<1, geometry::CARTESIAN> & coord,
         vtkSmartPointer<vtkPoints> & pointsVtk) -> void
     {
@@ -40,7 +40,7 @@ namespace mito::io::vtk {
     }
 
     template <>
-    auto insert_vtk_point(
+    inline auto insert_vtk_point(
         const geometry::coordinates_t<3, geometry::SPHERICAL> & coord,
         vtkSmartPointer<vtkPoints> & pointsVtk) -> void
     {
@@ -55,7 +55,7 @@ namespace mito::io::vtk {
     }
 
     template <>
-    auto insert_vtk_point(
+    inline auto insert_vtk_point(
         const geometry::coordinates_t<2, geometry::POLAR> & coord,
         vtkSmartPointer<vtkPoints> & pointsVtk) -> void
     {
-- 
2.43.0


From 163e7393608b07d953efde93ff225f550a9daf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:54 +0000
Subject: [PATCH 39/40] fix: the assembly blocks kept references to functions
 that can be temporaries

---
 lib/mito/fem/blocks/L2NormBlock.h     | 2 +-
 lib/mito/fem/blocks/SourceTermBlock.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/fem/blocks/L2NormBlock.h b/lib/mito/fem/blocks/L2NormBlock.h
index 0d0a00f..736db13 100644
--- a/lib/mito/fem/blocks/L2NormBlock.h
+++ b/lib/mito/fem/blocks/L2NormBlock.h
@@ -64,7 +64,7 @@ namespace mito::fem::blocks {
 
       private:
         // the function to compute the L2 norm of
-        const function_type & _function;
+        const function_type _function;
     };
 
 }    // namespace mito
diff --git a/lib/mito/fem/blocks/SourceTermBlock.h b/lib/mito/fem/blocks/SourceTermBlock.h
index ed9ecb8..95bd1db 100644
--- a/lib/mito/fem/blocks/SourceTermBlock.h
+++ b/lib/mito/fem/blocks/SourceTermBlock.h
@@ -74,7 +74,7 @@ namespace mito::fem::blocks {
 
       private:
         // the source term field
-        const source_field_type & _source_field;
+        const source_field_type _source_field;
     };
 
 }    // namespace mito
-- 
2.43.0


From 817c7e80ac53d71525270407e753abc9b6869a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:55 +0000
Subject: [PATCH 40/40] fix: assembling a discrete system again piled up on the
 assembly before

---
 lib/mito/fem/DiscreteSystem.h                      |  9 +++++++++
 .../backend/petsc/PETScLinearSystem.cc             | 14 ++++++++++++++
 .../backend/petsc/PETScLinearSystem.h              |  3 +++
 3 files changed, 26 insertions(+)

diff --git a/lib/mito/fem/DiscreteSystem.h b/lib/mito/fem/DiscreteSystem.h
index 57709a9..eee879c 100644
--- a/lib/mito/fem/DiscreteSystem.h
+++ b/lib/mito/fem/DiscreteSystem.h
@@ -147,6 +147,12 @@ namespace mito::fem {
             // check that the number of equations matches that of the linear system
             assert(_n_equations == _linear_system.n_equations());
 
+            // if the linear system holds the contributions of a previous assembly, discard them
+            if (_assembled) {
+                _linear_system.zero();
+            }
+            _assembled = true;
+
             // QUESTION: can we flip the element and block loops? What is the expected layout in
             // memory?
             //
@@ -238,6 +244,9 @@ namespace mito::fem {
 
         // the number of equations in the linear system
         int _n_equations = 0;
+
+        // whether the discrete system has been assembled into the linear system
+        bool _assembled = false;
     };
 
 }    // namespace mito
diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
index 76cd808..b9c39ba 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
@@ -95,6 +95,20 @@ mito::matrix_solvers::petsc::PETScLinearSystem::assemble() -> void
 }
 
 // get the matrix ready for entries in a given mode
+auto
+mito::matrix_solvers::petsc::PETScLinearSystem::zero() -> void
+{
+    // make sure that there are no pending entries
+    assemble();
+
+    // reset the matrix (preserving its sparsity pattern) and the right-hand side
+    PetscCallVoid(MatZeroEntries(_matrix));
+    PetscCallVoid(VecZeroEntries(_rhs));
+
+    // all done
+    return;
+}
+
 auto
 mito::matrix_solvers::petsc::PETScLinearSystem::_matrix_mode(InsertMode mode) -> void
 {
diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
index 6f93ccf..f5d145e 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.h
@@ -46,6 +46,9 @@ namespace mito::matrix_solvers::petsc {
         // assemble the linear system
         auto assemble() -> void;
 
+        // reset the entries of the matrix and right-hand side to zero
+        auto zero() -> void;
+
         // set the value of a matrix entry
         auto insert_matrix_value(index_type, index_type, const scalar_type &) -> void;
 
-- 
2.43.0

