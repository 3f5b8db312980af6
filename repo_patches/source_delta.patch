From c49c694808bedd3bb516f4a935aaf017e2cb9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 01/22] fix: do not dereference a null handle when acquiring an
 empty SharedPointer

---
 lib/mito/utilities/SharedPointer.icc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 5e7bdda..0ec2b6b 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -172,8 +172,12 @@ template <class resourceT>
 constexpr auto
 mito::utilities::SharedPointer<resourceT>::_acquire() const -> void
 {
-    // acquire resource (increment reference count)
-    _handle->_acquire();
+    // if the handle is in valid state
+    if (_handle != nullptr) {
+        // acquire resource (increment reference count)
+        _handle->_acquire();
+    }
+
     // all done
     return;
 }
-- 
2.43.0


From e5e2c97d22a905ec7707dc94c5622eff711a285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 02/22] fix: SharedPointer move assignment leaks a reference if
 both sides share a resource

---
 lib/mito/utilities/SharedPointer.icc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/mito/utilities/SharedPointer.icc b/lib/mito/utilities/SharedPointer.icc
index 0ec2b6b..1bc7ce9 100644
--- a/lib/mito/utilities/SharedPointer.icc
+++ b/lib/mito/utilities/SharedPointer.icc
@@ -152,17 +152,16 @@ constexpr mito::utilities::SharedPointer<resourceT> &
 mito::utilities::SharedPointer<resourceT>::operator=(
     mito::utilities::SharedPointer<resourceT> && other) noexcept
 {
-    // if {other} and I point to different handles
-    if (other._handle != _handle) {
+    // if {other} is not me
+    if (&other != this) {
         // release my current handle
         _release();
-        // adopt the new shareable
+        // adopt the reference held by {other}
         _handle = std::move(other._handle);
+        // invalidate {other}
+        other._handle = nullptr;
     }
 
-    // invalidate {other}
-    other._handle = nullptr;
-
     // all done
     return *this;
 }
-- 
2.43.0


From 04a259da65f54b113ba65ab237ae183c9d02dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 03/22] fix: Repository destructor destroys erased resources a
 second time

---
 lib/mito/utilities/Repository.h         |  9 +++++++--
 lib/mito/utilities/SegmentedAllocator.h | 12 ++++++++++++
 lib/mito/utilities/externals.h          |  1 +
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/Repository.h b/lib/mito/utilities/Repository.h
index 1fde5a3..98556eb 100644
--- a/lib/mito/utilities/Repository.h
+++ b/lib/mito/utilities/Repository.h
@@ -70,9 +70,14 @@ namespace mito::utilities {
         // destructor
         ~Repository()
         {
-            // destroy all resources
+            // fetch the locations of the erased resources: these have already been destroyed
+            const auto erased = _resources.available_locations();
+
+            // destroy all other resources
             for (const auto & resource : _resources) {
-                resource.~resource_type();
+                if (!erased.contains(&resource)) {
+                    resource.~resource_type();
+                }
             }
         }
 
diff --git a/lib/mito/utilities/SegmentedAllocator.h b/lib/mito/utilities/SegmentedAllocator.h
index eb6264b..29ea8cb 100644
--- a/lib/mito/utilities/SegmentedAllocator.h
+++ b/lib/mito/utilities/SegmentedAllocator.h
@@ -130,6 +130,18 @@ namespace mito::utilities {
 
         inline auto segment_size() const noexcept -> int { return _segment_size; }
 
+        // the locations of the erased elements that have not been reused yet
+        auto available_locations() const -> std::unordered_set<const unqualified_resource_type *>
+        {
+            std::unordered_set<const unqualified_resource_type *> locations;
+            // traverse a copy of the queue of the available locations
+            for (auto queue = _available_locations; !queue.empty(); queue.pop()) {
+                locations.insert(queue.front());
+            }
+            // all done
+            return locations;
+        }
+
       private:
         auto _allocate_new_segment() -> unqualified_pointer
         {
diff --git a/lib/mito/utilities/externals.h b/lib/mito/utilities/externals.h
index 53b64ec..898957a 100644
--- a/lib/mito/utilities/externals.h
+++ b/lib/mito/utilities/externals.h
@@ -10,6 +10,7 @@
 // externals
 #include <cassert>
 #include <queue>
+#include <unordered_set>
 #include <vector>
 #include <utility>
 #include <memory>
-- 
2.43.0


From 540894fd38dca5f5e5d1670cc308cfcc4696f969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 04/22] fix: postfix increment of the segmented container
 iterator does not skip invalid elements

---
 lib/mito/utilities/SegmentedContainerIterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/utilities/SegmentedContainerIterator.h b/lib/mito/utilities/SegmentedContainerIterator.h
index 99304a0..609fefd 100644
--- a/lib/mito/utilities/SegmentedContainerIterator.h
+++ b/lib/mito/utilities/SegmentedContainerIterator.h
@@ -103,8 +103,8 @@ namespace mito::utilities {
         {
             // make a copy of me
             auto clone = *this;
-            // increment me
-            ++_segmented_iterator;
+            // increment me (skipping the invalid elements)
+            operator++();
             // and return the clone
             return clone;
         }
-- 
2.43.0


From 2b10f88bda7a125e694642228d040095143f71ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:04 +0000
Subject: [PATCH 05/22] fix: flip_diagonal honours the orientation of the given
 triangles

---
 lib/mito/topology/FlipDiagonal.icc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/mito/topology/FlipDiagonal.icc b/lib/mito/topology/FlipDiagonal.icc
index 2f7b1ea..33f2b99 100644
--- a/lib/mito/topology/FlipDiagonal.icc
+++ b/lib/mito/topology/FlipDiagonal.icc
@@ -100,7 +100,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex0->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // insert it with the orientation it has as part of the boundary of {simplex0}
+                boundary_simplices.insert(
+                    simplex0->orientation() > 0 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 2);
@@ -108,7 +110,9 @@ namespace mito::topology {
         for (const auto & subsimplex : simplex1->composition()) {
             // if it is not the shared simplex
             if (subsimplex->footprint().id() != shared_simplex.id()) {
-                boundary_simplices.insert(subsimplex);
+                // insert it with the orientation it has as part of the boundary of {simplex1}
+                boundary_simplices.insert(
+                    simplex1->orientation() > 0 ? subsimplex : topology.flip(subsimplex));
             }
         }
         assert(std::size(boundary_simplices) == 4);
-- 
2.43.0


From 72e9c067c38ec3945bc8d643e98e98aa049cd854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 06/22] fix: wedge product of a one-form with a two-form misses
 the middle shuffle

(b ^ a)(x, y, z) = b(x) a(y, z) - b(y) a(x, z) + b(z) a(x, y): the second term was left out, so that the product was
neither alternating nor equal to the wedge product of its three factors.
---
 lib/mito/tensor/wedge.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mito/tensor/wedge.h b/lib/mito/tensor/wedge.h
index 9d62b50..352b03e 100644
--- a/lib/mito/tensor/wedge.h
+++ b/lib/mito/tensor/wedge.h
@@ -72,7 +72,8 @@ namespace mito::tensor {
         return form<P1 + P2>(
                    [a_tilda, b_tilda]<class X, class Y, class Z>(
                        const X & x, const Y & y, const Z & z) -> auto {
-                       return wedge(b_tilda(x), a_tilda)(y, z);
+                       return wedge(b_tilda(x), a_tilda)(y, z)
+                            - wedge(b_tilda(y), a_tilda)(x, z);
                    })
              + sign
                    * form<P1 + P2>(
-- 
2.43.0


From e742661a1b4a047ff90cc0845a7542383ebcb6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 07/22] fix: store the parameters of the material consistency
 test by value

The perturbation and the tolerance were kept as references, which dangle as
soon as the factory is called with temporaries.
---
 lib/mito/materials/MaterialConsistencyTest.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/materials/MaterialConsistencyTest.h b/lib/mito/materials/MaterialConsistencyTest.h
index 04f6f3c..46caf60 100644
--- a/lib/mito/materials/MaterialConsistencyTest.h
+++ b/lib/mito/materials/MaterialConsistencyTest.h
@@ -154,9 +154,9 @@ class mito::materials::MaterialConsistencyTest {
     // the material
     const material_type & _material;
     // the perturbation for the numerical derivatives
-    const real & _perturbation;
+    const real _perturbation;
     // the tolerance for passing the test
-    const real & _tolerance;
+    const real _tolerance;
 };
 
 
-- 
2.43.0


From 00f163017c7d9aa40a7e9e26e162104a1800311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 08/22] fix: let a composition of functions be composed further

Inside Composition the name Composition is the injected class name, so composing
(f o g) with h instantiated Composition<F, G> from a pair (f o g, h) and did not compile.
---
 lib/mito/functions/function.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mito/functions/function.h b/lib/mito/functions/function.h
index c0f2f87..275d198 100644
--- a/lib/mito/functions/function.h
+++ b/lib/mito/functions/function.h
@@ -514,7 +514,8 @@ namespace mito::functions {
         template <function_c H>
         constexpr auto operator()(const H & f) const
         {
-            return Composition(*this, f);
+            // (qualified: unqualified, the name refers to this very composition)
+            return functions::Composition(*this, f);
         }
 
         // subscript operator: only available if {output_type} is subscriptable
-- 
2.43.0


From ed3eb3d1447c582269612d4e04e41938eb00bea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 09/22] fix: differentiate linear combinations of functions of
 one type

The functions were looked up by type, which is ill-formed as soon as two of them have the same type.
---
 lib/mito/functions/derivation_rules.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/mito/functions/derivation_rules.h b/lib/mito/functions/derivation_rules.h
index e535412..d29a59b 100644
--- a/lib/mito/functions/derivation_rules.h
+++ b/lib/mito/functions/derivation_rules.h
@@ -108,8 +108,11 @@ namespace mito::functions {
     constexpr auto derivative(const LinearCombination<T, Funcs...> & f)
     {
         // the derivative of a linear combination is the linear combination of the derivatives
-        return linear_combination(
-            f.coefficients(), derivative<I>(std::get<Funcs>(f.functions()))...);
+        return std::apply(
+            [&](const auto &... funcs) {
+                return linear_combination(f.coefficients(), derivative<I>(funcs)...);
+            },
+            f.functions());
     }
 }
 
-- 
2.43.0


From 4fc3114f36581b144914d42c06653364f5287851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 10/22] fix: cartesian x_2 extracts the third coordinate

---
 lib/mito/geometry/cartesian/api.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mito/geometry/cartesian/api.h b/lib/mito/geometry/cartesian/api.h
index 25e4626..94dec70 100644
--- a/lib/mito/geometry/cartesian/api.h
+++ b/lib/mito/geometry/cartesian/api.h
@@ -37,7 +37,7 @@ namespace mito::geometry::cartesian {
     // the function extracting the 2-nd coordinate from a cartesian coordinate set
     template <int D>
     requires(D > 2)
-    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 1>;
+    constexpr auto x_2 = functions::component<cartesian_coordinates_t<D>, 2>;
 
     // the basis for vector fields (e_0)
     template <int D>
-- 
2.43.0


From b4e002bb39fba41cd1ec21b49524054c4d23cc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 11/22] fix: the form equivalent to a vector contracts with the
 vector's inner product in any coordinates

---
 lib/mito/geometry/metric_space.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mito/geometry/metric_space.h b/lib/mito/geometry/metric_space.h
index e6e5343..3010f7f 100644
--- a/lib/mito/geometry/metric_space.h
+++ b/lib/mito/geometry/metric_space.h
@@ -88,7 +88,11 @@ namespace mito::geometry {
         const fields::vector_field_c auto & vector)
     {
         // return a one form field that, once evaluated at {x}...
-        return _one_form(vector, g_inv);
+        return functions::function([vector](const coordinates_type & x) {
+            // returns the form contracting with {vector(x)}: the components of vectors are relative
+            // to an orthonormal frame, in which the metric is the identity
+            return tensor::one_form(vector(x), tensor::identity<D>);
+        });
     }
 
     template <coordinates_c coordsT>
-- 
2.43.0


From 1017c96c54828d1f4f24dc6da5a08d32a6e00643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 12/22] fix: iterating over a point cloud used references to
 destroyed iterators

---
 lib/mito/geometry/PointCloud.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mito/geometry/PointCloud.h b/lib/mito/geometry/PointCloud.h
index 3d011a5..cf0d934 100644
--- a/lib/mito/geometry/PointCloud.h
+++ b/lib/mito/geometry/PointCloud.h
@@ -47,8 +47,8 @@ namespace mito::geometry {
         }
 
         // support for ranged for loops (wrapping grid)
-        inline auto begin() const -> const auto & { return std::begin(_cloud); }
-        inline auto end() const -> const auto & { return std::end(_cloud); }
+        inline auto begin() const -> auto { return std::begin(_cloud); }
+        inline auto end() const -> auto { return std::end(_cloud); }
 
         auto size() const noexcept -> int { return std::size(_cloud); }
 
-- 
2.43.0


From e4abc5559e80c99201ce29a1bcf9b9badd8c8bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 13/22] fix: the H1 norm measures gradients in physical space,
 not in the reference element

---
 lib/mito/fem/norms.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/mito/fem/norms.h b/lib/mito/fem/norms.h
index 79ea71a..09bbf10 100644
--- a/lib/mito/fem/norms.h
+++ b/lib/mito/fem/norms.h
@@ -58,10 +58,12 @@ namespace mito::fem {
             auto u1_local = localize(u1, element);
             // localize {u2} on this element
             auto u2_local = localize(u2, element);
-            // assemble the gradient of the solution field on this element
-            auto u1_local_gradient = fields::gradient(u1_local);
-            // localize the gradient of the exact solution on this element
-            auto u2_local_gradient = fields::gradient(u2_local);
+            // the derivative of the reference coordinates with respect to the physical coordinates
+            auto J_inv = functions::inverse(element.jacobian());
+            // assemble the (spatial) gradient of the solution field on this element
+            auto u1_local_gradient = fields::gradient(u1_local) * J_inv;
+            // assemble the (spatial) gradient of the exact solution on this element
+            auto u2_local_gradient = fields::gradient(u2_local) * J_inv;
             // compute the elementary contributions to the H1 norm
             norm += blocks::l2_norm_block<element_type, quadratureRuleT>(u1_local - u2_local)
                         .compute(element)
-- 
2.43.0


From 5cec0258239a78c80650b0e01b71bcd08e8a78a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 14/22] fix: cells that share a segment share its midpoint in a
 refined mesh

---
 lib/mito/mesh/externals.h |   2 +
 lib/mito/mesh/tetra.h     | 107 +++++++++++++++++++++++++-------------
 2 files changed, 73 insertions(+), 36 deletions(-)

diff --git a/lib/mito/mesh/externals.h b/lib/mito/mesh/externals.h
index 6b9ac64..0de4821 100644
--- a/lib/mito/mesh/externals.h
+++ b/lib/mito/mesh/externals.h
@@ -7,8 +7,10 @@
 #pragma once
 
 // externals
+#include <map>
 #include <ranges>
 #include <unordered_map>
+#include <utility>
 
 // support
 #include "../journal.h"
diff --git a/lib/mito/mesh/tetra.h b/lib/mito/mesh/tetra.h
index b814332..9aa3fcb 100644
--- a/lib/mito/mesh/tetra.h
+++ b/lib/mito/mesh/tetra.h
@@ -6,18 +6,38 @@
 // code guard
 #pragma once
 
-
 namespace mito::mesh {
 
+    // a map from pairs of nodes to the node at their midpoint
+    template <int D /*spatial dimension*/>
+    using midnodes_t =
+        std::map<std::pair<geometry::node_t<D>, geometry::node_t<D>>, geometry::node_t<D>>;
+
     template <int D /*spatial dimension*/, geometry::coordinates_c coordT>
     requires(coordT::dim == D)
     auto midnode(
         const geometry::node_t<D> & node_a, const geometry::node_t<D> & node_b,
-        geometry::coordinate_system_t<coordT> & coordinate_system) -> geometry::node_t<D>
+        geometry::coordinate_system_t<coordT> & coordinate_system,
+        midnodes_t<D> & midnodes) -> geometry::node_t<D>
     {
-        // return a new node at the midpoint between {node_a} and {node_b}
-        return mito::geometry::node(
+        // the segment between {node_a} and {node_b}, irrespective of its orientation
+        auto segment = (node_a < node_b ? std::pair(node_a, node_b) : std::pair(node_b, node_a));
+
+        // if the segment has a midnode already, then all cells sharing the segment
+        // share it
+        if (auto it = midnodes.find(segment); it != midnodes.end()) {
+            return it->second;
+        }
+
+        // make a new node at the midpoint between {node_a} and {node_b}
+        auto node = mito::geometry::node(
             coordinate_system, coordinate_system.midpoint(node_a->point(), node_b->point()));
+
+        // remember it
+        midnodes.insert({ segment, node });
+
+        // all done
+        return node;
     }
 
     template <int D /*spatial dimension*/, geometry::coordinates_c coordT>
@@ -25,10 +45,11 @@ namespace mito::mesh {
     auto subdivide(
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         geometry::coordinate_system_t<coordT> & coordinate_system,
-        mesh_t<geometry::segment_t<D>> & subdivided_mesh, int n_refinements) -> void
+        mesh_t<geometry::segment_t<D>> & subdivided_mesh, midnodes_t<D> & midnodes,
+        int n_refinements) -> void
     {
         // compute the middle node of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -42,8 +63,8 @@ namespace mito::mesh {
         }
 
         // otherwise recursively subdivide the four cells
-        subdivide(node_0, node_01, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_01, node_1, coordinate_system, subdivided_mesh, n_refinements - 1);
+        subdivide(node_0, node_01, coordinate_system, subdivided_mesh, midnodes, n_refinements - 1);
+        subdivide(node_01, node_1, coordinate_system, subdivided_mesh, midnodes, n_refinements - 1);
 
         // all done
         return;
@@ -55,16 +76,17 @@ namespace mito::mesh {
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         const geometry::node_t<D> & node_2,
         geometry::coordinate_system_t<coordT> & coordinate_system,
-        mesh_t<geometry::triangle_t<D>> & subdivided_mesh, int n_refinements) -> void
+        mesh_t<geometry::triangle_t<D>> & subdivided_mesh, midnodes_t<D> & midnodes,
+        int n_refinements) -> void
     {
         // compute the middle point of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->2
-        auto node_12 = midnode(node_1, node_2, coordinate_system);
+        auto node_12 = midnode(node_1, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 2->0
-        auto node_20 = midnode(node_2, node_0, coordinate_system);
+        auto node_20 = midnode(node_2, node_0, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -80,10 +102,18 @@ namespace mito::mesh {
         }
 
         // otherwise recursively subdivide the four cells
-        subdivide(node_0, node_01, node_20, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_01, node_1, node_12, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_12, node_2, node_20, coordinate_system, subdivided_mesh, n_refinements - 1);
-        subdivide(node_20, node_01, node_12, coordinate_system, subdivided_mesh, n_refinements - 1);
+        subdivide(
+            node_0, node_01, node_20, coordinate_system, subdivided_mesh, midnodes,
+            n_refinements - 1);
+        subdivide(
+            node_01, node_1, node_12, coordinate_system, subdivided_mesh, midnodes,
+            n_refinements - 1);
+        subdivide(
+            node_12, node_2, node_20, coordinate_system, subdivided_mesh, midnodes,
+            n_refinements - 1);
+        subdivide(
+            node_20, node_01, node_12, coordinate_system, subdivided_mesh, midnodes,
+            n_refinements - 1);
 
         // all done
         return;
@@ -95,25 +125,26 @@ namespace mito::mesh {
         const geometry::node_t<D> & node_0, const geometry::node_t<D> & node_1,
         const geometry::node_t<D> & node_2, const geometry::node_t<D> & node_3,
         geometry::coordinate_system_t<coordT> & coordinate_system,
-        mesh_t<geometry::tetrahedron_t<D>> & subdivided_mesh, int n_refinements) -> void
+        mesh_t<geometry::tetrahedron_t<D>> & subdivided_mesh, midnodes_t<D> & midnodes,
+        int n_refinements) -> void
     {
         // compute the middle point of the segment 0->1
-        auto node_01 = midnode(node_0, node_1, coordinate_system);
+        auto node_01 = midnode(node_0, node_1, coordinate_system, midnodes);
 
         // compute the middle point of the segment 0->2
-        auto node_02 = midnode(node_0, node_2, coordinate_system);
+        auto node_02 = midnode(node_0, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 0->3
-        auto node_03 = midnode(node_0, node_3, coordinate_system);
+        auto node_03 = midnode(node_0, node_3, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->2
-        auto node_12 = midnode(node_1, node_2, coordinate_system);
+        auto node_12 = midnode(node_1, node_2, coordinate_system, midnodes);
 
         // compute the middle point of the segment 1->3
-        auto node_13 = midnode(node_1, node_3, coordinate_system);
+        auto node_13 = midnode(node_1, node_3, coordinate_system, midnodes);
 
         // compute the middle point of the segment 2->3
-        auto node_23 = midnode(node_2, node_3, coordinate_system);
+        auto node_23 = midnode(node_2, node_3, coordinate_system, midnodes);
 
         // if there are no more refinements to be made
         if (n_refinements == 1) {
@@ -134,28 +165,28 @@ namespace mito::mesh {
 
         // otherwise recursively subdivide the four cells
         subdivide(
-            node_0, node_01, node_02, node_03, coordinate_system, subdivided_mesh,
+            node_0, node_01, node_02, node_03, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_1, node_01, node_13, node_12, coordinate_system, subdivided_mesh,
+            node_1, node_01, node_13, node_12, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_2, node_02, node_12, node_23, coordinate_system, subdivided_mesh,
+            node_2, node_02, node_12, node_23, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_03, node_3, node_13, node_23, coordinate_system, subdivided_mesh,
+            node_03, node_3, node_13, node_23, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_02, node_01, node_13, node_03, coordinate_system, subdivided_mesh,
+            node_02, node_01, node_13, node_03, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_02, node_03, node_13, node_23, coordinate_system, subdivided_mesh,
+            node_02, node_03, node_13, node_23, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_01, node_02, node_13, node_12, coordinate_system, subdivided_mesh,
+            node_01, node_02, node_13, node_12, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
         subdivide(
-            node_02, node_23, node_13, node_12, coordinate_system, subdivided_mesh,
+            node_02, node_23, node_13, node_12, coordinate_system, subdivided_mesh, midnodes,
             n_refinements - 1);
 
         // all done
@@ -184,6 +215,10 @@ namespace mito::mesh {
             return subdivided_mesh;
         }
 
+        // the nodes in the middle of the segments (shared by all the cells that share
+        // the segment)
+        midnodes_t<cellT::dim> midnodes;
+
         // loop on the cells of the mesh
         for (const auto & cell : mesh.cells()) {
 
@@ -194,14 +229,15 @@ namespace mito::mesh {
             constexpr auto _subdivide =
                 []<size_t... J>(
                     const auto & nodes, geometry::coordinate_system_t<coordT> & coordinate_system,
-                    mesh_t<cellT> & subdivided_mesh, int n_refinements, std::index_sequence<J...>) {
+                    mesh_t<cellT> & subdivided_mesh, midnodes_t<cellT::dim> & midnodes,
+                    int n_refinements, std::index_sequence<J...>) {
                     return subdivide(
-                        nodes[J]..., coordinate_system, subdivided_mesh, n_refinements);
+                        nodes[J]..., coordinate_system, subdivided_mesh, midnodes, n_refinements);
                 };
 
             // recursively subdivide the cell identified by these vertices
             _subdivide(
-                nodes, coordinate_system, subdivided_mesh, n_refinements,
+                nodes, coordinate_system, subdivided_mesh, midnodes, n_refinements,
                 std::make_index_sequence<cellT::order + 1>{});
         }
 
@@ -209,7 +245,6 @@ namespace mito::mesh {
         return subdivided_mesh;
     }
 
-}
-
+}    // namespace mito::mesh
 
 // end of file
-- 
2.43.0


From 9db278f94d4b48ed9130a13488b045f86b0f5def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 15/22] fix: the right-hand side of a PETSc linear system is
 assembled before the system is solved

---
 lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
index 3e96648..37e60a0 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
@@ -74,6 +74,10 @@ mito::matrix_solvers::petsc::PETScLinearSystem::assemble() -> void
     PetscCallVoid(MatAssemblyBegin(_matrix, MAT_FINAL_ASSEMBLY));
     PetscCallVoid(MatAssemblyEnd(_matrix, MAT_FINAL_ASSEMBLY));
 
+    // assemble right-hand side
+    PetscCallVoid(VecAssemblyBegin(_rhs));
+    PetscCallVoid(VecAssemblyEnd(_rhs));
+
     // // show the matrix and the right-hand-side
     // PetscCallVoid(MatView(_matrix, PETSC_VIEWER_STDOUT_WORLD));
     // PetscCallVoid(VecView(_rhs, PETSC_VIEWER_STDOUT_WORLD));
-- 
2.43.0


From c5e05518a936558c4eda3f0d3e3a49e175932acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 16/22] fix: reading the solution of a PETSc linear system
 gathers the entries of all processes

---
 .../backend/petsc/PETScLinearSystem.icc       | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
index 37957a9..717ff22 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.icc
@@ -14,9 +14,18 @@ template <class solutionT>
 auto
 mito::matrix_solvers::petsc::PETScLinearSystem::get_solution(solutionT & solution) const -> void
 {
-    // get a pointer to the beginning of {_solution}
+    // gather the entries of {_solution} owned by all processes in a local copy of the vector
+    VecScatter scatter;
+    vector_type local_solution;
+    PetscCallVoid(VecScatterCreateToAll(_solution, &scatter, &local_solution));
+    PetscCallVoid(
+        VecScatterBegin(scatter, _solution, local_solution, INSERT_VALUES, SCATTER_FORWARD));
+    PetscCallVoid(
+        VecScatterEnd(scatter, _solution, local_solution, INSERT_VALUES, SCATTER_FORWARD));
+
+    // get a pointer to the beginning of {local_solution}
     const scalar_type * u;
-    PetscCallVoid(VecGetArrayRead(_solution, &u));
+    PetscCallVoid(VecGetArrayRead(local_solution, &u));
 
     // get the size of the vector
     PetscInt size;
@@ -25,11 +34,15 @@ mito::matrix_solvers::petsc::PETScLinearSystem::get_solution(solutionT & solutio
     // check that the size of {_solution} matches the size of {solution}
     assert(size == (int) std::size(solution));
 
-    // copy {_solution} into {solution}
+    // copy {local_solution} into {solution}
     std::copy(u, u + size, std::begin(solution));
 
     // restore the array after reading
-    PetscCallVoid(VecRestoreArrayRead(_solution, &u));
+    PetscCallVoid(VecRestoreArrayRead(local_solution, &u));
+
+    // free the memory of the local copy
+    PetscCallVoid(VecScatterDestroy(&scatter));
+    PetscCallVoid(VecDestroy(&local_solution));
 
     // all done
     return;
-- 
2.43.0


From 0dd2d959b717ebd169faf9cab9a77db0fe71cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 17/22] fix: destroying PETSc objects whose creation failed
 used uninitialised handles

---
 lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc | 3 ++-
 lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
index c054596..fef9edc 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
@@ -14,7 +14,8 @@
 mito::matrix_solvers::petsc::PETScKrylovSolver::PETScKrylovSolver(
     linear_system_type & linear_system) :
     _linear_system(linear_system),
-    _options_prefix(linear_system.label() + "_")
+    _options_prefix(linear_system.label() + "_"),
+    _ksp(nullptr)
 {}
 
 // destructor
diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
index 37e60a0..bb8abb6 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScLinearSystem.cc
@@ -12,6 +12,9 @@
 // constructor
 mito::matrix_solvers::petsc::PETScLinearSystem::PETScLinearSystem(const label_type & label) :
     _label(label),
+    _matrix(nullptr),
+    _rhs(nullptr),
+    _solution(nullptr),
     _n_equations(0)
 {}
 
-- 
2.43.0


From a4e046d1f465d1ccbcd58fbf93046b168cda82d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 18/22] fix: negative option values were mistaken for options
 of the PETSc solver

---
 lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc | 7 ++++---
 lib/mito/matrix_solvers/backend/petsc/externals.h          | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
index fef9edc..200e1d1 100644
--- a/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
+++ b/lib/mito/matrix_solvers/backend/petsc/PETScKrylovSolver.cc
@@ -66,10 +66,11 @@ namespace {
         std::string word_string = options.substr(pos_old, pos_new - pos_old);
         options_vector.push_back(word_string);
 
-        // for each word, if the leading character is '-', insert the {prefix} between '-' and the
-        // rest of the word
+        // for each word, if the leading character is '-' and it is followed by a letter (i.e. if the
+        // word is the name of an option and not a negative number), insert the {prefix} between
+        // '-' and the rest of the word
         for (auto & word : options_vector) {
-            if (word[0] == '-') {
+            if (word[0] == '-' && std::isalpha(static_cast<unsigned char>(word[1]))) {
                 word.erase(0, 1);
                 word = "-" + prefix + word;
             }
diff --git a/lib/mito/matrix_solvers/backend/petsc/externals.h b/lib/mito/matrix_solvers/backend/petsc/externals.h
index 08ed8f3..dcfff4b 100644
--- a/lib/mito/matrix_solvers/backend/petsc/externals.h
+++ b/lib/mito/matrix_solvers/backend/petsc/externals.h
@@ -11,6 +11,7 @@
 #include <string>
 #include <vector>
 #include <cassert>
+#include <cctype>
 
 // support
 #include "../../../journal.h"
-- 
2.43.0


From 4beab6118c05e6a91d8e6e39e30840e887abe498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 19/22] fix: functions defined in headers were not inline, so
 programs of several translation units did not link

---
 lib/mito/io/vtk/vtk_point.h                       | 10 +++++-----
 lib/mito/matrix_solvers/backend/petsc/factories.h |  4 ++--
 lib/mito/simulation/Context.icc                   |  8 ++++----
 lib/mito/simulation/Simulation.icc                |  6 +++---
 lib/mito/simulation/factories.h                   |  2 +-
 lib/mito/topology/FlipDiagonal.h                  |  2 +-
 lib/mito/topology/SimplexFactory.h                |  6 +++---
 lib/mito/topology/Topology.icc                    |  4 ++--
 lib/mito/topology/utilities.h                     | 10 +++++-----
 9 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/lib/mito/io/vtk/vtk_point.h b/lib/mito/io/vtk/vtk_point.h
index 4c9f161..fdc6a1a 100644
--- a/lib/mito/io/vtk/vtk_point.h
+++ b/lib/mito/io/vtk/vtk_point.h
@@ -13,7 +13,7 @@ namespace mito::io::vtk {
     auto insert_vtk_point(const coordT &, vtkSmartPointer<vtkPoints> &) -> void;
 
     template <>
-    auto insert_vtk_point(
+    inline auto insert_vtk_point(
         const geometry::coordinates_t<3, geometry::CARTESIAN> & coord,
         vtkSmartPointer<vtkPoints> & pointsVtk) -> void
     {
@@ -22,7 +22,7 @@ namespace mito::io::vtk {
     }
 
     template <>
-    auto insert_vtk_point(
+    inline auto insert_vtk_point(
         const geometry::coordinates_t<2, geometry::CARTESIAN> & coord,
         vtkSmartPointer<vtkPoints> & pointsVtk) -> void
     {
@@ -31,7 +31,7 @@ namespace mito::io::vtk {
     }
 
     template <>
-    auto insert_vtk_point(
+    inline auto insert_vtk_point(
         const geometry::coordinates_t<1, geometry::CARTESIAN> & coord,
         vtkSmartPointer<vtkPoints> & pointsVtk) -> void
     {
@@ -40,7 +40,7 @@ namespace mito::io::vtk {
     }
 
     template <>
-    auto insert_vtk_point(
+    inline auto insert_vtk_point(
         const geometry::coordinates_t<3, geometry::SPHERICAL> & coord,
         vtkSmartPointer<vtkPoints> & pointsVtk) -> void
     {
@@ -55,7 +55,7 @@ namespace mito::io::vtk {
     }
 
     template <>
-    auto insert_vtk_point(
+    inline auto insert_vtk_point(
         const geometry::coordinates_t<2, geometry::POLAR> & coord,
         vtkSmartPointer<vtkPoints> & pointsVtk) -> void
     {
diff --git a/lib/mito/matrix_solvers/backend/petsc/factories.h b/lib/mito/matrix_solvers/backend/petsc/factories.h
index ef9e75d..b5e82b3 100644
--- a/lib/mito/matrix_solvers/backend/petsc/factories.h
+++ b/lib/mito/matrix_solvers/backend/petsc/factories.h
@@ -10,13 +10,13 @@
 namespace mito::matrix_solvers::petsc {
 
     // petsc linear system
-    auto linear_system(const std::string & name)
+    inline auto linear_system(const std::string & name)
     {
         return linear_system_t(name);
     }
 
     // petsc Krylov solver
-    auto ksp(linear_system_t & linear_system)
+    inline auto ksp(linear_system_t & linear_system)
     {
         return ksp_t(linear_system);
     }
diff --git a/lib/mito/simulation/Context.icc b/lib/mito/simulation/Context.icc
index fce5fc8..ace12ab 100644
--- a/lib/mito/simulation/Context.icc
+++ b/lib/mito/simulation/Context.icc
@@ -9,7 +9,7 @@
 #else
 
 
-mito::simulation::Context::Context() : _task_id(0), _n_tasks(1)
+inline mito::simulation::Context::Context() : _task_id(0), _n_tasks(1)
 {
 #if (WITH_MPI)
     // initialize MPI
@@ -29,7 +29,7 @@ mito::simulation::Context::Context() : _task_id(0), _n_tasks(1)
     channel << "Job partitioned in " << _n_tasks << " processes" << journal::endl;
 }
 
-mito::simulation::Context::~Context()
+inline mito::simulation::Context::~Context()
 {
 #if (WITH_MPI)
     // finalize MPI
@@ -37,13 +37,13 @@ mito::simulation::Context::~Context()
 #endif
 }
 
-auto
+inline auto
 mito::simulation::Context::task_id() const -> int
 {
     return _task_id;
 }
 
-auto
+inline auto
 mito::simulation::Context::n_tasks() const -> int
 {
     return _n_tasks;
diff --git a/lib/mito/simulation/Simulation.icc b/lib/mito/simulation/Simulation.icc
index 6992366..ac2b8d5 100644
--- a/lib/mito/simulation/Simulation.icc
+++ b/lib/mito/simulation/Simulation.icc
@@ -9,15 +9,15 @@
 #else
 
 
-mito::simulation::Simulation::Simulation() : _execution_context(), _clock() {}
+inline mito::simulation::Simulation::Simulation() : _execution_context(), _clock() {}
 
-auto
+inline auto
 mito::simulation::Simulation::context() const -> const execution_context_type &
 {
     return _execution_context;
 }
 
-auto
+inline auto
 mito::simulation::Simulation::clock() const -> const clock_type &
 {
     return _clock;
diff --git a/lib/mito/simulation/factories.h b/lib/mito/simulation/factories.h
index 6c47cfd..32c304d 100644
--- a/lib/mito/simulation/factories.h
+++ b/lib/mito/simulation/factories.h
@@ -10,7 +10,7 @@
 namespace mito::simulation {
 
     // simulation factory
-    auto simulation() -> simulation_t &
+    inline auto simulation() -> simulation_t &
     {
         return utilities::Singleton<simulation_t>::GetInstance();
     }
diff --git a/lib/mito/topology/FlipDiagonal.h b/lib/mito/topology/FlipDiagonal.h
index 7ab6f9b..1c0620d 100644
--- a/lib/mito/topology/FlipDiagonal.h
+++ b/lib/mito/topology/FlipDiagonal.h
@@ -46,7 +46,7 @@ namespace mito::topology {
             -> simplex_pair_type;
     };
 
-    auto flip_diagonal(const std::pair<simplex_t<2>, simplex_t<2>> & simplex_pair)
+    inline auto flip_diagonal(const std::pair<simplex_t<2>, simplex_t<2>> & simplex_pair)
         -> std::pair<simplex_t<2>, simplex_t<2>>
     {
         return FlipDiagonal::flip_diagonal(simplex_pair);
diff --git a/lib/mito/topology/SimplexFactory.h b/lib/mito/topology/SimplexFactory.h
index 47442c4..8d7d976 100644
--- a/lib/mito/topology/SimplexFactory.h
+++ b/lib/mito/topology/SimplexFactory.h
@@ -145,7 +145,7 @@ namespace mito::topology {
 
     // equivalence class relation for a simplex in 1D
     template <>
-    auto SimplexFactory<1>::_representative(const simplex_composition_t<1> & composition) const
+    inline auto SimplexFactory<1>::_representative(const simplex_composition_t<1> & composition) const
         -> composition_t
     {
         // initialize representative with footprints of simplices in current composition
@@ -159,7 +159,7 @@ namespace mito::topology {
 
     // equivalence class relation for a simplex in 2D
     template <>
-    auto SimplexFactory<2>::_representative(const simplex_composition_t<2> & composition) const
+    inline auto SimplexFactory<2>::_representative(const simplex_composition_t<2> & composition) const
         -> composition_t
     {
         // initialize representative with footprints of simplices in current composition
@@ -176,7 +176,7 @@ namespace mito::topology {
 
     // equivalence class relation for a simplex in 3D
     template <>
-    auto SimplexFactory<3>::_representative(const simplex_composition_t<3> & composition) const
+    inline auto SimplexFactory<3>::_representative(const simplex_composition_t<3> & composition) const
         -> composition_t
     {
         // initialize representative with footprints of simplices in current composition
diff --git a/lib/mito/topology/Topology.icc b/lib/mito/topology/Topology.icc
index c675660..07ade4f 100644
--- a/lib/mito/topology/Topology.icc
+++ b/lib/mito/topology/Topology.icc
@@ -8,14 +8,14 @@
 #error This header file contains implementation details of class mito::topology::Topology
 #else
 
-mito::topology::Topology::Topology() :
+inline mito::topology::Topology::Topology() :
     _vertex_factory(),
     _segment_factory(),
     _triangle_factory(),
     _tetrahedron_factory()
 {}
 
-mito::topology::Topology::~Topology() {}
+inline mito::topology::Topology::~Topology() {}
 
 template <>
 inline auto
diff --git a/lib/mito/topology/utilities.h b/lib/mito/topology/utilities.h
index 3ececd0..1c84504 100644
--- a/lib/mito/topology/utilities.h
+++ b/lib/mito/topology/utilities.h
@@ -45,7 +45,7 @@ namespace mito::topology {
 
     // overload operator<< for oriented simplices
     template <>
-    std::ostream & operator<<(std::ostream & os, const unoriented_simplex_t<0> & s)
+    inline std::ostream & operator<<(std::ostream & os, const unoriented_simplex_t<0> & s)
     {
         os << "vertex: " << s.id() << std::endl;
         return os;
@@ -98,7 +98,7 @@ namespace mito::topology {
 
     // overload operator<< for oriented simplices
     template <>
-    auto print(const unoriented_simplex_t<0> & s) -> void
+    inline auto print(const unoriented_simplex_t<0> & s) -> void
     {
         // make a channel
         journal::info_t channel("lib.topology.simplex");
@@ -107,17 +107,17 @@ namespace mito::topology {
         return;
     }
 
-    auto tail(const simplex_t<1> & oriented_simplex) -> vertex_t
+    inline auto tail(const simplex_t<1> & oriented_simplex) -> vertex_t
     {
         return oriented_simplex->composition()[0]->footprint();
     }
 
-    auto head(const simplex_t<1> & oriented_simplex) -> vertex_t
+    inline auto head(const simplex_t<1> & oriented_simplex) -> vertex_t
     {
         return oriented_simplex->composition()[1]->footprint();
     }
 
-    bool headTailConnected(const simplex_t<1> & simplex_1, const simplex_t<1> & simplex_2)
+    inline bool headTailConnected(const simplex_t<1> & simplex_1, const simplex_t<1> & simplex_2)
     {
         if (head(simplex_1) == tail(simplex_2)) {
             return true;
-- 
2.43.0


From f975f6173ec272c116b4ab7daeaca55d02cd0e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 20/22] fix: reading a mesh file whose cells carry a material
 and an element label lost the mesh

---
 lib/mito/io/summit/reader.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mito/io/summit/reader.h b/lib/mito/io/summit/reader.h
index 137387a..8ad548d 100644
--- a/lib/mito/io/summit/reader.h
+++ b/lib/mito/io/summit/reader.h
@@ -95,10 +95,11 @@ namespace mito::io::summit {
         }
 
         // QUESTION: Can the label be more than one?
-        // read label for cell
+        // read the labels for cell (all that is left on the line: the writer may append the type of
+        // the element to the material label)
         // TOFIX: Ignored for now
         std::string cell_set_id;
-        fileStream >> cell_set_id;
+        std::getline(fileStream, cell_set_id);
 
         // all done
         return;
-- 
2.43.0


From cacbafdfb804ceea2f5d0be8cebc939069150231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:31 +0000
Subject: [PATCH 21/22] fix: keep alive what the manifolds and integrators of
 the Python module refer to

---
 extensions/mito/mito.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/extensions/mito/mito.cc b/extensions/mito/mito.cc
index 7c15abb..63a2054 100644
--- a/extensions/mito/mito.cc
+++ b/extensions/mito/mito.cc
@@ -148,7 +148,9 @@ PYBIND11_MODULE(mito, m)
                 [](const mesh_triangle_2D_t & mesh, const coordinate_system_2D_t & coord_system) {
                     // create the manifold
                     return mito::manifolds::manifold(mesh, coord_system);
-                }))
+                }),
+            // the manifold refers to the mesh and to the coordinate system: keep them alive
+            mito::py::keep_alive<1, 2>(), mito::py::keep_alive<1, 3>())
         // done
         ;
 
@@ -160,7 +162,9 @@ PYBIND11_MODULE(mito, m)
         // the constructor
         .def(
             // the implementation
-            mito::py::init<const manifold_triangle_2D_t &>())
+            mito::py::init<const manifold_triangle_2D_t &>(),
+            // the integrator refers to the manifold: keep it alive
+            mito::py::keep_alive<1, 2>())
         // interface
         // integrate a scalar field
         .def(
-- 
2.43.0


From b8b87c1a45975a11ed8a2d89b4732df3c6c5cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:15 +0000
Subject: [PATCH 22/22] fix: register the cells of the mesh in the Python
 module

---
 extensions/mito/mito.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/extensions/mito/mito.cc b/extensions/mito/mito.cc
index 63a2054..c41ca16 100644
--- a/extensions/mito/mito.cc
+++ b/extensions/mito/mito.cc
@@ -115,6 +115,19 @@ PYBIND11_MODULE(mito, m)
     using cell_2D_t = mito::geometry::triangle_t<2>;
     // alias for a mesh of triangles embedded in 2D
     using mesh_triangle_2D_t = mito::mesh::mesh_t<cell_2D_t>;
+    // alias for the cells of the mesh
+    using cells_triangle_2D_t = mesh_triangle_2D_t::cells_type;
+    // the interface of the cells of the mesh
+    mito::py::class_<cells_triangle_2D_t>(m, "SimplicialMesh2DCells")
+        // the number of cells
+        .def(
+            "__len__",
+            // the implementation
+            [](const cells_triangle_2D_t & self) { return self.size(); })
+        // done
+        ;
+
+
     // the mito Mesh interface
     mito::py::class_<mesh_triangle_2D_t>(m, "SimplicialMesh2D")
         // the default constructor
-- 
2.43.0

