From 2f8e005330ffcdbfeffe72d4d674241ade5d89c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:09 +0000
Subject: [PATCH 01/11] fix: compare the dimension of none geometry types

Two none types of different dimension compared equal although one was less
than the other. Compare the dimension in operator==, and ignore the topology
id of none types in operator< as operator== does.
---
 dune/geometry/type.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/geometry/type.hh b/dune/geometry/type.hh
index 7a39694..9a4138f 100644
--- a/dune/geometry/type.hh
+++ b/dune/geometry/type.hh
@@ -376,10 +376,9 @@ namespace Dune
      */
     constexpr bool operator==(const GeometryType& other) const {
       return ( ( none_ == other.none_ )
+               && ( dim_ == other.dim_ )
                && ( ( none_ == true )
-                    || ( ( dim_ == other.dim_ )
-                         && ( (topologyId_ >> 1) == (other.topologyId_ >> 1) )
-                         )
+                    || ( (topologyId_ >> 1) == (other.topologyId_ >> 1) )
                     )
                );
     }
@@ -395,6 +394,7 @@ namespace Dune
                || ( !( other.none_ < none_ )
                     && ( ( dim_ < other.dim_ )
                          || ( (other.dim_ == dim_)
+                              && !none_
                               && ((topologyId_ >> 1) < (other.topologyId_ >> 1) )
                               )
                          )
-- 
2.43.0


From 7c5fdb08b4503e30285a97a4cf23186f30e28751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:09 +0000
Subject: [PATCH 02/11] fix: keep the inverse reference volume in full width

The inverse volume of the base was stored in an unsigned int, so it was
truncated for simplices of dimension 14 and above.
---
 dune/geometry/referenceelementimplementation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/referenceelementimplementation.cc b/dune/geometry/referenceelementimplementation.cc
index 9b65199..7259341 100644
--- a/dune/geometry/referenceelementimplementation.cc
+++ b/dune/geometry/referenceelementimplementation.cc
@@ -178,7 +178,7 @@ namespace Dune
 
         if( dim > 0 )
           {
-            unsigned int baseValue = referenceVolumeInverse( baseTopologyId( topologyId, dim ), dim-1 );
+            unsigned long baseValue = referenceVolumeInverse( baseTopologyId( topologyId, dim ), dim-1 );
             return (isPrism( topologyId, dim ) ? baseValue : baseValue * (unsigned long)dim);
           }
         else
-- 
2.43.0


From 37a109f6842059e3de49db0e4f6eab0f91840406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:46:09 +0000
Subject: [PATCH 03/11] fix: report a singular Jacobian in
 CachedMultiLinearGeometry::local

The result of the failed solve was returned uninitialised for affine
mappings. Return the maximum value as MultiLinearGeometry::local does.
---
 dune/geometry/multilineargeometry.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/multilineargeometry.hh b/dune/geometry/multilineargeometry.hh
index 1ca32dc..f3fd1b4 100644
--- a/dune/geometry/multilineargeometry.hh
+++ b/dune/geometry/multilineargeometry.hh
@@ -608,8 +608,8 @@ namespace Dune
         LocalCoordinate local;
         if( jacobianInverseTransposedComputed_ )
           jacobianInverseTransposed_.mtv( global - corner( 0 ), local );
-        else
-          MatrixHelper::xTRightInvA( jacobianTransposed_, global - corner( 0 ), local );
+        else if( !MatrixHelper::xTRightInvA( jacobianTransposed_, global - corner( 0 ), local ) )
+          return LocalCoordinate( std::numeric_limits< ctype > :: max() );
         return local;
       }
       else
-- 
2.43.0


From 9197dafbbade57814e2f6cdbbd2928220a4dc489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:24 +0000
Subject: [PATCH 04/11] fix: reject quadrature orders outside the rule cache

A request with a negative order, or with an order beyond the highest one
the factory supports, indexed the array of cached rules out of bounds.
It now raises QuadratureOrderOutOfRange.
---
 dune/geometry/quadraturerules.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index 43a48dc..a0ed8aa 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -294,6 +294,9 @@ namespace Dune {
         orders = QuadratureOrderVector(numRules);
       });
 
+      if (dim != 0 && static_cast<std::size_t>(p) >= quadratureOrders.size())
+        DUNE_THROW(QuadratureOrderOutOfRange, "Quadrature rule " << p << " not supported!");
+
       // we only have one quadrature rule for points
       auto& [ onceFlagQuadratureOrder, quadratureRule ] = quadratureOrders[dim == 0 ? 0 : p];
       // initialize quadrature rule once
-- 
2.43.0


From 8693158b7c2ada95409ec8d75dafd0803227bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:24 +0000
Subject: [PATCH 05/11] fix: report the status of the Gauss-Newton method by
 the residual

A start value that already solves the problem was reported as
stagnation, because no step can reduce its residual further.
Iteration limits of zero were reported as success, because the residual
norm started at zero instead of at the norm of the start value.
---
 dune/geometry/utility/algorithms.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/utility/algorithms.hh b/dune/geometry/utility/algorithms.hh
index 40259a6..d94d2f1 100644
--- a/dune/geometry/utility/algorithms.hh
+++ b/dune/geometry/utility/algorithms.hh
@@ -69,7 +69,7 @@ GaussNewtonErrorCode gaussNewton (const F& f, const DF& df, Range y, Domain& x0,
   Domain dx{};
   Range dy = f(x0) - y;
   R resNorm0 = dy.two_norm();
-  R resNorm = 0;
+  R resNorm = resNorm0;
 
   for (int i = 0; i < opts.maxIt; ++i)
   {
@@ -95,7 +95,7 @@ GaussNewtonErrorCode gaussNewton (const F& f, const DF& df, Range y, Domain& x0,
 
     // cannot reduce the residual
     if (!(resNorm < resNorm0))
-      return GaussNewtonErrorCode::STAGNATION;
+      return resNorm0 < opts.absTol ? GaussNewtonErrorCode::OK : GaussNewtonErrorCode::STAGNATION;
 
     x0 = x;
     resNorm0 = resNorm;
-- 
2.43.0


From 5cfce0aa0b831f3e5be891aaedc1bd9bafbfccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:55 +0000
Subject: [PATCH 06/11] fix: geometry of the vertices of a refined cube

The geometry of a vertex decoded the vertex index with the number of
cells per direction instead of the number of vertices, so it was located
at a different point than the coordinates of the vertex.
---
 dune/geometry/refinement/hcube.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/refinement/hcube.cc b/dune/geometry/refinement/hcube.cc
index 0e7c00e..87e7c15 100644
--- a/dune/geometry/refinement/hcube.cc
+++ b/dune/geometry/refinement/hcube.cc
@@ -391,7 +391,7 @@ namespace Dune
       typename RefinementImp<dimension, CoordType>::template Codim<codimension>::Geometry
       RefinementImp<dimension, CoordType>::Codim<codimension>::SubEntityIterator::geometry () const
       {
-        std::array<unsigned int,dimension> intCoords = idx2coord(_index,_nIntervals);
+        std::array<unsigned int,dimension> intCoords = (codimension == 0) ? cellCoord() : vertexCoord();
 
         Dune::FieldVector<CoordType,dimension> lower;
         Dune::FieldVector<CoordType,dimension> upper;
-- 
2.43.0


From f171ff6cd573497ae122a627cb021066ec22141d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:55 +0000
Subject: [PATCH 07/11] fix: geometry of the vertices of a refined simplex

The geometry of a vertex was located at the integer grid coordinates of
the vertex instead of its coordinates in the reference simplex.
---
 dune/geometry/refinement/simplex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/geometry/refinement/simplex.cc b/dune/geometry/refinement/simplex.cc
index c06f22b..6f3b203 100644
--- a/dune/geometry/refinement/simplex.cc
+++ b/dune/geometry/refinement/simplex.cc
@@ -522,7 +522,7 @@ namespace Dune {
       RefinementIteratorSpecial<dimension, CoordType, dimension>::geometry () const
       {
         std::vector<CoordVector> corners(1);
-        corners[0] = (CoordVector)vertex;
+        corners[0] = coords();
         return Geometry(GeometryTypes::vertex, corners);
       }
 
-- 
2.43.0


From 593a7dd4fdd1ed7f886d04bbcb52893051d4c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:55 +0000
Subject: [PATCH 08/11] fix: geometry of the vertices of a refined pyramid

The geometry of a vertex was given in the coordinates of the Kuhn
decomposition instead of those of the reference pyramid.
---
 dune/geometry/refinement/pyramidtriangulation.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/refinement/pyramidtriangulation.cc b/dune/geometry/refinement/pyramidtriangulation.cc
index 59d4cef..c230040 100644
--- a/dune/geometry/refinement/pyramidtriangulation.cc
+++ b/dune/geometry/refinement/pyramidtriangulation.cc
@@ -224,7 +224,8 @@ namespace Dune
       RefinementIteratorSpecial<dimension, CoordType, dimension>::geometry () const
       {
         std::vector<CoordVector> corners(1);
-        corners[0] = referenceToKuhn(backend.coords(), getPermutation<dimension>(kuhnIndex));
+        corners[0] = transformCoordinate(referenceToKuhn(backend.coords(),
+                                                         getPermutation<dimension>(kuhnIndex)));
         return Geometry(GeometryTypes::vertex, corners);
       }
 
-- 
2.43.0


From 6a8cb60d5becf14126b72b608a8665aec5dc9285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:14:40 +0000
Subject: [PATCH 09/11] fix: self-assignment of run-time refinement iterators

The assignment deleted the backend before cloning the backend of the
assigned iterator, which is the same object for a self-assignment.
---
 dune/geometry/virtualrefinement.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/geometry/virtualrefinement.cc b/dune/geometry/virtualrefinement.cc
index cf1715c..bda1dff 100644
--- a/dune/geometry/virtualrefinement.cc
+++ b/dune/geometry/virtualrefinement.cc
@@ -157,8 +157,9 @@ namespace Dune
   VirtualRefinement<dimension, CoordType>::Codim<codimension>::SubEntityIterator::
   operator=(const This &other)
   {
+    IteratorBack *clone = other.backend->clone();
     delete backend;
-    backend = other.backend->clone();
+    backend = clone;
     return *this;
   }
 
-- 
2.43.0


From cf4764702ff1ef2a461a4d3b85e70f54d1599eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:15 +0000
Subject: [PATCH 10/11] fix: volume of curved geometries compared a quadrature
 rule with itself

---
 dune/geometry/localfiniteelementgeometry.hh | 10 ++++++++--
 dune/geometry/mappedgeometry.hh             | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/dune/geometry/localfiniteelementgeometry.hh b/dune/geometry/localfiniteelementgeometry.hh
index cdbbe60..f6f9220 100644
--- a/dune/geometry/localfiniteelementgeometry.hh
+++ b/dune/geometry/localfiniteelementgeometry.hh
@@ -5,6 +5,7 @@
 #ifndef DUNE_GEOMETRY_LOCALFINITEELEMENTGEOMETRY_HH
 #define DUNE_GEOMETRY_LOCALFINITEELEMENTGEOMETRY_HH
 
+#include <algorithm>
 #include <cassert>
 #include <functional>
 #include <limits>
@@ -280,12 +281,17 @@ public:
       return vol0;
 
     using std::abs;
-    for (int p = 2; p < opts.maxIt; ++p) {
-      Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
+    const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    for (int p = 2; p < opts.maxIt && p <= maxOrder; ++p) {
+      const auto& quadRule = QuadratureRules<ctype, mydimension>::rule(type(), p);
+      Volume vol1 = volume(quadRule);
       if (abs(vol1 - vol0) < opts.absTol)
         return vol1;
 
       vol0 = vol1;
+
+      // the same rule would be used for all orders up to the delivered one
+      p = std::max(p, quadRule.order());
     }
     return vol0;
   }
diff --git a/dune/geometry/mappedgeometry.hh b/dune/geometry/mappedgeometry.hh
index 89604ac..76e132a 100644
--- a/dune/geometry/mappedgeometry.hh
+++ b/dune/geometry/mappedgeometry.hh
@@ -5,6 +5,7 @@
 #ifndef DUNE_GEOMETRY_MAPPEDGEOMETRY_HH
 #define DUNE_GEOMETRY_MAPPEDGEOMETRY_HH
 
+#include <algorithm>
 #include <cassert>
 #include <limits>
 #include <optional>
@@ -245,12 +246,17 @@ public:
       return vol0;
 
     using std::abs;
-    for (int p = 2; p < opts.maxIt; ++p) {
-      Volume vol1 = volume(QuadratureRules<ctype, mydimension>::rule(type(), p));
+    const int maxOrder = QuadratureRules<ctype, mydimension>::maxOrder(type());
+    for (int p = 2; p < opts.maxIt && p <= maxOrder; ++p) {
+      const auto& quadRule = QuadratureRules<ctype, mydimension>::rule(type(), p);
+      Volume vol1 = volume(quadRule);
       if (abs(vol1 - vol0) < opts.absTol)
         return vol1;
 
       vol0 = vol1;
+
+      // the same rule would be used for all orders up to the delivered one
+      p = std::max(p, quadRule.order());
     }
     return vol0;
   }
-- 
2.43.0


From 19636067450f9ca5c9cde2a2db501bcaa5c08791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:15 +0000
Subject: [PATCH 11/11] fix: quadrature rules requested by a basic type

---
 dune/geometry/quadraturerules.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dune/geometry/quadraturerules.hh b/dune/geometry/quadraturerules.hh
index a0ed8aa..af0a929 100644
--- a/dune/geometry/quadraturerules.hh
+++ b/dune/geometry/quadraturerules.hh
@@ -334,8 +334,15 @@ namespace Dune {
     //! @copydoc rule
     static const QuadratureRule& rule(const GeometryType::BasicType t, int p, QuadratureType::Enum qt=QuadratureType::GaussLegendre)
     {
-      GeometryType gt(t,dim);
-      return instance()._rule(gt,p,qt);
+      if (t == GeometryType::simplex)
+        return rule(GeometryTypes::simplex(dim),p,qt);
+      if (t == GeometryType::cube)
+        return rule(GeometryTypes::cube(dim),p,qt);
+      if (dim == 3 && t == GeometryType::pyramid)
+        return rule(GeometryTypes::pyramid,p,qt);
+      if (dim == 3 && t == GeometryType::prism)
+        return rule(GeometryTypes::prism,p,qt);
+      DUNE_THROW(Exception, "Unknown GeometryType");
     }
   };
 
-- 
2.43.0

