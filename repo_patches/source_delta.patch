From 0d801b9976c9b75059891b9a71ff776616fd265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 01/20] fix: row-major strides of MultiIndexRange with unequal
 ranges

stride<INDEX> multiplied the leading ranges instead of the ranges that follow
INDEX, so linearIndex mapped different multi-indices to the same value unless
all ranges were equal (24 indices of 2x3x4 gave 14 values).
---
 include/shiva/common/IndexTypes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 83cb158..1885051 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -63,7 +63,7 @@ stride( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & index )
   // This will result in a fold expression that multiples entries of the ranges
   // array for the integer_sequence.
   return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
-                               &(index.ranges[0]) );
+                               &(index.ranges[0]) + INDEX + 1 );
 }
 
 /**
-- 
2.43.0


From a66b4fead43a5f7b8a9745287297ac3ffb75db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:27 +0000
Subject: [PATCH 02/20] fix: forRange works for every base index type

The loop variable was an int reference, so forRange did not compile for a
MultiIndexRange whose BASE_INDEX_TYPE is not int.
---
 include/shiva/common/IndexTypes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 1885051..43ad85a 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -105,7 +105,7 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // if we are at the last dimension, then call func on index
   if constexpr ( DIM == (IndexType::NUM_INDICES - 1) )
   {
-    int & a = index.data[DIM];
+    BASE_INDEX_TYPE & a = index.data[DIM];
     for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
     {
       func( index );
@@ -114,7 +114,7 @@ forRangeHelper( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & start,
   // otherwise, recurse until we get to the last index
   else
   {
-    int & a = index.data[DIM];
+    BASE_INDEX_TYPE & a = index.data[DIM];
     for ( a = start.data[DIM]; a < index.range( DIM ); ++a )
     {
       forRangeHelper< DIM + 1 >( start, index, func );
-- 
2.43.0


From 5de4a5babbe0c85bcd6d41a7c7e04bfcef606334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 03/20] fix: run-time GaussLobattoSpacing coordinates for 6 to
 9 points

coordinate(int) returned 0 for every index of 6 to 9 points, while the
compile-time coordinate<INDEX>() has these nodes.
---
 include/shiva/functions/spacing/Spacing.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/shiva/functions/spacing/Spacing.hpp b/include/shiva/functions/spacing/Spacing.hpp
index 8f5ca29..4c8b425 100644
--- a/include/shiva/functions/spacing/Spacing.hpp
+++ b/include/shiva/functions/spacing/Spacing.hpp
@@ -184,6 +184,26 @@ struct GaussLobattoSpacing
       // if ( index == 3 ) return  sqrt3div7;
       // if ( index == 4 ) return  1.0;
     }
+    else if constexpr ( N == 6 )
+    {
+      constexpr REAL_TYPE rval[6] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 7 )
+    {
+      constexpr REAL_TYPE rval[7] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 8 )
+    {
+      constexpr REAL_TYPE rval[8] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >(), coordinate< 7 >() };
+      return rval[index];
+    }
+    else if constexpr ( N == 9 )
+    {
+      constexpr REAL_TYPE rval[9] = { coordinate< 0 >(), coordinate< 1 >(), coordinate< 2 >(), coordinate< 3 >(), coordinate< 4 >(), coordinate< 5 >(), coordinate< 6 >(), coordinate< 7 >(), coordinate< 8 >() };
+      return rval[index];
+    }
     return 0;
   }
 
-- 
2.43.0


From 36bccee925bc8be58421061124ff72bbc635409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 04/20] fix: reject point counts that have no Gauss nodes
 instead of returning 0

GaussLegendreSpacing with 5 or more points and GaussLobattoSpacing with 10 or
more silently returned 0 for every coordinate; the weights of the same rules
already reject these counts.
---
 include/shiva/functions/spacing/Spacing.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/shiva/functions/spacing/Spacing.hpp b/include/shiva/functions/spacing/Spacing.hpp
index 4c8b425..9590cdf 100644
--- a/include/shiva/functions/spacing/Spacing.hpp
+++ b/include/shiva/functions/spacing/Spacing.hpp
@@ -84,6 +84,7 @@ struct GaussLegendreSpacing
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE coordinate( int const index )
   {
+    static_assert( N <= 4, "Unsupported number of points" );
     if constexpr ( N == 2 )
     {
       return invSqrt3 * ( -1.0 + index * 2 );
@@ -110,6 +111,7 @@ struct GaussLegendreSpacing
   template< int INDEX >
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE coordinate()
   {
+    static_assert( N <= 4, "Unsupported number of points" );
     if constexpr ( N == 2 )
     {
       return invSqrt3 * ( -1.0 + INDEX * 2.0 );
@@ -158,6 +160,7 @@ struct GaussLobattoSpacing
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE coordinate( int const index )
   {
+    static_assert( N <= 9, "Unsupported number of points" );
     if constexpr ( N == 2 )
     {
       return ( -1.0 + index * 2.0 );
@@ -216,6 +219,7 @@ struct GaussLobattoSpacing
   template< int INDEX >
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE coordinate()
   {
+    static_assert( N <= 9, "Unsupported number of points" );
     if constexpr ( N == 2 )
     {
       return ( -1.0 + INDEX * 2.0 );
-- 
2.43.0


From e73adf295f4df0b9dbc0d62c3d3f139a39ab8830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 05/20] fix: LinearTransform::setData for shapes that are not
 2x2x2

The vertex number was a + 2 * b + 4 * c whatever the number of support points,
so with more than two points per direction nodes got the coordinates of others.
---
 include/shiva/geometry/mapping/LinearTransform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index 63e78e3..a010944 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -121,7 +121,7 @@ public:
 
       for ( int i = 0; i < numDims; ++i )
       {
-        m_vertexCoords( a, b, c, i ) = coords[a + 2 * b + 4 * c][i];
+        m_vertexCoords( a, b, c, i ) = coords[a + DataType::template extent< 0 >() * ( b + DataType::template extent< 1 >() * c )][i];
       }
     } );
   }
-- 
2.43.0


From 0d5dc4c558273762721802d8cc1e99c86f9a6b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 06/20] fix: LinearTransform jacobian no longer depends on what
 J held before

J is documented as an output, and the other mappings overwrite it, but both
overloads added to it, so a reused or uninitialised J gave a wrong Jacobian (and
a wrong inverse from inverseJacobian).
---
 include/shiva/geometry/mapping/LinearTransform.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index a010944..9194439 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -168,6 +168,7 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   constexpr int DIMS = Transform::numDims;
 
   auto const & nodeCoords = transform.getData();
+  J = typename Transform::JacobianType{};
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     CArrayNd< REAL_TYPE, DIMS > const dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( pointCoordsParent );
@@ -215,6 +216,7 @@ jacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transform,
   auto const & nodeCoords = transform.getData();
   constexpr REAL_TYPE qcoords[3] = { ( QUADRATURE::template coordinate< QA >() )... };
 
+  J = typename Transform::JacobianType{};
   InterpolatedShape::supportLoop( [&] ( auto const ... ic_spIndices ) constexpr
   {
     constexpr CArrayNd< REAL_TYPE, DIMS > dNadXi = InterpolatedShape::template gradient< decltype(ic_spIndices)::value ... >( qcoords );
-- 
2.43.0


From 69b97e63059518079a0e95b33e426e65829da8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 07/20] fix: reject LinearTransform inverseJacobian in other
 than 3 dimensions

mathUtilities::inverse is written for 3x3 matrices, so a 2-D transform read and
wrote outside the Jacobian, and a 4-D one was inverted only in part.
---
 include/shiva/geometry/mapping/LinearTransform.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/shiva/geometry/mapping/LinearTransform.hpp b/include/shiva/geometry/mapping/LinearTransform.hpp
index 9194439..d2e7ec0 100644
--- a/include/shiva/geometry/mapping/LinearTransform.hpp
+++ b/include/shiva/geometry/mapping/LinearTransform.hpp
@@ -262,6 +262,7 @@ inverseJacobian( LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE > const & transf
                  typename LinearTransform< REAL_TYPE, INTERPOLATED_SHAPE >::JacobianType & invJ,
                  REAL_TYPE & detJ )
 {
+  static_assert( INTERPOLATED_SHAPE::numDims == 3, "inverseJacobian is only implemented for 3 dimensions" );
   jacobian( transform, parentCoords, invJ );
   mathUtilities::inverse( invJ, detJ );
 }
-- 
2.43.0


From b200d2c73bb644cd763169b18cb0184527b04e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 08/20] fix: C++20 branches of LagrangeBasis and BasisProduct
 compile

The __cplusplus >= 202002L branches named a pack that does not exist and called
valueProductFactor with arguments it does not take, so no basis could be used
from a C++20 translation unit.
---
 include/shiva/functions/bases/BasisProduct.hpp  | 2 +-
 include/shiva/functions/bases/LagrangeBasis.hpp | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/shiva/functions/bases/BasisProduct.hpp b/include/shiva/functions/bases/BasisProduct.hpp
index 2e19417..f6119c2 100644
--- a/include/shiva/functions/bases/BasisProduct.hpp
+++ b/include/shiva/functions/bases/BasisProduct.hpp
@@ -94,7 +94,7 @@ struct BasisProduct
     // expand pack over number of dimensions
     return executeSequence< numDims >( [&]< int ... PRODUCT_TERM_INDEX > () constexpr
     {
-      return ( BASIS_TYPE::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
+      return ( BASIS_TYPES::template value< BASIS_FUNCTION_INDICES >( parentCoord[PRODUCT_TERM_INDEX] ) * ... );
     } );
 #else
     return executeSequence< numDims >( [&] ( auto ... PRODUCT_TERM_INDEX ) constexpr
diff --git a/include/shiva/functions/bases/LagrangeBasis.hpp b/include/shiva/functions/bases/LagrangeBasis.hpp
index 9330885..b65b6ae 100644
--- a/include/shiva/functions/bases/LagrangeBasis.hpp
+++ b/include/shiva/functions/bases/LagrangeBasis.hpp
@@ -119,10 +119,11 @@ public:
 #if __cplusplus >= 202002L
     return executeSequence< numSupportPoints >( [&coord]< int ... a > () constexpr
     {
-      auto func = [&coord]< int ... b > ( auto aa ) constexpr
+      REAL_TYPE const values[ numSupportPoints ] = { valueProductTerm< BF_INDEX, a >( coord )... };
+      auto func = [&values]< int ... b > ( auto aa ) constexpr
       {
         constexpr int aVal = decltype(aa)::value;
-        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< BF_INDEX, b, aVal >( coord ) * ... );
+        return gradientOfValueTerm< BF_INDEX, aVal >() * ( valueProductFactor< b, aVal >( values ) * ... );
       };
 
       return ( executeSequence< numSupportPoints >( func, std::integral_constant< int, a >{} ) + ... );
-- 
2.43.0


From b7d9d75bce4c17d55dcf3816d2e7ae9904dc08ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 09/20] fix: ScalarView is a view

It stored a T by value, so it neither referred to the wrapped data nor compiled
when its element was accessed.
---
 include/shiva/common/CArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/CArray.hpp b/include/shiva/common/CArray.hpp
index d7cb7d5..0d81841 100644
--- a/include/shiva/common/CArray.hpp
+++ b/include/shiva/common/CArray.hpp
@@ -271,7 +271,7 @@ using CArrayNd = CArray< T, T[CArrayHelper::size< DIMS ... >()], DIMS ... >;
  * @tparam T Type held in the scalar
  */
 template< typename T >
-using ScalarView = CArray< T, T, 1 >;
+using ScalarView = CArray< T, T * const, 1 >;
 
 /**
  * @brief Alias for a N-d array view.
-- 
2.43.0


From 49aeab8e9c65f0bf93954e46fe0bdb34bd45986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 10/20] fix: NCube::numMCubes overflows int from 10 dimensions
 on

2^(N-M) * N! was formed before the division, which does not fit an int for
N >= 10 although the result does.
---
 include/shiva/geometry/shapes/NCube.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/geometry/shapes/NCube.hpp b/include/shiva/geometry/shapes/NCube.hpp
index dc1b370..6366e17 100644
--- a/include/shiva/geometry/shapes/NCube.hpp
+++ b/include/shiva/geometry/shapes/NCube.hpp
@@ -76,7 +76,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE int numMCubes()
   {
     static_assert( M <= N, "M must be less than or equal to N" );
-    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::factorial< int, N >::value / ( mathUtilities::factorial< int, M >::value * mathUtilities::factorial< int, N - M >::value );
+    return mathUtilities::pow< int, N - M >( 2 ) * mathUtilities::binomialCoefficient< int, N, M >::value;
   }
 
   /**
-- 
2.43.0


From 1f773fd032ce3d684fb7df763abce6aa0c4843b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 11/20] fix: executeSequence tests invocability with the
 arguments in call order

The condition put the indices before the arguments while the call puts them
after, so functions whose leading parameter is not constructible from an index
were rejected.
---
 include/shiva/common/SequenceUtilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/common/SequenceUtilities.hpp b/include/shiva/common/SequenceUtilities.hpp
index 02eeee4..193ee13 100644
--- a/include/shiva/common/SequenceUtilities.hpp
+++ b/include/shiva/common/SequenceUtilities.hpp
@@ -127,7 +127,7 @@ struct SequenceExpansion< std::integer_sequence< int, DIMENSION_INDICES... > >
     // This checks to see if the function is invocable with the parameter pack
     // provided as a template parameter. In other words, if the FUNC is a
     // function that takes the parameter pack as a function argument.
-    if constexpr ( std::is_invocable_v< FUNC, std::integral_constant< int, DIMENSION_INDICES >..., ARGS ... > )
+    if constexpr ( std::is_invocable_v< FUNC, ARGS ..., std::integral_constant< int, DIMENSION_INDICES >... > )
     {
       // calling func with the parameter packs ( args..., DIMENSION_INDICES...)
       // as arguments.
-- 
2.43.0


From 05a2e0bef3511d297fef3594ef5af548fe45492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 12/20] fix: Shiva.hpp includes headers that exist

The umbrella header named three headers that are not in the repository and had
no include guard, so including it failed.
---
 include/shiva/Shiva.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/shiva/Shiva.hpp b/include/shiva/Shiva.hpp
index 6aa79b3..ceee85a 100644
--- a/include/shiva/Shiva.hpp
+++ b/include/shiva/Shiva.hpp
@@ -11,6 +11,17 @@
  * ------------------------------------------------------------------------------------------------------------
  */
 
-#include "geometry/Cube.hpp"
-#include "geometry/Cuboid.hpp"
-#include "geometry/RectangularCuboid.hpp"
+#pragma once
+
+#include "discretizations/finiteElementMethod/parentElements/ParentElement.hpp"
+#include "functions/bases/BasisProduct.hpp"
+#include "functions/bases/LagrangeBasis.hpp"
+#include "functions/quadrature/Quadrature.hpp"
+#include "functions/spacing/Spacing.hpp"
+#include "geometry/mapping/JacobianTransforms.hpp"
+#include "geometry/mapping/LinearTransform.hpp"
+#include "geometry/mapping/Scaling.hpp"
+#include "geometry/mapping/UniformScaling.hpp"
+#include "geometry/shapes/InterpolatedShape.hpp"
+#include "geometry/shapes/NCube.hpp"
+#include "geometry/shapes/NSimplex.hpp"
-- 
2.43.0


From 97f24d4357d61e4a2d6c044432708f81759bf716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 13/20] fix: strides of MultiIndexRange are computed in its
 index type

---
 include/shiva/common/IndexTypes.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/shiva/common/IndexTypes.hpp b/include/shiva/common/IndexTypes.hpp
index 43ad85a..e83aaeb 100644
--- a/include/shiva/common/IndexTypes.hpp
+++ b/include/shiva/common/IndexTypes.hpp
@@ -30,18 +30,19 @@ namespace detail
 
 /**
  * @brief Helper function for calculating a stride.
+ * @tparam BASE_INDEX_TYPE the type of the stride.
  * @tparam INDICES variaic pack of the indices.
  * @param ranges The ranges.
  * @return The largest stride for the index pack.
  */
-template< int ... INDICES >
-SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE int
+template< typename BASE_INDEX_TYPE, int ... INDICES >
+SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE BASE_INDEX_TYPE
 strideHelper( std::integer_sequence< int, INDICES... >,
               int const * const ranges )
 {
   // return result of a fold expression that multiples all entries of the ranges
   // array
-  return ( ranges[INDICES] * ... *1);
+  return ( static_cast< BASE_INDEX_TYPE >( ranges[INDICES] ) * ... * static_cast< BASE_INDEX_TYPE >( 1 ) );
 }
 
 /**
@@ -62,7 +63,7 @@ stride( MultiIndexRange< BASE_INDEX_TYPE, RANGES... > const & index )
   // - 1 - INDEX).
   // This will result in a fold expression that multiples entries of the ranges
   // array for the integer_sequence.
-  return detail::strideHelper( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
+  return detail::strideHelper< BASE_INDEX_TYPE >( std::make_integer_sequence< int, (IndexType::NUM_INDICES - 1) - INDEX >{},
                                &(index.ranges[0]) + INDEX + 1 );
 }
 
-- 
2.43.0


From e3899d85b4967a2f442d15cec4f611f982f91e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 14/20] fix: NCube and NSimplex length does not overflow int

---
 include/shiva/geometry/shapes/NCube.hpp    | 2 +-
 include/shiva/geometry/shapes/NSimplex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/shapes/NCube.hpp b/include/shiva/geometry/shapes/NCube.hpp
index 6366e17..d83ace9 100644
--- a/include/shiva/geometry/shapes/NCube.hpp
+++ b/include/shiva/geometry/shapes/NCube.hpp
@@ -173,7 +173,7 @@ public:
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE length()
   {
-    return static_cast< RealType >( MAX - MIN ) / DIVISOR;
+    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;
   }
 
 
diff --git a/include/shiva/geometry/shapes/NSimplex.hpp b/include/shiva/geometry/shapes/NSimplex.hpp
index 5fec076..c899e22 100644
--- a/include/shiva/geometry/shapes/NSimplex.hpp
+++ b/include/shiva/geometry/shapes/NSimplex.hpp
@@ -170,7 +170,7 @@ public:
    */
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE REAL_TYPE length()
   {
-    return static_cast< RealType >( MAX - MIN ) / DIVISOR;
+    return static_cast< RealType >( static_cast< long long >( MAX ) - MIN ) / DIVISOR;
   }
 
 
-- 
2.43.0


From 939c820649c5b0f632882f7cc394ed32d8775f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 15/20] fix: return-by-value inverseJacobian is usable in
 constant expressions in C++17

---
 include/shiva/geometry/mapping/JacobianTransforms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/mapping/JacobianTransforms.hpp b/include/shiva/geometry/mapping/JacobianTransforms.hpp
index 2b533f5..491576f 100644
--- a/include/shiva/geometry/mapping/JacobianTransforms.hpp
+++ b/include/shiva/geometry/mapping/JacobianTransforms.hpp
@@ -38,7 +38,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 inverseJacobian( BASE_GEOMETRY const & cell )
 {
   typename BASE_GEOMETRY::JacobianType invJ;
-  REAL_TYPE detJ;
+  REAL_TYPE detJ{ 0.0 };
   inverseJacobian( cell, invJ, detJ );
   return make_tuple( detJ, invJ );
 }
@@ -59,7 +59,7 @@ inverseJacobian( BASE_GEOMETRY const & cell,
                  REAL_TYPE const (&parentCoords)[3] )
 {
   typename BASE_GEOMETRY::JacobianType invJ{ 0.0 };
-  REAL_TYPE detJ;
+  REAL_TYPE detJ{ 0.0 };
   inverseJacobian( cell, parentCoords, invJ, detJ );
   return make_tuple( detJ, invJ );
 }
-- 
2.43.0


From eeca65dc02c5c6ca56f4635ac6557911029f34f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 16/20] fix: split writes below its output directory

---
 scripts/aggregateOrSplit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/aggregateOrSplit.py b/scripts/aggregateOrSplit.py
index 251174e..aaa4999 100644
--- a/scripts/aggregateOrSplit.py
+++ b/scripts/aggregateOrSplit.py
@@ -171,7 +171,11 @@ class HeaderFileManager:
                     if output:
                         output.close()
                     current_file = start_match.group(1)
-                    output = open(os.path.join(output_dir, current_file), 'w')
+                    # The recorded name is usually absolute: keep its directories, but below output_dir.
+                    relative_file = os.path.normpath(os.sep + current_file).lstrip(os.sep)
+                    output_file = os.path.join(output_dir, relative_file)
+                    os.makedirs(os.path.dirname(output_file), exist_ok=True)
+                    output = open(output_file, 'w')
                 elif end_match:
                     if output:
                         output.close()
-- 
2.43.0


From ccfa85eb2a4945933c8245556ff20d6e47db113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 17/20] fix: ParentElement::gradient of a variable compiles for
 float

---
 .../finiteElementMethod/parentElements/ParentElement.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
index 20c8a99..75dbca9 100644
--- a/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
+++ b/include/shiva/discretizations/finiteElementMethod/parentElements/ParentElement.hpp
@@ -128,7 +128,7 @@ public:
   SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE CArrayNd< RealType, numDims >
   gradient( CoordType const & parentCoord, VAR_TYPE const & var )
   {
-    CArrayNd< RealType, numDims > rval = {0.0};
+    CArrayNd< RealType, numDims > rval = { REAL_TYPE( 0.0 ) };
     forNestedSequence< BASIS_TYPE::numSupportPoints... >( [&] ( auto const ... ic_indices ) constexpr
     {
       CArrayNd< RealType, numDims > const grad = gradient< decltype(ic_indices)::value ... >( parentCoord );
-- 
2.43.0


From 084f50aabdf6b4646112c5e8f1ba51ee1082a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:16 +0000
Subject: [PATCH 18/20] fix: return-by-value Jacobian helpers of
 LinearTransform compile for float

---
 include/shiva/geometry/mapping/JacobianTransforms.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/shiva/geometry/mapping/JacobianTransforms.hpp b/include/shiva/geometry/mapping/JacobianTransforms.hpp
index 491576f..1963d38 100644
--- a/include/shiva/geometry/mapping/JacobianTransforms.hpp
+++ b/include/shiva/geometry/mapping/JacobianTransforms.hpp
@@ -48,7 +48,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 jacobian( BASE_GEOMETRY const & cell,
           REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType J{0.0 };
+  typename BASE_GEOMETRY::JacobianType J{ REAL_TYPE( 0.0 ) };
   jacobian( cell, parentCoords, J );
   return J;
 }
@@ -58,7 +58,7 @@ SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE auto
 inverseJacobian( BASE_GEOMETRY const & cell,
                  REAL_TYPE const (&parentCoords)[3] )
 {
-  typename BASE_GEOMETRY::JacobianType invJ{ 0.0 };
+  typename BASE_GEOMETRY::JacobianType invJ{ REAL_TYPE( 0.0 ) };
   REAL_TYPE detJ{ 0.0 };
   inverseJacobian( cell, parentCoords, invJ, detJ );
   return make_tuple( detJ, invJ );
-- 
2.43.0


From 92fc76ef07e3dc2fa98e158610c70b8bd8e81365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:00 +0000
Subject: [PATCH 19/20] fix: annotate forNestedSequence for host and device

staticForNested and both forNestedSequence overloads were plain constexpr functions, i.e. host functions for a
device compiler without the relaxed-constexpr extension, although they are called from host-device functions
(ParentElement, LinearTransform).
---
 include/shiva/common/NestedSequenceUtilities.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/shiva/common/NestedSequenceUtilities.hpp b/include/shiva/common/NestedSequenceUtilities.hpp
index 79b29a7..1f5cf9e 100644
--- a/include/shiva/common/NestedSequenceUtilities.hpp
+++ b/include/shiva/common/NestedSequenceUtilities.hpp
@@ -50,7 +50,7 @@ struct NestedSequenceExpansion
    * @param ...indices The indices for the loop.
    */
   template< typename FUNC, typename ... INDICES >
-  static constexpr void staticForNested( FUNC && func, INDICES ... indices )
+  SHIVA_STATIC_CONSTEXPR_HOSTDEVICE_FORCEINLINE void staticForNested( FUNC && func, INDICES ... indices )
   {
     if constexpr ( sizeof...(REMAINING_ENDS) == 0 )
     {
@@ -82,7 +82,7 @@ struct NestedSequenceExpansion
  * loop.
  */
 template< int... ENDS, typename FUNC >
-constexpr void forNestedSequence( FUNC && func )
+SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE void forNestedSequence( FUNC && func )
 {
   nestedSequenceUtilitiesImpl::NestedSequenceExpansion< ENDS... >::staticForNested( std::forward< FUNC >( func ) );
 }
@@ -97,8 +97,8 @@ constexpr void forNestedSequence( FUNC && func )
  * loop.
  */
 template< int... ENDS, typename FUNC >
-constexpr void forNestedSequence( std::integer_sequence< int, ENDS... >,
-                                  FUNC && func )
+SHIVA_CONSTEXPR_HOSTDEVICE_FORCEINLINE void forNestedSequence( std::integer_sequence< int, ENDS... >,
+                                                               FUNC && func )
 {
   forNestedSequence< ENDS... >( std::forward< FUNC >( func ) );
 }
-- 
2.43.0


From b2c77faa8bc06b810269cffbc05ff3ba446712af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:33 +0000
Subject: [PATCH 20/20] fix: name the copy direction of the backend in
 genericKernelWrapper

The HIP branch passed cudaMemcpyHostToDevice to hipMemcpy, so the wrapper did not compile for HIP.
---
 include/shiva/common/pmpl.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/shiva/common/pmpl.hpp b/include/shiva/common/pmpl.hpp
index a6f133e..76d6eef 100644
--- a/include/shiva/common/pmpl.hpp
+++ b/include/shiva/common/pmpl.hpp
@@ -37,6 +37,7 @@ namespace shiva
 #define deviceError_t cudaError_t
 #define deviceGetErrorString    cudaGetErrorString
 #define deviceMemcpyDeviceToHost cudaMemcpyDeviceToHost
+#define deviceMemcpyHostToDevice cudaMemcpyHostToDevice
 constexpr cudaError_t deviceSuccess = cudaSuccess;
 #elif defined(SHIVA_ENABLE_HIP)
 #define deviceMalloc( PTR, BYTES ) hipMalloc( PTR, BYTES );
@@ -47,6 +48,7 @@ constexpr cudaError_t deviceSuccess = cudaSuccess;
 #define deviceError_t hipError_t
 #define deviceGetErrorString    hipGetErrorString
 #define deviceMemcpyDeviceToHost hipMemcpyDeviceToHost
+#define deviceMemcpyHostToDevice hipMemcpyHostToDevice
 constexpr hipError_t deviceSuccess = hipSuccess;
 #endif
 #endif
@@ -159,7 +161,7 @@ void genericKernelWrapper( int const N, DATA_TYPE * const hostData, LAMBDA && fu
 #if defined(SHIVA_ENABLE_DEVICE)
   DATA_TYPE * deviceData;
   deviceMalloc( &deviceData, N * sizeof(DATA_TYPE) );
-  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), cudaMemcpyHostToDevice );
+  deviceMemCpy( deviceData, hostData, N * sizeof(DATA_TYPE), deviceMemcpyHostToDevice );
   // UNCRUSTIFY-OFF
   genericKernel <<< 1, 1 >>> ( std::forward< LAMBDA >( func ), deviceData );
   // UNCRUSTIFY-ON
-- 
2.43.0

