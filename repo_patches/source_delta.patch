From 5a96d0e103b597b2fc6941e28ac26d326b67581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 01/54] fix: row and column views of a matrix minor read the
 minor, not the underlying matrix

---
 geometrix/tensor/matrix_column.hpp | 2 +-
 geometrix/tensor/matrix_row.hpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/tensor/matrix_column.hpp b/geometrix/tensor/matrix_column.hpp
index dd3cfc9..dfc2333 100644
--- a/geometrix/tensor/matrix_column.hpp
+++ b/geometrix/tensor/matrix_column.hpp
@@ -69,7 +69,7 @@ struct matrix_slice_access_policy< column<Matrix, Column> >
     template <std::size_t Row>
     static typename type_at<Row>::type get( const column<Matrix,Column>& col )
     {
-        return geometrix::get<Row, Column>( col.m );
+        return col.template get<Row>();
     }
 
     template <std::size_t Row>
diff --git a/geometrix/tensor/matrix_row.hpp b/geometrix/tensor/matrix_row.hpp
index 27f4dde..cb3616d 100644
--- a/geometrix/tensor/matrix_row.hpp
+++ b/geometrix/tensor/matrix_row.hpp
@@ -71,7 +71,7 @@ struct matrix_slice_access_policy< row<Matrix, Row> >
     template <std::size_t Column>
     static typename type_at<Column>::type get( const row<Matrix,Row>& r )
     {
-        return geometrix::get<Row, Column>( r.m );
+        return r.template get<Column>();
     }
 
     template <std::size_t Column>
-- 
2.43.0


From a76e4ab0a87c46f19c96465c70c555f952785678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 02/54] fix: lexicographical_segment_compare orders the first
 segment by its own end point

---
 geometrix/utility/utilities.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/utility/utilities.hpp b/geometrix/utility/utilities.hpp
index 6f7be0a..7cfa733 100644
--- a/geometrix/utility/utilities.hpp
+++ b/geometrix/utility/utilities.hpp
@@ -481,7 +481,7 @@ namespace geometrix {
             typedef typename geometric_traits< Segment >::point_type point_type;
 
             const point_type& start1 = get_start( s1 );
-            const point_type& end1   = get_end( s2 );
+            const point_type& end1   = get_end( s1 );
             const point_type& start2 = get_start( s2 );
             const point_type& end2   = get_end( s2 );
 
-- 
2.43.0


From 6668e0b857ab0b867f05f561a9aa1c86bf78ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 03/54] fix: ray_segment_intersection without outputs reports a
 parallel offset ray as overlapping

---
 geometrix/algorithm/intersection/ray_segment_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/ray_segment_intersection.hpp b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
index 259b0b2..7e823df 100644
--- a/geometrix/algorithm/intersection/ray_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_segment_intersection.hpp
@@ -150,7 +150,7 @@ inline intersection_type ray_segment_intersection(const Point& O, const UnitVect
     //If denom is zero then ray and segment are parallel.
     if (cmp.equals(denom, constants::zero<decltype(denom)>()))
     {
-        if (get_orientation(v, v2, cmp) != oriented_collinear)
+        if (get_orientation(A, B, O, cmp) != oriented_collinear)
             return e_non_crossing;
 
         vector_t vOB = B - O;
-- 
2.43.0


From 42e370a779996d68ab54317d81448c4c8e698033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 04/54] fix: ray_line_intersection accepts hits on either side
 of the line's reference point and tells parallel from collinear

---
 geometrix/algorithm/intersection/ray_line_intersection.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/geometrix/algorithm/intersection/ray_line_intersection.hpp b/geometrix/algorithm/intersection/ray_line_intersection.hpp
index 27364f8..05bc20a 100644
--- a/geometrix/algorithm/intersection/ray_line_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_line_intersection.hpp
@@ -82,7 +82,7 @@ namespace geometrix {
         //If denom is zero then ray and line are parallel.
         if( cmp.equals( denom, constants::zero<length_t>() ) )
         {
-            if (get_orientation(v, v2, cmp) != oriented_collinear)
+            if (!cmp.equals(exterior_product_area(v2, v1), constants::zero<length_t>()))
             return false;
 
             return ray_line_intersection_result(true,true);
@@ -92,10 +92,6 @@ namespace geometrix {
         if (cmp.less_than(t, constants::zero<Length>()))
         return false;
         
-        auto t2 = scalar_projection(v1, v3) / denom;
-        if (cmp.less_than(t2, constants::zero<decltype(t2)>()))
-        return false;
-
         assign(xPoint, O + t * v);
 
         return true;
-- 
2.43.0


From ab700b7d18261edc2f9995eb6ac5b8b364457d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:14 +0000
Subject: [PATCH 05/54] fix: segment_obb_distance measures the closing edge of
 the box instead of its diagonal

---
 geometrix/algorithm/distance/segment_obb_distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/segment_obb_distance.hpp b/geometrix/algorithm/distance/segment_obb_distance.hpp
index 061a3a4..2c5b599 100644
--- a/geometrix/algorithm/distance/segment_obb_distance.hpp
+++ b/geometrix/algorithm/distance/segment_obb_distance.hpp
@@ -33,7 +33,7 @@ namespace geometrix {
 		auto sqDistance = segment_segment_distance_sqrd(seg, make_segment(obb[0], obb[1]), cmp);
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[1], obb[2]), cmp));
 		sqDistance = (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[2], obb[3]), cmp));
-		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[1]), cmp));
+		return (std::min)(sqDistance, segment_segment_distance_sqrd(seg, make_segment(obb[3], obb[0]), cmp));
 	}
 
 	namespace result_of
-- 
2.43.0


From 954f755fcec78289575f46d8209e982eeb1f1e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 06/54] fix: circle and sphere intersection of tangent circles
 no longer takes the root of a negative rounding residue

---
 .../algorithm/intersection/circle_circle_intersection.hpp    | 5 ++++-
 .../algorithm/intersection/sphere_sphere_intersection.hpp    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/circle_circle_intersection.hpp b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
index 0f78e45..9687d02 100644
--- a/geometrix/algorithm/intersection/circle_circle_intersection.hpp
+++ b/geometrix/algorithm/intersection/circle_circle_intersection.hpp
@@ -74,7 +74,10 @@ namespace geometrix {
 
         auto r1 = get_radius(A)*get_radius(A);
         auto a = (r1 - get_radius(B)*get_radius(B) + d*d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        auto h2 = r1 - a*a;
+        if (h2 < constants::zero<decltype(h2)>())//! rounding when the circles are tangent.
+            h2 = constants::zero<decltype(h2)>();
+        auto h = sqrt(h2);
 
         vector_t v = get_center(B) - get_center(A);
 
diff --git a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
index 80ae0cf..483e855 100644
--- a/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/sphere_sphere_intersection.hpp
@@ -74,7 +74,10 @@ namespace geometrix {
 
         auto r1 = get_radius(A) * get_radius(A);
         auto a = (r1 - get_radius(B) * get_radius(B) + d * d) / (constants::two<dimensionless_t>() * d);
-        auto h = sqrt(r1 - a*a);
+        auto h2 = r1 - a*a;
+        if (h2 < constants::zero<decltype(h2)>())//! rounding when the circles are tangent.
+            h2 = constants::zero<decltype(h2)>();
+        auto h = sqrt(h2);
 
         vector_t v = get_center(B) - get_center(A);
 
-- 
2.43.0


From ec848d936135e87b41c1e1e5abd47d12f8d28f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 07/54] fix: segment and ray against sphere no longer return
 NaN for tangent lines

---
 geometrix/algorithm/intersection/ray_sphere_intersection.hpp   | 3 ++-
 .../algorithm/intersection/segment_sphere_intersection.hpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/ray_sphere_intersection.hpp b/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
index 5f830b4..d2ec041 100644
--- a/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/ray_sphere_intersection.hpp
@@ -38,8 +38,9 @@ namespace geometrix {
 			return false;
 
 		// Ray now found to intersect sphere, compute smallest t value of intersection 
+		// (rounding may leave the discriminant of a tangent ray slightly negative.)
 		using std::sqrt;
-		t = -b - sqrt(discr);
+		t = discr > 0 ? -b - sqrt(discr) : -b;
 
 		// If t is negative, ray started inside sphere so clamp t to zero 
 		if (cmp.less_than(t, 0))
diff --git a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
index 1fc54c8..a0eb6b8 100644
--- a/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_sphere_intersection.hpp
@@ -111,8 +111,9 @@ namespace geometrix {
             return false;
 
         // segment now found to intersect sphere, compute smallest t value of intersection 
+        // (rounding may leave the discriminant of a tangent segment slightly negative.)
         using std::sqrt;
-        t = -b - sqrt(discr);
+        t = discr > 0 ? -b - sqrt(discr) : -b;
         if (cmp.greater_than(t, length))
             return false;
 
-- 
2.43.0


From ff9ed33d6fdd41c2411ae8b7fc5e4bab2f4442cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 08/54] fix: segment_capsule_intersection handles segments
 parallel to the axis and segments starting inside

---
 .../intersection/segment_capsule_intersection.hpp        | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
index 15532e3..93d1ad3 100644
--- a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
@@ -47,7 +47,7 @@ namespace geometrix {
 		ArithmeticType a = dd * nn - nd * nd; 
 		ArithmeticType k = dot_product(m, m) - r * r; 
 		ArithmeticType c = dd * k - md * md; 
-		if (cmp.less_than(abs(a), 0))
+		if (cmp.equals(a, 0))
 		{
 			// Segment runs parallel to capsule axis
 			if (c > 0)
@@ -73,6 +73,13 @@ namespace geometrix {
 			return true;
 		}
 		
+		if (c <= 0 && md >= 0 && md <= dd)
+		{
+			t = 0; // 'a' lies inside capsule between the end-caps
+			assign(xPoint, sa);
+			return true;
+		}
+
 		ArithmeticType b = dd * mn - nd * md;
 		ArithmeticType discr = b * b - a * c;
 		if (discr < 0) 
-- 
2.43.0


From 978df930acd578e71a58a89d191716c7a8a44018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 09/54] fix: moving sphere against box handles centers that
 start inside the expanded box

---
 .../moving_sphere_aabb_intersection.hpp         | 17 ++++++++++++++++-
 .../moving_sphere_obb_intersection.hpp          | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
index 48f1905..fccf573 100644
--- a/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp
@@ -13,6 +13,7 @@
 #include <geometrix/primitive/axis_aligned_bounding_box.hpp>
 #include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
 #include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
+#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
 #include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
 
 /////////////////////////////////////////////////////////////////////////////
@@ -82,9 +83,23 @@ namespace geometrix {
         // Intersect ray against expanded AABB e. Exit with no intersection if ray 
         // misses e, else get intersection point p and time t as result
         Point p;
-        if (!ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp))
+        auto rayResult = ray_aabb_intersection(get_center(s), velocity, e, t, p, cmp);
+        if (!rayResult)
             return moving_sphere_aabb_intersection_result();
 
+        // If the sphere center starts inside of e, p is where it leaves e. Either the sphere
+        // already intersects the box, or it starts in the vertex region of the center.
+        if (rayResult.is_origin_inside())
+        {
+            if (sphere_aabb_intersection(s, a))
+            {
+                t = constants::zero<Time>();
+                assign(q, point_aabb_closest_point(get_center(s), a));
+                return moving_sphere_aabb_intersection_result(true, false, false, true, false);
+            }
+            assign(p, get_center(s));
+        }
+
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and 
         // they must have at least one bit set among them 
diff --git a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
index 8e9805d..652828c 100644
--- a/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
+++ b/geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp
@@ -14,6 +14,7 @@
 #include <geometrix/primitive/oriented_bounding_box.hpp>
 #include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
 #include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
+#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
 #include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
 #include <geometrix/algorithm/rotation.hpp>
 
@@ -94,9 +95,23 @@ namespace geometrix {
         // Intersect ray against expanded AABB e. Exit with no intersection if ray
         // misses e, else get intersection point p and time t as result
         Point p;
-        if (!ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp))
+        auto rayResult = ray_aabb_intersection(get_center(rs), rvelocity, e, t, p, cmp);
+        if (!rayResult)
             return moving_sphere_obb_intersection_result();
 
+        // If the sphere center starts inside of e, p is where it leaves e. Either the sphere
+        // already intersects the box, or it starts in the vertex region of the center.
+        if (rayResult.is_origin_inside())
+        {
+            if (sphere_obb_intersection(s, obb))
+            {
+                t = constants::zero<Time>();
+                assign(q, point_obb_closest_point(get_center(s), obb));
+                return moving_sphere_obb_intersection_result(true, false, false, true, false);
+            }
+            assign(p, get_center(rs));
+        }
+
         // Compute which min and max faces of a the intersection point p lies
         // outside of. Note, u and v cannot have the same bits set and
         // they must have at least one bit set among them
-- 
2.43.0


From 72eaa3ab1bf6e90e7ad1b6764042985ba5956620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 10/54] fix: point_point_distance uses the highest coordinate
 in five and more dimensions

---
 geometrix/algorithm/distance/point_point_distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/point_point_distance.hpp b/geometrix/algorithm/distance/point_point_distance.hpp
index f738efa..c3ddf69 100644
--- a/geometrix/algorithm/distance/point_point_distance.hpp
+++ b/geometrix/algorithm/distance/point_point_distance.hpp
@@ -53,7 +53,7 @@ namespace geometrix {
 
             static result_type eval(const Point1& v1, const Point2& v2)
             {
-                BOOST_AUTO(a, get<Index - 1>(v2) - get<Index - 1>(v1));
+                BOOST_AUTO(a, get<Index>(v2) - get<Index>(v1));
                 return a * a + distance_sqrd<Point1, Point2, Index - 1>::eval(v1, v2);
             }
         };
-- 
2.43.0


From 90d1359f10e055ccbe9e5458f584af6522e646a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 11/54] fix: point_segment_distance clamps a negative rounding
 residue

---
 geometrix/algorithm/distance/point_segment_distance.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/point_segment_distance.hpp b/geometrix/algorithm/distance/point_segment_distance.hpp
index b76c8a2..39ba70c 100644
--- a/geometrix/algorithm/distance/point_segment_distance.hpp
+++ b/geometrix/algorithm/distance/point_segment_distance.hpp
@@ -52,7 +52,8 @@ namespace geometrix {
         auto f = dot_product(ab, ab);
         if (e >= f)
             return dot_product(bc, bc);
-        return dot_product(ac, ac) - e * e / f;
+        auto d2 = dot_product(ac, ac) - e * e / f;
+        return d2 < construct<decltype(d2)>(0) ? construct<decltype(d2)>(0) : d2;
     }
 
     template <typename Point, typename Segment>
-- 
2.43.0


From 81bb5d1cda163feae907c9b105fa569598fc798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 12/54] fix: point_segment_closest_point handles zero-length
 segments

---
 .../algorithm/distance/point_segment_closest_point.hpp     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/geometrix/algorithm/distance/point_segment_closest_point.hpp b/geometrix/algorithm/distance/point_segment_closest_point.hpp
index 197a32b..5c4e9df 100644
--- a/geometrix/algorithm/distance/point_segment_closest_point.hpp
+++ b/geometrix/algorithm/distance/point_segment_closest_point.hpp
@@ -70,6 +70,8 @@ namespace geometrix {
 		vector_t AP = p - A;
 		vector_t AB = B - A;
 		auto l2 = dot_product(AB, AB);
+		if (l2 <= construct<decltype(l2)>(0))
+            return construct<point_t>(A);
 		auto t = dot_product(AP, AB) / l2;
 		if (t <= constants::zero<dimensionless_t>())
             return construct<point_t>(A);
@@ -87,6 +89,11 @@ namespace geometrix {
 		vector_t AP = p - A;
 		vector_t AB = B - A;
 		auto l2 = dot_product(AB, AB);
+		if (l2 <= construct<decltype(l2)>(0))
+		{
+			t = constants::zero<Dimensionless>();
+            return construct<point_t>(A);
+		}
 		t = dot_product(AP, AB) / l2;
 		if (t <= constants::zero<Dimensionless>())
             return construct<point_t>(A);
-- 
2.43.0


From de030203a57bed438aee1bc821e76146e8f49de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:18 +0000
Subject: [PATCH 13/54] fix: aabb_aabb_distance in 3D is declared for 3D boxes
 and uses the right bounds

---
 geometrix/algorithm/distance/aabb_aabb_distance.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geometrix/algorithm/distance/aabb_aabb_distance.hpp b/geometrix/algorithm/distance/aabb_aabb_distance.hpp
index d3edb1f..fecc647 100644
--- a/geometrix/algorithm/distance/aabb_aabb_distance.hpp
+++ b/geometrix/algorithm/distance/aabb_aabb_distance.hpp
@@ -66,8 +66,8 @@ namespace geometrix {
             return sqDist;
 		}
 
-		template <typename Point, typename NumericSequence>
-		inline typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type aabb_aabb_distance_sqrd( const axis_aligned_bounding_box<NumericSequence>& aabb1, const axis_aligned_bounding_box<NumericSequence>& aabb2, dimension<2> )
+		template <typename NumericSequence>
+		inline typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type aabb_aabb_distance_sqrd( const axis_aligned_bounding_box<NumericSequence>& aabb1, const axis_aligned_bounding_box<NumericSequence>& aabb2, dimension<3> )
 		{
 			using result_type = typename result_of::aabb_aabb_distance_sqrd<NumericSequence>::type;
 
@@ -96,7 +96,7 @@ namespace geometrix {
             //! z
             {
                 if(get<2>(ub2) < get<2>(lb1))
-                    sqDist += square(get<2>(ub2) - get<1>(lb1));
+                    sqDist += square(get<2>(ub2) - get<2>(lb1));
                 else if(get<2>(lb2) > get<2>(ub1))
                     sqDist += square(get<2>(lb2) - get<2>(ub1));
             }
-- 
2.43.0


From 25686213378f117ce381d29a4ee5ac9a4c77a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 14/54] fix: eberly_segment_segment_distance_sqrd minimizes
 over both segments

---
 .../eberly_segment_segment_distance.hpp       | 245 +-----------------
 1 file changed, 12 insertions(+), 233 deletions(-)

diff --git a/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp b/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
index 0487dea..699ecf9 100644
--- a/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
+++ b/geometrix/algorithm/distance/eberly_segment_segment_distance.hpp
@@ -54,243 +54,22 @@ namespace geometrix {
         auto vd = p1 - p3;
         auto d = dot_product(v1, vd);
         auto e = dot_product(-v2, vd);
-        auto det = exterior_product_area(v1, v2);
-        auto s = b*e - c*d;
-        auto t = b*d - a*e;
+        auto det = a*c - b*b;
 
-        if (det == 0)
+        //! Minimize |vd + s*v1 - t*v2|^2 over the unit square: clamp the closest point of the carrier
+        //! lines to the first segment, project it on the second and re-project when that is clamped.
+        auto clamp01 = [](double v) { return v < 0.0 ? 0.0 : (v > 1.0 ? 1.0 : v); };
+        double s = det > 0 ? clamp01((b*e - c*d) / det) : 0.0;
+        double t = c > 0 ? -(b*s + e) / c : 0.0;
+        if (t <= 0)
         {
-            if (b > 0)
-            {
-                if (d >= 0)
-                {
-                    s = 0;
-                    t = 0;
-                }
-                else if (-d <= a)
-                {
-                    s = -d / a;
-                    t = 0;
-                }
-                else
-                {
-                    s = 1;
-                    auto tmp= a + d;
-                    if (-tmp >= b)
-                        t = 1;
-                    else
-                        t = -tmp / b;
-                }
-            }
-            else
-            {
-                if (-d >= a)
-                {
-                    s = 1;
-                    t = 0;
-                }
-                else if (d <= 0)
-                {
-                    s = -d / a;
-                    t = 0;
-                }
-                else
-                {
-                    s = 0;
-                    auto tmp= a + d;
-                    if (-tmp >= b)
-                        t = 1;
-                    else
-                        t = -tmp / b;
-                }
-            }
+            t = 0.0;
+            s = a > 0 ? clamp01(-d / a) : 0.0;
         }
-        else
+        else if (t >= 1)
         {
-            if (s >= 0)
-            {
-                if (s <= det)
-                {
-                    if (t >= 0)
-                    {
-                        if (t <= det)
-                        {
-                            //! Region 0
-                            auto invDet= 1.0 / det;
-                            s *= invDet;
-                            t *= invDet;
-                        }
-                        else
-                        {
-                            //Region 3
-                            s = 1.0;
-                            auto tmp= b + e;
-                            if (tmp > 0)
-                                t = 0;
-                            else if (-tmp > c)
-                                t = 1;
-                            else
-                                t = -tmp / c;
-                        }
-                    }
-                    else
-                    {
-                        //Region 7
-                        s = 1.0;
-                        auto tmp= b + e;
-                        if (tmp > 0)
-                            t = 0;
-                        else if (-tmp > c)
-                            t = 1;
-                        else
-                            t = -tmp / c;
-                    }
-                }
-                else
-                {
-                    if (t >= 0)
-                    {
-                        if (t <= det)
-                        {
-                            //Region 1
-                            s = 1.0;
-                            auto tmp= b + e;
-                            if (tmp > 0)
-                                t = 0;
-                            else if (-tmp > c)
-                                t = 1;
-                            else
-                                t = -tmp / c;
-                        }
-                        else
-                        {
-                            //Region 2
-                            auto tmp= b + d;
-                            if (-tmp < a)
-                            {
-                                t = 1;
-                                if (tmp > 0)
-                                    s = 0;
-                                else
-                                    s = -tmp / a;
-                            }
-                            else
-                            {
-                                s = 1;
-                                auto tmp2= b + e;
-                                if (-tmp2 < c)
-                                {
-                                    if (tmp2 > 0)
-                                        t = 0;
-                                    else
-                                        t = -tmp2 / c;
-                                }
-                                else
-                                    t = 1;
-                            }
-                        }
-                    }
-                    else
-                    {
-                        //Region 8
-                        auto tmp= b + d;
-                        if (-tmp < a)
-                        {
-                            t = 1;
-                            if (tmp > 0)
-                                s = 0;
-                            else
-                                s = -tmp / a;
-                        }
-                        else
-                        {
-                            s = 1;
-                            auto tmp2= b + e;
-                            if (-tmp2 < c)
-                            {
-                                if (tmp2 > 0)
-                                    t = 0;
-                                else
-                                    t = -tmp2 / c;
-                            }
-                            else
-                                t = 1;
-                        }
-                    }
-                }
-            }
-            else
-            {
-                if (t >= 0)
-                {
-                    if (t <= det)
-                    {
-                        //Region 5
-                        s = 1.0;
-                        auto tmp= b + e;
-                        if (tmp > 0)
-                            t = 0;
-                        else if (-tmp > c)
-                            t = 1;
-                        else
-                            t = -tmp / c;
-                    }
-                    else
-                    {
-                        //Region 4
-                        auto tmp= b + d;
-                        if (-tmp < a)
-                        {
-                            t = 1;
-                            if (tmp > 0)
-                                s = 0;
-                            else
-                                s = -tmp / a;
-                        }
-                        else
-                        {
-                            s = 1;
-                            auto tmp2= b + e;
-                            if (-tmp2 < c)
-                            {
-                                if (tmp2 > 0)
-                                    t = 0;
-                                else
-                                    t = -tmp2 / c;
-                            }
-                            else
-                                t = 1;
-                        }
-                    }
-                }
-                else
-                {
-                    //Region 6
-                    auto tmp = b + d;
-                    if (-tmp < a)
-                    {
-                        t = 1;
-                        if (tmp > 0)
-                            s = 0;
-                        else
-                            s = -tmp / a;
-                    }
-                    else
-                    {
-                        s = 1;
-                        auto tmp2 = b + e;
-                        if (-tmp2 < c)
-                        {
-                            if (tmp2 > 0)
-                                t = 0;
-                            else
-                                t = -tmp2 / c;
-                        }
-                        else
-                            t = 1;
-                    }
-                }
-            }
+            t = 1.0;
+            s = a > 0 ? clamp01(-(b + d) / a) : 0.0;
         }
 
         if (s == 0)
-- 
2.43.0


From 97dcd747b0ee5a4cd27606d0b5b5dc2c784d6922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 15/54] fix: polygon_polygon_distance measures the closing
 edges of large polygons

---
 geometrix/algorithm/distance/polygon_polygon_distance.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/polygon_polygon_distance.hpp b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
index 09b117d..134a0c6 100644
--- a/geometrix/algorithm/distance/polygon_polygon_distance.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_distance.hpp
@@ -95,7 +95,11 @@ namespace geometrix {
 		using point_t = typename point_sequence_traits<Polygon1>::point_type;
 		using length_t = typename geometric_traits<point_t>::arithmetic_type;
 		using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-		area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+
+		//! The index ranges below do not wrap around, so the closing edges are measured up front.
+		auto last1 = access1::size(p1) - 1;
+		auto last2 = access2::size(p2) - 1;
+		area_t minDist2 = (std::min)(segment_polygon_distance_sqrd(access1::get_point(p1, last1), access1::get_point(p1, 0), p2, cmp), segment_polygon_distance_sqrd(access2::get_point(p2, last2), access2::get_point(p2, 0), p1, cmp));
 
 		using index_range = std::tuple<std::size_t, std::size_t>;
 		using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From 2332c7ee7476cf1534d65555ef4a391db233261d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 16/54] fix: polygon_polygon_closest_point considers the
 closing edges and always sets its outputs

---
 .../polygon_polygon_closest_point.hpp         | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
index 3f1ce45..cdc9983 100644
--- a/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
+++ b/geometrix/algorithm/distance/polygon_polygon_closest_point.hpp
@@ -103,7 +103,27 @@ namespace geometrix {
         using point_t = typename point_sequence_traits<Polygon1>::point_type;
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
-        area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+
+        //! The index ranges below do not wrap around, so the closing edges are measured up front.
+        i1 = access1::size(p1) - 1;
+        area_t minDist2 = segment_polygon_closest_point(access1::get_point(p1, i1), access1::get_point(p1, 0), p2, i2, s, t, c1, c2, cmp);
+        {
+            auto sl = Dimensionless{};
+            auto tl = Dimensionless{};
+            Point c1l, c2l;
+            std::size_t i1l, last2 = access2::size(p2) - 1;
+            auto dl = segment_polygon_closest_point(access2::get_point(p2, last2), access2::get_point(p2, 0), p1, i1l, tl, sl, c2l, c1l, cmp);
+            if(dl < minDist2)
+            {
+                minDist2 = dl;
+                i1 = i1l;
+                i2 = last2;
+                s = sl;
+                t = tl;
+                c1 = c1l;
+                c2 = c2l;
+            }
+        }
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From e58bf026204e7440f27c6317a6c63c997c7bd48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 17/54] fix: polyline_polyline_closest_point always sets its
 outputs

---
 .../algorithm/distance/polyline_polyline_closest_point.hpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
index c9df598..440bc08 100644
--- a/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
+++ b/geometrix/algorithm/distance/polyline_polyline_closest_point.hpp
@@ -103,6 +103,10 @@ namespace geometrix {
         using length_t = typename arithmetic_type_of<point_t>::type;
         using area_t = decltype(std::declval<length_t>() * std::declval<length_t>());
         area_t minDist2 = point_point_distance_sqrd(access1::get_point(p1, 0), access2::get_point(p2, 0));
+        i1 = i2 = 0;
+        s = t = Dimensionless{};
+        c1 = access1::get_point(p1, 0);
+        c2 = access2::get_point(p2, 0);
 
         using index_range = std::tuple<std::size_t, std::size_t>;
         using work_item = std::tuple<index_range, index_range, area_t>;
-- 
2.43.0


From cd41a4f4d63837b89f8d5c8d191114d0333c061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:28 +0000
Subject: [PATCH 18/54] fix: kd_tree search visits only the points inside the
 range

---
 geometrix/algorithm/kd_tree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/kd_tree.hpp b/geometrix/algorithm/kd_tree.hpp
index 7d23cfe..93d181e 100644
--- a/geometrix/algorithm/kd_tree.hpp
+++ b/geometrix/algorithm/kd_tree.hpp
@@ -67,7 +67,10 @@ namespace geometrix {
         void search( const axis_aligned_bounding_box<T>& range, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
         {
             if( m_pLeaf )
-                visitor( *m_pLeaf );
+            {
+                if( range.intersects( *m_pLeaf, compare ) )
+                    visitor( *m_pLeaf );
+            }
             else
                 search<0>( range, visitor, compare );
         }
@@ -163,7 +166,8 @@ namespace geometrix {
         {
             if( m_pLeaf )
             {
-                visitor( *m_pLeaf );
+                if( range.intersects( *m_pLeaf, compare ) )
+                    visitor( *m_pLeaf );
                 return;
             }
 
-- 
2.43.0


From 5afc8b0c43aee81f227e10b88953e2fb520fc61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:49 +0000
Subject: [PATCH 19/54] fix: grid traversals reach the end cell and do not
 overrun it

---
 .../algorithm/fast_voxel_grid_traversal.hpp   | 48 ++++---------
 .../algorithm/orientation_grid_traversal.hpp  | 70 ++++++-------------
 2 files changed, 36 insertions(+), 82 deletions(-)

diff --git a/geometrix/algorithm/fast_voxel_grid_traversal.hpp b/geometrix/algorithm/fast_voxel_grid_traversal.hpp
index 0681423..dde2dcd 100644
--- a/geometrix/algorithm/fast_voxel_grid_traversal.hpp
+++ b/geometrix/algorithm/fast_voxel_grid_traversal.hpp
@@ -103,33 +103,29 @@ namespace geometrix
 		vector_t segmentDirection = tPoint - sPoint;
         
         vector_t cellBorder;
-        boost::int32_t stepI, outI;
-		boost::int32_t stepJ, outJ;
+        boost::int32_t stepI;
+		boost::int32_t stepJ;
         
 		const auto zero = constants::zero<length_t>();
-		if( cmp.greater_than( get<0>(segmentDirection), zero ) )
+		if( i < i_end )
         {
             stepI = 1;
-            outI = grid.get_width();
 			set<0>(cellBorder, minX + construct<dimensionless_t>(i + 1) * grid.get_cell_size());
         }
         else
         {
             stepI = -1;
-            outI = -1;
 			set<0>(cellBorder, length_t(minX + construct<dimensionless_t>(i) * grid.get_cell_size()));
         }
 
-		if( cmp.greater_than( get<1>(segmentDirection), zero ) )
+		if( j < j_end )
         {
             stepJ = 1;
-            outJ = grid.get_height();
 			set<1>(cellBorder, length_t(minY + construct<dimensionless_t>(j + 1) * grid.get_cell_size()));
         }
         else
         {
             stepJ = -1;
-            outJ = -1;
 			set<1>(cellBorder, length_t(minY + construct<dimensionless_t>(j) * grid.get_cell_size()));
         }
 
@@ -142,26 +138,20 @@ namespace geometrix
 		vector_t tmax( (get<0>(cellBorder) - get<0>( sPoint )) * rxr, (get<1>(cellBorder) - get<1>( sPoint )) * ryr );
         vector_t tdelta(grid.get_cell_size() * construct<dimensionless_t>(stepI) * rxr, grid.get_cell_size() * construct<dimensionless_t>(stepJ) * ryr);
         
-        while(true)
+        while(i != i_end || j != j_end)
         {
-			if( tmax.template get<0>() < tmax.template get<1>() )
+			//! Do not step past the end cell along an axis when the crossing times tie or have drifted.
+			if( j == j_end || (i != i_end && tmax.template get<0>() < tmax.template get<1>()) )
             {
                 i += stepI;
-                if (i == static_cast<std::uint32_t>(outI))
-                    return;
 				tmax.template get<0>() += tdelta.template get<0>();
             }
             else
             {
                 j += stepJ;
-                if (j == static_cast<std::uint32_t>(outJ))
-                    return;
 				tmax.template get<1>() += tdelta.template get<1>();
             }
             
-            if ((stepI > 0 && i > i_end) || (stepI < 0 && i < i_end) || (stepJ > 0 && j > j_end) || (stepJ < 0 && j < j_end))
-                return;
-
             visitor(i, j);
         }
     }
@@ -250,33 +240,29 @@ namespace geometrix
 		vector_t segmentDirection = tPoint - sPoint;
         
         vector_t cellBorder;
-        boost::int32_t stepI, outI;
-		boost::int32_t stepJ, outJ;
+        boost::int32_t stepI;
+		boost::int32_t stepJ;
         
 		const auto zero = constants::zero<length_t>();
-		if( cmp.greater_than( get<0>(segmentDirection), zero ) )
+		if( i < i_end )
         {
             stepI = 1;
-            outI = grid.get_width();
 			set<0>(cellBorder, minX + construct<dimensionless_t>(i + 1) * grid.get_cell_size());
         }
         else
         {
             stepI = -1;
-            outI = -1;
 			set<0>(cellBorder, length_t(minX + construct<dimensionless_t>(i) * grid.get_cell_size()));
         }
 
-		if( cmp.greater_than( get<1>(segmentDirection), zero ) )
+		if( j < j_end )
         {
             stepJ = 1;
-            outJ = grid.get_height();
 			set<1>(cellBorder, length_t(minY + construct<dimensionless_t>(j + 1) * grid.get_cell_size()));
         }
         else
         {
             stepJ = -1;
-            outJ = -1;
 			set<1>(cellBorder, length_t(minY + construct<dimensionless_t>(j) * grid.get_cell_size()));
         }
 
@@ -289,26 +275,20 @@ namespace geometrix
 		vector_t tmax( (get<0>(cellBorder) - get<0>( sPoint )) * rxr, (get<1>(cellBorder) - get<1>( sPoint )) * ryr );
         vector_t tdelta(grid.get_cell_size() * construct<dimensionless_t>(stepI) * rxr, grid.get_cell_size() * construct<dimensionless_t>(stepJ) * ryr);
         
-        while(true)
+        while(i != i_end || j != j_end)
         {
-			if( tmax.template get<0>() < tmax.template get<1>() )
+			//! Do not step past the end cell along an axis when the crossing times tie or have drifted.
+			if( j == j_end || (i != i_end && tmax.template get<0>() < tmax.template get<1>()) )
             {
                 i += stepI;
-                if (i == static_cast<std::uint32_t>(outI))
-                    return;
 				tmax.template get<0>() += tdelta.template get<0>();
             }
             else
             {
                 j += stepJ;
-                if (j == static_cast<std::uint32_t>(outJ))
-                    return;
 				tmax.template get<1>() += tdelta.template get<1>();
             }
             
-            if ((stepI > 0 && i > i_end) || (stepI < 0 && i < i_end) || (stepJ > 0 && j > j_end) || (stepJ < 0 && j < j_end))
-                return;
-
             if(!visitor(i, j))
                 return;
         }
diff --git a/geometrix/algorithm/orientation_grid_traversal.hpp b/geometrix/algorithm/orientation_grid_traversal.hpp
index ac34cdc..24128ec 100644
--- a/geometrix/algorithm/orientation_grid_traversal.hpp
+++ b/geometrix/algorithm/orientation_grid_traversal.hpp
@@ -32,7 +32,7 @@ namespace geometrix
         point<coordinate_type, 2> sPoint = get_start(segment);
         point<coordinate_type, 2> tPoint = get_end(segment);
 
-        if (!lexicographically_less_than(sPoint, tPoint, cmp))
+        if (!lexicographically_less_than(sPoint, tPoint, direct_comparison_policy()))
         {
             using namespace std;
             swap(sPoint, tPoint);
@@ -63,17 +63,15 @@ namespace geometrix
         BOOST_AUTO(x2, grid.get_scaled_grid_coordinate_x(tx));
         BOOST_AUTO(y2, grid.get_scaled_grid_coordinate_y(ty));
 
-        int signDeltaY = cmp.greater_than_or_equal(y2, y1) ? 1 : -1;
-        
-        coordinate_type x = x1;
-        coordinate_type y = y1;
-
-        std::uint32_t i = static_cast<std::uint32_t>(x);
-        std::uint32_t j = static_cast<std::uint32_t>(y);
+        std::uint32_t i = static_cast<std::uint32_t>(x1);
+        std::uint32_t j = static_cast<std::uint32_t>(y1);
 
         std::uint32_t i_end = static_cast<std::uint32_t>(x2);
         std::uint32_t j_end = static_cast<std::uint32_t>(y2);
 
+        int signDeltaX = i <= i_end ? 1 : -1;
+        int signDeltaY = j <= j_end ? 1 : -1;
+
         visitor(i, j);
 
         //! search up the vertical strip
@@ -84,7 +82,10 @@ namespace geometrix
 
             while (j != j_end)
             {
-                ++j;
+                if (j < j_end)
+                    ++j;
+                else
+                    --j;
                 visitor(i, j);
             }
             return;
@@ -95,15 +96,18 @@ namespace geometrix
         {
             while (i != i_end)
             {
-                ++i;
+                if (i < i_end)
+                    ++i;
+                else
+                    --i;
                 visitor(i, j);
             }
             return;
         }
 
         //! The segment is sloped. Use a Bresenham-like traversal which is guided by the segment's orientation to the cells.
-        std::uint32_t old_i = i, old_j = j;
-        while (true)
+        std::uint32_t old_i = i;
+        while (i != i_end || j != j_end)
         {
             point<coordinate_type,2> cornerPoint;
             orientation_type orientation = oriented_collinear;
@@ -125,45 +129,15 @@ namespace geometrix
                     orientation = oriented_left;
             }
 
-            //! Check for overrun.
-            coordinate_type xdiff = x2 - x;
-            coordinate_type ydiff = y2 - y;
-            bool x_is_over = cmp.less_than(xdiff, 0);
-            bool y_is_over = signDeltaY > 0 ? cmp.less_than(ydiff, 0) : cmp.greater_than(ydiff, 0);
-
-            if (orientation == oriented_left)
-            {
-                if (x_is_over || cmp.equals(xdiff, 0))
-                    break;
-                else
-                    x += (std::min<coordinate_type>)(1, xdiff);
-            }
-            else if (orientation == oriented_collinear)
-            {
-                if ((x_is_over && y_is_over) || (cmp.equals(xdiff, 0) && cmp.equals(ydiff, 0)))
-                    break;
-                else
-                {
-                    x += (std::min<coordinate_type>)(1, xdiff);
-                    y += signDeltaY > 0 ? (std::min<coordinate_type>)(signDeltaY, ydiff) : (std::max<coordinate_type>)(signDeltaY, ydiff);
-                }
-            }
-            else if (orientation == oriented_right)
-            {
-                if (y_is_over || cmp.equals(ydiff, 0))
-                    break;
-                else
-                    y += signDeltaY > 0 ? (std::min<coordinate_type>)(signDeltaY, ydiff) : (std::max<coordinate_type>)(signDeltaY, ydiff);
-            }
-
-            i = static_cast<std::uint32_t>(x);
-            j = static_cast<std::uint32_t>(y);
+            //! Step by whole cells and never past the end cell along either axis.
+            if (i != i_end && (j == j_end || orientation != oriented_right))
+                i += signDeltaX;
+            if (j != j_end && (old_i == i || orientation == oriented_collinear))
+                j += signDeltaY;
 
-            if (old_i != i || old_j != j)
-                visitor(i, j);
+            visitor(i, j);
 
             old_i = i;
-            old_j = j;
         }
     }
 }//! namespace geometrix;
-- 
2.43.0


From e4872a2a3e76a201a53cd22035a264a26ae81dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 20/54] fix: flood fill skips every hole of a column

---
 geometrix/algorithm/floodfill_grid_traversal.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/floodfill_grid_traversal.hpp b/geometrix/algorithm/floodfill_grid_traversal.hpp
index 58aa61d..fd3e2f1 100644
--- a/geometrix/algorithm/floodfill_grid_traversal.hpp
+++ b/geometrix/algorithm/floodfill_grid_traversal.hpp
@@ -212,6 +212,8 @@ namespace geometrix
 					//! Sweep j and find first empty.
 					for (auto k = jmin + 1; k < jmax; ) 
 					{
+						while (bit != holeBounds.end() && bit->second < k)
+							++bit;
 						if (bit != holeBounds.end() && k >= bit->first && k <= bit->second)
 						{
 							k = bit->second + 1;
@@ -250,6 +252,8 @@ namespace geometrix
 					//! Sweep j and find first empty.
 					for (auto k = jmin + 1; k < jmax; ) 
 					{
+						while (bit != holeBounds.end() && bit->second < k)
+							++bit;
 						if (bit != holeBounds.end() && k >= bit->first && k <= bit->second)
 						{
 							k = bit->second + 1;
-- 
2.43.0


From d8065560b0fdc99da56637bf4022db8d34ed4052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 21/54] fix: solid BSP tree handles collinear walls and rays
 starting on a wall's line

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index d564fff..f7b5b50 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -459,6 +459,9 @@ namespace geometrix {
 
                     coplanarIndices.push_back(sIndices[i]);
 
+                    //! Its plane is the one being split upon.. splitting on it again would create an empty leaf.
+                    usedBits.set(i);
+
                     //! Attempt to push according to the normal of the smplex.
                     auto smplxPlane = m_planes[sIndices[i]];
                     auto smplxNormal = plane_access::get_normal_vector(smplxPlane);
@@ -656,10 +659,12 @@ namespace geometrix {
                     auto denom = scalar_projection(d, get_normal_vector(node));
                     //! Compute distance from dividing plane to p.
                     auto dist = get_distance_to_origin(node) - scalar_projection(as_vector(p), get_normal_vector(node));
-                    auto nearIndex = dist > constants::zero<length_t>();
+                    auto isOnPlane = dist == constants::zero<length_t>();
+                    //! A ray which starts on the plane stays on the side it heads to.
+                    auto nearIndex = isOnPlane ? denom < constants::zero<decltype(denom)>() : dist > constants::zero<length_t>();
                     //! If denom is zero, ray runs parallel to plane. In this case,
                     //! just fall through to visit the near side (the one p lies on)
-                    if (denom != constants::zero<decltype(denom)>())
+                    if (!isOnPlane && denom != constants::zero<decltype(denom)>())
                     {
                         auto t = dist / denom;
                         if (constants::zero<length_t>() <= t && t <= tmax)
-- 
2.43.0


From 613592c48304dac46df70c3d8f045013ee3562c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:41 +0000
Subject: [PATCH 22/54] fix: solid BSP ray keeps the hit segment where several
 planes cross

---
 geometrix/algorithm/solid_leaf_bsp_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/solid_leaf_bsp_tree.hpp b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
index f7b5b50..afd34ac 100644
--- a/geometrix/algorithm/solid_leaf_bsp_tree.hpp
+++ b/geometrix/algorithm/solid_leaf_bsp_tree.hpp
@@ -21,6 +21,7 @@
 #include <geometrix/utility/ignore_unused_warnings.hpp>
 
 #include <boost/range/concepts.hpp>
+#include <boost/range/irange.hpp>
 #include <boost/range/algorithm_ext/iota.hpp>
 #include <boost/dynamic_bitset.hpp>
 #include <boost/mpl/inherit.hpp>
@@ -695,6 +696,9 @@ namespace geometrix {
 						if (!minIndices.empty() || !onlyBorder)
 						{
 							auto sIndex = find_closest_hit(p, d, minIndices, cmp);
+							//! When several planes cross at the hit point the hit simplex may not be on the last one crossed.
+							if (sIndex == undefined_index::value && !minIndices.empty())
+								sIndex = find_closest_hit(p, d, boost::irange<index_type>(0, static_cast<index_type>(m_simplices.size())), cmp);
 							return solid_bsp_ray_tracing_result<length_t>(true, tmin, sIndex);
 						}
 
-- 
2.43.0


From 9901560407372486c5ca42e7e41d6beaad54333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 23/54] fix: painters_traversal compiles

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index 8726e01..30b0173 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -578,7 +578,7 @@ namespace geometrix {
     template <typename Point, typename Visitor, typename NumberComparisonPolicy>
     inline void node_bsp_tree_2d< Segment >::painters_traversal( const Point& point, Visitor&& visitor, const NumberComparisonPolicy& compare ) const
     {
-        BOOST_CONCEPT_ASSERT((VisitorConcept<Visitor,Segment>));
+        BOOST_CONCEPT_ASSERT((VisitorConcept<typename std::remove_reference<Visitor>::type,Segment>));
         typedef Segment segment_type;
 
         if( m_negativeChild == 0 && m_positiveChild == 0 )
-- 
2.43.0


From b6b502f5aebc53b504d8d89c851c1a0098310228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 24/54] fix: node BSP finds boundary points that touch a
 splitting line from its negative side

---
 geometrix/algorithm/node_bsp_tree_2d.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/node_bsp_tree_2d.hpp b/geometrix/algorithm/node_bsp_tree_2d.hpp
index 30b0173..b061bef 100644
--- a/geometrix/algorithm/node_bsp_tree_2d.hpp
+++ b/geometrix/algorithm/node_bsp_tree_2d.hpp
@@ -545,7 +545,11 @@ namespace geometrix {
 
             if( m_positiveChild != 0 )
             {
-                return m_positiveChild->locate_point( point, compare );
+                //! The point may also lie on an edge which touches the splitting line from the negative side.
+                auto location = m_positiveChild->locate_point( point, compare );
+                if( location != e_boundary && m_negativeChild != 0 && m_negativeChild->locate_point( point, compare ) == e_boundary )
+                    return e_boundary;
+                return location;
             }
             else if( m_negativeChild != 0 )
             {
-- 
2.43.0


From ef95215bb68cee12e8996252d8eab83fbc814a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:25 +0000
Subject: [PATCH 25/54] fix: doubly_connected_edge_list copies and moves carry
 the component graph

---
 geometrix/algorithm/doubly_connected_edge_list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/doubly_connected_edge_list.hpp b/geometrix/algorithm/doubly_connected_edge_list.hpp
index 37ce2f1..6550b54 100644
--- a/geometrix/algorithm/doubly_connected_edge_list.hpp
+++ b/geometrix/algorithm/doubly_connected_edge_list.hpp
@@ -79,6 +79,7 @@ namespace geometrix
 		doubly_connected_edge_list(const doubly_connected_edge_list& other)
 			: m_pointVertexMap(other.m_pointVertexMap)
 			, m_halfEdgeList(other.m_halfEdgeList)
+			, m_componentGraph(other.m_componentGraph)
 			, m_polygons(other.m_polygons)
 			, m_polylines(other.m_polylines)
 			, m_compare(other.m_compare)
@@ -87,6 +88,7 @@ namespace geometrix
 		doubly_connected_edge_list(doubly_connected_edge_list&& other)
 			: m_pointVertexMap(std::move(other.m_pointVertexMap))
 			, m_halfEdgeList(std::move(other.m_halfEdgeList))
+			, m_componentGraph(std::move(other.m_componentGraph))
 			, m_polygons(std::move(other.m_polygons))
 			, m_polylines(std::move(other.m_polylines))
 			, m_compare( other.m_compare)
@@ -226,6 +228,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = std::move(other.m_pointVertexMap);
 			m_halfEdgeList = std::move(other.m_halfEdgeList);
+			m_componentGraph = std::move(other.m_componentGraph);
 			m_polygons = std::move(other.m_polygons);
 			m_polylines = std::move(other.m_polylines);
 			m_compare = other.m_compare;
@@ -236,6 +239,7 @@ namespace geometrix
 		{
 			m_pointVertexMap = other.m_pointVertexMap;
 			m_halfEdgeList = other.m_halfEdgeList;
+			m_componentGraph = other.m_componentGraph;
 			m_polygons = other.m_polygons;
 			m_polylines = other.m_polylines;
 			m_compare = other.m_compare;
-- 
2.43.0


From e4628ffbfb05e7698247d7b3104c1a3a59a14e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:08 +0000
Subject: [PATCH 26/54] fix: mesh_2d random position stays in range when
 rounding leaves the weights short of one

---
 geometrix/algorithm/mesh_2d.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/mesh_2d.hpp b/geometrix/algorithm/mesh_2d.hpp
index bf3743d..3c56099 100644
--- a/geometrix/algorithm/mesh_2d.hpp
+++ b/geometrix/algorithm/mesh_2d.hpp
@@ -24,6 +24,7 @@
 #include <boost/optional.hpp>
 #include <boost/utility/typed_in_place_factory.hpp>
 #include <boost/container/flat_set.hpp>
+#include <algorithm>
 #include <array>
 #include <boost/limits.hpp>
 
@@ -211,7 +212,8 @@ namespace geometrix
             using std::sqrt;
 
             auto it(std::lower_bound(m_integral.begin(), m_integral.end(), rT));
-            std::size_t iTri = std::distance(m_integral.begin(), it);
+            //! Rounding can leave the last cumulative weight short of 1.
+            std::size_t iTri = (std::min)(static_cast<std::size_t>(std::distance(m_integral.begin(), it)), m_triangles.size() - 1);
             GEOMETRIX_ASSERT(iTri < m_triangles.size());
             const auto& points = get_triangle_vertices( iTri );
             double sqrt_r1 = sqrt(r1);
-- 
2.43.0


From 72c0e85c5c6819cd6ffc808f8f4e41cf9ce950b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 27/54] fix: visible_vertices_mesh_search does not leave a
 triangle through an edge that faces away

---
 geometrix/algorithm/visible_vertices_mesh_search.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geometrix/algorithm/visible_vertices_mesh_search.hpp b/geometrix/algorithm/visible_vertices_mesh_search.hpp
index 2f9751f..80d22fc 100644
--- a/geometrix/algorithm/visible_vertices_mesh_search.hpp
+++ b/geometrix/algorithm/visible_vertices_mesh_search.hpp
@@ -127,7 +127,13 @@ namespace geometrix
 			auto pointHi = m_mesh.get_triangle_vertices( item.to )[(side + 1) % 3];
 
 			if( exterior_product_area( pointHi - pointLo, m_origin - pointLo ) < constants::zero<decltype(std::declval<coordinate_type>() * std::declval<coordinate_type>())>() )
+			{
+				//! The edge faces away from the origin: no line of sight leaves the triangle through it.
+				if (!allAround)
+					return boost::none;
+
 				std::swap( pointLo, pointHi );
+			}
 
 			if (!allAround && !is_segment_in_range_2d(make_segment(pointLo, pointHi), item.lo, item.hi, m_origin)) 
 				return boost::none;
-- 
2.43.0


From 3f8c18994721363283272d58ec609722d0e2546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 28/54] fix: is_segment_in_range_2d only treats end points in
 front of the origin as lying on a range vector

---
 geometrix/algorithm/is_segment_in_range.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/is_segment_in_range.hpp b/geometrix/algorithm/is_segment_in_range.hpp
index e01b34b..c13832e 100644
--- a/geometrix/algorithm/is_segment_in_range.hpp
+++ b/geometrix/algorithm/is_segment_in_range.hpp
@@ -74,10 +74,10 @@ namespace geometrix {
 		direct_comparison_policy directCmp;
 		//! Special case where both segment endpoints lay on a range vector.
 		//! In that case the segment either is inside the range or outside.
-		if( detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>())
+		if( detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>() && dot_product( hi, vSegStart ) > constants::zero<area_t>() && dot_product( lo, vSegEnd ) > constants::zero<area_t>())
 			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_left;
 		
-		if( detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>())
+		if( detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>() && dot_product( hi, vSegEnd ) > constants::zero<area_t>() && dot_product( lo, vSegStart ) > constants::zero<area_t>())
 			return get_orientation( get_start(segment), get_end(segment), origin, directCmp) != oriented_right;
 		
 		//! Test the intersections		
-- 
2.43.0


From 0aab410c8658df87813b90d040c613055c28bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 29/54] fix: is_segment_in_range_2d with points finds the
 common part of wide cones and ignores the rays' backward extensions

---
 geometrix/algorithm/is_segment_in_range.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geometrix/algorithm/is_segment_in_range.hpp b/geometrix/algorithm/is_segment_in_range.hpp
index c13832e..01bd793 100644
--- a/geometrix/algorithm/is_segment_in_range.hpp
+++ b/geometrix/algorithm/is_segment_in_range.hpp
@@ -122,7 +122,7 @@ namespace geometrix {
 		{
 			Point xPointLo, xPointHi;
 			intersection_type loIType = line_segment_intersect( origin, origin + lo, segment, xPointLo, cmp );			
-			if( loIType == e_crossing )
+			if( loIType == e_crossing && dot_product( lo, xPointLo - origin ) > constants::zero<area_t>() )
 			{
 				xPoints[0] = xPointLo;
 				xPoints[1] = startIn ? get_start( segment ) : get_end( segment );
@@ -163,8 +163,8 @@ namespace geometrix {
 
 		//! Check if start is outside of the hi end and end is outside the lo end.
 		//! or check if end is outside the hi end and start is outside the lo end.
-		if( ( detHiSegStart >= constants::zero<area_t>() && detLoSegEnd < constants::zero<area_t>() && dotHiSegStart > constants::zero<area_t>() && dotLoSegEnd > constants::zero<area_t>() ) ||
-			( detHiSegEnd >= constants::zero<area_t>() && detLoSegStart < constants::zero<area_t>() && dotHiSegEnd > constants::zero<area_t>() && dotLoSegStart > constants::zero<area_t>() ) )
+		if( ( detHiSegStart >= constants::zero<area_t>() && detLoSegEnd < constants::zero<area_t>() ) ||
+			( detHiSegEnd >= constants::zero<area_t>() && detLoSegStart < constants::zero<area_t>() ) )
 		{
 			//! Crosses both in this case.
 			Point xPointLo[2], xPointHi[2];
@@ -188,8 +188,8 @@ namespace geometrix {
 		{
 			//! Special case where both segment endpoints lay on a range vector.
 			//! In that case the segment either is inside the range or outside.
-			if ((detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_left) ||
-				(detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_right))
+			if ((detHiSegStart == constants::zero<area_t>() && detLoSegEnd == constants::zero<area_t>() && dotHiSegStart > constants::zero<area_t>() && dotLoSegEnd > constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_left) ||
+				(detHiSegEnd == constants::zero<area_t>() && detLoSegStart == constants::zero<area_t>() && dotHiSegEnd > constants::zero<area_t>() && dotLoSegStart > constants::zero<area_t>() && get_orientation(get_start(segment), get_end(segment), origin, absolute_tolerance_comparison_policy<area_t>(constants::zero<area_t>())) != oriented_right))
 			{
 				xPoints[0] = get_start(segment);
 				xPoints[1] = get_start(segment);
-- 
2.43.0


From c706c57e54d55358ee081764316294c0bb39ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 30/54] fix: polyline_split keeps the last vertex when
 splitting at or beyond the end

---
 geometrix/algorithm/point_sequence/polyline_split.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/point_sequence/polyline_split.hpp b/geometrix/algorithm/point_sequence/polyline_split.hpp
index 4932c1c..4bcd5c8 100644
--- a/geometrix/algorithm/point_sequence/polyline_split.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_split.hpp
@@ -113,6 +113,10 @@ namespace geometrix {
             }
         }
 
+		//! A position at or beyond the end leaves the whole polyline in the first part.
+		if (j == size)
+			a.push_back(access::get_point(poly, i));
+
 		polyline_t b = { a.back() };
         for (; j < size; ++j)
             b.push_back(access::get_point(poly, j));
-- 
2.43.0


From 162f1c6711e7f72c45d001962664b6ef039443e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 31/54] fix: identify_collinear_points_polygon reports the
 collinear vertex, not the corner after it

---
 .../algorithm/point_sequence/remove_collinear_points.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
index 9d06796..e04d68c 100644
--- a/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
+++ b/geometrix/algorithm/point_sequence/remove_collinear_points.hpp
@@ -28,6 +28,7 @@ namespace geometrix {
             return cPoints;
 
         Polygon newPoly{ poly.front(), access::get_point(poly, 1) };
+        std::size_t last = 1;//! index of the back of newPoly.
         for (std::size_t i = 2; i < size; ++i)
         {
             const auto& a = access::get_point(newPoly, access::size(newPoly) - 2);
@@ -38,11 +39,17 @@ namespace geometrix {
                 if (i + 1 < size || !is_collinear(b, c, access::front(poly), cmp))
                 {
                     newPoly.push_back(c);
+                    last = i;
                     continue;
                 }
             }
             else
-                assign(b, c);//! replace b with c.      
+            {
+                assign(b, c);//! replace b with c.
+                cPoints.insert(last);
+                last = i;
+                continue;
+            }
 
             cPoints.insert(i);
         }
-- 
2.43.0


From ef633416a859ce7210fe1403d5f040a0f284dec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 32/54] fix: ramer_douglas_peucker_algorithm measures the
 distance to the replacing edge

---
 .../point_sequence/ramer_douglas_peucker_algorithm.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
index d21f22f..f3b4a68 100644
--- a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
+++ b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
@@ -13,8 +13,8 @@
 #include <geometrix/primitive/point.hpp>
 #include <geometrix/primitive/point_sequence_traits.hpp>
 #include <geometrix/tensor/vector.hpp>
-#include <geometrix/primitive/line.hpp>
-#include <geometrix/algorithm/distance/point_line_distance.hpp>
+#include <geometrix/primitive/segment.hpp>
+#include <geometrix/algorithm/distance/point_segment_distance.hpp>
 
 #include <boost/range/join.hpp>
 
@@ -29,17 +29,17 @@ namespace geometrix {
 			using length_t = typename geometric_traits<point_t>::arithmetic_type;
 			using dimensionless_t = typename geometric_traits<point_t>::dimensionless_type;
 			using vector_t = vector<dimensionless_t, dimension_of<point_t>::value>;
-			using line_t = line<point_t>;
+			using segment_t = segment<point_t>;
 
 			// Find the point with the maximum distance
 			auto dmax = constants::zero<length_t>();
 			auto index = std::size_t{};
 			if ((start + 2) < end)
 			{
-				line_t l(access::get_point(poly, start), access::get_point(poly, end - 1));
+				segment_t l(access::get_point(poly, start), access::get_point(poly, end - 1));
 				for (std::size_t i = start + 1; (i + 1) < end; ++i)
 				{
-					auto d = point_line_distance(access::get_point(poly, i), l);
+					auto d = point_segment_distance(access::get_point(poly, i), l);
 					if (d > dmax)
 					{
 						index = i;
-- 
2.43.0


From 544d14e83d545c662035bff0812959021ab1b328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:36 +0000
Subject: [PATCH 33/54] fix: ramer_douglas_peucker_algorithm recurses on both
 parts including the split vertex

---
 .../point_sequence/ramer_douglas_peucker_algorithm.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
index f3b4a68..7a5f631 100644
--- a/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
+++ b/geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp
@@ -51,7 +51,7 @@ namespace geometrix {
 			// If max distance is greater than epsilon, recursively simplify
 			if (dmax > epsilon)
 			{
-				ramer_douglas_peucker_algorithm(poly, nPoly, start, index, epsilon);
+				ramer_douglas_peucker_algorithm(poly, nPoly, start, index + 1, epsilon);
 				access::pop_back(nPoly);
 				ramer_douglas_peucker_algorithm(poly, nPoly, index, end, epsilon);
 			}
-- 
2.43.0


From bbee346977e77fef7a9d6f2105ac67a7fd03e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 34/54] fix: polyline_self_intersection does not report the
 joint of consecutive collinear segments

---
 geometrix/algorithm/point_sequence/self_intersection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/self_intersection.hpp b/geometrix/algorithm/point_sequence/self_intersection.hpp
index b664591..242d59d 100644
--- a/geometrix/algorithm/point_sequence/self_intersection.hpp
+++ b/geometrix/algorithm/point_sequence/self_intersection.hpp
@@ -40,7 +40,7 @@ namespace geometrix {
 		{
 			for (std::size_t j = i + 1; (j + 1) < size; ++j)
 			{
-				if (is_intersecting(i, j) && (!adjacent(i, j) || iType == e_overlapping))
+				if (is_intersecting(i, j) && (!adjacent(i, j) || (iType == e_overlapping && !numeric_sequence_equals(xPoints[0], xPoints[1], cmp))))
 				{
 					isIntersecting = true;
 					visit(i, j, iType, xPoints[0], xPoints[1]);
-- 
2.43.0


From 5ce03239da54f3936f264882812909019ce40f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 35/54] fix: polyline_polyline_intersect stops only when the
 visitor asks to

---
 .../intersection/polyline_polyline_intersection.hpp          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
index 3a3e344..0a603a2 100644
--- a/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
+++ b/geometrix/algorithm/intersection/polyline_polyline_intersection.hpp
@@ -37,6 +37,7 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 	using point_type = point<length_t, 2>;
 	
 	bool intersected = false;
+	bool stop = false;
 	for (std::size_t i1 = 0, j1 = 1; j1 < access1::size(A); i1 = j1++)
 	{
 		auto iVisitor = [&](intersection_type iType, std::size_t i, std::size_t j, const point_type& x1, const point_type& x2) -> bool
@@ -46,10 +47,10 @@ inline bool polyline_polyline_intersect( const Polyline1& A, const Polyline2& B,
 			
 			intersected = true;
 	
-			return visitor(iType, i1, j1, i, j, x1, x2);
+			return stop = visitor(iType, i1, j1, i, j, x1, x2);
 		};
 
-		bool stop = segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
+		segment_polyline_intersect(access1::get_point(A, i1), access1::get_point(A, j1), B, iVisitor, cmp);
 		if (stop)
 			return intersected;
 	}
-- 
2.43.0


From bc2e250aae853062cc8d6687399c01cc12147527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 36/54] fix: segment_polygon_intersection compares the
 containment result

---
 .../algorithm/intersection/segment_polygon_intersection.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_polygon_intersection.hpp b/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
index 1da3270..41702b3 100644
--- a/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_polygon_intersection.hpp
@@ -57,14 +57,14 @@ namespace geometrix {
                 if (nextIT != intersections.end())
                 {
                     auto test = construct<Segment>(*it, *nextIT);
-                    if (point_polygon_containment_or_on_border(segment_mid_point(test), poly, cmp))
+                    if (point_polygon_containment_or_on_border(segment_mid_point(test), poly, cmp) != polygon_containment::exterior)
                         visitor(test);
                 }
             }
 
             return true;
         }
-        else if (startInside && endInside && point_polygon_containment_or_on_border(segment_mid_point(seg), poly, cmp))
+        else if (startInside && endInside && point_polygon_containment_or_on_border(segment_mid_point(seg), poly, cmp) != polygon_containment::exterior)
         {
             visitor(seg);
             return true;
-- 
2.43.0


From cf52186379f0469cb46b1eb7274419fd74e386d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 37/54] fix: convex_polygon_polygon_intersection visits all
 vertices of the contained first polygon

---
 .../intersection/convex_polygon_polygon_intersection.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
index ded477f..29b41c2 100644
--- a/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
+++ b/geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp
@@ -160,7 +160,7 @@ namespace geometrix {
             //! Check if one vertex of either is inside.
             if (point_in_polygon(get_point1(0), pgon2)) 
             {
-                for (auto i = 0ULL; i < m; ++i)
+                for (auto i = 0ULL; i < n; ++i)
                     visitor(get_point1(i));
                 return polygon_intersection_type::overlapping;
             }
-- 
2.43.0


From f51c5a77289279b853a7b29f03916550522a69e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:31 +0000
Subject: [PATCH 38/54] fix: cohen_sutherland_line_clip terminates for lines
 through a corner of the box

---
 .../algorithm/cohen_sutherland_line_clipping.hpp   | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/geometrix/algorithm/cohen_sutherland_line_clipping.hpp b/geometrix/algorithm/cohen_sutherland_line_clipping.hpp
index 4de3e63..ee60d42 100644
--- a/geometrix/algorithm/cohen_sutherland_line_clipping.hpp
+++ b/geometrix/algorithm/cohen_sutherland_line_clipping.hpp
@@ -94,6 +94,8 @@ namespace geometrix
         // compute out_classifications for P0, P1, and whatever point lies outside the clip rectangle
         out_classification out_classification0 = compute_out_classification(x0, y0, xmin, xmax, ymin, ymax, cmp);
         out_classification out_classification1 = compute_out_classification(x1, y1, xmin, xmax, ymin, ymax, cmp);
+        // Sides each end has been cut at: rounding must not bring one back, or a line through a corner is cut forever.
+        int cutSides0 = out_classification::inside, cutSides1 = out_classification::inside;
         bool accept = false;
 
         while (true) 
@@ -118,6 +120,8 @@ namespace geometrix
                 // At least one endpoint is outside the clip rectangle; pick it.
                 out_classification out_classificationOut = out_classification0 ? out_classification0 : out_classification1;
 
+                int side = out_classification::inside;
+
                 // Now find the intersection point;
                 // use formulas y = y0 + slope * (x - x0), x = x0 + (1 / slope) * (y - y0)
                 if (out_classificationOut & out_classification::top)
@@ -125,24 +129,28 @@ namespace geometrix
                     // point is above the clip rectangle
                     x = x0 + (x1 - x0) * (ymax - y0) / (y1 - y0);
                     y = ymax;
+                    side = out_classification::top;
                 } 
                 else if (out_classificationOut & out_classification::bottom)
                 {
                     // point is below the clip rectangle
                     x = x0 + (x1 - x0) * (ymin - y0) / (y1 - y0);
                     y = ymin;
+                    side = out_classification::bottom;
                 } 
                 else if (out_classificationOut & out_classification::right)
                 {
                     // point is to the right of clip rectangle
                     y = y0 + (y1 - y0) * (xmax - x0) / (x1 - x0);
                     x = xmax;
+                    side = out_classification::right;
                 }
                 else if (out_classificationOut & out_classification::left) 
                 {
                     // point is to the left of clip rectangle
                     y = y0 + (y1 - y0) * (xmin - x0) / (x1 - x0);
                     x = xmin;
+                    side = out_classification::left;
                 }
 
                 // Now we move outside point to intersection point to clip
@@ -151,13 +159,15 @@ namespace geometrix
                 {
                     x0 = x;
                     y0 = y;
-                    out_classification0 = compute_out_classification(x0, y0, xmin, xmax, ymin, ymax, cmp);
+                    cutSides0 |= side;
+                    out_classification0 = compute_out_classification(x0, y0, xmin, xmax, ymin, ymax, cmp) & ~cutSides0;
                 }
                 else 
                 {
                     x1 = x;
                     y1 = y;
-                    out_classification1 = compute_out_classification(x1, y1, xmin, xmax, ymin, ymax, cmp);
+                    cutSides1 |= side;
+                    out_classification1 = compute_out_classification(x1, y1, xmin, xmax, ymin, ymax, cmp) & ~cutSides1;
                 }
             }
         }
-- 
2.43.0


From e61106eb7d424da9e7b94a0b22b8cae966517395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 39/54] fix: separating axis extreme vertex search finds the
 farthest vertex from every start vertex

---
 .../detail/separating_axis_common.hpp         | 38 +++++--------------
 1 file changed, 9 insertions(+), 29 deletions(-)

diff --git a/geometrix/algorithm/intersection/detail/separating_axis_common.hpp b/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
index d32c109..e3a20ae 100644
--- a/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
+++ b/geometrix/algorithm/intersection/detail/separating_axis_common.hpp
@@ -21,14 +21,6 @@ namespace geometrix {
 	
 	namespace detail_separating_axis {
 
-		inline std::size_t get_middle_index(std::size_t i0, std::size_t i1, std::size_t n)
-		{
-			if(i0 < i1)
-				return (i0 + i1) / 2;
-			else
-				return ((i0 + i1 + n) / 2) % n;
-		}
-
 		template <typename Polygon, typename Vector, typename NumberComparisonPolicy>
 		inline std::size_t get_extreme_index(const Polygon& c, const Vector& d, const NumberComparisonPolicy& cmp)
 		{
@@ -37,32 +29,20 @@ namespace geometrix {
 			using length_t = typename arithmetic_type_of<point_type>::type;
 			using vector_t = vector<length_t, dimension_of<point_type>::value>;
 
-			std::size_t i0 = 0;
-			std::size_t i1 = 0;
-			while(true)
+			std::size_t extreme = 0;
+			auto max = dot_product(d, vector_t{ access::get_point(c, 0) - access::get_point(c, 0) });
+			for(std::size_t i = 1; i < access::size(c); ++i)
 			{
-				std::size_t mid = get_middle_index(i0, i1, access::size(c));
-				std::size_t next = (mid + 1) % access::size(c);
-				vector_t e = access::get_point(c, next) - access::get_point(c, mid);
+				vector_t e = access::get_point(c, i) - access::get_point(c, 0);
 				auto de = dot_product(d, e);
-				if(cmp.greater_than(de, constants::zero<decltype(de)>()))
+				if(cmp.greater_than(de, max))
 				{
-					if(mid != i0)
-						i0 = mid;
-					else
-						return i1;
-				}
-				else
-				{
-					std::size_t prev = (mid + access::size(c) - 1) % access::size(c);
-					e = access::get_point(c, mid) - access::get_point(c, prev);
-					de = dot_product(d, e);
-					if(cmp.less_than(de, constants::zero<decltype(de)>()))
-						i1 = mid;
-					else
-						return mid;
+					max = de;
+					extreme = i;
 				}
 			}
+
+			return extreme;
 		}
 
 		template <typename Polygon, typename Vector, typename Length, typename NumberComparisonPolicy>
-- 
2.43.0


From 04ed230e1a60dcc77f64c014459a973316bb4d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 40/54] fix: convex_polygons_intersection uses the outward
 normals of counterclockwise polygons

---
 .../intersection/separating_axis_convex_polygons.hpp      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp b/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
index 3bee8fc..fca2d78 100644
--- a/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
+++ b/geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp
@@ -25,21 +25,21 @@ namespace geometrix {
 
 		for(std::size_t i0 = 0, i1 = access1::size(p1) - 1; i0 < access1::size(p1); i1 = i0, ++i0)
 		{
-			auto d = left_normal<vector_t>(access1::get_point(p1, i0) - access1::get_point(p1, i1));
+			auto d = right_normal<vector_t>(access1::get_point(p1, i0) - access1::get_point(p1, i1));
 			std::size_t min = get_extreme_index(p2, -d, cmp);
 			vector_t diff = access2::get_point(p2, min) - access1::get_point(p1, i0);
 			auto dd = dot_product(d, diff);
-			if(cmp.greater_than(dd, constants::zero<decltype(dd)>()))
+			if(cmp.greater_than_or_equal(dd, constants::zero<decltype(dd)>()))
 				return false;
 		}
 
 		for(std::size_t i0 = 0, i1 = access2::size(p2) - 1; i0 < access2::size(p2); i1 = i0, ++i0)
 		{
-			auto d = left_normal<vector_t>(access2::get_point(p2, i0) - access2::get_point(p2, i1));
+			auto d = right_normal<vector_t>(access2::get_point(p2, i0) - access2::get_point(p2, i1));
 			std::size_t min = get_extreme_index(p1, -d, cmp);
 			vector_t diff = access1::get_point(p1, min) - access2::get_point(p2, i0);
 			auto dd = dot_product(d, diff);
-			if(cmp.greater_than(dd, constants::zero<decltype(dd)>()))
+			if(cmp.greater_than_or_equal(dd, constants::zero<decltype(dd)>()))
 				return false;
 		}
 
-- 
2.43.0


From f2631bbd214d358ee5e930ecd61417f03c07ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 41/54] fix: polyline_offset keeps the shifted vertex where
 consecutive edges are collinear

---
 geometrix/algorithm/point_sequence/polyline_offset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/polyline_offset.hpp b/geometrix/algorithm/point_sequence/polyline_offset.hpp
index 070a599..2273d06 100644
--- a/geometrix/algorithm/point_sequence/polyline_offset.hpp
+++ b/geometrix/algorithm/point_sequence/polyline_offset.hpp
@@ -325,7 +325,7 @@ namespace geometrix {
 					auto pOffsetC = construct<point_type>(C + vNormalCD);
 					auto pOffsetD = construct<point_type>(D + vNormalCD);
 
-					point_type xPoint;
+					point_type xPoint = pOffsetB;//! Kept where the offset edges are parallel.
 					line_line_intersect(pOffsetA, pOffsetB, pOffsetC, pOffsetD, xPoint, cmp);
 					result.push_back(xPoint);
 
-- 
2.43.0


From 0f29f435eae104c9e1e45e0591e1d58144c74ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 42/54] fix: fixed_point conversion to real numbers keeps the
 fraction

---
 geometrix/numeric/fixed_point_traits.hpp | 26 ++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/geometrix/numeric/fixed_point_traits.hpp b/geometrix/numeric/fixed_point_traits.hpp
index 52f30ab..2e04b63 100644
--- a/geometrix/numeric/fixed_point_traits.hpp
+++ b/geometrix/numeric/fixed_point_traits.hpp
@@ -33,6 +33,16 @@
 
 namespace geometrix {
 
+    namespace detail
+    {
+        //! Convert a format value for scaling down to T: scaling down to a real number must keep the fraction.
+        template <typename T, typename B>
+        BOOST_CONSTEXPR inline typename std::common_type<T, typename widen<B>::type>::type scale_down_cast( B v )
+        {
+            return static_cast<typename std::common_type<T, typename widen<B>::type>::type>( v );
+        }
+    }//! namespace detail;
+
     template <int Radix, int Exp>
     struct generic_compile_time_scale_policy
     {
@@ -52,7 +62,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<Radix, Exp>::value );
+            return boost::numeric_cast<T>( detail::scale_down_cast<T>( v ) / power_c<Radix, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -66,7 +76,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return boost::numeric_cast<T>( detail::scale_down_cast<T>( v ) / integral_pow( Radix, Exp ) );
         }
     };
 
@@ -92,7 +102,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, m_scale ) );
+            return boost::numeric_cast<T>( detail::scale_down_cast<T>( v ) / integral_pow( Radix, m_scale ) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -106,7 +116,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR T scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / integral_pow( Radix, Exp ) );
+            return boost::numeric_cast<T>( detail::scale_down_cast<T>( v ) / integral_pow( Radix, Exp ) );
         }
 
         int m_scale;
@@ -142,7 +152,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return boost::numeric_cast<T>( detail::scale_down_cast<T>( v ) / power_c<2, Exp>::value );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -168,7 +178,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / power_c<2, Exp>::value );
+            return boost::numeric_cast<T>( detail::scale_down_cast<T>( v ) / power_c<2, Exp>::value );
         }
     };
 
@@ -205,7 +215,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / m_scale );
+            return boost::numeric_cast<T>( detail::scale_down_cast<T>( v ) / integral_pow( 2, m_scale ) );
         }
 
         //! Scale from T to B by a factor of Radix^scale.
@@ -232,7 +242,7 @@ namespace geometrix {
         template <typename T, typename B>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_float<T>, T >::type scale_down( B v, int Exp ) const
         {
-            return boost::numeric_cast<T>( widen_cast( v ) / Exp );
+            return boost::numeric_cast<T>( detail::scale_down_cast<T>( v ) / integral_pow( 2, Exp ) );
         }
 
         int m_scale;
-- 
2.43.0


From 7934bbf5701d0a7b4491b34d4161623f80706d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 43/54] fix: binary fixed_point scaling does not shift negative
 values

---
 geometrix/numeric/fixed_point_traits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geometrix/numeric/fixed_point_traits.hpp b/geometrix/numeric/fixed_point_traits.hpp
index 2e04b63..dc97306 100644
--- a/geometrix/numeric/fixed_point_traits.hpp
+++ b/geometrix/numeric/fixed_point_traits.hpp
@@ -133,7 +133,7 @@ namespace geometrix {
         template <typename B, typename T>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_integral<T>, B >::type scale_up( T v ) const
         {
-            return boost::numeric_cast<B>( widen_cast( v ) << Exp );
+            return boost::numeric_cast<B>( widen_cast( v ) * ( std::int64_t( 1 ) << Exp ) );
         }
 
         template <typename B, typename T>
@@ -159,7 +159,7 @@ namespace geometrix {
         template <typename B, typename T>
         BOOST_CONSTEXPR B scale_up( T v, int, typename boost::enable_if< boost::is_integral<T> >::type* = 0 ) const
         {
-            return boost::numeric_cast<B>( widen_cast( v ) << Exp );
+            return boost::numeric_cast<B>( widen_cast( v ) * ( std::int64_t( 1 ) << Exp ) );
         }
 
         template <typename B, typename T>
@@ -195,7 +195,7 @@ namespace geometrix {
         template <typename B, typename T>
         BOOST_CONSTEXPR typename boost::enable_if< boost::is_integral<T>, B >::type scale_up( T v ) const
         {
-            return boost::numeric_cast<B>( widen_cast( v ) << m_scale );
+            return boost::numeric_cast<B>( widen_cast( v ) * ( std::int64_t( 1 ) << m_scale ) );
         }
 
         template <typename B, typename T>
@@ -222,7 +222,7 @@ namespace geometrix {
         template <typename B, typename T>
         BOOST_CONSTEXPR B scale_up( T v, int Exp, typename boost::enable_if< boost::is_integral<T> >::type* = 0 ) const
         {
-            return boost::numeric_cast<B>( widen_cast( v ) << Exp );
+            return boost::numeric_cast<B>( widen_cast( v ) * ( std::int64_t( 1 ) << Exp ) );
         }
 
         template <typename B, typename T>
-- 
2.43.0


From 3d3651a6d9be7e45774a3497d36de6e6ace817da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 44/54] fix: point_polyline_orientation treats a point before
 the segment's start as nearest its start

---
 .../algorithm/point_sequence/point_polyline_orientation.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
index 34c38f2..21cbcce 100644
--- a/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
+++ b/geometrix/algorithm/point_sequence/point_polyline_orientation.hpp
@@ -46,7 +46,7 @@ namespace geometrix {
 			point_segment_closest_point_and_param(p, pi, pj, t);
 			if (t > constants::zero<dimensionless_t>() && t < constants::one<dimensionless_t>())
 				return get_orientation(pi, pj, p, cmp);
-			else if (cmp.equals(t, constants::zero<dimensionless_t>()))
+			else if (cmp.less_than_or_equal(t, constants::zero<dimensionless_t>()))
 			{
 				//! Closest point is a vertex i.
 				if (segIndex != 0)
-- 
2.43.0


From c00109c78303faf0193bd15bba30e0f0b2486e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 45/54] fix: polygon_with_holes: do not move from lvalue
 borders and holes

---
 geometrix/primitive/polygon_with_holes.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/primitive/polygon_with_holes.hpp b/geometrix/primitive/polygon_with_holes.hpp
index a69bb53..4c75387 100644
--- a/geometrix/primitive/polygon_with_holes.hpp
+++ b/geometrix/primitive/polygon_with_holes.hpp
@@ -94,7 +94,7 @@ namespace geometrix {
         template <typename OuterPolygon>
         void set_outer(OuterPolygon&& outer)
         {
-            m_outer = std::move(outer);
+            m_outer = std::forward<OuterPolygon>(outer);
         }
 
         template <typename OuterPolygon>
@@ -116,7 +116,7 @@ namespace geometrix {
         template <typename HolePolygon>
         void add_hole(HolePolygon&& outer)
         {
-            m_holes.emplace_back(std::move(outer));
+            m_holes.emplace_back(std::forward<HolePolygon>(outer));
         }
 
         template <typename HolePolygon>
-- 
2.43.0


From e30581f0eb7e4ee09e8a89eb0f615b7d7e4e6991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 46/54] fix: random_index_generator: exclude the maximum index
 as documented

---
 geometrix/utility/random_generator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometrix/utility/random_generator.hpp b/geometrix/utility/random_generator.hpp
index 4c92a77..ad7993f 100644
--- a/geometrix/utility/random_generator.hpp
+++ b/geometrix/utility/random_generator.hpp
@@ -19,13 +19,13 @@ namespace geometrix {
 
         random_index_generator( std::size_t maxIndex, unsigned long seed = 42 )
             : m_randomNumberGenerator(seed)
-            , m_range( std::size_t(0), maxIndex )
+            , m_range( std::size_t(0), maxIndex != 0 ? maxIndex - 1 : 0 )
             , m_generator( m_randomNumberGenerator, m_range )
         {}
         
         random_index_generator( std::size_t maxIndex, const RandomNumberGenerator& rng )
             : m_randomNumberGenerator(rng)
-            , m_range( std::size_t(0), maxIndex )
+            , m_range( std::size_t(0), maxIndex != 0 ? maxIndex - 1 : 0 )
             , m_generator( m_randomNumberGenerator, m_range )
         {}
 
-- 
2.43.0


From edac5006262e1057b5aa122da9cd2accb437b224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 47/54] fix: random generators: copies must not refer to the
 original's engine

---
 geometrix/utility/random_generator.hpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/geometrix/utility/random_generator.hpp b/geometrix/utility/random_generator.hpp
index ad7993f..35f7139 100644
--- a/geometrix/utility/random_generator.hpp
+++ b/geometrix/utility/random_generator.hpp
@@ -20,25 +20,22 @@ namespace geometrix {
         random_index_generator( std::size_t maxIndex, unsigned long seed = 42 )
             : m_randomNumberGenerator(seed)
             , m_range( std::size_t(0), maxIndex != 0 ? maxIndex - 1 : 0 )
-            , m_generator( m_randomNumberGenerator, m_range )
         {}
         
         random_index_generator( std::size_t maxIndex, const RandomNumberGenerator& rng )
             : m_randomNumberGenerator(rng)
             , m_range( std::size_t(0), maxIndex != 0 ? maxIndex - 1 : 0 )
-            , m_generator( m_randomNumberGenerator, m_range )
         {}
 
         //! Generate an integer on the interval [0,maxIndex).
-        std::size_t operator()() const { return m_generator(); }
-        void seed( unsigned long seed ) { m_generator.engine().seed( seed ); m_generator.distribution().reset(); }
+        std::size_t operator()() const { return m_range( m_randomNumberGenerator ); }
+        void seed( unsigned long seed ) { m_randomNumberGenerator.seed( seed ); m_range.reset(); }
 
     private:
 
-        //! order of these is important so initializer list gets the order correct.
+        //! The engine and distribution are held by value so that copies are independent.
         mutable RandomNumberGenerator                                                              m_randomNumberGenerator;
         boost::uniform_int<std::size_t>                                                            m_range;
-        mutable boost::variate_generator<RandomNumberGenerator&, boost::uniform_int<std::size_t> > m_generator;
     };
 
     template <typename RandomNumberGenerator = boost::mt19937>
@@ -49,19 +46,17 @@ namespace geometrix {
         random_real_generator( double maxReal = 1.0, unsigned long seed = 42 )
             : m_randomNumberGenerator(seed)
             , m_range( 0.0, maxReal )
-            , m_generator( m_randomNumberGenerator, m_range )
         {}
 
         //! Generate a real (double) on the interval [0.0,maxReal).
-        double operator()() const { return m_generator(); }
-        void seed( unsigned long seed ) { m_generator.engine().seed( seed ); m_generator.distribution().reset(); }
+        double operator()() const { return m_range( m_randomNumberGenerator ); }
+        void seed( unsigned long seed ) { m_randomNumberGenerator.seed( seed ); m_range.reset(); }
 
     private:
 
-        //! order of these is important so initializer list gets the order correct.
+        //! The engine and distribution are held by value so that copies are independent.
         mutable RandomNumberGenerator                                                    m_randomNumberGenerator;
         boost::uniform_real<>                                                            m_range;
-        mutable boost::variate_generator<RandomNumberGenerator&, boost::uniform_real<> > m_generator;
     };
 
     template <typename RandomNumberGenerator = boost::mt19937>
@@ -72,19 +67,17 @@ namespace geometrix {
         random_integer_generator( unsigned long seed = 42 )
             : m_randomNumberGenerator(seed)
             , m_range( std::size_t(0), (std::numeric_limits<std::size_t>::max)() )
-            , m_generator( m_randomNumberGenerator, m_range )
         {}
 
         //! Generate a number on the interval [0,N)
-        std::size_t operator()( std::size_t N = (std::numeric_limits<std::size_t>::max)() ) const { return (m_generator() % N); }
-        void seed( unsigned long seed ) { m_generator.engine().seed( seed ); m_generator.distribution().reset(); }
+        std::size_t operator()( std::size_t N = (std::numeric_limits<std::size_t>::max)() ) const { return (m_range( m_randomNumberGenerator ) % N); }
+        void seed( unsigned long seed ) { m_randomNumberGenerator.seed( seed ); m_range.reset(); }
 
     private:
 
-        //! order of these is important so initializer list gets the order correct.
+        //! The engine and distribution are held by value so that copies are independent.
         mutable RandomNumberGenerator                                                              m_randomNumberGenerator;
         boost::uniform_int<std::size_t>                                                            m_range;
-        mutable boost::variate_generator<RandomNumberGenerator&, boost::uniform_int<std::size_t> > m_generator;
     };
 
     //! generator to generate an ordered sequence (for synthesizing std::iota.. which isn't on all platforms).
-- 
2.43.0


From d6622d7a046db39448996b6dd3f8dc65efb66c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 48/54] fix: running_stat: start and clear with a zero sum

---
 geometrix/utility/scope_timer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/geometrix/utility/scope_timer.hpp b/geometrix/utility/scope_timer.hpp
index f1c444e..3a74f13 100644
--- a/geometrix/utility/scope_timer.hpp
+++ b/geometrix/utility/scope_timer.hpp
@@ -30,11 +30,13 @@ namespace geometrix {
         public:
             running_stat()
                 : m_n{}
+                , m_sum{}
             {}
 
             void clear()
             {
                 m_n = 0;
+                m_sum = T{};
             }
 
             BOOST_FORCEINLINE void push(T x)
-- 
2.43.0


From bb21e9d0fdd9542ce0602ecd896fb502110098b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 49/54] fix: bisect halves the counter-clockwise turn for
 vectors of any length and exactly opposite ones

---
 geometrix/arithmetic/vector/bisect.hpp | 31 +++++++++++++-------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/geometrix/arithmetic/vector/bisect.hpp b/geometrix/arithmetic/vector/bisect.hpp
index 5c0b31e..6709b8b 100644
--- a/geometrix/arithmetic/vector/bisect.hpp
+++ b/geometrix/arithmetic/vector/bisect.hpp
@@ -34,19 +34,18 @@ namespace geometrix {
         using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
 		auto nlo = normalize(lo);
 		auto nhi = normalize(hi);
-		auto dp = dot_product(nlo, nhi);
-		if (dp > constants::negative_one<decltype(dp)>() && dp < constants::one<decltype(dp)>()) 
-		{
-			auto one_half = constants::one_half<dimensionless_t>();
-			auto orientation = get_orientation(lo, hi, direct_comparison_policy());
-			if(orientation != oriented_right)
-				return normalize(one_half * (lo + hi));
-			return normalize(one_half * (-lo - hi));
-		}
-		else if (dp == constants::negative_one<decltype(dp)>())
-			return right_normal(nhi);
+		auto zero = constants::zero<dimensionless_t>();
+		//! At least a quarter turn apart: the difference is well conditioned and its left normal is the bisector on either side.
+		if (dot_product(nlo, nhi) < zero)
+			return normalize(left_normal(typename result_of::bisect<Vector1, Vector2>::type(nlo - nhi)));
 
-		return -hi;
+		auto orientation = get_orientation(lo, hi, direct_comparison_policy());
+		if (orientation == oriented_left)
+			return normalize(nlo + nhi);
+		if (orientation == oriented_right)
+			return normalize(-nlo - nhi);
+
+		return -nhi;
     }
 	
 	//! Find the bisect between two vectors whose winding (rotational) progression is counter-clockwise from lo to hi.
@@ -55,13 +54,13 @@ namespace geometrix {
     inline typename result_of::bisect<Vector1, Vector2>::type bisect_not_antiparallel(const Vector1& lo, const Vector2& hi)
     {
 		GEOMETRIX_ASSERT(!is_antiparallel(lo, hi, direct_comparison_policy()));
-        using dimensionless_t = typename dimensionless_type_of<Vector1>::type;
-        auto one_half = constants::one_half<dimensionless_t>();
+		auto nlo = normalize(lo);
+		auto nhi = normalize(hi);
 		auto orientation = get_orientation(lo, hi, direct_comparison_policy());
 		if(orientation != oriented_right)
-	        return normalize(one_half * (lo + hi));
+	        return normalize(nlo + nhi);
 		else
-	        return normalize(one_half * (-lo - hi));
+	        return normalize(-nlo - nhi);
     }
 
 }//! namespace geometrix;
-- 
2.43.0


From 39dbdb9b9f4b62d3e43d3dd9ae91202786d88d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 50/54] fix: points and vectors keep their value until an
 assigned expression that refers to them is evaluated

---
 geometrix/tensor/detail/numeric_sequence_n.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/geometrix/tensor/detail/numeric_sequence_n.hpp b/geometrix/tensor/detail/numeric_sequence_n.hpp
index 66f56ce..eec5b97 100644
--- a/geometrix/tensor/detail/numeric_sequence_n.hpp
+++ b/geometrix/tensor/detail/numeric_sequence_n.hpp
@@ -137,9 +137,12 @@ public:
     {
         //! Helper macro to build access traits code.
         #define GEOMETRIX_ASSIGN_ACCESS_EXPR_( z, i, e ) \
-            (*this)[i] = geometrix::get<i>( e );         \
+            result[i] = geometrix::get<i>( e );          \
         /***/
+        //! The expression may refer to this sequence, so it is only changed once all elements are known.
+        numeric_array result;
         BOOST_PP_REPEAT( DIMENSION, GEOMETRIX_ASSIGN_ACCESS_EXPR_, e )
+        m_sequence = result;
         return *this;
         #undef GEOMETRIX_ASSIGN_ACCESS_EXPR
     }
@@ -151,7 +154,9 @@ protected:
     numeric_sequence& operator+= ( const Expr& p )
     {
         typedef boost::fusion::vector<numeric_array&, const Expr&> sequences;
-        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( m_sequence, p ) ), make_fused_procedure( boost::lambda::_1 += boost::lambda::_2 ) );
+        numeric_array result = m_sequence;//! p may refer to this sequence.
+        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( result, p ) ), make_fused_procedure( boost::lambda::_1 += boost::lambda::_2 ) );
+        m_sequence = result;
         return *this;
     }
 
@@ -161,7 +166,9 @@ protected:
     numeric_sequence& operator-= ( const Expr& p )
     {
         typedef boost::fusion::vector<numeric_array&, const Expr&> sequences;
-        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( m_sequence, p ) ), make_fused_procedure( boost::lambda::_1 -= boost::lambda::_2 ) );
+        numeric_array result = m_sequence;//! p may refer to this sequence.
+        boost::fusion::for_each( boost::fusion::zip_view<sequences>( sequences( result, p ) ), make_fused_procedure( boost::lambda::_1 -= boost::lambda::_2 ) );
+        m_sequence = result;
         return *this;
     }
     // numeric_sequence operator-(numeric_sequence, const numeric_sequence&) automatically
-- 
2.43.0


From 52353672fbac20de4042e88b811d650dc958cf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 51/54] fix: assign evaluates all elements before changing a
 point or vector they refer to

---
 geometrix/tensor/detail/point_n.hpp  | 8 ++++++--
 geometrix/tensor/detail/vector_n.hpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/geometrix/tensor/detail/point_n.hpp b/geometrix/tensor/detail/point_n.hpp
index cb42877..e252d86 100644
--- a/geometrix/tensor/detail/point_n.hpp
+++ b/geometrix/tensor/detail/point_n.hpp
@@ -101,13 +101,17 @@ struct assignment_policy < point< T, DIMENSION> >
 {
     static void assign(point<T, DIMENSION>& v, BOOST_PP_ENUM_PARAMS(DIMENSION, const T& a))
     {
-        BOOST_PP_REPEAT(DIMENSION, GEOMETRIX_SET_ARG_VALUE_AT_INDEX_, _);
+        //! The arguments may refer to the elements of v.
+        v = point<T, DIMENSION>( BOOST_PP_ENUM_PARAMS(DIMENSION, a) );
     }
 
     template <typename NumericSequence>
-    static void assign(point<T, DIMENSION>& v, const NumericSequence& args)
+    static void assign(point<T, DIMENSION>& target, const NumericSequence& args)
     {
+        //! The arguments may refer to v.
+        point<T, DIMENSION> v;
         BOOST_PP_REPEAT(DIMENSION, GEOMETRIX_SET_VALUE_AT_INDEX_, args);
+        target = v;
     }
 };
 
diff --git a/geometrix/tensor/detail/vector_n.hpp b/geometrix/tensor/detail/vector_n.hpp
index 5665397..13b8813 100644
--- a/geometrix/tensor/detail/vector_n.hpp
+++ b/geometrix/tensor/detail/vector_n.hpp
@@ -119,13 +119,17 @@ struct assignment_policy < vector< T, DIMENSION> >
 {
     static void assign(vector<T, DIMENSION>& v, BOOST_PP_ENUM_PARAMS(DIMENSION, const T& a))
     {
-        BOOST_PP_REPEAT(DIMENSION, GEOMETRIX_SET_ARG_VALUE_AT_INDEX_, _);
+        //! The arguments may refer to the elements of v.
+        v = vector<T, DIMENSION>( BOOST_PP_ENUM_PARAMS(DIMENSION, a) );
     }
 
     template <typename NumericSequence>
-    static void assign(vector<T, DIMENSION>& v, const NumericSequence& args)
+    static void assign(vector<T, DIMENSION>& target, const NumericSequence& args)
     {
+        //! The arguments may refer to v.
+        vector<T, DIMENSION> v;
         BOOST_PP_REPEAT(DIMENSION, GEOMETRIX_SET_VALUE_AT_INDEX_, args);
+        target = v;
     }
 };
 
-- 
2.43.0


From 6ce64d3cae6f16108feb9e682653724e8ba76bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:20 +0000
Subject: [PATCH 52/54] fix: segment_segment_intersection in space tells an end
 contact of either segment from a crossing

---
 .../algorithm/intersection/segment_segment_intersection.hpp   | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/geometrix/algorithm/intersection/segment_segment_intersection.hpp b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
index 742835b..b74a3b2 100644
--- a/geometrix/algorithm/intersection/segment_segment_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_segment_intersection.hpp
@@ -252,9 +252,7 @@ namespace geometrix {
         
                 if( cmp.less_than( t, zero ) || cmp.greater_than( t, one ) )
                     return e_non_crossing;                
-                else if( cmp.greater_than( t, zero ) && cmp.less_than( t, one ) )
-                    iType = e_crossing;
-                else
+                else if( !cmp.greater_than( t, zero ) || !cmp.less_than( t, one ) )
                     iType = e_endpoint;
         
                 iPoint[0] <<= p1 + s * v1;
-- 
2.43.0


From 102c78afaabc6c6fcc6f947a6f544c92b276892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:20 +0000
Subject: [PATCH 53/54] fix: oriented_intersection reports collinear segments
 sharing an end and a stretch as overlapping

---
 geometrix/algorithm/orientation.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geometrix/algorithm/orientation.hpp b/geometrix/algorithm/orientation.hpp
index 9f640a6..5521a00 100644
--- a/geometrix/algorithm/orientation.hpp
+++ b/geometrix/algorithm/orientation.hpp
@@ -105,6 +105,10 @@ namespace geometrix {
             if( (originEqualsp3 && destinationEqualsp4) || (originEqualsp4 && destinationEqualsp3) )
                 return e_overlapping;
 
+            //! Segments sharing an end overlap when another end is inside.
+            if( (originEqualsp3 || originEqualsp4 || destinationEqualsp3 || destinationEqualsp4) && (p1isBetweenp3p4 || p2isBetweenp3p4 || p3isBetweenp1p2 || p4isBetweenp1p2) )
+                return e_overlapping;
+
             if(originEqualsp3)
                 return e_endpoint;
 
-- 
2.43.0


From 5ca7ce665251fa462e2037aed026d716c3fe9f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:13 +0000
Subject: [PATCH 54/54] fix: segment_capsule_intersection recognises a segment
 parallel to the axis despite rounding

---
 .../algorithm/intersection/segment_capsule_intersection.hpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
index 93d1ad3..f41b776 100644
--- a/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
+++ b/geometrix/algorithm/intersection/segment_capsule_intersection.hpp
@@ -44,7 +44,8 @@ namespace geometrix {
 			return segment_sphere_intersection(sa, n, sqrt(nn), make_sphere<2>(q, r), t, xPoint, cmp); // Segment outside 'q' side of capsule 
 				
 		ArithmeticType mn = dot_product(m, n);
-		ArithmeticType a = dd * nn - nd * nd; 
+		ArithmeticType dn = get<0>(d) * get<1>(n) - get<1>(d) * get<0>(n);
+		ArithmeticType a = dn * dn;//! dd * nn - nd * nd without the cancellation when the segment is parallel to the axis. 
 		ArithmeticType k = dot_product(m, m) - r * r; 
 		ArithmeticType c = dd * k - md * md; 
 		if (cmp.equals(a, 0))
-- 
2.43.0

