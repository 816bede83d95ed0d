From a748dcf536e5f7d7682e199462cc5edff950075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:57 +0000
Subject: [PATCH 01/88] fix: msgpack: make reading a measurement with as<>()
 compile and take the payload from its own element

---
 src/utSerialization/MsgpackSerializer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index bb0231e..2b22f72 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -132,12 +132,12 @@ template<typename T>
 struct as<Ubitrack::Measurement::Measurement<T>, typename std::enable_if<msgpack::has_as<T>::value>::type> {
   Ubitrack::Measurement::Measurement<T> operator()(msgpack::object const& o) const
   {
-      if (o.is_nil()) return nullptr;
+      if (o.is_nil()) return Ubitrack::Measurement::Measurement<T>();
       if (o.type!=msgpack::type::ARRAY) throw msgpack::type_error();
       if (o.via.array.size!=2) throw msgpack::type_error();
       return Ubitrack::Measurement::Measurement<T>(
               o.via.array.ptr[0].as<unsigned long long>(),
-              boost::shared_ptr<T>(o.via.array.ptr[0].as<T>())
+              o.via.array.ptr[1].as<T>()
       );
   }
 };
-- 
2.43.0


From 3155615613d10ba45768b04e69b299d1bea2196f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:57 +0000
Subject: [PATCH 02/88] fix: msgpack: index the elements of non-square matrices
 row by row

---
 src/utSerialization/MsgpackSerializer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 2b22f72..63969eb 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -334,7 +334,7 @@ struct as<Ubitrack::Math::Matrix<T, M, N>, typename std::enable_if<msgpack::has_
       Ubitrack::Math::Matrix<T, M, N> result(M, N);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               result(i,j) = o.via.array.ptr[idx].as<T>();
           }
       }
@@ -357,7 +357,7 @@ struct convert<Ubitrack::Math::Matrix<T, M, N> > {
       }
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
 			  msgpack::adaptor::convert<T>()(o.via.array.ptr[idx], v(i, j));
               //v(i,j) = o.via.array.ptr[idx].as<T>();
           }
@@ -379,7 +379,7 @@ struct pack<Ubitrack::Math::Matrix<T, M, N> > {
       o.pack_array((uint32_t)num_elements);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.pack(v(i,j));
           }
       }
@@ -402,7 +402,7 @@ struct object_with_zone<Ubitrack::Math::Matrix<T, M, N> > {
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.via.array.ptr[idx] = msgpack::object(v(i,j), o.zone);
           }
       }
-- 
2.43.0


From 3cb20321d07849387fa0758802197b438f3f12ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:57 +0000
Subject: [PATCH 03/88] fix: msgpack: store every element of a vector in a zone
 object, not only the last

---
 src/utSerialization/MsgpackSerializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 63969eb..47cd0fe 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -309,7 +309,7 @@ struct object_with_zone<Ubitrack::Math::Vector<T, N> > {
       o.via.array.ptr = static_cast<msgpack::object*>(
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<num_elements; ++i) {
-          o.via.array.ptr[0] = msgpack::object(v(i), o.zone);
+          o.via.array.ptr[i] = msgpack::object(v(i), o.zone);
       }
   }
 };
-- 
2.43.0


From 0b29374a5c870b502d6e87216acbfbaaee5d5479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:19 +0000
Subject: [PATCH 04/88] fix: measurements without payload: provide one when
 loading from an archive, refuse to save

---
 src/utMeasurement/Measurement.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/utMeasurement/Measurement.h b/src/utMeasurement/Measurement.h
index 4a0e7fa..e1af98a 100644
--- a/src/utMeasurement/Measurement.h
+++ b/src/utMeasurement/Measurement.h
@@ -35,6 +35,8 @@
 
 #include "Timestamp.h"
 
+#include <utUtil/Exception.h>
+
 #include <utMath/Vector.h>
 #include <utMath/Quaternion.h>
 #include <utMath/Matrix.h>
@@ -247,6 +249,13 @@ class Measurement
 		template< class Archive > 
 		void serialize( Archive& ar, const unsigned int version )
 		{
+			// there is no representation of a missing payload, and loading needs something to load into
+			if ( this->get() == 0 )
+			{
+				if ( Archive::is_saving::value )
+					UBITRACK_THROW( "cannot serialize a measurement without payload" );
+				this->reset( new Type() );
+			}
 			ar & m_timestamp;
 			ar & ( *(this->get()) );
 		}
-- 
2.43.0


From e463498cc181436f7e076ca4b373ea9d24765a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:45 +0000
Subject: [PATCH 05/88] fix: camera intrinsics: three radial parameters count
 as three, so that all of them are stored

---
 src/utMath/CameraIntrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index da35e1b..bea4202 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -155,7 +155,7 @@ public:
 		: calib_type( OPENCV_3_2 )
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
-		, radial_size( 2 )
+		, radial_size( 3 )
 		, radial_params( radial_type::zeros() )
 		, tangential_params( _tangential )
 		{
-- 
2.43.0


From 4d5285ce11615ea965bf82b97524f3a40cc0df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:45 +0000
Subject: [PATCH 06/88] fix: camera intrinsics: initialise the unused radial
 parameters of the fish-eye model

---
 src/utMath/CameraIntrinsics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index bea4202..5623bea 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -181,6 +181,7 @@ public:
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
 		, radial_size( 4 )
+		, radial_params( radial_type::zeros() )
 		, tangential_params( tangential_type::zeros() )
 		{
 			radial_params( 0 ) = _radial( 0 );
-- 
2.43.0


From c3f4ad6467ec13ba9a407a77c9c2cc8e75dda70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:45 +0000
Subject: [PATCH 07/88] fix: camera intrinsics: the general constructor takes
 the image size it is given

---
 src/utMath/CameraIntrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 5623bea..d2b4f2a 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -194,7 +194,7 @@ public:
 	template< typename IntType >
 	CameraIntrinsics(const Math::Vector< IntType, 2 >& size, const Math::Matrix< T, 3, 3 > &intrinsicMatrix, const std::size_t radSize, const Math::Vector< T, 6 > &_radial, const Math::Vector< T, 2 > &_tangential, const std::size_t width = 0, const std::size_t height = 0)
 		: calib_type( UNKNOWN )
-		, dimension(Math::Vector< std::size_t, 2 >(width, height))
+		, dimension(Math::Vector< std::size_t, 2 >( width ? width : size( 0 ), height ? height : size( 1 ) ))
 		, matrix( intrinsicMatrix )
 		, radial_size( radSize )
 		, radial_params( _radial )
-- 
2.43.0


From 9e6c30f086376a71b6ec2327cb31fb1791dc1dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:15 +0000
Subject: [PATCH 08/88] fix: msgpack: size a dynamic vector before its elements
 are read into it

---
 src/utSerialization/MsgpackSerializer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 47cd0fe..1e4e84b 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -270,6 +270,8 @@ struct convert<Ubitrack::Math::Vector<T, N> > {
       std::size_t num_elements = o.via.array.size;
       if (N>0) {
           if (num_elements!=N) throw msgpack::type_error();
+      } else {
+          v.resize(num_elements, false);
       }
       for (std::size_t i = 0; i<num_elements; ++i) {
 		  msgpack::adaptor::convert<T>()(o.via.array.ptr[i], v(i));
-- 
2.43.0


From e56fd7fd8bf8224fe700cfc732fd40b8e5083982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:50 +0000
Subject: [PATCH 09/88] fix: quaternion from rotation matrix: use another
 column close to half turns

---
 src/utMath/Quaternion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index 793c624..d7c14a9 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -37,7 +37,8 @@ Quaternion::Quaternion( const Math::Matrix< double, 0, 0 >& mat )
 	double S, X, Y, Z, W;
 	double T = 1.0 + mat(0,0) + mat(1,1) + mat(2,2);
 
-	if (T > 0) {
+	// close to half turns T is dominated by rounding errors, so another column has to be used
+	if (T > 1e-6) {
 		S = sqrt(T) * 2;
 		X = ( mat(1,2) - mat(2,1) ) / S;
 		Y = ( mat(2,0) - mat(0,2) ) / S;
-- 
2.43.0


From 9f7dd9d050c16ca1f0e9105ac4f1d85437ff57ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:55 +0000
Subject: [PATCH 10/88] fix: quaternion angle: tolerate real parts that
 rounding made slightly larger than one

---
 src/utMath/Quaternion.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Quaternion.h b/src/utMath/Quaternion.h
index 2588f54..62e3861 100644
--- a/src/utMath/Quaternion.h
+++ b/src/utMath/Quaternion.h
@@ -177,7 +177,11 @@ class UBITRACK_EXPORT Quaternion
 		 * @return the angle of the rotation represented by the quaternion
 		 */
 		double angle() const
-		{ return 2 * acos( w() > 0 ? w() : -w() ); }
+		{
+			// rounding errors can make the real part of a unit quaternion slightly larger than one
+			const double absW = w() > 0 ? w() : -w();
+			return absW < 1 ? 2 * acos( absW ) : 0;
+		}
 
 		/** 
 		 * sets the rotation of a given matrix to the value of the quaternion
@@ -323,9 +327,11 @@ template< typename T >
 void Quaternion::toAxisAngle( Math::Vector< T, 3 >& axis, T& angle )
 {
 	// assuming quaternion normalised then w is less than 1, so term always positive.
-	angle = 2 * acos( a );
+	// (rounding errors can make it slightly larger than one, though)
+	const double realPart = a > 1 ? 1 : ( a < -1 ? -1 : a );
+	angle = 2 * acos( realPart );
 	
-	double s = sqrt( 1 - a*a );
+	double s = sqrt( 1 - realPart*realPart );
 	// test to avoid divide by zero, s is always positive due to sqrt
 	if (s < 0.001) { 
 		// if s close to zero then direction of axis not important
-- 
2.43.0


From 55a456359c5fc87efe37365ab8af87a13aed9745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:55 +0000
Subject: [PATCH 11/88] fix: quaternion from axis and angle: a zero axis is no
 rotation instead of NaN

---
 src/utMath/Quaternion.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utMath/Quaternion.h b/src/utMath/Quaternion.h
index 62e3861..867a932 100644
--- a/src/utMath/Quaternion.h
+++ b/src/utMath/Quaternion.h
@@ -97,6 +97,13 @@ class UBITRACK_EXPORT Quaternion
 		Quaternion( const Vector< double, 3 >& axis, const double angle )
 		{
 			double length = ::boost::numeric::ublas::norm_2(axis);
+			if ( length == 0 )
+			{
+				// no axis, no rotation
+				a = 1;
+				b = c = d = 0;
+				return;
+			}
 			Vector< double, 3 > normAxis = axis*(sin(angle/2.0)/length);
 
 			a = cos(angle/2.0);
-- 
2.43.0


From 2ecf345118a7d21edf8b47336a948d0fcdbb3af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:55 +0000
Subject: [PATCH 12/88] fix: Euler angles: sign of the first angle at the south
 pole

---
 src/utMath/Quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index d7c14a9..bd2caaf 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -189,7 +189,7 @@ Vector< double, 3 > Quaternion::getEulerAngles( Quaternion::t_EulerSequence seq
 	// Singularity at south pole
 	if ( beta < -0.998 ) 
 	{
-		alpha = -2 * atan2( x_, w_ );
+		alpha = 2 * atan2( x_, w_ );
 		beta  = -boost::math::constants::pi<double>() / 2;
 		gamma = 0;
 
-- 
2.43.0


From d1d24af71f2332164da14e9d308e2524d8d4628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:55 +0000
Subject: [PATCH 13/88] fix: rotation cast: signs of the quaternion of a matrix
 close to a half turn

---
 src/utMath/Util/RotationCast.h | 37 +++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index 5530956..fd81766 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -104,9 +104,40 @@ struct RotationCast< Math::Quaternion >
 		const T qxt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 + m00div4 - m11div4 - m22div4 ) ) ) ); 
 		const T qyt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 + m11div4 - m22div4 ) ) ) ); 
 		const T qzt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 - m11div4 + m22div4 ) ) ) ); 
-		const T qx = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) < 0 ? -qxt : qxt;
-		const T qy = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) < 0 ? -qyt : qyt;
-		const T qz = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) < 0 ? -qzt : qzt;
+		if( qw >= qxt && qw >= qyt && qw >= qzt )
+		{
+			const T qx = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) < 0 ? -qxt : qxt;
+			const T qy = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) < 0 ? -qyt : qyt;
+			const T qz = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) < 0 ? -qzt : qzt;
+			return return_type( qx, qy, qz, qw );
+		}
+
+		// towards half turns the real part tends to zero and does not tell the signs any more,
+		// therefore they are taken relative to the largest imaginary component
+		T qx, qy, qz, s;
+		if( qxt >= qyt && qxt >= qzt )
+		{
+			qx = qxt;
+			qy = ( matrix( 0, 1 ) + matrix( 1, 0 ) ) < 0 ? -qyt : qyt;
+			qz = ( matrix( 0, 2 ) + matrix( 2, 0 ) ) < 0 ? -qzt : qzt;
+			s = matrix( 2, 1 ) - matrix( 1, 2 );
+		}
+		else if( qyt >= qzt )
+		{
+			qx = ( matrix( 0, 1 ) + matrix( 1, 0 ) ) < 0 ? -qxt : qxt;
+			qy = qyt;
+			qz = ( matrix( 1, 2 ) + matrix( 2, 1 ) ) < 0 ? -qzt : qzt;
+			s = matrix( 0, 2 ) - matrix( 2, 0 );
+		}
+		else
+		{
+			qx = ( matrix( 0, 2 ) + matrix( 2, 0 ) ) < 0 ? -qxt : qxt;
+			qy = ( matrix( 1, 2 ) + matrix( 2, 1 ) ) < 0 ? -qyt : qyt;
+			qz = qzt;
+			s = matrix( 1, 0 ) - matrix( 0, 1 );
+		}
+		if( s < 0 )
+			return return_type( -qx, -qy, -qz, qw );
 		return return_type( qx, qy, qz, qw );
 	}
 	
-- 
2.43.0


From ec8760f53f5dff5678244c33955abed8998634ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:05 +0000
Subject: [PATCH 14/88] fix: rotation cast to axis and angle: no NaN for the
 identity and for half turns

---
 src/utMath/Util/RotationCast.h | 39 +++++++---------------------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index fd81766..b35b784 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -196,8 +196,11 @@ struct RotationCast< Math::Vector< T, 4 > >
 	
 	return_type operator()( const Math::Quaternion & quat ) const
 	{
-		const T angle = 2 * std::acos( quat.w() );
-		const T divisor = std::sqrt( 1 - quat.w()*quat.w() );
+		const T divisor = std::sqrt( quat.x()*quat.x() + quat.y()*quat.y() + quat.z()*quat.z() );
+		if( divisor < 1e-10 )
+			return return_type( 0, 0, 0, 0 );
+
+		const T angle = 2 * std::atan2( divisor, static_cast< T >( quat.w() ) );
 		const T x = quat.x() / divisor;
 		const T y = quat.y() / divisor;
 		const T z = quat.z() / divisor;
@@ -217,40 +220,14 @@ struct RotationCast< Math::Vector< T, 4 > >
 	}
 	
 	
-	// commented out since it does not work as is: see tests please
 	template< typename ValType, std::size_t M, std::size_t N >
 	return_type operator()( const Matrix< ValType, M, N > & matrix ) const
 	{
 		UBITRACK_STATIC_ASSERT( ( ( M == 3 || M == 4 ) && ( N == 3 || N == 4 ) ), NO_MATCHING_MATRIX_REPRESENTATION_FOR_ROTATION );
 		
-		//easy way here
-		// const Math::Quaternion quat = RotationCast< Math::Quaternion >()( matrix );
-		// return RotationCast< return_type >()( quat );
-		
-		/// @todo put in more checks, this transformation is not really reliable at the moment
-		const T angle = std::acos( ( matrix( 0, 0 ) + matrix( 1, 1 ) + matrix( 2, 2 ) - 1 ) / 2 );
-		if ( angle != angle || angle < 1e-10 )
-			return return_type( 0, 0, 0, 0 );
-		
-		//std::cout << "Angle " << angle ;
-		const T m2112 = matrix( 2, 1 ) - matrix( 1, 2 );
-		const T m0220 = matrix( 0, 2 ) - matrix( 2, 0 );
-		const T m1001 = matrix( 1, 0 ) - matrix( 0, 1 );
-		
-		const T divisor = sqrt( m2112*m2112 + m0220*m0220 + m1001*m1001 );
-		//std::cout << " Divisor " << divisor << "\n";
-		const T rx = m2112 / divisor;
-		const T ry = m0220 / divisor;
-		const T rz = m1001 / divisor;
-		return return_type( rx, ry, rz, angle );
-		
-		// alternative way:
-		// const T divisor = 2*std::sin( angle ) ;//sqrt( m2112*m2112 + m0220*m0220 + m1001*m1001 );
-		// //std::cout << " Divisor " << divisor << "\n";
-		// const T rx = m2112 / divisor;
-		// const T ry = m0220 / divisor;
-		// const T rz = m1001 / divisor;
-		// return return_type( rx, ry, rz, angle );
+		// the quaternion is reliable for all angles
+		const Math::Quaternion quat = RotationCast< Math::Quaternion >()( matrix );
+		return RotationCast< return_type >()( quat );
 	}
 };
 
-- 
2.43.0


From 54426e92de946fcd2468ae491a30381cbcd9e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 15/88] fix: inversion of a pose with error: the rotation error
 is inverted, too, so that the correlation with the translation has the right
 sign

---
 src/utMath/ErrorPose.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index d34f432..517fe04 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -114,21 +114,21 @@ void inversionJacobian( Matrix< double, 6, 6 >& j, const Pose& p )
 	j( 3, 0 ) = 0.;
 	j( 3, 1 ) = 0.;
 	j( 3, 2 ) = 0.;
-	j( 3, 3 ) = 1. + t5445 + t5446;
-	j( 3, 4 ) = 2. * t5364 * t5369 - 2. * t5362 * t5371;
-	j( 3, 5 ) = 2. * t5430;
+	j( 3, 3 ) =  - 1. - t5445 - t5446;
+	j( 3, 4 ) =  - 2. * t5364 * t5369 + 2. * t5362 * t5371;
+	j( 3, 5 ) =  - 2. * t5430;
 	j( 4, 0 ) = 0.;
 	j( 4, 1 ) = 0.;
 	j( 4, 2 ) = 0.;
-	j( 4, 3 ) = 2. * t5373;
-	j( 4, 4 ) = 1. + t5446 + t5453;
-	j( 4, 5 ) =  - 2. * t5362 * t5364 + 2. * t5369 * t5371;
+	j( 4, 3 ) =  - 2. * t5373;
+	j( 4, 4 ) =  - 1. - t5446 - t5453;
+	j( 4, 5 ) = 2. * t5362 * t5364 - 2. * t5369 * t5371;
 	j( 5, 0 ) = 0.;
 	j( 5, 1 ) = 0.;
 	j( 5, 2 ) = 0.;
-	j( 5, 3 ) =  - 2. * t5362 * t5369 + 2. * t5364 * t5371;
-	j( 5, 4 ) = 2. * t5410;
-	j( 5, 5 ) = 1. + t5445 + t5453;
+	j( 5, 3 ) = 2. * t5362 * t5369 - 2. * t5364 * t5371;
+	j( 5, 4 ) =  - 2. * t5410;
+	j( 5, 5 ) =  - 1. - t5445 - t5453;
 }
 
 
-- 
2.43.0


From 46486551f284cd79d562f520c35cfdc34b25aaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 16/88] fix: pose with error times vector with error: propagate
 the error of the vector, too

---
 src/utMath/ErrorPose.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 517fe04..c4d74a0 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -569,8 +569,6 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::Vector< doub
 	return ErrorVector< double, 3 >( static_cast< const Pose& >( a ) * b, newCovariance );
 }
 
-//TODO
-
 ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector< double, 3 >& b )
 {
 	
@@ -584,6 +582,12 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector<
 	noalias( tmp ) = ublas::prod( jacobian, a.covariance() );
 	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian ) );
 
+	// the rotated error of the vector itself
+	Matrix< double, 3, 3 > rotation( a.rotation() );
+	Matrix< double, 3, 3 > tmp2;
+	noalias( tmp2 ) = ublas::prod( rotation, b.covariance );
+	noalias( newCovariance ) += ublas::prod( tmp2, ublas::trans( rotation ) );
+
 	return ErrorVector< double, 3 >( static_cast< const Pose& >( a ) * b.value, newCovariance );
 }
 
-- 
2.43.0


From a5d0d86652500f896e94996a3b31d5ef2b005069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 17/88] fix: invertMultiply: use the jacobians of the inverted
 product

---
 src/utMath/ErrorPose.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index c4d74a0..7dae1db 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -599,7 +599,7 @@ ErrorPose invertMultiply( const ErrorPose& a, const ErrorPose& b )
 	Matrix< double, 6, 6 > jacobian2;
 	Matrix< double, 6, 6 > tmp;
 	Matrix< double, 6, 6 > newCovariance;
-	multiplicationJacobians( jacobian1, jacobian2, a, b );
+	invertMultiplyJacobians( jacobian2, jacobian1, b, a );
 	
 	// here we could save some time by regarding the zero and identity blocks of the jacobians...
 	noalias( tmp ) = ublas::prod( jacobian1, a.covariance() );
-- 
2.43.0


From 5f8a41d39bc3f613434f8bf214c7e090f5842b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:51 +0000
Subject: [PATCH 18/88] fix: additive covariance of a pose: the additive error
 of the quaternion is q * e, not ~q * e

---
 src/utMath/ErrorPose.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 7dae1db..98a2598 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -621,7 +621,7 @@ void ErrorPose::toAdditiveErrorVector( ErrorVector< double, 7 >& v )
 	// set the w variance to the sum of the x, y, and z rotation errors
 	v.covariance( 6, 6 ) = v.covariance( 3, 3 ) + v.covariance( 4, 4 ) + v.covariance( 5, 5 );
 
-	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( rotation() ), v, 3, 7, 3, 7 );
+	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( ~rotation() ), v, 3, 7, 3, 7 );
 }
 
 
@@ -629,7 +629,7 @@ ErrorPose ErrorPose::fromAdditiveErrorVector( const ErrorVector< double, 7 >& v
 {
 	Math::ErrorVector< double, 7 > p( v );
 	Quaternion q( Quaternion::fromVector( ublas::subrange( v.value, 3, 7 ) ) );
-	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( ~q ), p, 3, 7, 3, 7 );
+	Stochastic::transformRangeInternalWithCovariance< 7 >( ErrorConversion( q ), p, 3, 7, 3, 7 );
 	
 	return ErrorPose( Pose::fromVector( p.value ), ublas::subrange( p.covariance, 0, 6, 0, 6 ) );
 }
-- 
2.43.0


From b14f9bcc6f8844f72c9af5e69ddf0b4340fec3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:48 +0000
Subject: [PATCH 19/88] fix: invertMultiply: add the missing terms of the
 jacobian by the rotation error of the inverted pose

---
 src/utMath/ErrorPose.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 98a2598..30f115e 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -423,19 +423,19 @@ void invertMultiplyJacobians( Matrix< double, 6, 6 >& j1, Matrix< double, 6, 6 >
 	j2( 0, 1 ) =  - 2 * ( t788 * t795 + t791 * t797 );
 	j2( 0, 2 ) =  - 2 * t791 * t795 + 2 * t788 * t797;
 	j2( 0, 3 ) = 0.;
-	j2( 0, 4 ) = 4 * t791 * t795 * t807 + t797 * ( t809 + 4 * t795 * (  - t810 + t812 ) ) + t817 * (  - 4 * t818 + 4 * t820 ) + t788 * ( 4 * t791 * t825 + 4 * t788 * t828 );
-	j2( 0, 5 ) = 4 * t817 * t825 + 4 * t791 * ( t797 * t807 + t791 * t825 + t788 * t828 ) + t795 * ( t837 + t838 );
+	j2( 0, 4 ) = 4 * t791 * t795 * t807 + t797 * ( t809 + 4 * t795 * (  - t810 + t812 ) ) + t817 * (  - 4 * t818 + 4 * t820 ) + t788 * ( 4 * t791 * t825 + 4 * t788 * t828 ) + 2 * t865;
+	j2( 0, 5 ) = 4 * t817 * t825 + 4 * t791 * ( t797 * t807 + t791 * t825 + t788 * t828 ) + t795 * ( t837 + t838 ) - 2 * t825;
 	j2( 1, 0 ) =  - 2 * t788 * t795 + 2 * t791 * t797;
 	j2( 1, 1 ) = t851;
 	j2( 1, 2 ) =  - 2 * ( t788 * t791 + t795 * t797 );
-	j2( 1, 3 ) = t791 * t795 * t836 + t797 * ( t837 + t857 ) + 4 * t817 * t865 + t788 * ( t863 + t866 );
+	j2( 1, 3 ) = t791 * t795 * t836 + t797 * ( t837 + t857 ) + 4 * t817 * t865 + t788 * ( t863 + t866 ) - 2 * t865;
 	j2( 1, 4 ) = 0.;
-	j2( 1, 5 ) = t789 * t836 + t788 * ( t838 + t857 ) + t791 * ( 4 * t797 * t825 + t791 * t836 + 4 * t795 * t865 );
+	j2( 1, 5 ) = t789 * t836 + t788 * ( t838 + t857 ) + t791 * ( 4 * t797 * t825 + t791 * t836 + 4 * t795 * t865 ) + 2 * t807;
 	j2( 2, 0 ) =  - 2 * ( t791 * t795 + t788 * t797 );
 	j2( 2, 1 ) =  - 2 * t788 * t791 + 2 * t795 * t797;
 	j2( 2, 2 ) =  - 1 + t790 + t850;
-	j2( 2, 3 ) = t817 * t862 + t791 * ( t797 * t836 + t863 + t866 ) + t795 * ( t809 + t889 );
-	j2( 2, 4 ) = 4 * t789 * t807 + t791 * ( 4 * t791 * t807 + 4 * t795 * t828 + t797 * t862 ) + t788 * ( t795 * t862 + t889 );
+	j2( 2, 3 ) = t817 * t862 + t791 * ( t797 * t836 + t863 + t866 ) + t795 * ( t809 + t889 ) + 2 * t825;
+	j2( 2, 4 ) = 4 * t789 * t807 + t791 * ( 4 * t791 * t807 + 4 * t795 * t828 + t797 * t862 ) + t788 * ( t795 * t862 + t889 ) - 2 * t807;
 	j2( 2, 5 ) = 0.;
 	j2( 3, 0 ) = 0.;
 	j2( 3, 1 ) = 0.;
-- 
2.43.0


From 9f10cc3ae6e4c9dd5cad804ae270c3c83fe3035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:50 +0000
Subject: [PATCH 20/88] fix: backward propagation with diagonal covariance:
 weight every row of the jacobian

---
 src/utMath/Stochastic/BackwardPropagation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/BackwardPropagation.h b/src/utMath/Stochastic/BackwardPropagation.h
index fbc25f0..37da224 100644
--- a/src/utMath/Stochastic/BackwardPropagation.h
+++ b/src/utMath/Stochastic/BackwardPropagation.h
@@ -235,7 +235,7 @@ void backwardPropagationDiagonal( MT1& result, const VT2& input, MT3& jacobian )
 	typedef typename Math::Matrix< VType, 0, 0 > MatType;
 
 	// multiply jacobian with E^(-1/2)
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	for ( unsigned i = 0; i < input.size(); i++ )
 		ublas::row( jacobian, i ) *= VType( 1 ) / sqrt( input( i ) );
 
 	// perform SVD on jacobian
-- 
2.43.0


From 75e01bc5e2d40b5098f54ae73245bf98deb6bcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:27 +0000
Subject: [PATCH 21/88] fix: backward propagation with full covariance: use the
 transposed eigenvectors and all eigenvalues

---
 src/utMath/Stochastic/BackwardPropagation.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/utMath/Stochastic/BackwardPropagation.h b/src/utMath/Stochastic/BackwardPropagation.h
index 37da224..ff3d5b9 100644
--- a/src/utMath/Stochastic/BackwardPropagation.h
+++ b/src/utMath/Stochastic/BackwardPropagation.h
@@ -70,9 +70,6 @@ namespace Ubitrack { namespace Math { namespace Stochastic {
 template< class MT1, class MT2, class F, class VT1 > 
 void backwardPropagation( MT1& result, const MT2& input, const F& function, const VT1& params )
 {
-	// !!!! FIXME: this function doesn't seeem to work.  !!!!!
-	// Use backwardPropagationIdentity, which gives different results
-	
 	namespace lapack = boost::numeric::bindings::lapack;
 	namespace blas = boost::numeric::bindings::blas;
 	namespace ublas = boost::numeric::ublas;
@@ -84,25 +81,25 @@ void backwardPropagation( MT1& result, const MT2& input, const F& function, cons
 	MatType jacobian( input.size1(), result.size1() );
 	function.jacobian( params, jacobian );
 	
-	// factorize E into Q^T * T * Q
+	// factorize E into Q * T * Q^T (eigenvalues in ascending order)
 	MatType Q( input );
 	Math::Vector< VType > t( input.size1() );
 	lapack::syev( 'V', 'U', Q, t, lapack::minimal_workspace() );
 	
-	// compute Q * J
+	// compute Q^T * J
 	MatType QJ( jacobian.size1(), jacobian.size2() );
-	blas::gemm( Q, jacobian, QJ );
+	noalias( QJ ) = ublas::prod( ublas::trans( Q ), jacobian );
 
     // compute T^(-1/2)	
-	VType precision( t( 0 ) * VType( 1e-8 ) );
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	VType precision( t( t.size() - 1 ) * VType( 1e-8 ) );
+	for ( unsigned i = 0; i < t.size(); i++ )
 		if ( t( i ) < precision )
 			t( i ) = 0;
 		else
 			t( i ) = 1 / sqrt( t( i ) );
 
-	// compute J' = T^(-1/2) * Q * J
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	// compute J' = T^(-1/2) * Q^T * J
+	for ( unsigned i = 0; i < t.size(); i++ )
 		ublas::row( QJ, i ) *= t( i );
 
 	// perform SVD on QJ
-- 
2.43.0


From 2ac28444478d488c62b9e38690a51dc21a3309d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:29 +0000
Subject: [PATCH 22/88] fix: motion model: no process noise unless it is set,
 instead of uninitialised values

---
 src/utTracking/LinearPoseMotionModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/LinearPoseMotionModel.h b/src/utTracking/LinearPoseMotionModel.h
index 43536fd..75d8059 100644
--- a/src/utTracking/LinearPoseMotionModel.h
+++ b/src/utTracking/LinearPoseMotionModel.h
@@ -51,7 +51,7 @@ public:
 	LinearPoseMotionModel( int posOrder, int oriOrder )
 		: m_posOrder( posOrder )
 		, m_oriOrder( oriOrder )
-		, m_processNoise( 3 + 3 * m_posOrder + ( m_oriOrder >= 0 ? 4 + 3 * m_oriOrder : 0 ) )
+		, m_processNoise( Math::Vector< double >::zeros( 3 + 3 * m_posOrder + ( m_oriOrder >= 0 ? 4 + 3 * m_oriOrder : 0 ) ) )
 	{
 	}
 	
-- 
2.43.0


From 9b5f914d2f2f648c8d8bf8f873d28f17acaa6972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:30 +0000
Subject: [PATCH 23/88] fix: time update of a quaternion: the jacobian by the
 velocity is proportional to the time, not to its square

---
 src/utTracking/Function/QuaternionTimeUpdate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utTracking/Function/QuaternionTimeUpdate.h b/src/utTracking/Function/QuaternionTimeUpdate.h
index ddf6a1e..c051a12 100644
--- a/src/utTracking/Function/QuaternionTimeUpdate.h
+++ b/src/utTracking/Function/QuaternionTimeUpdate.h
@@ -75,7 +75,6 @@ public:
 		{
 			Math::RotationVelocity v( ublas::subrange( input, 4 + 3 * i, 4 + 3 * ( i + 1 ) ) );
 			r = r * v.integrate( t );
-			t *= m_deltaTime;
 			
 			jacobian( 0, 4 + i * 3 + 0 ) =  t * q.w() / 2;
 			jacobian( 0, 4 + i * 3 + 1 ) = -t * q.z() / 2;
@@ -92,6 +91,8 @@ public:
 			jacobian( 3, 4 + i * 3 + 0 ) = -t * q.x() / 2;
 			jacobian( 3, 4 + i * 3 + 1 ) = -t * q.y() / 2;
 			jacobian( 3, 4 + i * 3 + 2 ) = -t * q.z() / 2;
+
+			t *= m_deltaTime;
 		}
 		
 		r.toVector( result );
-- 
2.43.0


From b86ce6dce2388018e374c54817ec5ea0447b61ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:30 +0000
Subject: [PATCH 24/88] fix: rotation filter: predict for times before the last
 measurement, too

---
 src/utTracking/RotationOnlyKf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/RotationOnlyKf.cpp b/src/utTracking/RotationOnlyKf.cpp
index b0af0fa..3419d25 100644
--- a/src/utTracking/RotationOnlyKf.cpp
+++ b/src/utTracking/RotationOnlyKf.cpp
@@ -126,7 +126,7 @@ void RotationOnlyKF::timeUpdate( Measurement::Timestamp t )
 Measurement::Rotation RotationOnlyKF::predict( Measurement::Timestamp t )
 {
 	// time update: forward filter to requested timestamp
-	double dt = ( t - m_time ) * 1e-9;
+	double dt = ( (long long int)( t - m_time ) ) * 1e-9;
 	Math::ErrorVector< double, 4 > result = Math::Stochastic::transformWithCovariance< 4, 7 >( Function::QuaternionTimeUpdate( dt ), m_state );
 	
 	return Measurement::Rotation( t, Math::Quaternion::fromVector( result.value ).normalize() );
-- 
2.43.0


From b81f9b7df7bbf191e8806e915e01c33d637f262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:09 +0000
Subject: [PATCH 25/88] fix: integration of a rotation velocity: use the sine
 unless the rotation is tiny

---
 src/utMath/Optimization/Function/RotationVelocityIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Function/RotationVelocityIntegration.h b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
index ea504aa..55a8e87 100644
--- a/src/utMath/Optimization/Function/RotationVelocityIntegration.h
+++ b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
@@ -72,7 +72,7 @@ struct RotationVelocityIntegration
 		typedef typename VT1::value_type T;
 		T fNorm = boost::numeric::ublas::norm_2( q );
 		T s;
-		if ( fabs( fNorm * m_dt ) > 1e12 )
+		if ( fabs( fNorm * m_dt ) > 1e-12 )
 			s = sin( fNorm * m_dt * T( 0.5 ) ) / fNorm;
 		else
 			s = m_dt * T( 0.5 );
-- 
2.43.0


From f5d33bd5a0a72c069d6b354cb69a0103db341108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:09 +0000
Subject: [PATCH 26/88] fix: integration of a rotation velocity: jacobian of
 the real part is quadratic in the time

---
 src/utMath/Optimization/Function/RotationVelocityIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Function/RotationVelocityIntegration.h b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
index 55a8e87..b1d19c8 100644
--- a/src/utMath/Optimization/Function/RotationVelocityIntegration.h
+++ b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
@@ -102,7 +102,7 @@ struct RotationVelocityIntegration
 	{
 		typedef typename MT1::value_type T;
 		boost::numeric::ublas::subrange( jac, 0, 3, 0, 3 ) = T( m_dt * 0.5 ) * boost::numeric::ublas::identity_matrix< T >( 3 );
-		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * -0.25 ) * v;
+		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * m_dt * -0.25 ) * v;
 	}
 
 	double m_dt;
-- 
2.43.0


From 45bf639edaf1f17ead6578374d5503be282a7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:23 +0000
Subject: [PATCH 27/88] fix: jacobian of the third coordinate in the optimised
 3D-3D pose estimation

---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index 2ac36fe..a7878d2 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -173,8 +173,8 @@ public:
 			J( i*3+1, 6 ) = t14;
 			J( i*3+2, 2 ) = 1;
 			J( i*3+2, 3 ) = t14;
-			J( i*3+2, 4 ) = -t8+t9+t15;
-			J( i*3+2, 5 ) = t4+t5-t6;
+			J( i*3+2, 4 ) = -t8-t9+t15;
+			J( i*3+2, 5 ) = t7;
 			J( i*3+2, 6 ) = t2+t3-t16;
 			
 			J( i*3+0, 1 ) = J( i*3+0, 2 ) = 0;
-- 
2.43.0


From aea8ffc639a870db2a5473cb3705e390554b6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:25 +0000
Subject: [PATCH 28/88] fix: optimised tool tip calibration divided by zero
 where the initial solution is exact

---
 src/utAlgorithm/ToolTip/Optimization.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utAlgorithm/ToolTip/Optimization.h b/src/utAlgorithm/ToolTip/Optimization.h
index 76c2609..a7f994a 100644
--- a/src/utAlgorithm/ToolTip/Optimization.h
+++ b/src/utAlgorithm/ToolTip/Optimization.h
@@ -179,10 +179,10 @@ public:
 			const VType t32 = t18*t18;
 			const VType t40 = t23*t23;
 			const VType t41 = t31+t32+t40;
-			const VType t42 = 1.0/sqrt(t41);
-			const VType t43 = (t14/fabs(t14));
-			const VType t44 = (t30/fabs(t30));
-			const VType t45 = (t39/fabs(t39));
+			const VType t42 = t41 > 0 ? 1.0/sqrt(t41) : 0.0; // a vanishing distance has no direction
+			const VType t43 = t14 < 0 ? -1.0 : 1.0;
+			const VType t44 = t30 < 0 ? -1.0 : 1.0;
+			const VType t45 = t39 < 0 ? -1.0 : 1.0;
 			J( i, 0 ) = static_cast< typename MT::value_type >( t17*t42*t43 );
 			J( i, 1 ) = static_cast< typename MT::value_type >( t18*t42*t44 );
 			J( i, 2 ) = static_cast< typename MT::value_type >( t23*t42*t45 );
-- 
2.43.0


From 73c62b0a4466d310c21a23f6bfa06ea343f1c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 29/88] fix: dual quaternion hand-eye calibration depended on
 the signs of the input quaternions

---
 src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
index 67b41b1..9b6082b 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
@@ -88,7 +88,10 @@ bool estimatePose6D_6D6D_impl( InputIterator itBeginEye, const InputIterator itE
 	for( std::size_t index = 0; index<n; ++index, ++itBeginEye, ++itBeginHand )
 	{
 		const dual_type a = *itBeginEye;
-		const dual_type b = *itBeginHand;
+		dual_type b = *itBeginHand;
+		// q and -q denote the same motion, but the equations need equal scalar parts
+		if( a[ 0 ]*b[ 0 ] < 0 )
+			b *= -1;
 
 		const value_type ax = a[ 1 ];
 		const value_type ay = a[ 2 ];
-- 
2.43.0


From 3189104505de6e66fd19d736ee1472142f70a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:47 +0000
Subject: [PATCH 30/88] fix: HandEyeCalibration kept the best matches of
 earlier estimations

---
 src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
index fea1a31..ef50203 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
@@ -159,6 +159,8 @@ protected:
 		const std::size_t n = m ? m : static_cast< std::size_t >( sqrt( nRel/2. ) );
 		
 		// std::cerr << "n " << n << "\n";
+		relativePosesBestMatchA.clear();
+		relativePosesBestMatchB.clear();
 		relativePosesBestMatchA.reserve( n );
 		relativePosesBestMatchB.reserve( n );
 		m_DataSelection.resetComparisonPoses( n, relativePosesAllA );
-- 
2.43.0


From 7c4e32d62122a73831c04a8e8698ce25ed007401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:01 +0000
Subject: [PATCH 31/88] fix: RotationHecKalmanFilter mixed up the signs of
 large rotations

---
 src/utAlgorithm/RotationHecKalmanFilter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/RotationHecKalmanFilter.cpp b/src/utAlgorithm/RotationHecKalmanFilter.cpp
index 522f211..be7ffdb 100644
--- a/src/utAlgorithm/RotationHecKalmanFilter.cpp
+++ b/src/utAlgorithm/RotationHecKalmanFilter.cpp
@@ -57,7 +57,9 @@ void RotationHecKalmanFilter::addMeasurement( const Math::Quaternion& a, const M
 	// TODO: for error propagation use RotHecCombine
 
 	// do the filter update
-	Function::RotHecMeasurement mf( a, b.negateIfCloser( a ) );
+	// ax = xb implies equal angles: make sure the signs of both w's are equal
+	const double sign = a.w() * b.w() < 0 ? -1 : 1;
+	Function::RotHecMeasurement mf( a, Math::Quaternion( sign * b.x(), sign * b.y(), sign * b.z(), sign * b.w() ) );
 	Math::Stochastic::kalmanMeasurementUpdate< 4, 4 >( m_state, mf, kalmanMeasurement, 0, m_state.value.size() );
 
 	// normalize the result to ensure quaternion properties
-- 
2.43.0


From 613814d309b40e657de99fa704ba303000fd886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:17 +0000
Subject: [PATCH 32/88] fix: Munkres never got the position of the uncovered
 zero it found

---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index 3f1310f..ccbf1e8 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -138,9 +138,9 @@ Munkres< T >::Munkres( Math::Matrix< T, 0, 0 > & matrix)
 
 template< typename T >
 bool Munkres< T >::find_uncovered_in_matrix(T item, std::size_t & row, std::size_t & col) {
-	for ( std::size_t row( 0 ) ; row < m_max ; ++row )
+	for ( row = 0 ; row < m_max ; ++row )
 		if ( !row_mask[row] )
-			for ( std::size_t col( 0 ) ; col < m_max ; ++col )
+			for ( col = 0 ; col < m_max ; ++col )
 				if ( !col_mask[col] )
 					if ( m_matrix( row, col ) == item )
 						return true;
-- 
2.43.0


From 4eea87f8495ba526ae38f73f9098467acb5153b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:18 +0000
Subject: [PATCH 33/88] fix: Munkres padded non-square matrices with a range of
 the wrong size

---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index ccbf1e8..28563c2 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -376,14 +376,14 @@ void Munkres< T >::setMatrix( Math::Matrix< T, 0, 0 > & matrix )
 	{
 		m_matrix.resize( matrix.size1(), matrix.size1() );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() - matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size1(), matrix.size1() - matrix.size2(), vMax );
 	}
 	else
 	{
 		m_matrix.resize( matrix.size2(), matrix.size2(), false );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2() - matrix.size1(), 0, matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2(), 0, matrix.size2() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size2() - matrix.size1(), matrix.size2(), vMax );
 	}
 
-- 
2.43.0


From 8e571422ed902ac774db01b1b42a022ea357d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:18 +0000
Subject: [PATCH 34/88] fix: Munkres leaked its row and column masks

---
 src/utMath/Graph/Munkres.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index 28563c2..4563f1e 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -113,8 +113,8 @@ private:
 	int step6();
 	boost::numeric::ublas::matrix< int > mask_matrix;
 	Math::Matrix< T, 0, 0 > m_matrix;
-	bool *row_mask;
-	bool *col_mask;
+	std::vector< bool > row_mask;
+	std::vector< bool > col_mask;
 	std::size_t saverow, savecol;
 	std::size_t m_max;
 };
@@ -416,13 +416,8 @@ void Munkres< T >::solve()
 	int step ( 1 );
 
 	// Z_STAR == 1 == starred, Z_PRIME == 2 == primed
-	row_mask = new bool[m_max];
-	col_mask = new bool[m_max];
-	for ( std::size_t i( 0 ) ; i < m_max ; ++i ) 
-	{
-		row_mask[i] = false;
-		col_mask[i] = false;
-	}
+	row_mask.assign( m_max, false );
+	col_mask.assign( m_max, false );
 
 	while ( notdone ) 
 	{
-- 
2.43.0


From ec69969c84978dbe3999b5b0ba609f843f88ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 35/88] fix: 4x4 transformation of 4-vectors used the wrong
 element in the last row

---
 src/utMath/Geometry/PointTransformation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/PointTransformation.h b/src/utMath/Geometry/PointTransformation.h
index b02dbf0..7b20288 100644
--- a/src/utMath/Geometry/PointTransformation.h
+++ b/src/utMath/Geometry/PointTransformation.h
@@ -178,7 +178,7 @@ public:
 		const T e1 = transMat( 0, 0 ) * vec( 0 ) + transMat( 0, 1 ) * vec( 1 ) + transMat( 0, 2 ) * vec( 2 ) + transMat( 0, 3 ) * vec( 3 );
 		const T e2 = transMat( 1, 0 ) * vec( 0 ) + transMat( 1, 1 ) * vec( 1 ) + transMat( 1, 2 ) * vec( 2 ) + transMat( 1, 3 ) * vec( 3 );
 		const T e3 = transMat( 2, 0 ) * vec( 0 ) + transMat( 2, 1 ) * vec( 1 ) + transMat( 2, 2 ) * vec( 2 ) + transMat( 2, 3 ) * vec( 3 );
-		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 3 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
+		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 2 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
 		return Math::Vector< T, 4 > ( e1, e2, e3, e4 );
 	}
 };
-- 
2.43.0


From 97792f45680b71226ee9b189c934a75b027f72de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:37 +0000
Subject: [PATCH 36/88] fix: decomposeProjection returned a translation in the
 scale of the projection matrix

---
 src/utAlgorithm/Projection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/Projection.cpp b/src/utAlgorithm/Projection.cpp
index 50cb7a5..b575877 100644
--- a/src/utAlgorithm/Projection.cpp
+++ b/src/utAlgorithm/Projection.cpp
@@ -199,8 +199,9 @@ template< typename T > void decomposeProjectionImpl( Math::Matrix< T, 3, 3 >& k,
 	T f = -1 / k( 2, 2 );
 	k *= f;
 
-	// compute translation vector: t = K^-1 p^4
+	// compute translation vector: t = K^-1 p^4, in the scale of the normalized k
 	Math::Matrix< T, 3, 1 > ttmp = ublas::subrange( P, 0, 3, 3, 4 );
+	ttmp *= f;
 	blas::trsm( 'L', 'U', 'N', 'N', 1.0f, k, ttmp );
 	t = ublas::column( ttmp, 0 );
 }
-- 
2.43.0


From 1640a5c16b5b6929cf7bf233ec2304453f515485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 37/88] fix: bundle adjustment let the camera quaternions drift
 from unit length

---
 src/utAlgorithm/BundleAdjustment.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/BundleAdjustment.cpp b/src/utAlgorithm/BundleAdjustment.cpp
index f137c7c..ad7ad7c 100644
--- a/src/utAlgorithm/BundleAdjustment.cpp
+++ b/src/utAlgorithm/BundleAdjustment.cpp
@@ -213,6 +213,29 @@ public:
 	}
 };
 
+/** @internal normalizes the quaternions of all cameras, the translations are scaled accordingly so that the images of the points do not change */
+struct NormalizeCameraPoses
+{
+	const std::size_t n_cams;
+	
+	NormalizeCameraPoses( const std::size_t cams )
+		: n_cams ( cams )
+	{}
+	
+	template< class VT1, class VT2 > 
+	void evaluate( VT1& result, const VT2& input ) const
+	{
+		namespace ublas = boost::numeric::ublas;
+		result = input;
+		for( std::size_t i( 0 ); i < n_cams * 7; i += 7 )
+		{
+			const typename VT1::value_type length = ublas::norm_2( ublas::subrange( input, i, i+4 ) );
+			ublas::subrange( result, i, i+4 ) /= length;
+			ublas::subrange( result, i+4, i+7 ) /= length * length;
+		}
+	}
+};
+
 /** 
  * @tparam ForwardIterator1 iterator to container including containers of 2D observations
  * @tparam ForwardIterator2 iterator to container including extrinsic camera pose
@@ -302,7 +325,7 @@ void simpleBundleAdjustmentImpl (
 	
 	OPT_LOG_DEBUG( "Optimizing pose over " << numberCameras << " cameras using " << observationCountTotal << " observations" );
 	MinimizeReprojectionErrorAllPoints< value_type > minimizeFunc( n_cams, n_pts3D );
-	value_type res = Math::Optimization::levenbergMarquardt( minimizeFunc, paramVector, observationVector, Math::Optimization::OptTerminate( 10, 1e-6 ), Math::Optimization::OptNoNormalize() );
+	value_type res = Math::Optimization::levenbergMarquardt( minimizeFunc, paramVector, observationVector, Math::Optimization::OptTerminate( 10, 1e-6 ), NormalizeCameraPoses( n_cams ) );
 	
 	// LOG4CPP_TRACE( logger, "optimized parameter vector:\n" << paramVector );
 	
-- 
2.43.0


From 88db2838c066706d1ef49ca65402cec242ac471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 38/88] fix: multi-camera pose estimation started from the
 wrong side of the camera pose

---
 src/utAlgorithm/MultipleCameraPoseOptimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
index bd57117..c624276 100644
--- a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
+++ b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
@@ -130,7 +130,7 @@ std::pair < Math::ErrorPose , double >
 		// Compute initial pose
 		if (!hasInitialPoseProvided) {
 			OPT_LOG_DEBUG(  "Compute initial pose with "<<p2dLocal.at(maxObsIndex).size() << " observations for camera " << maxObsIndex );
-			initialPose = camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
+			initialPose = ~camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
 				camMatrices.at( maxObsIndex ), PoseEstimation2D3D::PLANAR_HOMOGRAPHY ); // there are no scoped enums in C++98 (only in C++0x onwards)
 			OPT_LOG_DEBUG(  "Initial pose "<<initialPose );
 		}
-- 
2.43.0


From b401185e117e347bef72ee93f067fdd81ae920c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:10 +0000
Subject: [PATCH 39/88] fix: planar pose estimation ignored the offset of the
 plane z = const

---
 src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index de771dd..03b7d6e 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -421,7 +421,8 @@ Math::ErrorPose computePose(
 			OPT_LOG_TRACE( "Homography: " << H );
 
 			// compute initial pose from homography
-			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK );
+			// (the plane of the points is z = last_dim, not z = 0)
+			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK ) * Math::Pose( Math::Quaternion(), Math::Vector< double, 3 >( 0, 0, -last_dim ) );
 			
 			OPT_LOG_TRACE( "Pose from homography: " << pose )
 		}
-- 
2.43.0


From 0c67e40b806b92a69b0224624427955c786d9ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:42 +0000
Subject: [PATCH 40/88] fix: Levenberg-Marquardt kept steps with an undefined
 error

---
 src/utMath/Optimization/LevenbergMarquardt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/LevenbergMarquardt.h b/src/utMath/Optimization/LevenbergMarquardt.h
index 0acd021..625fc72 100644
--- a/src/utMath/Optimization/LevenbergMarquardt.h
+++ b/src/utMath/Optimization/LevenbergMarquardt.h
@@ -208,7 +208,7 @@ typename X::value_type weightedLevenbergMarquardt( P& problem, X& params, const
 		bTerminate = terminationCriteria( iteration, fErr, fErrPrev );
 
 		// update parameters
-		if ( fErr >= fErrPrev )
+		if ( fErr >= fErrPrev || fErr != fErr )
 			fLambda *= T( fStepFactor );
 		else
 		{
-- 
2.43.0


From 1c81c0eb4d7ec994f50d3f7f1f40b61b2b05dff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:30 +0000
Subject: [PATCH 41/88] fix: Gauss-Newton optimisation could not be compiled

---
 src/utMath/Optimization/GaussNewton.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utMath/Optimization/GaussNewton.h b/src/utMath/Optimization/GaussNewton.h
index 47c0720..57bccf8 100644
--- a/src/utMath/Optimization/GaussNewton.h
+++ b/src/utMath/Optimization/GaussNewton.h
@@ -72,14 +72,15 @@ void gaussNewton( P& problem, VT1& params, const VT2& measurement, unsigned nIte
 	namespace blas = boost::numeric::bindings::blas;
 	namespace ublas = boost::numeric::ublas;
 	typedef typename VT1::value_type T;
-	typedef typename Math::Matrix< T, 0, 0 > MatType;
+	typedef typename Math::Matrix< T >::base_type MatType;
+	typedef typename Math::Vector< T >::base_type VecType;
 
 	// create some matrices and vectors
 	MatType matJacobian( measurement.size(), params.size() );
 	MatType matJacobiSquare( params.size(), params.size() );
-	Math::Vector< T > measurementDiff( measurement.size() );
-	Math::Vector< T > paramDiff( params.size() );
-	Math::Vector< T > estimatedMeasurement( measurement.size() );
+	VecType measurementDiff( measurement.size() );
+	VecType paramDiff( params.size() );
+	VecType estimatedMeasurement( measurement.size() );
 
 	OPT_LOG_DEBUG( "Gauss-Newton entry params: " << params );
 
-- 
2.43.0


From ae74da86414c43a1227e1f4b4c44eb742e604daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:46 +0000
Subject: [PATCH 42/88] fix: RANSAC reported success although the final
 estimate had failed

---
 src/utMath/Optimization/Ransac.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Optimization/Ransac.h b/src/utMath/Optimization/Ransac.h
index 7c11954..0524f1e 100644
--- a/src/utMath/Optimization/Ransac.h
+++ b/src/utMath/Optimization/Ransac.h
@@ -231,7 +231,11 @@ std::size_t ransac( const InputIterator iBegin, const InputIterator iEnd
 		for ( ; it < itEnd; ++it )
 			list.push_back( *(*it) );
 
-		typename RansacFunctor::Estimator()( result, list.begin(), list.end() );
+		if( ! typename RansacFunctor::Estimator()( result, list.begin(), list.end() ) )
+		{
+			OPT_LOG_DEBUG( "RANSAC: no estimation possible from all inliers" );
+			return 0;
+		}
 		OPT_LOG_DEBUG( "Estimated " << nBestInliers << " inlier after " << iRun + 1 << " iterations."  );
 		return nBestInliers;
 	}
@@ -385,7 +389,11 @@ std::size_t ransac( const InputIterator1 iBegin1, const InputIterator1 iEnd1
 		}
 			
 
-		typename RansacFunctor::Estimator()( result, list1.begin(), list1.end(), list2.begin(), list2.end() );
+		if( ! typename RansacFunctor::Estimator()( result, list1.begin(), list1.end(), list2.begin(), list2.end() ) )
+		{
+			OPT_LOG_DEBUG( "RANSAC: no estimation possible from all inliers" );
+			return 0;
+		}
 		OPT_LOG_DEBUG( "Estimated " << nBestInliers << " inlier after " << iRun + 1 << " iterations."  );
 		return nBestInliers;
 	}
-- 
2.43.0


From be277e5e71df443380b522d1cae4d4167fd8511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:59 +0000
Subject: [PATCH 43/88] fix: distort/undistort of a point list make room for
 the result

---
 src/utAlgorithm/CameraLens/Distortion.h   | 2 ++
 src/utAlgorithm/CameraLens/Undistortion.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/utAlgorithm/CameraLens/Distortion.h b/src/utAlgorithm/CameraLens/Distortion.h
index 8e3448a..481a556 100644
--- a/src/utAlgorithm/CameraLens/Distortion.h
+++ b/src/utAlgorithm/CameraLens/Distortion.h
@@ -116,6 +116,7 @@ inline void distort( const Math::Vector< T, 6 >& radVec, const Math::Vector< T,
 	typename std::vector< Math::Vector< T, N > >::const_iterator itBegin = pointsIn.begin();
 	const typename std::vector< Math::Vector< T, N > >::const_iterator itEnd = pointsIn.end();
 	/// @todo check here if same vector is used as output or another -> could be std::back_inserter than
+	result.resize( pointsIn.size() );
 	typename std::vector< Math::Vector< T, N > >::iterator itOut = result.begin();
 	for( ; itBegin != itEnd; ++itBegin, ++itOut )
 		internal::distort_impl( radVec, tanVec, *itBegin, *itOut );
@@ -134,6 +135,7 @@ inline void distort_impl( const Math::CameraIntrinsics< T > camIntrin, const std
 	typename std::vector< Math::Vector< T, N > >::const_iterator itBegin = pointsIn.begin();
 	const typename std::vector< Math::Vector< T, N > >::const_iterator itEnd = pointsIn.end();
 	/// @todo check here if same vector is used as output or another -> could be std::back_inserter than
+	result.resize( pointsIn.size() );
 	typename std::vector< Math::Vector< T, N > >::iterator itOut = result.begin();
 	for( ; itBegin != itEnd; ++itBegin, ++itOut )
 		internal::distort_impl( camIntrin, *itBegin, *itOut );
diff --git a/src/utAlgorithm/CameraLens/Undistortion.h b/src/utAlgorithm/CameraLens/Undistortion.h
index f58f465..ce80b05 100644
--- a/src/utAlgorithm/CameraLens/Undistortion.h
+++ b/src/utAlgorithm/CameraLens/Undistortion.h
@@ -229,6 +229,7 @@ inline void undistort_impl( const Math::CameraIntrinsics< T > camIntrin, const s
 	typename std::vector< Math::Vector< T, N > >::const_iterator itBegin = pointsIn.begin();
 	const typename std::vector< Math::Vector< T, N > >::const_iterator itEnd = pointsIn.end();
 	/// @todo check here if same vector is used as output or another -> could be std::back_inserter than
+	result.resize( pointsIn.size() );
 	typename std::vector< Math::Vector< T, N > >::iterator itOut = result.begin();
 	for( ; itBegin != itEnd; ++itBegin, ++itOut )
 		undistort_impl( camIntrin, *itBegin, *itOut );
-- 
2.43.0


From ab02784728e7641eb49daec8ad5715324b8e6cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:59 +0000
Subject: [PATCH 44/88] fix: PointUndistortion can be built from camera
 intrinsics

---
 src/utAlgorithm/CameraLens/Undistortion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/CameraLens/Undistortion.h b/src/utAlgorithm/CameraLens/Undistortion.h
index ce80b05..a1e570c 100644
--- a/src/utAlgorithm/CameraLens/Undistortion.h
+++ b/src/utAlgorithm/CameraLens/Undistortion.h
@@ -68,7 +68,7 @@ public:
 	 
 	PointUndistortion( const Math::CameraIntrinsics< T >& cam )
 		: m_k( cam.radial_params )
-		, m_p( cam.tangential.radial_params )
+		, m_p( cam.tangential_params )
 	{}
 	
 	PointUndistortion( const Math::Vector< T, 6 >& radVec, const Math::Vector< T, 2 >& tanVec )
-- 
2.43.0


From a96f70e302f819c8556a97cab96e9c832885b567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:18 +0000
Subject: [PATCH 45/88] fix: diagonal opening angle of the lens was smaller
 than the horizontal or vertical one

---
 src/utMath/CameraIntrinsics.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index d2b4f2a..98c8729 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -258,9 +258,9 @@ public:
 		// angle ~= 2*arctan( d/(2*f)) -> rad -> degree: * (180/pi) 
 		static const T pi = std::acos( static_cast< T >( -1 ) ); //pi ~= acos(-1)
 		static const T factor = (360/pi);
-		const std::size_t squaredDiag  = ( dimension( 0 )*dimension( 0 )+dimension( 1 )*dimension( 1 ) );
-		const T squaredFocal = ( matrix( 0, 0 )*matrix( 0, 0 )+matrix( 1, 1 )*matrix( 1, 1 ) );
-		return factor * std::atan( std::sqrt( squaredDiag / (4*squaredFocal) ) );
+		const T tanH = dimension( 0 ) / ( 2* matrix( 0, 0 ) );
+		const T tanV = dimension( 1 ) / ( 2* matrix( 1, 1 ) );
+		return factor * std::atan( std::sqrt( tanH*tanH + tanV*tanV ) );
 	}
 	
 	/// corrects the Ubitrack intrinsics matrix to the corresponding left-handed (e.g. \c OpenCV ) camera matrix
-- 
2.43.0


From bccf40a5fa78e3dc274807d2b466ec3b80202466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:18 +0000
Subject: [PATCH 46/88] fix: projectWithDistortion mirrored the tangential
 distortion for cameras looking along -z

---
 src/utAlgorithm/LensDistortion.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/utAlgorithm/LensDistortion.cpp b/src/utAlgorithm/LensDistortion.cpp
index d4936e0..29feb7b 100644
--- a/src/utAlgorithm/LensDistortion.cpp
+++ b/src/utAlgorithm/LensDistortion.cpp
@@ -42,8 +42,9 @@ template< typename T >
 Math::Vector< T, 2 > projectWithDistortionImpl( const Math::Vector< T, 3 >& p, const Math::Vector< T, 4 >& dist,
 	const Math::Matrix< T, 3, 3 >& K )
 {
-	// dehomogenize point
-	Math::Vector< T, 2 > dehomogenized( p( 0 ) / p( 2 ), p( 1 ) / p( 2 ) );
+	// dehomogenize point (for K( 2, 2 ) < 0 the camera looks along the negative z-axis, as in lensDistort)
+	const T sign = K( 2, 2 ) < 0 ? -1 : 1;
+	Math::Vector< T, 2 > dehomogenized( sign * p( 0 ) / p( 2 ), sign * p( 1 ) / p( 2 ) );
 
 	// distort
 	Math::Vector< T, 2 > dp;
@@ -51,8 +52,8 @@ Math::Vector< T, 2 > projectWithDistortionImpl( const Math::Vector< T, 3 >& p, c
 
 	// back to image coordinates
 	return Math::Vector< T, 2 >( 
-		( dp( 0 ) * K( 0, 0 ) + dp( 1 ) * K( 0, 1 ) + K( 0, 2 ) ) / K( 2, 2 ), 
-		(                       dp( 1 ) * K( 1, 1 ) + K( 1, 2 ) ) / K( 2, 2 ) );
+		( sign * ( dp( 0 ) * K( 0, 0 ) + dp( 1 ) * K( 0, 1 ) ) + K( 0, 2 ) ) / K( 2, 2 ), 
+		( sign *                         dp( 1 ) * K( 1, 1 )   + K( 1, 2 ) ) / K( 2, 2 ) );
 }
 
 
-- 
2.43.0


From c5e78b7036e79aa57307408f5cabf9d25084a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:36 +0000
Subject: [PATCH 47/88] fix: reading camera intrinsics kept radial parameters
 and type of the previous calibration

---
 src/utMath/CameraIntrinsics.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 98c8729..ba856e2 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -281,6 +281,13 @@ protected:
 	template< class Archive >
 	void serialize( Archive& ar, const unsigned int version )
 	{
+		if( Archive::is_loading::value )
+		{
+			// nothing of a previous calibration survives
+			calib_type = UNKNOWN;
+			radial_params = radial_type::zeros();
+		}
+
 		for( std::size_t i = 0; i < 9; ++i )
 			ar & matrix( ( i / 3 ), ( i % 3 ) );
 		
-- 
2.43.0


From e0604409ee61946686b7be611d6e25a55e926144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:07 +0000
Subject: [PATCH 48/88] fix: pseudoInvert_matrix treats singular values at
 rounding level as zero

---
 src/utMath/MatrixOperations.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/utMath/MatrixOperations.h b/src/utMath/MatrixOperations.h
index 9a96b2b..676b105 100644
--- a/src/utMath/MatrixOperations.h
+++ b/src/utMath/MatrixOperations.h
@@ -39,6 +39,8 @@
 
 
 #include <utUtil/StaticAssert.h>
+#include <algorithm> // std::min, std::max
+#include <limits> // std::numeric_limits
 
 #ifdef HAVE_LAPACK
 #include <boost/numeric/bindings/lapack/gesv.hpp>
@@ -121,12 +123,14 @@ Math::Matrix< T, N, M > pseudoInvert_matrix( const Math::Matrix< T, M, N >& mat
 
 	boost::numeric::bindings::lapack::gesvd( 'S', 'S', a, s, U, Vt );
 
+	// singular values that are zero up to the precision of the decomposition have no inverse
+	const T tolerance = nSingularValues ? std::numeric_limits< T >::epsilon() * std::max( n, m ) * s( 0 ) : 0;
 	for( size_type i=0; i<nSingularValues; i++ )
 	{
-		if( s( i ) != 0 )
-		{
+		if( s( i ) > tolerance )
 			s( i ) = static_cast< T >( 1 ) / s( i );
-		}
+		else
+			s( i ) = 0;
 	}
 
 	if( n > m )
-- 
2.43.0


From e0657a9e327b9db785201e999ea9862fcc6b5509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:02 +0000
Subject: [PATCH 49/88] fix: k_means keeps a cluster without values where it is
 instead of turning it into NaN

---
 src/utMath/Stochastic/k_means.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/k_means.h b/src/utMath/Stochastic/k_means.h
index e08e87e..86d8fc5 100644
--- a/src/utMath/Stochastic/k_means.h
+++ b/src/utMath/Stochastic/k_means.h
@@ -317,8 +317,15 @@ typename std::iterator_traits< OutputIterator >::value_type::value_type k_means(
 		k_means_accumulate( iBegin, iEnd, indices.begin(), assign_to_mean< mean_type_iterator >( means_temp.begin() ) );
 		
 		// reset the amount of gathered values for the means, could be done nicer...
+		// (a cluster without any values stays where it is)
 		for( std::size_t k = 0; k<n_cluster; ++k )
-			means_temp[ k ] /= std::count ( indices.begin(), indices.end(), k );
+		{
+			const std::size_t count = std::count ( indices.begin(), indices.end(), k );
+			if( count > 0 )
+				means_temp[ k ] /= count;
+			else
+				means_temp[ k ] = *( itMeanBegin + k );
+		}
 		
 		// calculate the summarized difference
 		std::vector< value_type > norms1;
-- 
2.43.0


From 9bf499073f474970ac675ffcf4beac4ea6f41209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:02 +0000
Subject: [PATCH 50/88] fix: normalisation constant of the Gaussian density in
 expectation maximisation

---
 src/utMath/Stochastic/expectation_maximization.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/expectation_maximization.h b/src/utMath/Stochastic/expectation_maximization.h
index 02a9245..33a02eb 100644
--- a/src/utMath/Stochastic/expectation_maximization.h
+++ b/src/utMath/Stochastic/expectation_maximization.h
@@ -77,7 +77,7 @@ struct Probability
 			{
 				// UBITRACK_THROW( "Cannot calculate covariance inverse, determinant is NaN or zero." );
 			
-				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159 ), size * static_cast< value_type >( 0.5 ) ) * std::fabs ( det ) );
+				const value_type tmpconstant = 1 / std::sqrt( std::pow( static_cast< value_type >( 2.0 * 3.14159265358979323846 ), static_cast< value_type >( size ) ) * std::fabs ( det ) );
 				constant = tmpconstant;
 				// if( constant != constant ) //trick to check if the value is valid
 					// UBITRACK_THROW( "Cannot reliable determine constant value of probability density function, it is NaN." );
-- 
2.43.0


From 3e5d9f1b44e10eafcedd5041a6adcec9ec4c1b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:02 +0000
Subject: [PATCH 51/88] fix: estimate_gaussian prints nothing,
 estimate_gaussian_index refuses an empty selection

---
 src/utMath/Stochastic/Gaussian.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Stochastic/Gaussian.h b/src/utMath/Stochastic/Gaussian.h
index bce388e..5f4ac6e 100644
--- a/src/utMath/Stochastic/Gaussian.h
+++ b/src/utMath/Stochastic/Gaussian.h
@@ -118,7 +118,6 @@ bool estimate_gaussian( const InputIterator itBegin, const InputIterator itEnd,
 	{ // calculate mean value
 		for( InputIterator it ( itBegin ); it != itEnd; ++it, ++n )
 		{
-			std::cout << n << "\n";
 			for( std::size_t i( 0 ); i < N; ++i )
 				gaussian.mean[ i ] += (*it)[ i ];
 		}
@@ -140,8 +139,6 @@ bool estimate_gaussian( const InputIterator itBegin, const InputIterator itEnd,
 			gaussian.covariance[ i ] /= n;
 	}
 	
-	std::cout <<"Finished With Variance" << std::endl;
-	
 	{ //sum up the squared diagonal entries
 		for( std::size_t i( 0 ); i < N; ++i )	
 			gaussian.variance += ( gaussian.covariance[i*N+i] );
@@ -193,6 +190,9 @@ bool estimate_gaussian_index( const InputIterator1 itBegin, const InputIterator1
 				for( std::size_t i( 0 ); i < N; ++i )
 					gaussian.mean[ i ] += (*it)[ i ];
 			}
+		if( count < 1 )
+			return false;
+			
 		for( std::size_t i( 0 ); i < N; ++i )
 			gaussian.mean[ i ] /= count;
 	}
-- 
2.43.0


From 3723418fc8ad96aaedc79df9a899e31072558beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:02 +0000
Subject: [PATCH 52/88] fix: Average of error poses expands the covariance
 around the mean, not its inverse

---
 src/utMath/Stochastic/Average.h | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/utMath/Stochastic/Average.h b/src/utMath/Stochastic/Average.h
index 8c94588..9dc7cc6 100644
--- a/src/utMath/Stochastic/Average.h
+++ b/src/utMath/Stochastic/Average.h
@@ -303,16 +303,9 @@ public:
 		super::mean_type meanVec;
 		Util::castToVector( meanPose, meanVec );
 		
-		super::mean_type invMeanVec;
-		Util::castToVector( (~meanPose), invMeanVec );
-		
-		
 		const varianz_type covarianz = ( m_covariance / m_counter );
-		Math::ErrorVector< precision_type, 7 > ev( invMeanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
-		const Math::ErrorPose invEp = Math::ErrorPose::fromAdditiveErrorVector( ev );
-		// We created the error pose from the inverted mean value above, to obtain the transformed 6x6 covariance
-		// Now, we recreate the error pose with the computed mean value.	
-		return value_type( meanPose, invEp.covariance() );
+		Math::ErrorVector< precision_type, 7 > ev( meanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
+		return value_type( meanPose, Math::ErrorPose::fromAdditiveErrorVector( ev ).covariance() );
 	};
 	
 };
-- 
2.43.0


From 2968ea9a578327a5d25cca62614ce50107ea3f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:02 +0000
Subject: [PATCH 53/88] fix: averages of rotations align each quaternion with
 the sum, not with a positive real part

---
 src/utMath/Stochastic/Average.h | 47 ++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/utMath/Stochastic/Average.h b/src/utMath/Stochastic/Average.h
index 9dc7cc6..c9ff822 100644
--- a/src/utMath/Stochastic/Average.h
+++ b/src/utMath/Stochastic/Average.h
@@ -149,14 +149,37 @@ struct Average< ResultType, 1 >
 	}
 };
 
+namespace internal {
+
+/// @internal negates the quaternion in the last four elements of \c value (x, y, z, w), if it points away from the one of the
+/// \c sum of the values so far (both signs are the same rotation). The first one is chosen to have a positive real part.
+template< typename T, std::size_t N >
+void alignRotation( const Math::Vector< T, N >& sum, const std::size_t count, Math::Vector< T, N >& value )
+{
+	T direction = value[ N-1 ];
+	if( count > 0 )
+	{
+		direction = 0;
+		for( std::size_t i = N-4; i < N; ++i )
+			direction += sum[ i ] * value[ i ];
+	}
+
+	if( direction < 0 )
+		for( std::size_t i = N-4; i < N; ++i )
+			value[ i ] = -value[ i ];
+}
+
+} // namespace internal
+
 /// overloaded unary bracket operator for Quaternion measurements, that brings all rotation measurements in the same hemisphere
 template<>
 void Average< Math::Quaternion >::operator() ( const value_type& value )
 {
-	++m_counter;
 	mean_type tmp;
 	Util::castToVector( value, tmp );
-	m_mean += (( value.w() >= 0 ) ? tmp : tmp * (-1) );
+	internal::alignRotation( m_mean, m_counter, tmp );
+	++m_counter;
+	m_mean += tmp;
 };
 
 /// overloaded getAverage function for Quaternion measurements, when new struct is available this should not be necessary anymore.
@@ -171,18 +194,11 @@ Math::Quaternion Average< Math::Quaternion >::getAverage() const
 template<>
 void Average< Math::Pose >::operator() ( const value_type& value )
 {
-	++m_counter;
 	mean_type tmp;
 	Util::castToVector( value, tmp );
 	// The order is tx, ty, tz, qx, qy, qz, qw.
-	// check now for real part (==qw) being positive and correct if necessary:
-	if( tmp[ 6 ] < 0 )
-	{
-		tmp[ 3 ] *= (-1);
-		tmp[ 4 ] *= (-1);
-		tmp[ 5 ] *= (-1);
-		tmp[ 6 ] *= (-1);
-	}
+	internal::alignRotation( m_mean, m_counter, tmp );
+	++m_counter;
 	m_mean += tmp;
 };
 
@@ -256,14 +272,7 @@ public:
 		Util::castToVector( value, tmp );
 		
 		// The order is tx, ty, tz, qx, qy, qz, qw.
-		// check now for real part (==qw) being positive and correct if necessary:
-		if( tmp[ 6 ] < 0 )
-		{
-			tmp[ 3 ] *= (-1);
-			tmp[ 4 ] *= (-1);
-			tmp[ 5 ] *= (-1);
-			tmp[ 6 ] *= (-1);
-		}
+		internal::alignRotation( m_mean, m_counter, tmp );
 		++m_counter;
 		m_mean += tmp;
 		m_covariance += Math::outer_product( tmp, tmp );
-- 
2.43.0


From 682862c534456638377210d7e1b53300e0c63a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:20 +0000
Subject: [PATCH 54/88] fix: a malformed calibration file with a measurement is
 reported as the documented exception

---
 src/utUtil/CalibFile.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 5349785..138dc91 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -115,10 +115,9 @@ void readCalibFile( const std::string& sFile, Measurement::Measurement< T >& res
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
     try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
 	    // read data
 	    archive >> result;
     } catch (std::exception& ) {
@@ -146,10 +145,9 @@ void readCalibFileDropMeasurement( const std::string& sFile, T& result )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
 	try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
 	    // read data
 	    archive >> interResult;
     } catch (std::exception& ) {
-- 
2.43.0


From 6708bfbf708512c36d9289a59a468256e03b0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:39 +0000
Subject: [PATCH 55/88] fix: calibration files that cannot be written
 completely are reported

---
 src/utUtil/CalibFile.h | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 138dc91..b10aedb 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -171,11 +171,17 @@ void writeCalibFile( const std::string& sFile, const T& data )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for writing" );
 
-	// create iarchive
-	boost::archive::text_oarchive archive( stream );
+	try {
+		// create oarchive
+		boost::archive::text_oarchive archive( stream );
+		// write data
+		archive << data;
+	} catch (std::exception& ) {
+		UBITRACK_THROW( "Could not write file " + sFile );
+	}
 
-	// read data
-	archive << data;
+	if ( !stream.flush() )
+		UBITRACK_THROW( "Could not write file " + sFile );
 }
 
 /**
@@ -191,11 +197,18 @@ void writeBinaryCalibFile(const std::string& sFile, const T& data)
 	if (!stream.good())
 		UBITRACK_THROW("Could not open file " + sFile + " for writing");
 
-	// create iarchive
-	boost::archive::binary_oarchive archive(stream);
+	try {
+		// create oarchive
+		boost::archive::binary_oarchive archive(stream);
+		// write data
+		archive << data;
+	}
+	catch (std::exception&) {
+		UBITRACK_THROW("Could not write file " + sFile);
+	}
 
-	// read data
-	archive << data;
+	if (!stream.flush())
+		UBITRACK_THROW("Could not write file " + sFile);
 }
 } } // namespace Ubitrack::Util
 
-- 
2.43.0


From bb4091b5ac74738f847962d984449a30ffcea5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:52 +0000
Subject: [PATCH 56/88] fix: lists written to a SimpleStringOArchive can be
 read from a SimpleStringIArchive

---
 src/utUtil/SimpleStringOArchive.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utUtil/SimpleStringOArchive.h b/src/utUtil/SimpleStringOArchive.h
index 9fbf2ed..992b6f1 100644
--- a/src/utUtil/SimpleStringOArchive.h
+++ b/src/utUtil/SimpleStringOArchive.h
@@ -116,9 +116,9 @@ public:
 		{ pre(); stream() << v; post(); return *this; }
 	#endif
 	#if BOOST_VERSION >= 104400
-		/// write operator for item_version_type
-		SimpleStringOArchive& operator&( const boost::serialization::item_version_type& v )
-		{ pre(); stream() << v; post(); return *this; }
+		/// write operator for item_version_type (not written: archives with this library version have none)
+		SimpleStringOArchive& operator&( const boost::serialization::item_version_type& )
+		{ return *this; }
 	#endif
 
 	/// write operator for all other classes (calls serialize)
-- 
2.43.0


From 5ee39f7ab0408d09ee217b8bf2ab60e4c08fec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:50 +0000
Subject: [PATCH 57/88] fix: angle and semi-axes of circles, of ellipses along
 a diagonal and of negated conics

---
 src/utMath/Geometry/Conic.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index b5c4a96..539f776 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -266,9 +266,12 @@ public:
 		const T a = conic( 0 );
 		const T b = conic( 1 );
 		const T c = conic( 2 );
-		const T angle = std::atan( b  / ( a - c ) ) * static_cast< T > ( 0.5 ); 
-		// return 0.5 * std::atan( ( 2.0 * b ) / ( a - c ) ); 
-		return ( a <= c ? angle : ( static_cast< T > ( M_PI * static_cast< T > ( 0.5 ) ) ) + angle );
+		// a conic and its negative describe the same curve, use the one with positive coefficients
+		const T sign = static_cast< T > ( a + c < 0 ? -1 : 1 );
+		// atan2 has a value for a == c as well (0 for a circle)
+		const T angle = std::atan2( -sign * b, sign * ( c - a ) ) * static_cast< T > ( 0.5 ); 
+		// the interval of results is [ -pi/4, 3*pi/4 ]
+		return ( angle < static_cast< T > ( -0.25 * M_PI ) ) ? static_cast< T > ( M_PI ) + angle : angle;
 	}
 };
 
-- 
2.43.0


From c129de0f55c8488befdf7e039a901fcef1a10f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:50 +0000
Subject: [PATCH 58/88] fix: ConicCenter reports conics without a center
 instead of returning infinite coordinates

---
 src/utMath/Geometry/Conic.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index 539f776..1a2cdc8 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -398,9 +398,10 @@ public:
 		// const T f = conic( 5 );
 	
 		// (b^2)-ac
-		const T divisor = static_cast< T >( 1 ) / ( b*b - a*c );
-		if( divisor == 0 )
+		const T denominator = b*b - a*c;
+		if( denominator == 0 )
 			UBITRACK_THROW( "Could not calculate the center, divisor equals zero" );
+		const T divisor = static_cast< T >( 1 ) / denominator;
 		// c*d-b*e / divisor
 		const T x = ( c*d - b*e ) * divisor;
 		// a*e-b*d / divisor
-- 
2.43.0


From 860c55fa6d86fcf2a8434a97575bf6339bf1cdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:50 +0000
Subject: [PATCH 59/88] fix: eccentricity of rotated conics

---
 src/utMath/Geometry/Conic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index 1a2cdc8..2aded5c 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -442,7 +442,7 @@ public:
 	T operator() ( const Math::Vector< T, 6 > &conic ) const
 	{
 		const T a = conic( 0 );
-		const T b = conic( 1 ) * static_cast< T > ( 0.5 );
+		const T b = conic( 1 );
 		const T c = conic( 2 );
 		// const T d = conic( 3 ) * static_cast< T > ( 0.5 );
 		// const T e = conic( 4 ) * static_cast< T > ( 0.5 );
-- 
2.43.0


From fc14a90e11bef895fde57719b37dae52a0e1cdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:01 +0000
Subject: [PATCH 60/88] fix: VectorNorm.h closes all namespaces that it opens

---
 src/utMath/Optimization/NewFunction/VectorNorm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/NewFunction/VectorNorm.h b/src/utMath/Optimization/NewFunction/VectorNorm.h
index cc09cd5..3198b14 100644
--- a/src/utMath/Optimization/NewFunction/VectorNorm.h
+++ b/src/utMath/Optimization/NewFunction/VectorNorm.h
@@ -56,4 +56,4 @@ struct VectorNorm
 	}
 };
 
-} } } // namespace Ubitrack::Algorithm::Normalize
+} } } } // namespace Ubitrack::Math::Optimization::Function
-- 
2.43.0


From 777f4f739d23a54504101e45e0320a6eff535fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:01 +0000
Subject: [PATCH 61/88] fix: RotHecCombine::jacobian returns the derivative of
 ax-xb with respect to b

---
 src/utAlgorithm/Function/RotHecFunction.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/Function/RotHecFunction.h b/src/utAlgorithm/Function/RotHecFunction.h
index 8f7d6e7..49d5208 100644
--- a/src/utAlgorithm/Function/RotHecFunction.h
+++ b/src/utAlgorithm/Function/RotHecFunction.h
@@ -128,7 +128,25 @@ public:
 		jacobian1( 3, 2 ) = -m_x.z();
 		jacobian1( 3, 3 ) =  m_x.w();
 		
-		jacobian2 = -jacobian1;
+		jacobian2( 0, 0 ) = -m_x.w();
+		jacobian2( 0, 1 ) =  m_x.z();
+		jacobian2( 0, 2 ) = -m_x.y();
+		jacobian2( 0, 3 ) = -m_x.x();
+
+		jacobian2( 1, 0 ) = -m_x.z();
+		jacobian2( 1, 1 ) = -m_x.w();
+		jacobian2( 1, 2 ) =  m_x.x();
+		jacobian2( 1, 3 ) = -m_x.y();
+
+		jacobian2( 2, 0 ) =  m_x.y();
+		jacobian2( 2, 1 ) = -m_x.x();
+		jacobian2( 2, 2 ) = -m_x.w();
+		jacobian2( 2, 3 ) = -m_x.z();
+
+		jacobian2( 3, 0 ) =  m_x.x();
+		jacobian2( 3, 1 ) =  m_x.y();
+		jacobian2( 3, 2 ) =  m_x.z();
+		jacobian2( 3, 3 ) = -m_x.w();
 	}
 	
 protected:
-- 
2.43.0


From 5841fad87c455124f1af43f55dc707710721a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:50 +0000
Subject: [PATCH 62/88] fix: remote syslog appender sends to the whole resolved
 address

---
 3rd/log4cpp/src/RemoteSyslogAppender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/RemoteSyslogAppender.cpp b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
index fff7723..970d0fd 100644
--- a/3rd/log4cpp/src/RemoteSyslogAppender.cpp
+++ b/3rd/log4cpp/src/RemoteSyslogAppender.cpp
@@ -108,7 +108,7 @@ namespace log4cpp {
                     return; // fail silently                    
                 }
             }
-	    _ipAddr = *(pent->h_addr);
+	    std::memcpy (&_ipAddr, pent->h_addr, sizeof (_ipAddr));
 	}
 	// Get a datagram socket.
 	
-- 
2.43.0


From deb44c58e32bd2b1beca410f60cfca59abf16d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:50 +0000
Subject: [PATCH 63/88] fix: NDC pop of an empty stack returns the empty string

---
 3rd/log4cpp/src/NDC.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/3rd/log4cpp/src/NDC.cpp b/3rd/log4cpp/src/NDC.cpp
index 9d1a35c..6cffc1f 100644
--- a/3rd/log4cpp/src/NDC.cpp
+++ b/3rd/log4cpp/src/NDC.cpp
@@ -100,6 +100,9 @@ namespace log4cpp {
     }
 
     std::string NDC::_pop() {
+        if (_stack.empty())
+            return "";
+
         std::string result = _stack.back().message;
         _stack.pop_back();
         return result;
-- 
2.43.0


From db857de40775c58c63fe33a7734c90e07b8c4d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:50 +0000
Subject: [PATCH 64/88] fix: formatting long log messages does not reuse a
 consumed va_list

---
 3rd/log4cpp/src/StringUtil.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/StringUtil.cpp b/3rd/log4cpp/src/StringUtil.cpp
index e30890a..74967e0 100644
--- a/3rd/log4cpp/src/StringUtil.cpp
+++ b/3rd/log4cpp/src/StringUtil.cpp
@@ -39,7 +39,10 @@ namespace log4cpp {
 	char* buffer = new char[size];
             
 	while (1) {
-	    int n = VSNPRINTF(buffer, size, format, args);
+	    va_list copy;
+	    va_copy(copy, args);
+	    int n = VSNPRINTF(buffer, size, format, copy);
+	    va_end(copy);
                 
 	    // If that worked, return a string.
 	    if ((n > -1) && (static_cast<size_t>(n) < size)) {
-- 
2.43.0


From 1bcff8b88c4732f09cc2f9f1e226afe15f241647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:50 +0000
Subject: [PATCH 65/88] fix: log stream manipulators do not dereference a
 missing buffer

---
 3rd/log4cpp/src/CategoryStream.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/3rd/log4cpp/src/CategoryStream.cpp b/3rd/log4cpp/src/CategoryStream.cpp
index a01f9ab..9568846 100644
--- a/3rd/log4cpp/src/CategoryStream.cpp
+++ b/3rd/log4cpp/src/CategoryStream.cpp
@@ -48,19 +48,21 @@ namespace log4cpp {
                 }
             }
         }
-        return _buffer->width(wide); 
+        return _buffer ? _buffer->width(wide) : 0; 
     }
     CategoryStream& CategoryStream::operator<< (cspf pf) {
 		return (*pf)(*this);
     }
     CategoryStream& eol (CategoryStream& os) {
-        if  (os._buffer->good()) {
+        if  (os._buffer && os._buffer->good()) {
 			os.flush();
         }
         return os;
     }
     CategoryStream& left (CategoryStream& os) {
-        if  (os._buffer->good()) {
+        if (!os._buffer && os.getPriority() != Priority::NOTSET)
+            os._buffer = new std::ostringstream;
+        if  (os._buffer && os._buffer->good()) {
             os._buffer->setf(std::ios::left);
         }
         return os;
-- 
2.43.0


From 47c61bd190c6a6fc4d6a09875b2a456a990cafa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:50 +0000
Subject: [PATCH 66/88] fix: destroying a FixedContextCategory removes it from
 the children of its parent

---
 3rd/log4cpp/include/log4cpp/Category.hh  | 3 +++
 3rd/log4cpp/src/Category.cpp             | 6 ++++++
 3rd/log4cpp/src/FixedContextCategory.cpp | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/3rd/log4cpp/include/log4cpp/Category.hh b/3rd/log4cpp/include/log4cpp/Category.hh
index 1c60a00..58f4cf0 100644
--- a/3rd/log4cpp/include/log4cpp/Category.hh
+++ b/3rd/log4cpp/include/log4cpp/Category.hh
@@ -37,6 +37,7 @@ namespace log4cpp {
      **/   
     class LOG4CPP_EXPORT Category {
         friend class HierarchyMaintainer;
+        friend class FixedContextCategory;
 
         public:
         /**
@@ -678,6 +679,8 @@ namespace log4cpp {
 		 */
 		void _addChild(Category* child) throw();
 
+		void _removeChild(Category* child) throw();
+
 		/**
 		 * Propagate a change in the parent priority.
 		 */
diff --git a/3rd/log4cpp/src/Category.cpp b/3rd/log4cpp/src/Category.cpp
index bdf9d56..79d5fe9 100644
--- a/3rd/log4cpp/src/Category.cpp
+++ b/3rd/log4cpp/src/Category.cpp
@@ -17,6 +17,7 @@
 #include <log4cpp/HierarchyMaintainer.hh>
 #include <log4cpp/NDC.hh>
 #include "StringUtil.hh"
+#include <algorithm>
 
 namespace log4cpp {
 
@@ -245,6 +246,11 @@ namespace log4cpp {
         return _isAdditive; 
     }
 
+	void Category::_removeChild(Category* child) throw() {
+		threading::ScopedLock lock(_childrenListMutex);
+		_children.erase(std::remove(_children.begin(), _children.end(), child), _children.end());
+	}
+
 	void Category::_addChild(Category* child) throw() {
 		threading::ScopedLock lock(_childrenListMutex);
 		_children.push_back(child);
diff --git a/3rd/log4cpp/src/FixedContextCategory.cpp b/3rd/log4cpp/src/FixedContextCategory.cpp
index f447150..a936b71 100644
--- a/3rd/log4cpp/src/FixedContextCategory.cpp
+++ b/3rd/log4cpp/src/FixedContextCategory.cpp
@@ -20,6 +20,8 @@ namespace log4cpp {
     }
 
     FixedContextCategory::~FixedContextCategory() {
+        if (getParent() != NULL)
+            getParent()->_removeChild(this);
     }
 
     void FixedContextCategory::setContext(const std::string& context) {
-- 
2.43.0


From 0101dea152e88dc35dc3db7b1a588d1df5444be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:50 +0000
Subject: [PATCH 67/88] fix: Appender::reopenAll reopens all appenders even
 when one fails

---
 3rd/log4cpp/src/Appender.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/Appender.cpp b/3rd/log4cpp/src/Appender.cpp
index 3f488a3..4b82d53 100644
--- a/3rd/log4cpp/src/Appender.cpp
+++ b/3rd/log4cpp/src/Appender.cpp
@@ -45,7 +45,7 @@ namespace log4cpp {
         bool result = true;
         AppenderMap& allAppenders = _getAllAppenders();
         for(AppenderMap::iterator i = allAppenders.begin(); i != allAppenders.end(); i++) {
-            result = result && ((*i).second)->reopen();
+            result = ((*i).second)->reopen() && result;
         }
         
         return result;
-- 
2.43.0


From 7c9d4e5da88175c72e5cd5486225883bcc5c5664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:50 +0000
Subject: [PATCH 68/88] fix: Category::getAppender looks for the name among its
 own appenders only

---
 3rd/log4cpp/src/Category.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/3rd/log4cpp/src/Category.cpp b/3rd/log4cpp/src/Category.cpp
index 79d5fe9..d8f4dfe 100644
--- a/3rd/log4cpp/src/Category.cpp
+++ b/3rd/log4cpp/src/Category.cpp
@@ -136,14 +136,14 @@ namespace log4cpp {
     Appender* Category::getAppender(const std::string& name) const {
         threading::ScopedLock lock(_appenderSetMutex);
         {
-            AppenderSet::const_iterator i = _appender.begin();
-            if (_appender.end() != i) {
-                // found
-                return((*i)->getAppender(name));
-            }
-            else {
-                return(NULL);
+            for (AppenderSet::const_iterator i = _appender.begin();
+                 i != _appender.end(); i++) {
+                if ((*i)->getName() == name) {
+                    // found
+                    return(*i);
+                }
             }
+            return(NULL);
         }
     }
 
-- 
2.43.0


From 553db3b90795e2f8f7fc2c258024222590e26f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:50 +0000
Subject: [PATCH 69/88] fix: log configuration reports a root category without
 priority as ConfigureFailure

---
 3rd/log4cpp/src/PropertyConfiguratorImpl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
index 90d0815..dcd5d53 100644
--- a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
+++ b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
@@ -162,7 +162,12 @@ namespace log4cpp {
             }
         }
 
-        category.setPriority(priority);
+        try {
+            category.setPriority(priority);
+        } catch(std::invalid_argument& e) {
+            throw ConfigureFailure(std::string(e.what()) + 
+                " for category '" + categoryName + "'");
+        }
 
         bool additive = _properties.getBool("additivity." + categoryName, true);
         category.setAdditivity(additive);
-- 
2.43.0


From 8679a77c9ec13ec1970a943c6a8ab4602834fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:50 +0000
Subject: [PATCH 70/88] fix: log configuration accepts appenders whose name
 starts with that of another

---
 3rd/log4cpp/src/PropertyConfiguratorImpl.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
index dcd5d53..967bee9 100644
--- a/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
+++ b/3rd/log4cpp/src/PropertyConfiguratorImpl.cpp
@@ -90,8 +90,6 @@ namespace log4cpp {
     }
 
     void PropertyConfiguratorImpl::instantiateAllAppenders() throw(ConfigureFailure) {
-        std::string currentAppender;
-
         std::string prefix("appender");
         Properties::const_iterator from = _properties.lower_bound(prefix + '.');
         Properties::const_iterator to = _properties.lower_bound(prefix + '/');
@@ -113,14 +111,13 @@ namespace log4cpp {
                skipping of the Appenders properties only to get them 
                again in instantiateAppender.
             */
-            if (appenderName == currentAppender) {
+            if (_allAppenders.find(appenderName) != _allAppenders.end()) {
                 // simply skip properties for the current appender
             } else {
                 if (i2 == iEnd) {
                     // a new appender
-                    currentAppender = appenderName;
-                    _allAppenders[currentAppender] = 
-                        instantiateAppender(currentAppender);
+                    _allAppenders[appenderName] = 
+                        instantiateAppender(appenderName);
                 } else {
                     throw ConfigureFailure(std::string("partial appender definition : ") + key);
                 }
-- 
2.43.0


From 9f60dfdf36e5a17851ef251e98d76cf6b4fbbd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:50 +0000
Subject: [PATCH 71/88] fix: category name precision that is not positive
 prints the whole name

---
 3rd/log4cpp/src/PatternLayout.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/3rd/log4cpp/src/PatternLayout.cpp b/3rd/log4cpp/src/PatternLayout.cpp
index 8f5db7f..a6da15f 100644
--- a/3rd/log4cpp/src/PatternLayout.cpp
+++ b/3rd/log4cpp/src/PatternLayout.cpp
@@ -69,7 +69,8 @@ namespace log4cpp {
 #else
                 std::istrstream s(specifier.c_str());
 #endif
-                s >> _precision;
+                if (!(s >> _precision) || _precision <= 0)
+                    _precision = -1;
             }
         }
 
-- 
2.43.0


From 480211209325cad23ee6f85f53b2fa6fee56b50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:50 +0000
Subject: [PATCH 72/88] fix: log configuration reads lines of any length

---
 3rd/log4cpp/src/Properties.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/3rd/log4cpp/src/Properties.cpp b/3rd/log4cpp/src/Properties.cpp
index e27c2cb..94e3297 100644
--- a/3rd/log4cpp/src/Properties.cpp
+++ b/3rd/log4cpp/src/Properties.cpp
@@ -23,12 +23,9 @@ namespace log4cpp {
 
         std::string fullLine, command;
         std::string leftSide, rightSide;
-        char line[256];
         std::string::size_type length;
 
-        while (in.getline(line, 256)) {
-            fullLine = line;
-
+        while (std::getline(in, fullLine)) {
             /* if the line contains a # then it is a comment
                if we find it anywhere other than the beginning, then we assume 
                there is a command on that line, and it we don't find it at all
-- 
2.43.0


From 9df1a22242c1472b229f1f90c34e4e4828020bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 73/88] fix: tinyxml reads past the end of a document that ends
 within text, a comment or a character

---
 3rd/tinyxml/tinyxml.h         | 6 ++++--
 3rd/tinyxml/tinyxmlparser.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/3rd/tinyxml/tinyxml.h b/3rd/tinyxml/tinyxml.h
index c6f40cc..3707886 100644
--- a/3rd/tinyxml/tinyxml.h
+++ b/3rd/tinyxml/tinyxml.h
@@ -349,10 +349,12 @@ protected:
 		{
 			//strncpy( _value, p, *length );	// lots of compilers don't like this function (unsafe),
 												// and the null terminator isn't needed
-			for( int i=0; p[i] && i<*length; ++i ) {
+			int i = 0;
+			for( ; p[i] && i<*length; ++i ) {
 				_value[i] = p[i];
 			}
-			return p + (*length);
+			*length = i;	// the text may end within the character
+			return p + i;
 		}
 		else
 		{
diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 9c91b4f..5f861cd 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -631,7 +631,7 @@ const char* TiXmlBase::ReadText(	const char* p,
 			}
 		}
 	}
-	if ( p ) 
+	if ( p && *p )
 		p += strlen( endTag );
 	return p;
 }
@@ -1379,7 +1379,7 @@ const char* TiXmlComment::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		value.append( p, 1 );
 		++p;
 	}
-	if ( p ) 
+	if ( p && *p )
 		p += strlen( endTag );
 
 	return p;
@@ -1539,9 +1539,9 @@ const char* TiXmlText::Parse( const char* p, TiXmlParsingData* data, TiXmlEncodi
 
 		const char* end = "<";
 		p = ReadText( p, &value, ignoreWhite, end, false, encoding );
-		if ( p )
+		if ( p && *p )
 			return p-1;	// don't truncate the '<'
-		return 0;
+		return p;
 	}
 }
 
-- 
2.43.0


From b9f06153c74b2d552f7ea40a2ba2172bf599789c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 74/88] fix: tinyxml never returns from parsing a document that
 ends within a character

---
 3rd/tinyxml/tinyxmlparser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 5f861cd..528fdc9 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -274,6 +274,12 @@ void TiXmlParsingData::Stamp( const char* now, TiXmlEncoding encoding )
 						else
 							{ p +=3; ++col; }	// A normal character.
 					}
+					else
+					{
+						// the text ends within the character
+						++p;
+						++col;
+					}
 				}
 				else
 				{
-- 
2.43.0


From 7b93cc1f5f0d09195abba539989b3a1f800ed932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 75/88] fix: tinyxml drops the rest of a document after a
 repeated attribute without reporting an error

---
 3rd/tinyxml/tinyxmlparser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/tinyxml/tinyxmlparser.cpp b/3rd/tinyxml/tinyxmlparser.cpp
index 528fdc9..bcce63d 100644
--- a/3rd/tinyxml/tinyxmlparser.cpp
+++ b/3rd/tinyxml/tinyxmlparser.cpp
@@ -1168,7 +1168,7 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 			#endif
 			if ( node )
 			{
-				node->SetValue( attrib->Value() );
+				if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, pErr, data, encoding );
 				delete attrib;
 				return 0;
 			}
-- 
2.43.0


From 09b3d17908a9dfe7c03a3ba6e302e05ab125959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:19 +0000
Subject: [PATCH 76/88] fix: TiXmlDocument::SaveFile reports success although
 the device is full

---
 3rd/tinyxml/tinyxml.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/3rd/tinyxml/tinyxml.cpp b/3rd/tinyxml/tinyxml.cpp
index 5de21f6..0236636 100644
--- a/3rd/tinyxml/tinyxml.cpp
+++ b/3rd/tinyxml/tinyxml.cpp
@@ -1092,7 +1092,9 @@ bool TiXmlDocument::SaveFile( const char * filename ) const
 	if ( fp )
 	{
 		bool result = SaveFile( fp );
-		fclose( fp );
+		// what is still buffered is written only now
+		if ( fclose( fp ) != 0 )
+			result = false;
 		return result;
 	}
 	return false;
-- 
2.43.0


From 2075385ef1fc843e4fa92f7faddb39d57c189665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:38 +0000
Subject: [PATCH 77/88] fix: TiXmlDocument::LoadFile throws std::length_error
 for a directory instead of failing

---
 3rd/tinyxml/tinyxml.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/3rd/tinyxml/tinyxml.cpp b/3rd/tinyxml/tinyxml.cpp
index 0236636..695c1c1 100644
--- a/3rd/tinyxml/tinyxml.cpp
+++ b/3rd/tinyxml/tinyxml.cpp
@@ -982,6 +982,13 @@ bool TiXmlDocument::LoadFile( FILE* file, TiXmlEncoding encoding )
 	Clear();
 	location.Clear();
 
+	// What cannot be read (a directory) has no meaningful size.
+	if ( fgetc( file ) == EOF && ferror( file ) )
+	{
+		SetError( TIXML_ERROR_OPENING_FILE, 0, 0, TIXML_ENCODING_UNKNOWN );
+		return false;
+	}
+
 	// Get the file size, so we can pre-allocate the string. HUGE speed impact.
 	long length = 0;
 	fseek( file, 0, SEEK_END );
-- 
2.43.0


From 689638321e39849412bda7b72e9ae9e8a66e2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:38 +0000
Subject: [PATCH 78/88] fix: TiXmlNode::ReplaceChild accepts a document as a
 child

---
 3rd/tinyxml/tinyxml.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/3rd/tinyxml/tinyxml.cpp b/3rd/tinyxml/tinyxml.cpp
index 695c1c1..395e8c6 100644
--- a/3rd/tinyxml/tinyxml.cpp
+++ b/3rd/tinyxml/tinyxml.cpp
@@ -291,6 +291,12 @@ TiXmlNode* TiXmlNode::ReplaceChild( TiXmlNode* replaceThis, const TiXmlNode& wit
 {
 	if ( replaceThis->parent != this )
 		return 0;
+	if ( withThis.Type() == TiXmlNode::DOCUMENT )
+	{
+		// A document can never be a child.
+		if ( GetDocument() ) GetDocument()->SetError( TIXML_ERROR_DOCUMENT_TOP_ONLY, 0, 0, TIXML_ENCODING_UNKNOWN );
+		return 0;
+	}
 
 	TiXmlNode* node = withThis.Clone();
 	if ( !node )
-- 
2.43.0


From 99ce205092c356c87f894972c65dbfd64b361fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:51 +0000
Subject: [PATCH 79/88] fix: assigning a tinyxml element or document to itself
 empties it

---
 3rd/tinyxml/tinyxml.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/3rd/tinyxml/tinyxml.cpp b/3rd/tinyxml/tinyxml.cpp
index 395e8c6..3882350 100644
--- a/3rd/tinyxml/tinyxml.cpp
+++ b/3rd/tinyxml/tinyxml.cpp
@@ -535,6 +535,7 @@ TiXmlElement::TiXmlElement( const TiXmlElement& copy)
 
 void TiXmlElement::operator=( const TiXmlElement& base )
 {
+	if ( this == &base ) return;
 	ClearThis();
 	base.CopyTo( this );
 }
@@ -922,6 +923,7 @@ TiXmlDocument::TiXmlDocument( const TiXmlDocument& copy ) : TiXmlNode( TiXmlNode
 
 void TiXmlDocument::operator=( const TiXmlDocument& copy )
 {
+	if ( this == &copy ) return;
 	Clear();
 	copy.CopyTo( this );
 }
-- 
2.43.0


From e09bcc84b641474d64694003c4e6df98b8479517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:04 +0000
Subject: [PATCH 80/88] fix: SerialPort::close leaves the port marked as open

---
 src/utUtil/SerialPort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 8f15fc1..323cd2e 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -332,6 +332,7 @@ void SerialPort::close()
 	}
 
 	::close( m_fileDescriptor );
+	m_portOpen = false;
 }
 
 unsigned long SerialPort::read( unsigned char* buffer, unsigned long size )
-- 
2.43.0


From e3a50428b1392ea88dc46a9c15a8a71fc7c137ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:04 +0000
Subject: [PATCH 81/88] fix: SerialPort::open leaks a file descriptor when it
 fails

---
 src/utUtil/SerialPort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 323cd2e..6d5df40 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -296,7 +296,10 @@ void SerialPort::open( int vtime, int vmin )
 		UBITRACK_THROW( "Cannot open special file" );
 
 	if ( tcgetattr( m_fileDescriptor, &m_termiosCurrent ) )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot get port parameter" );
+	}
 
 	m_termiosOriginal = m_termiosCurrent;
 
@@ -314,7 +317,10 @@ void SerialPort::open( int vtime, int vmin )
 	cfsetispeed( &m_termiosCurrent, baud );
 
 	if ( tcsetattr( m_fileDescriptor, TCSANOW, &m_termiosCurrent ) < 0 )
+	{
+		::close( m_fileDescriptor );
 		UBITRACK_THROW( "Cannot set port parameter" );
+	}
 
 	m_portOpen = true;
 }
-- 
2.43.0


From 698189221560fb9e5a1c2057da8e4d3b8c23a61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:04 +0000
Subject: [PATCH 82/88] fix: SerialPort ignores the number of bits and the
 parity

---
 src/utUtil/SerialPort.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 6d5df40..57d59a4 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -303,13 +303,15 @@ void SerialPort::open( int vtime, int vmin )
 
 	m_termiosOriginal = m_termiosCurrent;
 
-	m_termiosCurrent.c_cflag = baud | size | parity | stop | CLOCAL | CREAD;
 	m_termiosCurrent.c_oflag = 0;
 	m_termiosCurrent.c_iflag = IGNBRK | IGNPAR;
 	m_termiosCurrent.c_lflag = 0;
 
 	cfmakeraw( &m_termiosCurrent );
 
+	// after cfmakeraw, which sets 8 bits without parity
+	m_termiosCurrent.c_cflag = baud | size | parity | stop | CLOCAL | CREAD;
+
 	m_termiosCurrent.c_cc[VTIME] = vtime;
 	m_termiosCurrent.c_cc[VMIN]  = vmin;
 
-- 
2.43.0


From de6db9c5c35285dbd5badd966ece510746a050c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:04 +0000
Subject: [PATCH 83/88] fix: SerialPort::send returns a huge number of bytes
 when writing fails

---
 src/utUtil/SerialPort.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 57d59a4..8b5e777 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -367,6 +367,9 @@ unsigned long SerialPort::send( const unsigned char* buffer, unsigned long size
 
 	writtenBytes = write ( m_fileDescriptor, buffer, size );
 
+	if ( writtenBytes < 0 )
+		UBITRACK_THROW( "Error writing bytes" );
+
 	return writtenBytes;
 }
 
-- 
2.43.0


From bc274249995f8946778408f0ea5bf92f3d2b7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:04 +0000
Subject: [PATCH 84/88] fix: SerialPort::flush and sendBreak use a port that is
 not open

---
 src/utUtil/SerialPort.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 8b5e777..554ea4b 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -386,11 +386,17 @@ unsigned long SerialPort::bytesOnRead()
 
 void SerialPort::sendBreak()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
+
 	tcsendbreak( m_fileDescriptor, 0 );
 }
 
 void SerialPort::flush()
 {
+	if ( !m_portOpen )
+		UBITRACK_THROW( "Port is not open" );
+
 	tcflush( m_fileDescriptor, TCIOFLUSH );
 }
 
-- 
2.43.0


From 91a852e134279128b8f85fa575d2451ec067cdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:04 +0000
Subject: [PATCH 85/88] fix: Util::sleep returns at once when the nanoseconds
 amount to a second

---
 src/utUtil/OS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utUtil/OS.cpp b/src/utUtil/OS.cpp
index 95e3627..16e45ae 100644
--- a/src/utUtil/OS.cpp
+++ b/src/utUtil/OS.cpp
@@ -67,8 +67,9 @@ double getHighPerformanceFrequency()
 void sleep( unsigned ms, unsigned ns )
 {	
 	timespec t;
-	t.tv_sec = ms / 1000;
-	t.tv_nsec = ( ms % 1000 ) * 1000000 + ns;
+	const unsigned long long nsec = ( ms % 1000 ) * 1000000ull + ns;
+	t.tv_sec = ms / 1000 + nsec / 1000000000;
+	t.tv_nsec = nsec % 1000000000;
 	nanosleep( &t, NULL );
 }
 
-- 
2.43.0


From 4fee5cef920163789a0f68f234b278ee07c36444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:04 +0000
Subject: [PATCH 86/88] fix: an exception without a file name is not logged
 completely

---
 src/utUtil/Exception.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utUtil/Exception.cpp b/src/utUtil/Exception.cpp
index a14b8d7..e6932b0 100644
--- a/src/utUtil/Exception.cpp
+++ b/src/utUtil/Exception.cpp
@@ -44,7 +44,7 @@ Exception::Exception( const std::string& sMessage, unsigned nLine, const char* s
 	, m_nLine( nLine )
 	, m_sFile( sFile ? sFile : "" )
 {
-	LOG4CPP_DEBUG( logger, "Exception thrown in " << sFile << ":" << nLine << ", message: " << sMessage );
+	LOG4CPP_DEBUG( logger, "Exception thrown in " << m_sFile << ":" << nLine << ", message: " << sMessage );
 }
 
 /* bug fix/workaround for a problem with VS2005 which has problems when the exception class is
-- 
2.43.0


From 975688b91e54c7ebb100880418c8af054069ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:04 +0000
Subject: [PATCH 87/88] fix: BlockTimer logs an uninitialised line number

---
 src/utUtil/BlockTimer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utUtil/BlockTimer.h b/src/utUtil/BlockTimer.h
index 844eb6b..778b14c 100644
--- a/src/utUtil/BlockTimer.h
+++ b/src/utUtil/BlockTimer.h
@@ -111,6 +111,7 @@ public:
 	BlockTimer( const std::string& sName, const std::string& sLoggingCategory = std::string() )
 		: m_sName( sName )
 		, m_pLogger( sLoggingCategory.empty() ? 0 : &log4cpp::Category::getInstance( sLoggingCategory ) )
+		, m_nCodeLine( 0 )
 		, m_bInitialized( false )
 		, m_nRuns( 0 )
 		, m_nTicks( 0 )
@@ -125,6 +126,7 @@ public:
 	BlockTimer( const std::string& sName, log4cpp::Category& logger )
 		: m_sName( sName )
 		, m_pLogger( &logger )
+		, m_nCodeLine( 0 )
 		, m_bInitialized( false )
 		, m_nRuns( 0 )
 		, m_nTicks( 0 )
-- 
2.43.0


From d04b3cbd19002eca7e20d52c7b15ed0a03fd9e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:26 +0000
Subject: [PATCH 88/88] fix: SerialPort::bytesOnRead returns an arbitrary
 number when the device is gone

---
 src/utUtil/SerialPort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utUtil/SerialPort.cpp b/src/utUtil/SerialPort.cpp
index 554ea4b..be4f472 100644
--- a/src/utUtil/SerialPort.cpp
+++ b/src/utUtil/SerialPort.cpp
@@ -379,7 +379,8 @@ unsigned long SerialPort::bytesOnRead()
 		UBITRACK_THROW( "Port is not open" );
 
 	int onread;
-	ioctl( m_fileDescriptor, FIONREAD, (char*) &onread );
+	if ( ioctl( m_fileDescriptor, FIONREAD, (char*) &onread ) < 0 )
+		UBITRACK_THROW( "Cannot get number of bytes" );
 
 	return onread;
 }
-- 
2.43.0

