// Replays ErrPose.tla behaviours: poses with covariance.
#include "vh.h"
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/Pose.h>
#include <utMath/ErrorVector.h>
#include <utMath/ErrorPose.h>
using namespace Ubitrack::Math;
typedef Vector< double, 3 > V3;
typedef Matrix< double, 6, 6 > M6;
typedef Matrix< double, 3, 3 > M3;

static Quaternion inq( vh::In& in ) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); return Quaternion( x, y, z, w ); }
static V3 inv3( vh::In& in ) { double x = in.d(), y = in.d(), z = in.d(); return V3( x, y, z ); }
static void out( vh::Out& o, const ErrorPose& p ) { o.q( p.rotation() ).v( p.translation() ).m( p.covariance() ); }

int main()
{
	std::cerr.setstate( std::ios::failbit );
	vh::Harness H;
	std::vector< ErrorPose > r;
	H.reset = [&]{ r.assign( 8, ErrorPose( Pose( Quaternion( 0, 0, 0, 1 ), V3( 0, 0, 0 ) ), M6( M6::zeros() ) ) ); };
	H[ "set" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(); Quaternion q = inq( in ); V3 t = inv3( in ); M6 c = in.mat< M6 >( 6, 6 ); r[ i ] = ErrorPose( q, t, c ); out( o, r[ i ] ); };
	H[ "inv" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(), j = in.i(); r[ i ] = ~r[ j ]; out( o, r[ i ] ); };
	H[ "mul" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(), j = in.i(), k = in.i(); r[ i ] = r[ j ] * r[ k ]; out( o, r[ i ] ); };
	H[ "mulp" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(), j = in.i(), k = in.i(); r[ i ] = r[ j ] * static_cast< const Pose& >( r[ k ] ); out( o, r[ i ] ); };
	H[ "pmul" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(), j = in.i(), k = in.i(); r[ i ] = static_cast< const Pose& >( r[ j ] ) * r[ k ]; out( o, r[ i ] ); };
	H[ "invmul" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(), j = in.i(), k = in.i(); r[ i ] = invertMultiply( r[ j ], r[ k ] ); out( o, r[ i ] ); };
	H[ "vec" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(); V3 v = inv3( in ); ErrorVector< double, 3 > e = r[ i ] * v; o.v( e.value ).m( e.covariance ).d( e.getRMS() ); };
	H[ "vece" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(); V3 v = inv3( in ); M3 c = in.mat< M3 >( 3, 3 ); ErrorVector< double, 3 > e = r[ i ] * ErrorVector< double, 3 >( v, c ); o.v( e.value ).m( e.covariance ); };
	H[ "blend" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(); V3 t = inv3( in ); M6 c = in.mat< M6 >( 6, 6 ); double k = in.d(); out( o, linearInterpolate( r[ i ], ErrorPose( r[ i ].rotation(), t, c ), k ) ); };
	H[ "toadd" ] = [&]( vh::In& in, vh::Out& o ) {
		int i = in.i(); Quaternion q = inq( in );
		// the same rotation, with the sign of the specification
		ErrorPose p( q, r[ i ].translation(), r[ i ].covariance() ); ErrorVector< double, 7 > v; p.toAdditiveErrorVector( v );
		for ( int k = 0; k < 3; ++k ) if ( v.value( k ) != p.translation()( k ) ) throw std::runtime_error( "value" );
		if ( v.value( 3 ) != q.x() || v.value( 4 ) != q.y() || v.value( 5 ) != q.z() || v.value( 6 ) != q.w() ) throw std::runtime_error( "value" );
		o.m( v.covariance );
	};
	H[ "fromadd" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(); ErrorVector< double, 7 > v; for ( int k = 0; k < 7; ++k ) v.value( k ) = in.d(); v.covariance = in.mat< Matrix< double, 7, 7 > >( 7, 7 ); r[ i ] = ErrorPose::fromAdditiveErrorVector( v ); out( o, r[ i ] ); };
	H[ "addround" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(); ErrorVector< double, 7 > v; r[ i ].toAdditiveErrorVector( v ); out( o, ErrorPose::fromAdditiveErrorVector( v ) ); };
	return H.run();
}
