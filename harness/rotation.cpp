// Replays Rotation.tla behaviours: one rotation walking through its representations.
#include "vh.h"
#include <cmath>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/RotationVelocity.h>
#include <utMath/Util/RotationCast.h>
using namespace Ubitrack::Math;
typedef Vector< double, 3 > V3;
typedef Vector< double, 4 > V4;
typedef Matrix< double, 3, 3 > M3;
typedef Matrix< double, 4, 4 > M4;

static Quaternion inq( vh::In& in ) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); return Quaternion( x, y, z, w ); }
// the oracle's own idea of the matrix of a representation
struct Mat { double a[ 3 ][ 3 ]; };
static Mat ofQ( double x, double y, double z, double w )
{
	return Mat{ { { 1 - 2 * ( y * y + z * z ), 2 * ( x * y - w * z ), 2 * ( x * z + w * y ) },
		{ 2 * ( x * y + w * z ), 1 - 2 * ( x * x + z * z ), 2 * ( y * z - w * x ) },
		{ 2 * ( x * z - w * y ), 2 * ( y * z + w * x ), 1 - 2 * ( x * x + y * y ) } } };
}
static Mat ofAA( double x, double y, double z, double ang )
{
	double l = std::sqrt( x * x + y * y + z * z );
	if ( l == 0 ) return ofQ( 0, 0, 0, std::fabs( std::sin( ang / 2 ) ) < 1e-6 ? 1 : NAN );
	double s = std::sin( ang / 2 ) / l;
	return ofQ( s * x, s * y, s * z, std::cos( ang / 2 ) );
}
static Mat ofRv( double x, double y, double z ) { return ofAA( x, y, z, std::sqrt( x * x + y * y + z * z ) ); }
static Mat mul( const Mat& p, const Mat& q ) { Mat r; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) { r.a[ i ][ j ] = 0; for ( int k = 0; k < 3; ++k ) r.a[ i ][ j ] += p.a[ i ][ k ] * q.a[ k ][ j ]; } return r; }
static Mat about( int axis, double ang ) { return ofAA( axis == 0, axis == 1, axis == 2, ang ); }
static void out( vh::Out& o, const Mat& m ) { for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) o.d( m.a[ i ][ j ] ); }
template< class M > static Mat ofM( const M& m ) { Mat r; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r.a[ i ][ j ] = m( i, j ); return r; }
static void expect( bool b ) { if ( !b ) throw std::runtime_error( "inconsistent" ); }

template< class T > struct Holder
{
	typedef Vector< T, 3 > v3; typedef Vector< T, 4 > v4; typedef Matrix< T, 3, 3 > m3; typedef Matrix< T, 4, 4 > m4;
	std::string rep = "quat";
	Quaternion q; Matrix< double, 0, 0 > m0; m3 a3; m4 a4; v4 aa; v3 rv; v3 axis; T ang;
	Holder() : m0( 3, 3 ) {}
	void zero( m4& m ) { for ( int i = 0; i < 4; ++i ) for ( int j = 0; j < 4; ++j ) m( i, j ) = 7; }
	Mat mat() const
	{
		if ( rep == "quat" ) return ofQ( q.x(), q.y(), q.z(), q.w() );
		if ( rep == "mat0" ) return ofM( m0 );
		if ( rep == "mat3" ) return ofM( a3 );
		if ( rep == "mat4" ) return ofM( a4 );
		if ( rep == "aa4" ) return ofAA( aa( 0 ), aa( 1 ), aa( 2 ), aa( 3 ) );
		if ( rep == "rv" || rep == "log" ) return ofRv( rv( 0 ), rv( 1 ), rv( 2 ) );
		return ofAA( axis( 0 ), axis( 1 ), axis( 2 ), ang );
	}
	void convert( const std::string& t )
	{
		using Util::RotationCast;
		const std::string f = rep;
		if ( f == "quat" )
		{
			if ( t == "mat0" ) q.toMatrix( m0 );
			else if ( t == "mat3" ) a3 = RotationCast< m3 >()( q );
			else if ( t == "mat4" ) a4 = RotationCast< m4 >()( q );
			else if ( t == "aa4" ) aa = RotationCast< v4 >()( q );
			else if ( t == "rv" ) rv = RotationCast< v3 >()( q );
			else if ( t == "log" ) { V3 l = q.toLogarithm(); rv = v3( T( l( 0 ) ), T( l( 1 ) ), T( l( 2 ) ) ); }
			else if ( t == "axang" ) { q.toAxisAngle( axis, ang ); }
		}
		else if ( t == "quat" )
		{
			if ( f == "mat0" ) q = Quaternion( m0 );
			else if ( f == "mat3" ) q = RotationCast< Quaternion >()( a3 );
			else if ( f == "mat4" ) q = RotationCast< Quaternion >()( a4 );
			else if ( f == "aa4" ) q = RotationCast< Quaternion >()( aa );
			else if ( f == "rv" ) q = RotationCast< Quaternion >()( rv );
			else if ( f == "log" ) q = Quaternion::fromLogarithm( V3( rv( 0 ), rv( 1 ), rv( 2 ) ) );
			else if ( f == "axang" ) q = Quaternion( V3( axis( 0 ), axis( 1 ), axis( 2 ) ), ang );
		}
		else if ( f == "mat3" ) { if ( t == "aa4" ) aa = RotationCast< v4 >()( a3 ); else rv = RotationCast< v3 >()( a3 ); }
		else if ( f == "mat4" ) { if ( t == "aa4" ) aa = RotationCast< v4 >()( a4 ); else rv = RotationCast< v3 >()( a4 ); }
		else if ( f == "aa4" ) { if ( t == "mat3" ) a3 = RotationCast< m3 >()( aa ); else if ( t == "mat4" ) a4 = RotationCast< m4 >()( aa ); else rv = RotationCast< v3 >()( aa ); }
		else if ( f == "rv" || f == "log" ) { if ( t == "mat3" ) a3 = RotationCast< m3 >()( rv ); else if ( t == "mat4" ) a4 = RotationCast< m4 >()( rv ); else if ( t == "aa4" ) aa = RotationCast< v4 >()( rv ); }
		rep = t;
	}
	// a cast to the type it already has changes nothing
	void idem()
	{
		using Util::RotationCast;
		if ( rep == "quat" ) expect( RotationCast< Quaternion >()( q ) == q );
		if ( rep == "aa4" ) expect( RotationCast< v4 >()( aa ) == aa );
		if ( rep == "rv" ) expect( RotationCast< v3 >()( rv ) == rv );
		if ( rep == "mat3" ) expect( RotationCast< m3 >()( a3 ) == a3 );
	}
	template< class S > void from( const Holder< S >& o )
	{
		rep = o.rep; q = o.q; m0 = o.m0; ang = T( o.ang );
		for ( int i = 0; i < 3; ++i ) { rv( i ) = T( o.rv( i ) ); axis( i ) = T( o.axis( i ) ); for ( int j = 0; j < 3; ++j ) { a3( i, j ) = T( o.a3( i, j ) ); a4( i, j ) = T( o.a4( i, j ) ); } }
		for ( int i = 0; i < 4; ++i ) aa( i ) = T( o.aa( i ) );
	}
};

int main()
{
	std::cerr.setstate( std::ios::failbit );
	vh::Harness H;
	Holder< double > h;
	H.reset = [&]{ h = Holder< double >(); };
	H[ "set" ] = [&]( vh::In& in, vh::Out& o ) { h.rep = "quat"; h.q = inq( in ); out( o, h.mat() ); };
	H[ "convert" ] = [&]( vh::In& in, vh::Out& o ) { h.convert( in.s() ); h.idem(); out( o, h.mat() ); };
	H[ "float" ] = [&]( vh::In& in, vh::Out& o ) { Holder< float > f; f.from( h ); f.convert( in.s() ); out( o, f.mat() ); };
	H[ "euler" ] = [&]( vh::In& in, vh::Out& o ) {
		static const Quaternion::t_EulerSequence seqs[] = { Quaternion::EULER_SEQUENCE_XYZ, Quaternion::EULER_SEQUENCE_YZX, Quaternion::EULER_SEQUENCE_ZXY, Quaternion::EULER_SEQUENCE_ZYX, Quaternion::EULER_SEQUENCE_XZY, Quaternion::EULER_SEQUENCE_YXZ };
		static const int ax[][ 3 ] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 }, { 0, 2, 1 }, { 1, 0, 2 } };
		int s = in.i() - 1;
		V3 e = h.q.getEulerAngles( seqs[ s ] );
		Mat m = mul( about( ax[ s ][ 2 ], e( 2 ) ), mul( about( ax[ s ][ 1 ], e( 1 ) ), about( ax[ s ][ 0 ], e( 0 ) ) ) );
		expect( std::fabs( e( 1 ) ) <= 1.5708 );
		// the constructor from three angles composes y after z after x
		if ( s == 4 ) { Quaternion c( e( 1 ), e( 2 ), e( 0 ) ); Mat k = ofQ( c.x(), c.y(), c.z(), c.w() ); for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) expect( std::fabs( k.a[ i ][ j ] - m.a[ i ][ j ] ) < 1e-9 ); }
		out( o, m );
	};
	H[ "eulerzyx" ] = [&]( vh::In&, vh::Out& o ) { V3 e = h.q.getEulerAngles(); expect( std::fabs( e( 1 ) ) <= 1.5708 ); out( o, mul( about( 2, e( 2 ) ), mul( about( 1, e( 1 ) ), about( 0, e( 0 ) ) ) ) ); };
	H[ "angle" ] = [&]( vh::In&, vh::Out& o ) { double a = h.q.angle(); o.d( std::cos( a ) ).i( a >= 0 && a <= 3.1415926535897936 ); };
	H[ "axis" ] = [&]( vh::In& in, vh::Out& o ) {
		double x = in.d(), y = in.d(), z = in.d(); int k = in.i(), w = in.i(), m = in.i();
		double ang = 2 * std::atan2( k * std::sqrt( x * x + y * y + z * z ), double( w ) );
		h.rep = "quat"; h.q = Quaternion( V3( m * x, m * y, m * z ), ang );
		out( o, h.mat() );
	};
	H[ "mul" ] = [&]( vh::In& in, vh::Out& o ) { h.q = h.q * inq( in ); out( o, h.mat() ); };
	H[ "velocity" ] = [&]( vh::In& in, vh::Out& o ) {
		Quaternion b = inq( in ); double dt = in.d(); int k = in.i();
		RotationVelocity v( h.q, b, dt );
		o.q( Quaternion( h.q * v.integrate( k * dt ) ) ).d( std::cos( v.angularVelocity() * dt ) );
		V3 a = v.axis(); out( o, ofAA( a( 0 ), a( 1 ), a( 2 ), v.angularVelocity() * dt ) );
	};
	H[ "self" ] = [&]( vh::In&, vh::Out& o ) {
		Quaternion s = h.q * ~h.q;
		o.d( s.angle() );
		V3 axis; double ang; s.toAxisAngle( axis, ang ); out( o, ofAA( axis( 0 ), axis( 1 ), axis( 2 ), ang ) );
		V3 l = s.toLogarithm(); out( o, ofRv( l( 0 ), l( 1 ), l( 2 ) ) );
		V4 c = Util::RotationCast< V4 >()( s ); out( o, ofAA( c( 0 ), c( 1 ), c( 2 ), c( 3 ) ) );
	};
	return H.run();
}
