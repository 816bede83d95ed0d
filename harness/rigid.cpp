// Replays Rigid.tla behaviours: poses and quaternions.
#include "vh.h"
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/Pose.h>
using namespace Ubitrack::Math;
typedef Vector< double, 3 > V3;
namespace ublas = boost::numeric::ublas;

static Quaternion inq( vh::In& in ) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); return Quaternion( x, y, z, w ); }
static V3 inv3( vh::In& in ) { double x = in.d(), y = in.d(), z = in.d(); return V3( x, y, z ); }
static void out( vh::Out& o, const Pose& p ) { o.q( p.rotation() ).v( p.translation() ); }
static void expect( bool b ) { if ( !b ) throw std::runtime_error( "inconsistent" ); }
template< class A, class B > static bool close( const A& a, const B& b ) { for ( unsigned i = 0; i < a.size1(); ++i ) for ( unsigned j = 0; j < a.size2(); ++j ) if ( !( std::fabs( a( i, j ) - b( i, j ) ) < 1e-9 * ( 1 + std::fabs( b( i, j ) ) ) ) ) return false; return true; }

int main()
{
	std::cerr.setstate( std::ios::failbit );
	vh::Harness H;
	std::vector< Pose > r;
	H.reset = [&]{ r.assign( 8, Pose() ); };
	H[ "set" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(); Quaternion q = inq( in ); V3 t = inv3( in ); r[ i ] = Pose( q, t ); out( o, r[ i ] ); };
	H[ "mul" ] = [&]( vh::In& in, vh::Out& o ) {
		int i = in.i(), j = in.i(), k = in.i();
		Pose p = r[ j ] * r[ k ];
		// the matrices compose alike
		Matrix< double, 4, 4 > a( r[ j ] ), b( r[ k ] ), c( p );
		expect( close( Matrix< double, 4, 4 >( ublas::prod( a, b ) ), c ) );
		r[ i ] = p; out( o, r[ i ] );
	};
	H[ "inv" ] = [&]( vh::In& in, vh::Out& o ) {
		int i = in.i(), j = in.i();
		Quaternion q( r[ j ].rotation() ); q.invert();
		expect( q == ~r[ j ].rotation() );
		r[ i ] = ~r[ j ]; out( o, r[ i ] );
	};
	H[ "apply" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(); V3 v = inv3( in ); o.v( V3( r[ i ] * v ) ); };
	H[ "rot" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(); V3 v = inv3( in ); o.v( V3( r[ i ].rotation() * v ) ); };
	H[ "scale" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(); r[ i ].scalePose( in.d() ); out( o, r[ i ] ); };
	H[ "mat" ] = [&]( vh::In& in, vh::Out& o ) {
		const Pose& p = r[ in.i() ];
		Matrix< double, 4, 4 > m4( p ), n4( p.rotation(), p.translation() );
		Matrix< double, 3, 4 > m3( p ), n3( p.rotation(), p.translation() );
		Matrix< double, 3, 3 > m( p.rotation() ), n; p.rotation().toMatrix( n );
		for ( int j = 0; j < 4; ++j ) expect( m4( 3, j ) == ( j == 3 ) && n4( 3, j ) == ( j == 3 ) );
		expect( close( n3, m3 ) && close( m3, m4 ) && close( m3, n4 ) && close( m, m4 ) && close( n, m4 ) );
		// mirroring the z axis on both sides changes the handedness and is undone by itself
		Matrix< double, 4, 4 > l( m4 ); leftHandToRightHandMatrix( l );
		for ( int i = 0; i < 4; ++i ) for ( int j = 0; j < 4; ++j ) expect( l( i, j ) == ( i == 2 ) * -2 * m4( i, j ) * ( j != 2 ) + ( j == 2 ) * -2 * m4( i, j ) * ( i != 2 ) + m4( i, j ) );
		for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) o.d( m4( i, j ) );
		for ( int i = 0; i < 3; ++i ) o.d( m4( i, 3 ) );
	};
	H[ "matround" ] = [&]( vh::In& in, vh::Out& o ) {
		const Pose& p = r[ in.i() ];
		Matrix< double, 4, 4 > m4( p );
		Matrix< double, 0, 0 > m( m4 );
		out( o, Pose( m ) );
	};
	H[ "vec" ] = [&]( vh::In& in, vh::Out& o ) {
		const Pose& p = r[ in.i() ];
		Vector< double, 7 > v; p.toVector( v );
		Vector< double > w( 7 ); p.toVector( w );
		for ( int i = 0; i < 7; ++i ) { o.d( v( i ) ); expect( v( i ) == w( i ) ); }
		Vector< double, 4 > q; p.rotation().toVector( q );
		for ( int i = 0; i < 4; ++i ) expect( q( i ) == v( 3 + i ) );
		o.i( Pose::fromVector( v ) == p && Quaternion::fromVector( q ) == p.rotation() );
	};
	H[ "copy" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(), j = in.i(); r[ i ] = r[ j ]; out( o, r[ i ] ); };
	H[ "eqcopy" ] = [&]( vh::In& in, vh::Out& o ) { const Pose& p = r[ in.i() ]; Pose c( p ); o.i( p == c ).i( p != c ); };
	H[ "eq" ] = [&]( vh::In& in, vh::Out& o ) { const Pose &p = r[ in.i() ], &c = r[ in.i() ]; o.i( p == c ).i( p != c ); };
	H[ "eqnear" ] = [&]( vh::In& in, vh::Out& o ) {
		const Pose& p = r[ in.i() ]; int c = in.i();
		V3 t( p.translation() ); t( c - 1 ) += 0.125;
		Pose n( p.rotation(), t ); o.i( p == n ).i( p != n );
		Quaternion q = p.rotation() * Quaternion( V3( 1, 2, 3 ), 0.001 * c );
		Pose m( q, p.translation() ); expect( !( p == m ) && p != m );
	};
	H[ "normalize" ] = [&]( vh::In& in, vh::Out& o ) {
		Quaternion q = r[ in.i() ].rotation(); q *= double( in.i() );
		Quaternion& n = q.normalize(); expect( &n == &q ); o.q( q );
	};
	H[ "negate" ] = [&]( vh::In& in, vh::Out& o ) { Quaternion a = inq( in ), b = inq( in ); o.q( a.negateIfCloser( b ) ); };
	H[ "interp" ] = [&]( vh::In& in, vh::Out& o ) {
		int i = in.i(); Quaternion q = inq( in ); V3 t = inv3( in ); double x = in.d(); int n = in.i();
		Pose b( q, t ), c = linearInterpolate( r[ i ], b, x );
		Quaternion s = slerp( r[ i ].rotation(), q, x ), l = linearInterpolate( r[ i ].rotation(), q, x );
		expect( s == c.rotation() && s == l && std::fabs( abs( s ) - 1 ) < 1e-12 );
		V3 tt = linearInterpolate( r[ i ].translation(), t, x ); expect( tt == c.translation() );
		// lists are interpolated element by element
		std::vector< Pose > xs, ys;
		for ( int k = 0; k < n; ++k ) { xs.push_back( r[ ( i + k ) % 8 ] ); ys.push_back( k ? r[ ( i + k + 1 ) % 8 ] : b ); }
		std::vector< Pose > zs = linearInterpolate( xs, ys, x );
		expect( zs.size() == xs.size() );
		for ( int k = 0; k < n; ++k ) expect( zs[ k ] == linearInterpolate( xs[ k ], ys[ k ], x ) );
		out( o, c );
	};
	return H.run();
}
