// Replays Alg.tla behaviours: vectors, matrices and the kernels on them.
#include "vh.h"
#include <iterator>
#include <list>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/ErrorVector.h>
#include <utMath/Blas1.h>
#include <utMath/Blas2.h>
#include <utMath/Blas3.h>
#include <utMath/VectorFunctions.h>
#include <utMath/MatrixOperations.h>
#include <utMath/Functors/MatrixFunctors.h>
#include <utMath/Util/cast_assign.h>
using namespace Ubitrack;
using Math::Vector;
using Math::Matrix;

template< int N > struct Dim { enum { v = N }; };
template< class F > void dim( int n, F f )
{
	switch ( n ) { case 1: f( Dim< 1 >() ); break; case 2: f( Dim< 2 >() ); break; case 3: f( Dim< 3 >() ); break; case 4: f( Dim< 4 >() ); break;
		default: std::fprintf( stderr, "harness: size %d\n", n ); std::_Exit( 99 ); }
}
template< class F > void dim5( int n, F f ) { if ( n == 5 ) f( Dim< 5 >() ); else dim( n, f ); }

template< class T, int M > struct MRow { Matrix< T, M, 1 > m1[ 2 ]; Matrix< T, M, 2 > m2[ 2 ]; Matrix< T, M, 3 > m3[ 2 ]; Matrix< T, M, 4 > m4[ 2 ];
	Matrix< T, M, 1 >* at( Dim< 1 > ) { return m1; } Matrix< T, M, 2 >* at( Dim< 2 > ) { return m2; } Matrix< T, M, 3 >* at( Dim< 3 > ) { return m3; } Matrix< T, M, 4 >* at( Dim< 4 > ) { return m4; }
	void clear() { for ( int i = 0; i < 2; ++i ) { m1[ i ].clear(); m2[ i ].clear(); m3[ i ].clear(); m4[ i ].clear(); } } };
template< class T > struct Regs
{
	Vector< T, 1 > v1[ 2 ]; Vector< T, 2 > v2[ 2 ]; Vector< T, 3 > v3[ 2 ]; Vector< T, 4 > v4[ 2 ]; Vector< T, 5 > v5[ 2 ];
	MRow< T, 1 > r1; MRow< T, 2 > r2; MRow< T, 3 > r3; MRow< T, 4 > r4;
	Vector< T, 1 >* at( Dim< 1 > ) { return v1; } Vector< T, 2 >* at( Dim< 2 > ) { return v2; } Vector< T, 3 >* at( Dim< 3 > ) { return v3; } Vector< T, 4 >* at( Dim< 4 > ) { return v4; } Vector< T, 5 >* at( Dim< 5 > ) { return v5; }
	MRow< T, 1 >& row( Dim< 1 > ) { return r1; } MRow< T, 2 >& row( Dim< 2 > ) { return r2; } MRow< T, 3 >& row( Dim< 3 > ) { return r3; } MRow< T, 4 >& row( Dim< 4 > ) { return r4; }
	template< int N > Vector< T, N >& v( Dim< N > n, int s ) { return at( n )[ s - 1 ]; }
	template< int M, int N > Matrix< T, M, N >& m( Dim< M > m, Dim< N > n, int s ) { return row( m ).at( n )[ s - 1 ]; }
	void clear() { for ( int i = 0; i < 2; ++i ) { v1[ i ].clear(); v2[ i ].clear(); v3[ i ].clear(); v4[ i ].clear(); v5[ i ].clear(); } r1.clear(); r2.clear(); r3.clear(); r4.clear(); }
};
static Regs< double > RD;
static Regs< float > RF;
template< class T, int N > struct Args { template< class X > static Vector< T, N > make( const X& a ) { Vector< T, N > v; for ( int i = 0; i < N; ++i ) v( i ) = a[ i ]; return v; } };
template< class T > struct Args< T, 2 > { template< class X > static Vector< T, 2 > make( const X& a ) { return Vector< T, 2 >( a[ 0 ], a[ 1 ] ); } };
template< class T > struct Args< T, 3 > { template< class X > static Vector< T, 3 > make( const X& a ) { return Vector< T, 3 >( a[ 0 ], a[ 1 ], a[ 2 ] ); } };
template< class T > struct Args< T, 4 > { template< class X > static Vector< T, 4 > make( const X& a ) { return Vector< T, 4 >( a[ 0 ], a[ 1 ], a[ 2 ], a[ 3 ] ); } };
template< class T, int M > Matrix< T, M, M > ident( Dim< M >, Dim< M > ) { return Matrix< T, M, M >::identity(); }
template< class T, int M, int N > Matrix< T, M, N > ident( Dim< M >, Dim< N > ) { return Matrix< T, M, N >::zeros(); }
template< class T, int N > std::vector< T > arr( vh::In& in, int k = N ) { std::vector< T > r; for ( int i = 0; i < k; ++i ) r.push_back( T( in.d() ) ); return r; }
template< class V, class T > Vector< T > dyn( const V& v, T ) { Vector< T > r( v.size() ); for ( std::size_t i = 0; i < v.size(); ++i ) r( i ) = v( i ); return r; }
template< class X > std::string text( const X& x ) { std::ostringstream s; s << x; std::string r( s.str() ); for ( std::size_t i; ( i = r.find( " -0 " ) ) != std::string::npos; ) r.erase( i + 1, 1 ); return r; } // a zero is a zero

template< class T > bool op( const std::string& w, Regs< T >& r, vh::In& in, vh::Out& o )
{
	if ( w == "setv" ) dim5( in.i(), [&]( auto n ) { enum { N = decltype( n )::v }; int s = in.i(); std::string k = in.s(); std::vector< T > a = arr< T, N >( in ); Vector< T, N >& v = r.v( n, s );
		if ( k == "args" ) v = Args< T, N >::make( a ); else if ( k == "array" ) { Vector< T, N > t( &a[ 0 ] ); v = t; } else if ( k == "zeros" ) v = Vector< T, N >::zeros(); else for ( int i = 0; i < N; ++i ) v( i ) = a[ i ]; } );
	else if ( w == "setm" ) { int mm = in.i(); dim( in.i(), [&]( auto n ) { dim( mm, [&]( auto m ) { enum { M = decltype( m )::v, N = decltype( n )::v }; int s = in.i(); std::string k = in.s(); std::vector< T > a = arr< T, M * N >( in ); Matrix< T, M, N >& v = r.m( m, n, s );
		if ( k == "array" ) v = Matrix< T, M, N >( &a[ 0 ] ); else if ( k == "zeros" ) v = Matrix< T, M, N >::zeros(); else if ( k == "ident" ) v = ident< T >( m, n ); else for ( int i = 0; i < M * N; ++i ) v( i / N, i % N ) = a[ i ]; } ); } ); }
	else if ( w == "showv" ) dim5( in.i(), [&]( auto n ) { auto& v = r.v( n, in.i() ); o.i( v.size() ).v( v ); const T* c = v.content(); for ( std::size_t i = 0; i < v.size(); ++i ) o.d( c[ i ] ); } );
	else if ( w == "showm" ) { int mm = in.i(); dim( in.i(), [&]( auto n ) { dim( mm, [&]( auto m ) { auto& a = r.m( m, n, in.i() ); o.i( a.size1() ).i( a.size2() ).m( a ); const T* c = a.content(); for ( std::size_t i = 0; i < a.size(); ++i ) o.d( c[ i ] ); } ); } ); }
	else if ( w == "textv" ) dim5( in.i(), [&]( auto n ) { auto& v = r.v( n, in.i() ); o.s( in.i() ? text( dyn( v, T() ) ) : text( v ) ); } );
	else if ( w == "textl" ) dim5( in.i(), [&]( auto n ) { std::vector< Vector< T, decltype( n )::v > > l( 1, r.v( n, 1 ) ); l.push_back( r.v( n, 2 ) ); o.s( text( l ) ); } );
	else if ( w == "textm" ) { int mm = in.i(); dim( in.i(), [&]( auto n ) { dim( mm, [&]( auto m ) { auto& a = r.m( m, n, in.i() ); Matrix< T > d( a ); o.s( in.i() ? text( d ) : text( a ) ); } ); } ); }
	else if ( w == "mv" ) { int mm = in.i(); dim( in.i(), [&]( auto n ) { dim( mm, [&]( auto m ) { enum { M = decltype( m )::v, N = decltype( n )::v }; int s = in.i(), u = in.i(), t = in.i(), k = in.i();
		typedef Matrix< T, M, N > A; typedef Vector< T, N > B; typedef Vector< T, M > C; const A& a = r.m( m, n, s ); const B& b = r.v( n, u ); C& c = r.v( m, t );
		if ( k == 0 ) Math::product( a, b, c ); else if ( k == 1 ) c = Math::Product< A, B, C >()( a, b );
		else { std::vector< A > la( 2, a ); std::vector< B > lb( 2, b ); std::vector< C > lc; for ( int i = 0; i < N; ++i ) lb[ 0 ]( i ) = -5;
			if ( k == 2 ) Math::product( la.begin(), la.end(), lb.begin(), std::back_inserter( lc ) ); else { lc.assign( 2, c ); Math::product( la.begin(), la.end(), lb.begin(), lc.begin() ); } c = lc.at( 1 ); if ( lc.size() != 2 ) o.s( "list length" ); } } ); } ); }
	else if ( w == "mm" ) { int mm = in.i(), kk = in.i(); dim( in.i(), [&]( auto n ) { dim( kk, [&]( auto k ) { dim( mm, [&]( auto m ) { enum { M = decltype( m )::v, K = decltype( k )::v, N = decltype( n )::v }; int s = in.i(), u = in.i(), t = in.i(), x = in.i();
		typedef Matrix< T, M, K > A; typedef Matrix< T, K, N > B; typedef Matrix< T, M, N > C; const A& a = r.m( m, k, s ); const B& b = r.m( k, n, u ); C& c = r.m( m, n, t );
		typedef Math::Product< A, B, C > P;
		if ( x == 0 ) Math::product( a, b, c ); else if ( x == 1 ) c = P()( a, b );
		else { std::vector< A > la( 2, a ); std::vector< B > lb( 2, b ); std::vector< C > lc; la[ 0 ]( 0, 0 ) = -5;
			if ( x == 2 ) Math::product( la.begin(), la.end(), lb.begin(), std::back_inserter( lc ) ); else { lc.assign( 2, c ); Math::product( la.begin(), la.end(), lb.begin(), lc.begin() ); } c = lc.at( 1 ); if ( lc.size() != 2 ) o.s( "list length" ); } } ); } ); } ); }
	else if ( w == "outer" ) { int mm = in.i(); dim( in.i(), [&]( auto n ) { dim( mm, [&]( auto m ) { enum { M = decltype( m )::v, N = decltype( n )::v }; int s = in.i(), u = in.i(), t = in.i(), k = in.i();
		typedef Vector< T, M > A; typedef Vector< T, N > B; typedef Matrix< T, M, N > C; const A& a = r.v( m, s ); const B& b = r.v( n, u ); C& c = r.m( m, n, t );
		if ( k == 0 ) Math::outer_product( a, b, c ); else if ( k == 1 ) c = Math::outer_product( a, b ); else if ( k == 2 ) c = Math::OuterProduct< A, B, C >()( a, b );
		else { std::vector< A > la( 2, a ); std::vector< B > lb( 2, b ); std::vector< C > lc; la[ 0 ]( 0 ) = 7;
			if ( k == 3 ) Math::outer_product( la.begin(), la.end(), lb.begin(), std::back_inserter( lc ) ); else { lc.assign( 2, c ); Math::outer_product( la.begin(), la.end(), lb.begin(), lc.begin() ); } c = lc.at( 1 ); if ( lc.size() != 2 ) o.s( "list length" ); } } ); } ); }
	else if ( w == "cross" ) { int s = in.i(), u = in.i(), t = in.i(); Dim< 3 > n; r.v( n, t ) = Math::cross_product( r.v( n, s ), r.v( n, u ) ); }
	else if ( w == "flip" ) Math::leftHandToRightHandMatrix( r.m( Dim< 4 >(), Dim< 4 >(), in.i() ) );
	else if ( w == "dot" || w == "dist" || w == "sqdist" ) dim5( in.i(), [&]( auto n ) { int s = in.i(), u = in.i(), k = in.i(); auto& a = r.v( n, s ); auto& b = r.v( n, u ); auto f = [&]( const auto& a, const auto& b ) {
		if ( w == "dot" ) o.d( Math::inner_product( a, b ) ); else if ( w == "dist" ) o.d( Math::distance( a, b ) ); else o.d( Math::squared_distance( a, b ) ); }; if ( k ) f( dyn( a, T() ), dyn( b, T() ) ); else f( a, b ); } );
	else if ( w == "dot1" || w == "norm1" || w == "norm2" || w == "normalize" ) dim5( in.i(), [&]( auto n ) { int s = in.i(), k = in.i(); auto& a = r.v( n, s ); auto f = [&]( const auto& a ) {
		if ( w == "dot1" ) o.d( Math::InnerProduct()( a ) ); else if ( w == "norm1" ) o.d( Math::norm_1( a ) ); else if ( w == "norm2" ) o.d( Math::norm_2( a ) ); else o.v( Math::normalize( a ) ); };
		if ( k && w == "normalize" && s == 1 ) { typedef Vector< T, decltype( n )::v > V; std::vector< V > l( 3, a ), q( 3, a ); Math::normalize( l.begin(), l.end(), q.begin() ); o.v( q[ 2 ] ); }
		else if ( k ) f( dyn( a, T() ) ); else f( a ); } );
	else if ( w == "dists" || w == "norms" ) dim5( in.i(), [&]( auto n ) { int s = in.i(), u = in.i(), k = in.i(); typedef Vector< T, decltype( n )::v > V; std::vector< V > a; std::list< V > b; a.push_back( r.v( n, s ) ); a.push_back( r.v( n, u ) ); b.push_back( r.v( n, u ) ); b.push_back( r.v( n, s ) );
		std::vector< T > x, y;
		if ( k ) { x.resize( 2, 77 ); y.resize( 2, 77 ); if ( w == "dists" ) { std::vector< V > c( b.begin(), b.end() ); Math::distance( a.begin(), a.end(), c.begin(), x.begin() ); Math::squared_distance( a.begin(), a.end(), c.begin(), y.begin() ); } else { Math::distance( a.begin(), a.end(), x.begin() ); Math::squared_distance( a.begin(), a.end(), y.begin() ); } }
		else if ( w == "dists" ) { std::list< V > c( a.begin(), a.end() ); Math::distance( c.begin(), c.end(), b.begin(), std::back_inserter( x ) ); Math::squared_distance( c.begin(), c.end(), b.begin(), std::back_inserter( y ) ); }
		else { Math::distance( a.begin(), a.end(), std::back_inserter( x ) ); Math::squared_distance( a.begin(), a.end(), std::back_inserter( y ) ); }
		o.i( x.size() ); for ( T d : x ) o.d( d ); o.i( y.size() ); for ( T d : y ) o.d( d ); } );
	else if ( w == "eqv" ) dim5( in.i(), [&]( auto n ) { int s = in.i(), u = in.i(); o.i( r.v( n, s ) == r.v( n, u ) ); } );
	else if ( w == "less" ) dim5( in.i(), [&]( auto n ) { int s = in.i(), u = in.i(); const auto& a = r.v( n, s ); const auto& b = r.v( n, u ); o.i( a < b ); } );
	else if ( w == "eqm" ) { int mm = in.i(); dim( in.i(), [&]( auto n ) { dim( mm, [&]( auto m ) { int s = in.i(), u = in.i(); o.i( r.m( m, n, s ) == r.m( m, n, u ) ); } ); } ); }
	else if ( w == "lerp" ) dim5( in.i(), [&]( auto n ) { int s = in.i(), u = in.i(); double t = in.d(); o.v( Math::linearInterpolate( r.v( n, s ), r.v( n, u ), t ) ); } );
	else if ( w == "det" || w == "inv" ) dim( in.i(), [&]( auto n ) { enum { N = decltype( n )::v }; int k = in.i(); std::vector< T > a = arr< T, N * N >( in ); Matrix< T, N, N > m( &a[ 0 ] ), was( m ); Matrix< T > d( m );
		if ( w == "det" ) o.d( k == 0 ? Math::Functors::matrix_determinant()( m ) : k == 1 ? Math::determinant( m ) : Math::determinant( d ) );
		else if ( k == 0 ) o.m( Math::Functors::matrix_inverse()( m ) ); else if ( k == 1 ) o.m( Math::invert_matrix( m ) ); else o.m( Math::invert_matrix( d ) );
		if ( !( m == was ) ) o.s( "argument changed" ); } );
	else if ( w == "pinv" ) { int mm = in.i(); dim( in.i(), [&]( auto n ) { dim( mm, [&]( auto m ) { enum { M = decltype( m )::v, N = decltype( n )::v }; int k = in.i(); std::vector< T > a = arr< T, M * N >( in ); Matrix< T, M, N > x( &a[ 0 ] ); Matrix< T > d( x );
		if ( k ) o.m( Math::pseudoInvert_matrix( d ) ); else o.m( Math::pseudoInvert_matrix( x ) ); } ); } ); }
	else if ( w == "cast" ) dim5( in.i(), [&]( auto n ) { enum { N = decltype( n )::v }; std::vector< T > a = arr< T, N >( in ); Vector< T, N > v( &a[ 0 ] ); Vector< int, N > i; Math::Util::vector_cast_assign( i, v ); for ( int k = 0; k < N; ++k ) o.i( i( k ) );
		Vector< double, N > e; Math::Util::vector_cast_assign( e, v ); o.v( e ); Matrix< T, N, 1 > m; Matrix< int, N, 1 > mi; for ( int k = 0; k < N; ++k ) m( k, 0 ) = v( k ); Math::Util::matrix_cast_assign( mi, m ); for ( int k = 0; k < N; ++k ) o.i( mi( k, 0 ) ); } );
	else if ( w == "rms" ) dim( in.i(), [&]( auto n ) { enum { N = decltype( n )::v }; std::vector< T > a = arr< T, N * N >( in ); Vector< T, N > v = Vector< T, N >::zeros(); Math::ErrorVector< T, N > e( v, Matrix< T, N, N >( &a[ 0 ] ) ); o.d( e.getRMS() ); } );
	else if ( w == "dyn" ) { int m = in.i(), n = in.i(); T k = in.d(); Vector< T > v( Vector< T >::zeros( m ) ); Matrix< T > z( Matrix< T >::zeros( m, n ) ); o.i( v.size() ).i( z.size1() * z.size2() ).v( v ).m( z ).m( Matrix< T >::scalar( m, n, k ) ).m( Matrix< T >::identity( m ) ); }
	else return false;
	return true;
}

int main()
{
	vh::Harness H;
	H.reset = [] { RD.clear(); RF.clear(); };
	for ( const char* w : { "setv", "setm", "showv", "showm", "textv", "textl", "textm", "mv", "mm", "outer", "cross", "flip", "dot", "dist", "sqdist", "dot1", "norm1", "norm2", "normalize", "dists", "norms", "eqv", "less", "eqm", "lerp", "det", "inv", "pinv", "cast", "rms", "dyn" } )
		H[ w ] = [w]( vh::In& in, vh::Out& o ) { if ( in.s() == "d" ) op( w, RD, in, o ); else op( w, RF, in, o ); };
	return H.run();
}
