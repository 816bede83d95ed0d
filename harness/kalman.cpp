// Replays Kalman.tla behaviours: measurement updates, covariance transforms, backward propagation.
#include "vh.h"
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/ErrorVector.h>
#include <utMath/Stochastic/CovarianceTransform.h>
#include <utMath/Stochastic/Kalman.h>
#include <utMath/Stochastic/BackwardPropagation.h>
using namespace Ubitrack::Math;
namespace S = Ubitrack::Math::Stochastic;
namespace ublas = boost::numeric::ublas;
typedef Vector< double > V;
typedef Matrix< double > M;

static V inv( vh::In& in, std::size_t n ) { V v( n ); for ( std::size_t i = 0; i < n; ++i ) v( i ) = in.d(); return v; }
static M inm( vh::In& in, std::size_t m, std::size_t n ) { M a( m, n ); for ( std::size_t i = 0; i < m; ++i ) for ( std::size_t j = 0; j < n; ++j ) a( i, j ) = in.d(); return a; }

struct Affine
{
	M a; V c;
	Affine( const M& _a ) : a( _a ), c( V( _a.size1() ) ) { for ( unsigned i = 0; i < c.size(); ++i ) c( i ) = 0; }
	Affine( const M& _a, const V& _c ) : a( _a ), c( _c ) {}
	unsigned size() const { return a.size1(); }
	template< class R, class I, class J > void evaluateWithJacobian( R& r, const I& x, J& j ) const { r = ublas::prod( a, x ) + c; j = a; }
	template< class I, class J > void jacobian( const I&, J& j ) const { j = a; }
};
struct Binary
{
	M a, b;
	template< class R, class I1, class I2, class J1, class J2 > void evaluateWithJacobian( R& r, const I1& x, const I2& y, J1& j1, J2& j2 ) const { r = ublas::prod( a, x ) + ublas::prod( b, y ); j1 = a; j2 = b; }
};
struct E { V v; M c; };
static void out( vh::Out& o, const E& e ) { o.v( e.v ).m( e.c ); }
template< std::size_t N > static ErrorVector< double, N > fix( const V& v, const M& c ) { ErrorVector< double, N > e; for ( std::size_t i = 0; i < N; ++i ) { e.value( i ) = v( i ); for ( std::size_t j = 0; j < N; ++j ) e.covariance( i, j ) = c( i, j ); } return e; }
template< std::size_t N > static E flex( const ErrorVector< double, N >& f ) { E e; e.v.resize( N ); e.c.resize( N, N ); for ( std::size_t i = 0; i < N; ++i ) { e.v( i ) = f.value( i ); for ( std::size_t j = 0; j < N; ++j ) e.c( i, j ) = f.covariance( i, j ); } return e; }
static void same( const E& a, const E& b )
{
	for ( unsigned i = 0; i < a.v.size(); ++i ) if ( std::fabs( a.v( i ) - b.v( i ) ) > 1e-9 * ( 1 + std::fabs( b.v( i ) ) ) ) throw std::runtime_error( "entry points disagree" );
	for ( unsigned i = 0; i < a.c.size1(); ++i ) for ( unsigned j = 0; j < a.c.size2(); ++j ) if ( std::fabs( a.c( i, j ) - b.c( i, j ) ) > 1e-9 * ( 1 + std::fabs( b.c( i, j ) ) ) ) throw std::runtime_error( "entry points disagree" );
}
template< std::size_t N, std::size_t K > static E meas( const E& s, const Affine& f, const V& z, const M& r, unsigned b, unsigned e )
{ ErrorVector< double, N > x = fix< N >( s.v, s.c ); S::kalmanMeasurementUpdate( x, f, fix< K >( z, r ), b, e ); return flex< N >( x ); }
template< std::size_t N, std::size_t K > static E ident( const E& s, const V& z, const M& r, unsigned b, unsigned e )
{ ErrorVector< double, N > x = fix< N >( s.v, s.c ); S::kalmanMeasurementUpdateIdentity( x, fix< K >( z, r ), b, e ); return flex< N >( x ); }

int main()
{
	std::cerr.setstate( std::ios::failbit );
	vh::Harness H;
	std::vector< E > r;
	H.reset = [&]{ E e; e.v.resize( 2 ); e.v( 0 ) = e.v( 1 ) = 0; e.c.resize( 2, 2 ); e.c( 0, 0 ) = e.c( 1, 1 ) = 1; e.c( 0, 1 ) = e.c( 1, 0 ) = 0; r.assign( 8, e ); };
	H[ "set" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(), n = in.i(); r[ i ].v.resize( n ); r[ i ].v = inv( in, n ); r[ i ].c.resize( n, n ); r[ i ].c = inm( in, n, n ); out( o, r[ i ] ); };
	H[ "meas" ] = [&]( vh::In& in, vh::Out& o ) {
		int i = in.i(), m = in.i(), b = in.i(), e = in.i(); M h = inm( in, m, e - b ); V z = inv( in, m ); M c = inm( in, m, m );
		Affine f( h ); E old = r[ i ];
		S::kalmanMeasurementUpdate( r[ i ].v, r[ i ].c, f, z, c, b, e );
		if ( old.v.size() == 2 && m == 2 ) same( meas< 2, 2 >( old, f, z, c, b, e ), r[ i ] );
		if ( old.v.size() == 3 && m == 1 ) same( meas< 3, 1 >( old, f, z, c, b, e ), r[ i ] );
		if ( old.v.size() == 3 && m == 3 ) same( meas< 3, 3 >( old, f, z, c, b, e ), r[ i ] );
		out( o, r[ i ] );
	};
	H[ "ident" ] = [&]( vh::In& in, vh::Out& o ) {
		int i = in.i(), m = in.i(), b = in.i(), e = in.i(); V z = inv( in, m ); M c = inm( in, m, m );
		E old = r[ i ];
		S::kalmanMeasurementUpdateIdentity( r[ i ].v, r[ i ].c, z, c, b, e );
		if ( old.v.size() == 2 && m == 2 ) same( ident< 2, 2 >( old, z, c, b, e ), r[ i ] );
		if ( old.v.size() == 3 && m == 1 ) same( ident< 3, 1 >( old, z, c, b, e ), r[ i ] );
		if ( old.v.size() == 3 && m == 3 ) same( ident< 3, 3 >( old, z, c, b, e ), r[ i ] );
		out( o, r[ i ] );
	};
	H[ "map" ] = [&]( vh::In& in, vh::Out& o ) {
		int i = in.i(); std::size_t n = r[ i ].v.size(); M a = inm( in, n, n ); V c = inv( in, n );
		E x; x.v.resize( n ); x.c.resize( n, n ); S::transformWithCovariance( Affine( a, c ), x.v, x.c, r[ i ].v, r[ i ].c );
		if ( n == 2 ) same( flex< 2 >( S::transformWithCovariance< 2, 2 >( Affine( a, c ), fix< 2 >( r[ i ].v, r[ i ].c ) ) ), x );
		r[ i ].v = x.v; r[ i ].c = x.c; out( o, r[ i ] );
	};
	H[ "part" ] = [&]( vh::In& in, vh::Out& o ) {
		int i = in.i(), ob = in.i(), oe = in.i(), ib = in.i(), ie = in.i(); M a = inm( in, oe - ob, ie - ib ); V c = inv( in, oe - ob );
		S::transformRangeInternalWithCovariance( Affine( a, c ), r[ i ].v, r[ i ].c, ob, oe, ib, ie );
		out( o, r[ i ] );
	};
	H[ "range" ] = [&]( vh::In& in, vh::Out& o ) {
		int i = in.i(), ob = in.i(), oe = in.i(), ib = in.i(), ie = in.i(); M a = inm( in, oe - ob, ie - ib ); V c = inv( in, oe - ob );
		E x = r[ i ]; S::transformRangeInternalWithCovariance( Affine( a, c ), x.v, x.c, ob, oe, ib, ie );
		if ( x.v.size() == 3 ) { ErrorVector< double, 3 > y = fix< 3 >( r[ i ].v, r[ i ].c ); S::transformRangeInternalWithCovariance< 3 >( Affine( a, c ), y, ob, oe, ib, ie ); same( flex< 3 >( y ), x ); }
		out( o, x );
	};
	H[ "fun" ] = [&]( vh::In& in, vh::Out& o ) {
		int i = in.i(), m = in.i(); M a = inm( in, m, r[ i ].v.size() ); V c = inv( in, m );
		E x; x.v.resize( m ); x.c.resize( m, m ); S::transformWithCovariance( Affine( a, c ), x.v, x.c, r[ i ].v, r[ i ].c );
		out( o, x );
	};
	H[ "bin" ] = [&]( vh::In& in, vh::Out& o ) {
		int i = in.i(), j = in.i(), m = in.i(); Binary f; M a = inm( in, m, r[ i ].v.size() ), b = inm( in, m, r[ j ].v.size() ); f.a.resize( a.size1(), a.size2() ); f.a = a; f.b.resize( b.size1(), b.size2() ); f.b = b;
		E x; x.v.resize( m ); x.c.resize( m, m ); S::binarytransformWithCovariance( f, x.v, x.c, r[ i ].v, r[ i ].c, r[ j ].v, r[ j ].c );
		if ( m == 1 && a.size2() == 2 && b.size2() == 3 ) same( flex< 1 >( S::binarytransformWithCovariance< 1, 2, 3 >( f, fix< 2 >( r[ i ].v, r[ i ].c ), fix< 3 >( r[ j ].v, r[ j ].c ) ) ), x );
		out( o, x );
	};
	H[ "back" ] = [&]( vh::In& in, vh::Out& o ) {
		int kind = in.i(), n = in.i(), m = in.i(); M j = inm( in, m, n ); double s = in.d(); M res( n, n ); V p( n ); for ( int k = 0; k < n; ++k ) p( k ) = 0;
		if ( kind == 0 ) { S::backwardPropagationIdentity( res, s, Affine( j ), p ); }
		else if ( kind == 1 ) { V d = inv( in, m ); S::backwardPropagationDiagonal( res, d, Affine( j ), p ); }
		else { M c = inm( in, m, m ); S::backwardPropagation( res, c, Affine( j ), p ); }
		o.m( res );
	};
	return H.run();
}
