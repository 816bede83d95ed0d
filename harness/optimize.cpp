// Least squares optimisation and RANSAC against LM.tla and Ransac.tla.
#include "vh.h"
#include <cmath>
#include <cassert>
#include <limits>
#include <utMath/Optimization/LevenbergMarquardt.h>
#include <utMath/Optimization/GaussNewton.h>
#include <utMath/Optimization/Ransac.h>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
using namespace Ubitrack;
namespace MO = Math::Optimization;
namespace ublas = boost::numeric::ublas;
template< class T > struct Scripted
{
	std::vector< double > d, j; std::vector< double > asked;
	template< class A, class B, class C > void evaluateWithJacobian( A& r, const B& p, C& jac )
	{ std::size_t k = asked.size(); if ( k >= d.size() ) throw std::runtime_error( "asked too often" ); asked.push_back( p( 0 ) ); r( 0 ) = d[ k ] == 9999 ? std::numeric_limits< T >::quiet_NaN() : T( 5 - d[ k ] ); jac( 0, 0 ) = j[ k ]; }
};
struct Crit { std::vector< double >* log; std::size_t n; bool operator()( std::size_t i, double now, double prev ) const { log->push_back( i ); log->push_back( std::isnan( now ) ? -1 : now ); log->push_back( prev ); return i >= n; } };
struct Shift { double s; template< class A, class B > void evaluate( A& r, const B& p ) const { r( 0 ) = p( 0 ) + s; } };
template< class T > struct Linear
{
	Math::Matrix< T > a;
	template< class A, class B, class C > void evaluateWithJacobian( A& r, const B& p, C& j ) const { for ( std::size_t i = 0; i < a.size1(); ++i ) { T s = 0; for ( std::size_t k = 0; k < a.size2(); ++k ) { s += a( i, k ) * p( k ); j( i, k ) = a( i, k ); } r( i ) = s; } }
};
struct Weights { std::vector< double > w; bool noWeights() const { return false; } template< class A, class B > void computeWeights( const A& e, B& r ) const { for ( std::size_t i = 0; i < w.size(); ++i ) r( i ) = w[ i ]; } };
static MO::LmSolverType solver( int i ) { return i == 0 ? MO::lmUseCholesky : i == 1 ? MO::lmUseQR : MO::lmUseSVD; }
template< class T > Math::Vector< T > vec( vh::In& in, int n ) { Math::Vector< T > v( n ); for ( int i = 0; i < n; ++i ) v( i ) = (T)in.d(); return v; }
template< class T > void ops( vh::Harness& H, const std::string& f )
{
	H[ "lm" + f ] = []( vh::In& in, vh::Out& o ) {
		int so = in.i(); Math::Vector< T > x( 1 ), m( 1 ); x( 0 ) = (T)in.d(); m( 0 ) = 5; Scripted< T > p; Shift nrm = { in.d() }; int n = in.i(); for ( int i = 0; i <= n; ++i ) p.d.push_back( in.d() ); for ( int i = 0; i <= n; ++i ) p.j.push_back( in.d() );
		std::vector< double > log; Crit c = { &log, std::size_t( n ) }; T r = MO::levenbergMarquardt( p, x, m, c, nrm, solver( so ), T( 1 ), T( 2 ) );
		for ( double a : p.asked ) o.d( a ); o.d( x( 0 ) ).d( r ); for ( double a : log ) o.d( a ); };
	H[ "lin" + f ] = []( vh::In& in, vh::Out& o ) {
		int so = in.i(), it = in.i(), p = in.i(), m = in.i(); Linear< T > l; l.a.resize( m, p ); for ( int i = 0; i < m; ++i ) for ( int j = 0; j < p; ++j ) l.a( i, j ) = (T)in.d();
		Math::Vector< T > b = vec< T >( in, m ), x = vec< T >( in, p ); T la = (T)in.d(); Weights w; bool one = true; for ( int i = 0; i < m; ++i ) { w.w.push_back( in.d() ); one &= w.w[ i ] == 1; }
		T r = one ? MO::levenbergMarquardt( l, x, b, MO::OptTerminate( it ), MO::OptNoNormalize(), solver( so ), la ) : MO::weightedLevenbergMarquardt( l, x, b, MO::OptTerminate( it ), MO::OptNoNormalize(), w, solver( so ), la );
		double e = 0; for ( int i = 0; i < m; ++i ) { double s = b( i ); for ( int k = 0; k < p; ++k ) s -= l.a( i, k ) * x( k ); e += w.w[ i ] * s * s; }
		o.v( x ).i( std::fabs( e - r ) <= ( sizeof( T ) == 4 ? 1e-3 : 1e-9 ) * ( 1 + e ) ); };
	H[ "gn" + f ] = []( vh::In& in, vh::Out& o ) {
		int it = in.i(), p = in.i(), m = in.i(); Linear< T > l; l.a.resize( m, p ); for ( int i = 0; i < m; ++i ) for ( int j = 0; j < p; ++j ) l.a( i, j ) = (T)in.d();
		Math::Vector< T > b = vec< T >( in, m ), x = vec< T >( in, p ); MO::gaussNewton( l, x, b, it, MO::OptNoNormalize() ); o.v( x ); };
	H[ "rpar" + f ] = []( vh::In& in, vh::Out& o ) { T th = (T)in.d(); std::size_t k = in.i(), n = in.i(); T out = (T)in.d(), s = (T)in.d(); MO::RansacParameter< T > p( th, k, n, out, s ); o.d( p.threshold ).i( p.setSize ).i( p.nMinInlier ).i( p.nMaxIterations ); };
}
// a RANSAC problem that answers from a table and writes down what it is asked
static struct { int n, hyp; std::vector< int > ok; std::vector< std::vector< int > > in; std::string log; bool boom; } tab;
static void asked( const std::vector< int >& ids, int& h )
{
	int s = 0; for ( int i : ids ) s += i * i; int k = s % tab.hyp; h = tab.ok[ k ] ? k + 1 : 0;
	tab.log += "E"; for ( int i : ids ) tab.log += "," + std::to_string( i ); tab.log += ":" + std::to_string( h ) + ";";
}
static double judged( int h, int id ) { bool b = h > 0 && tab.in[ h - 1 ][ id - 1 ]; tab.log += "V" + std::to_string( id ) + ":" + ( b ? "1" : "0" ) + ";"; return b ? ( id % 2 ? 0. : 2.4375 ) : ( id % 2 ? 2.5 : 7. ); }
typedef Math::Vector< double, 2 > V2;
struct Table
{
	struct Estimator
	{
		template< class It > bool operator()( int& h, It b, It e ) const { std::vector< int > ids; for ( ; b != e; ++b ) ids.push_back( (int)( *b )( 0 ) ); int r; asked( ids, r ); if ( r ) h = r; return r != 0; }
		template< class It, class Jt > bool operator()( int& h, It b, It e, Jt c, Jt d ) const { std::vector< int > ids; for ( ; b != e; ++b, ++c ) { if ( ( *c )( 0 ) != -( *b )( 0 ) ) throw std::logic_error( "pairing" ); ids.push_back( (int)( *b )( 0 ) ); } if ( c != d ) throw std::logic_error( "sizes" ); int r; asked( ids, r ); if ( r ) h = r; return r != 0; }
	};
	struct Evaluator
	{
		double operator()( int h, const V2& a ) const { return judged( h, (int)a( 0 ) ); }
		double operator()( int h, const V2& a, const V2& b ) const { if ( b( 0 ) != -a( 0 ) ) throw std::logic_error( "pairing" ); return judged( h, (int)a( 0 ) ); }
	};
};
struct ListEst { void operator()( int& h, const std::vector< V2 >& a, const std::vector< V2 >& b ) const { std::vector< int > ids; if ( a.size() != b.size() ) throw std::logic_error( "sizes" ); for ( std::size_t i = 0; i < a.size(); ++i ) { if ( a[ i ]( 0 ) != -b[ i ]( 0 ) ) throw std::logic_error( "pairing" ); ids.push_back( (int)a[ i ]( 0 ) ); } int r; asked( ids, r ); if ( !r && !tab.boom ) return; if ( !r ) throw std::runtime_error( "singular" ); h = r; } };
int main()
{
	std::cerr.setstate( std::ios::failbit );
	vh::Harness H;
	ops< double >( H, "" ); ops< float >( H, "f" );
	H[ "term" ] = []( vh::In& in, vh::Out& o ) { int n = in.i(); double a = in.d(), b = in.d(); int it = in.i(); double r = in.d(), s = in.d(); o.i( MO::OptTerminate( n, a / b )( it, r, s ) ); };
	H[ "ransac" ] = []( vh::In& in, vh::Out& o ) {
		int kind = in.i(), n = in.i(), sz = in.i(), mn = in.i(), lo = in.i(), hi = in.i(), seed = in.i(); tab.n = n; tab.hyp = in.i(); tab.ok.clear(); tab.in.clear(); tab.log.clear(); tab.boom = true;
		for ( int k = 0; k < tab.hyp; ++k ) tab.ok.push_back( in.i() ); for ( int k = 0; k < tab.hyp; ++k ) { std::vector< int > r; for ( int i = 0; i < n; ++i ) r.push_back( in.i() ); tab.in.push_back( r ); }
		std::vector< V2 > a, b; for ( int i = 1; i <= n; ++i ) { a.push_back( V2( i, 0 ) ); b.push_back( V2( -i, 1 ) ); }
		srand( seed ); int res = -7; std::size_t r; std::vector< bool > fl; bool flags = false;
		if ( kind == 1 ) r = MO::ransac( a.begin(), a.end(), res, Table(), MO::RansacParameter< double >( 2.5, std::size_t( sz ), std::size_t( mn ), std::size_t( hi ) ) );
		else if ( kind == 2 ) r = MO::ransac( a.begin(), a.end(), b.begin(), b.end(), res, Table(), MO::RansacParameter< double >( 2.5, std::size_t( sz ), std::size_t( mn ), std::size_t( hi ) ) );
		else try { r = MO::ransac( res, a, b, 2.5, std::size_t( sz ), std::size_t( mn ), std::size_t( lo ), std::size_t( hi ), ListEst(), []( int h, const V2& x, const V2& y ) { return Table::Evaluator()( h, x, y ); }, kind == 4 ? &fl : 0 ); } catch ( const std::runtime_error& ) { tab.log += "R-1:0;"; o.s( tab.log ); return; }
		if ( kind == 4 && r > 0 ) { tab.log += "F"; for ( std::size_t i = 0; i < fl.size(); ++i ) if ( fl[ i ] ) tab.log += "," + std::to_string( i + 1 ); tab.log += ":1;"; }
		tab.log += "R" + std::to_string( r ) + ":" + std::to_string( res ) + ";"; o.s( tab.log ); };
	return H.run();
}
