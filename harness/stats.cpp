// Replays Stats.tla behaviours: averagers as registers, correlation, Gaussians, k-means, EM, random numbers.
#include "vh.h"
#include <algorithm>
#include <iterator>
#include <list>
#include <set>
#include <utMath/Stochastic/Average.h>
#include <utMath/Stochastic/Correlation.h>
#include <utMath/Stochastic/Gaussian.h>
#include <utMath/Stochastic/Weighted.h>
#include <utMath/Stochastic/MahalanobisDistance.h>
#include <utMath/Stochastic/k_means.h>
#include <utMath/Stochastic/expectation_maximization.h>
#include <utMath/Random/Scalar.h>
#include <utMath/Random/Vector.h>
#include <utMath/Random/Rotation.h>
#include <utAlgorithm/Correlation.h>
using namespace Ubitrack;
using namespace Ubitrack::Math::Stochastic;
using Math::Vector;
using Math::Matrix;

template< int N > struct Dim { enum { v = N }; };
template< class F > void dim( int n, F f )
{
	switch ( n ) { case 1: f( Dim< 1 >() ); break; case 2: f( Dim< 2 >() ); break; case 3: f( Dim< 3 >() ); break; default: std::fprintf( stderr, "harness: size %d\n", n ); std::_Exit( 99 ); }
}
template< class F > void prec( const std::string& p, F f ) { if ( p == "d" ) f( double() ); else f( float() ); }
template< class T, int N > std::vector< Vector< T, N > > pts( vh::In& in, int k ) { std::vector< Vector< T, N > > l; for ( int i = 0; i < k; ++i ) l.push_back( in.vec< Vector< T, N > >( N ) ); return l; }

static double rd( vh::In& in, double* ) { return in.d(); }
static float rd( vh::In& in, float* ) { return (float)in.d(); }
template< class T, std::size_t N > static Vector< T, N > rd( vh::In& in, Vector< T, N >* ) { return in.vec< Vector< T, N > >( N ); }
static Math::Quaternion rd( vh::In& in, Math::Quaternion* ) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); return Math::Quaternion( x, y, z, w ); }
static Math::Pose rd( vh::In& in, Math::Pose* ) { Math::Quaternion q = rd( in, (Math::Quaternion*)0 ); Vector< double, 3 > t = in.vec< Vector< double, 3 > >( 3 ); return Math::Pose( q, t ); }
static void wr( vh::Out& o, double x ) { o.d( x ); }
static void wr( vh::Out& o, const Math::Scalar< double >& x ) { o.d( x ); }
template< class T, std::size_t N > static void wr( vh::Out& o, const Vector< T, N >& x ) { o.v( x ); }
template< class T, std::size_t N > static void wr( vh::Out& o, const Math::ErrorVector< T, N >& x ) { o.v( x.value ); o.m( x.covariance ); }
static void wr( vh::Out& o, const Math::Quaternion& q ) { o.q( q ); }
static void wr( vh::Out& o, const Math::Pose& p ) { o.q( p.rotation() ); o.v( p.translation() ); }
static void wr( vh::Out& o, const Math::ErrorPose& p ) { o.q( p.rotation() ); o.v( p.translation() ); o.m( p.covariance() ); }

struct Reg { virtual ~Reg() {} virtual void add( vh::In& in, int mode, int n ) = 0; virtual void get( vh::Out& o ) = 0; virtual void clear() = 0; virtual void copy( Reg& r ) = 0; };
template< class R, class In > struct RegOf : Reg
{
	Average< R > a;
	void add( vh::In& in, int mode, int n )
	{
		std::list< In > l;
		for ( int i = 0; i < n; ++i ) l.push_back( rd( in, (In*)0 ) );
		if ( mode ) a = std::for_each( l.begin(), l.end(), a );
		else for ( typename std::list< In >::iterator i = l.begin(); i != l.end(); ++i ) a( *i );
	}
	void get( vh::Out& o ) { const Average< R > c = a; wr( o, c.getAverage() ); }
	void clear() { a = Average< R >(); }
	void copy( Reg& r ) { a = static_cast< RegOf& >( r ).a; }
};
static Reg* make( const std::string& k )
{
	if ( k == "double" ) return new RegOf< double, double >();
	if ( k == "float" ) return new RegOf< float, float >();
	if ( k == "scalar" ) return new RegOf< Math::Scalar< double >, double >();
	if ( k == "vec2" ) return new RegOf< Vector< double, 2 >, Vector< double, 2 > >();
	if ( k == "vec3f" ) return new RegOf< Vector< float, 3 >, Vector< float, 3 > >();
	if ( k == "err2" ) return new RegOf< Math::ErrorVector< double, 2 >, Vector< double, 2 > >();
	if ( k == "err3" ) return new RegOf< Math::ErrorVector< double, 3 >, Vector< double, 3 > >();
	if ( k == "quat" ) return new RegOf< Math::Quaternion, Math::Quaternion >();
	if ( k == "pose" ) return new RegOf< Math::Pose, Math::Pose >();
	if ( k == "errpose" ) return new RegOf< Math::ErrorPose, Math::Pose >();
	std::fprintf( stderr, "harness: kind %s\n", k.c_str() ); std::_Exit( 99 );
}
static std::map< std::string, Reg* > REG;
static Reg& reg( const std::string& k, int s ) { Reg*& r = REG[ k + char( '0' + s ) ]; if ( !r ) r = make( k ); return *r; }

template< class T, std::size_t N > static Gaussian< T, N > gaussIn( vh::In& in )
{
	Gaussian< T, N > g;
	for ( std::size_t i = 0; i < N; ++i ) g.mean[ i ] = in.d();
	g.variance = 0;
	for ( std::size_t i = 0; i < N * N; ++i ) { g.covariance[ i ] = in.d(); if ( i % ( N + 1 ) == 0 ) g.variance += g.covariance[ i ]; }
	g.standardDeviation = std::sqrt( g.variance );
	return g;
}
template< class T, std::size_t N > static void gaussOut( vh::Out& o, bool ok, const Gaussian< T, N >& g )
{
	o.i( ok );
	if ( !ok ) return;
	for ( std::size_t i = 0; i < N; ++i ) o.d( g.mean[ i ] );
	for ( std::size_t i = 0; i < N * N; ++i ) o.d( g.covariance[ i ] );
	o.d( g.variance ); o.d( g.standardDeviation );
}
template< class T, std::size_t N > static Gaussian< T, N > dirty() { Gaussian< T, N > g; std::fill( g.mean, g.mean + N, T( 7 ) ); std::fill( g.covariance, g.covariance + N * N, T( 7 ) ); g.variance = g.standardDeviation = 7; return g; }

int main()
{
	vh::Harness H;
	H.reset = [] { for ( auto& r : REG ) delete r.second; REG.clear(); };
	H["add"] = []( vh::In& in, vh::Out& ) { std::string k = in.s(); int s = in.i(), m = in.i(), n = in.i(); reg( k, s ).add( in, m, n ); };
	H["clear"] = []( vh::In& in, vh::Out& ) { std::string k = in.s(); int s = in.i(); reg( k, s ).clear(); };
	H["copy"] = []( vh::In& in, vh::Out& ) { std::string k = in.s(); reg( k, 2 ).copy( reg( k, 1 ) ); };
	H["get"] = []( vh::In& in, vh::Out& o ) { std::string k = in.s(); int s = in.i(); reg( k, s ).get( o ); };
	H["clearget"] = []( vh::In&, vh::Out& ) {};
	H["corr"] = []( vh::In& in, vh::Out& o )
	{
		int w = in.i(), n1 = in.i(), n2 = in.i();
		std::vector< double > a, b;
		for ( int i = 0; i < n1; ++i ) a.push_back( in.d() );
		for ( int i = 0; i < n2; ++i ) b.push_back( in.d() );
		if ( w == 0 ) o.d( Algorithm::computeCorrelation( a, b ) );
		else if ( w == 1 ) { std::list< double > c( a.begin(), a.end() ), d( b.begin(), b.end() ); o.d( correlation( c.begin(), c.end(), d.begin(), d.end() ) ); }
		else { std::vector< float > c( a.begin(), a.end() ), d( b.begin(), b.end() ); o.d( correlation( d.begin(), d.end(), c.begin(), c.end() ) ); }
	};
	H["gauss"] = []( vh::In& in, vh::Out& o ) { prec( in.s(), [&]( auto t ) { typedef decltype( t ) T; dim( in.i(), [&]( auto d ) { enum { N = decltype( d )::v };
		auto l = pts< T, N >( in, in.i() ); auto g = dirty< T, N >(); bool ok = estimate_gaussian( l.begin(), l.end(), g ); gaussOut( o, ok, g ); } ); } ); };
	H["gaussw"] = []( vh::In& in, vh::Out& o ) { prec( in.s(), [&]( auto t ) { typedef decltype( t ) T; dim( in.i(), [&]( auto d ) { enum { N = decltype( d )::v };
		int k = in.i(); auto l = pts< T, N >( in, k ); std::vector< T > w; for ( int i = 0; i < k; ++i ) w.push_back( in.d() );
		auto g = dirty< T, N >(); bool ok = estimate_gaussian( l.begin(), l.end(), w.begin(), g ); gaussOut( o, ok, g ); } ); } ); };
	H["gaussi"] = []( vh::In& in, vh::Out& o ) { prec( in.s(), [&]( auto t ) { typedef decltype( t ) T; dim( in.i(), [&]( auto d ) { enum { N = decltype( d )::v };
		int k = in.i(); std::size_t c = in.i(); auto l = pts< T, N >( in, k ); std::vector< std::size_t > w; for ( int i = 0; i < k; ++i ) w.push_back( in.i() );
		auto g = dirty< T, N >(); bool ok = estimate_gaussian_index( l.begin(), l.end(), w.begin(), c, g ); gaussOut( o, ok, g ); } ); } ); };
	H["mahal"] = []( vh::In& in, vh::Out& o ) { dim( in.i(), [&]( auto d ) { enum { N = decltype( d )::v };
		auto g = gaussIn< double, N >( in ); Vector< double, N > x = in.vec< Vector< double, N > >( N ); o.d( MahalanobisDistance< Gaussian< double, N > >( g )( x ) ); } ); };
	H["lik"] = []( vh::In& in, vh::Out& o ) { dim( in.i(), [&]( auto d ) { enum { N = decltype( d )::v };
		int k = in.i(), m = in.i(); typedef Weighted< Gaussian< double, N >, double > W; std::vector< W > gs;
		for ( int i = 0; i < k; ++i ) { double w = in.d(); auto g = gaussIn< double, N >( in ); gs.push_back( W( g, w ) ); }
		auto l = pts< double, N >( in, m ); o.d( log_likelihood< double >( gs.begin(), gs.end(), l.begin(), l.end() ) ); } ); };
	H["kmeans"] = []( vh::In& in, vh::Out& o ) { prec( in.s(), [&]( auto t ) { typedef decltype( t ) T; dim( in.i(), [&]( auto d ) { enum { N = decltype( d )::v };
		int n = in.i(), k = in.i(); auto l = pts< T, N >( in, n ); auto m = pts< T, N >( in, k ); std::vector< std::size_t > idx;
		o.d( k_means( l.begin(), l.end(), m.begin(), m.end(), std::back_inserter( idx ), Math::SquaredDistance< Vector< T, N > >() ) );
		for ( auto& x : m ) o.v( x );
		for ( auto x : idx ) o.i( x ); } ); } ); };
	H["kmeansr"] = []( vh::In& in, vh::Out& o ) { prec( in.s(), [&]( auto t ) { typedef decltype( t ) T; dim( in.i(), [&]( auto d ) { enum { N = decltype( d )::v };
		int n = in.i(), k = in.i(); auto l = pts< T, N >( in, n ); std::vector< Vector< T, N > > m; std::vector< std::size_t > idx;
		k_means( l.begin(), l.end(), k, std::back_inserter( m ), std::back_inserter( idx ) );
		for ( auto& x : m ) o.v( x );
		for ( auto x : idx ) o.i( x ); } ); } ); };
	H["greedy"] = []( vh::In& in, vh::Out& o ) { int n = in.i(), k = in.i(); auto l = pts< double, 2 >( in, n ); std::vector< Vector< double, 2 > > r; copy_greedy( l.begin(), l.end(), k, std::back_inserter( r ) ); for ( auto& x : r ) o.v( x ); };
	H["seeds"] = []( vh::In& in, vh::Out& o )
	{
		int n = in.i(), k = in.i(); auto l = pts< double, 2 >( in, n ); std::vector< Vector< double, 2 > > r;
		std::size_t c = copy_probability( l.begin(), l.end(), k, std::back_inserter( r ), Math::Distance< Vector< double, 2 > >() );
		std::set< std::pair< double, double > > all, got;
		for ( auto& x : l ) all.insert( std::make_pair( x( 0 ), x( 1 ) ) );
		bool in_list = true;
		for ( auto& x : r ) { got.insert( std::make_pair( x( 0 ), x( 1 ) ) ); in_list = in_list && all.count( std::make_pair( x( 0 ), x( 1 ) ) ); }
		o.i( c ); o.i( in_list && got.size() == r.size() && r.size() == c );
	};
	H["em"] = []( vh::In& in, vh::Out& o ) { dim( in.i(), [&]( auto d ) { enum { N = decltype( d )::v };
		int k = in.i(), n = in.i(); auto l = pts< double, N >( in, n ); typedef Weighted< Gaussian< double, N >, double > W; std::vector< W > gs;
		for ( int i = 0; i < k; ++i ) { double w = in.d(); auto g = gaussIn< double, N >( in ); gs.push_back( W( g, w ) ); }
		o.d( expectation_maximization( l.begin(), l.end(), gs.begin(), gs.end() ) );
		for ( auto& g : gs ) { o.d( g.weight ); for ( int i = 0; i < N; ++i ) o.d( g.mean[ i ] ); for ( int i = 0; i < N * N; ++i ) o.d( g.covariance[ i ] ); } } ); };
	H["weighted"] = []( vh::In& in, vh::Out& o )
	{
		typedef Weighted< Gaussian< double, 1 > > W;
		Gaussian< double, 1 > g; reset( g ); Gaussian< double, 1 > f = g; f.mean[ 0 ] = 5;
		W a( g, in.d() ), b( f, in.d() ); std::vector< W > l; int n = in.i();
		for ( int i = 0; i < n; ++i ) { f.mean[ 0 ] = -i; l.push_back( W( f, in.d() ) ); }
		o.i( a < b ).i( a > b ).i( a == b ).i( a != b );
		std::sort( l.begin(), l.end() ); for ( auto& x : l ) o.d( x.weight );
		std::sort( l.begin(), l.end(), std::greater< W >() ); for ( auto& x : l ) o.d( x.weight );
	};
	H["rand"] = []( vh::In& in, vh::Out& o )
	{
		std::string w = in.s(); int lo = in.i(), hi = in.i();
		if ( w == "int" ) o.i( Math::Random::distribute_uniform< int >( lo, hi ) );
		else if ( w == "double" ) o.d( Math::Random::distribute_uniform< double >( lo, hi ) );
		else if ( w == "float" ) o.d( Math::Random::distribute_uniform< float >( (float)lo, (float)hi ) );
		else if ( w == "vec" ) { Math::Random::Vector< double, 3 >::Uniform u( (double)lo, (double)hi ); o.v( Vector< double, 3 >( u() ) ); }
		else if ( w == "normal" ) { Math::Random::Vector< double, 3 >::Normal u( (double)lo, 0. ); o.v( Vector< double, 3 >( u() ) ); }
		else { Math::Random::Quaternion< double >::Uniform u; Math::Quaternion q = u(); o.d( std::sqrt( q.x() * q.x() + q.y() * q.y() + q.z() * q.z() + q.w() * q.w() ) ); }
	};
	return H.run();
}
