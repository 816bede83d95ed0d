// Projective geometry against Camera.tla.
#include "vh.h"
#include <utAlgorithm/Projection.h>
#include <utAlgorithm/Homography.h>
#include <utAlgorithm/FundamentalMatrix.h>
#include <utAlgorithm/3DPointReconstruction.h>
#include <utMath/Geometry/PointProjection.h>
#include <utMath/Geometry/PointTransformation.h>
#include <utMath/Geometry/PointNormalization.h>
#include <utMath/Pose.h>
using namespace Ubitrack;
namespace ublas = boost::numeric::ublas;
template< class T, std::size_t N > std::vector< Math::Vector< T, N > > list( vh::In& in, int n )
{
	std::vector< Math::Vector< T, N > > r;
	for ( int k = 0; k < n; ++k ) { Math::Vector< T, N > v; for ( std::size_t i = 0; i < N; ++i ) v( i ) = (T)in.d(); r.push_back( v ); }
	return r;
}
template< class T, std::size_t M, std::size_t N > Math::Matrix< T, M, N > mat( vh::In& in ) { Math::Matrix< T, M, N > m; for ( std::size_t i = 0; i < M; ++i ) for ( std::size_t j = 0; j < N; ++j ) m( i, j ) = (T)in.d(); return m; }
template< class M > void rel( vh::Out& o, const M& m, int i, int j ) { for ( std::size_t r = 0; r < 3; ++r ) for ( std::size_t c = 0; c < 3; ++c ) o.d( m( r, c ) / m( i, j ) ); }
static Math::Pose pose( vh::In& in ) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); Math::Quaternion q( x, y, z, w ); return Math::Pose( q, list< double, 3 >( in, 1 )[ 0 ] ); }
template< class T, std::size_t M, std::size_t N, std::size_t L > void apply( vh::In& in, vh::Out& o, int n )
{
	Math::Matrix< T, M, N > m = mat< T, M, N >( in ); std::vector< Math::Vector< T, L > > v = list< T, L >( in, n ); std::vector< Math::Vector< T, M > > r;
	Math::Geometry::transform_points( m, v.begin(), v.end(), std::back_inserter( r ) );
	if ( r.size() != v.size() ) throw std::runtime_error( "size" );
	std::vector< Math::Vector< T, M > > s( v.size() ); Math::Geometry::transform_points( m, v.begin(), v.end(), s.begin() );
	for ( std::size_t i = 0; i < r.size(); ++i ) { if ( ublas::norm_2( r[ i ] - s[ i ] ) > 0 ) throw std::runtime_error( "differs" ); o.v( r[ i ] ); }
}
template< class T, std::size_t N, std::size_t L > void project( vh::In& in, vh::Out& o, int n )
{
	Math::Matrix< T, 3, N > m = mat< T, 3, N >( in ); std::vector< Math::Vector< T, L > > v = list< T, L >( in, n ); std::vector< Math::Vector< T, 2 > > r;
	Math::Geometry::project_points( m, v.begin(), v.end(), std::back_inserter( r ) );
	if ( r.size() != v.size() ) throw std::runtime_error( "size" );
	for ( std::size_t i = 0; i < r.size(); ++i ) { Math::Vector< T, 2 > s = Math::Geometry::ProjectPoint()( m, v[ i ] ); if ( ublas::norm_2( r[ i ] - s ) > 0 ) throw std::runtime_error( "differs" ); o.v( r[ i ] ); }
}
template< class T > void ops( vh::Harness& H, const std::string& f )
{
	typedef Math::Vector< T, 2 > V2; typedef Math::Vector< T, 3 > V3; typedef Math::Matrix< T, 3, 3 > M3; typedef Math::Matrix< T, 3, 4 > M34;
	H[ "dlt" + f ] = []( vh::In& in, vh::Out& o ) { int n = in.i(); std::vector< V3 > a = list< T, 3 >( in, n ); std::vector< V2 > b = list< T, 2 >( in, n ); o.m( Algorithm::projectionDLT( a, b ) ); };
	H[ "decomp" + f ] = []( vh::In& in, vh::Out& o ) { M34 p = mat< T, 3, 4 >( in ); M3 k, r; V3 t; Algorithm::decomposeProjection( k, r, t, p ); o.m( k ).m( r ).v( t ); };
	auto gl = []( vh::Out& o, const Math::Matrix< T, 4, 4 >& g, const V3& x ) { Math::Vector< T, 4 > h( x( 0 ), x( 1 ), x( 2 ), 1 ), c = ublas::prod( g, h ); o.d( c( 0 ) / c( 3 ) ).d( c( 1 ) / c( 3 ) ).d( c( 2 ) / c( 3 ) ).d( c( 3 ) ); };
	H[ "gl" + f ] = [gl]( vh::In& in, vh::Out& o ) { T v[ 6 ]; for ( T& x : v ) x = (T)in.d(); M34 p = mat< T, 3, 4 >( in ); gl( o, Algorithm::projectionMatrixToOpenGL( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ], p ), list< T, 3 >( in, 1 )[ 0 ] ); };
	H[ "gl3" + f ] = [gl]( vh::In& in, vh::Out& o ) { T v[ 6 ]; for ( T& x : v ) x = (T)in.d(); M3 p = mat< T, 3, 3 >( in ); gl( o, Algorithm::projectionMatrixToOpenGL( v[ 0 ], v[ 1 ], v[ 2 ], v[ 3 ], v[ 4 ], v[ 5 ], p ), list< T, 3 >( in, 1 )[ 0 ] ); };
	H[ "origin" + f ] = []( vh::In& in, vh::Out& o ) { int g = in.i(), h = in.i(); M3 k = mat< T, 3, 3 >( in ); Algorithm::correctOrigin( k, g, h ); o.m( k ); };
	H[ "homo" + f ] = []( vh::In& in, vh::Out& o ) { int i = in.i(), j = in.i(), n = in.i(); std::vector< V2 > a = list< T, 2 >( in, n ), b = list< T, 2 >( in, n ); rel( o, Algorithm::homographyDLT( a, b ), i, j ); };
	H[ "square" + f ] = []( vh::In& in, vh::Out& o ) { int i = in.i(), j = in.i(); std::vector< V2 > a = list< T, 2 >( in, 4 ); rel( o, Algorithm::squareHomography( a ), i, j ); };
	H[ "fmat" + f ] = []( vh::In& in, vh::Out& o ) {
		int i = in.i(), j = in.i(), st = in.i(), n = in.i(); std::vector< V2 > a = list< T, 2 >( in, n ), b = list< T, 2 >( in, n ); M3 r = Algorithm::getFundamentalMatrix( a, b, st );
		rel( o, r, i, j ); };
	H[ "tri2" + f ] = []( vh::In& in, vh::Out& o ) { M34 p = mat< T, 3, 4 >( in ), q = mat< T, 3, 4 >( in ); V2 a = list< T, 2 >( in, 1 )[ 0 ], b = list< T, 2 >( in, 1 )[ 0 ]; o.v( Algorithm::get3DPosition( p, q, a, b ) ); };
	for ( int flag = 0; flag < 2; ++flag ) H[ ( flag ? "triopt" : "trin" ) + f ] = [flag]( vh::In& in, vh::Out& o ) { int n = in.i(); std::vector< M34 > p; for ( int i = 0; i < n; ++i ) p.push_back( mat< T, 3, 4 >( in ) ); o.v( Algorithm::get3DPosition( p, list< T, 2 >( in, n ), flag ) ); };
	H[ "trione" + f ] = []( vh::In& in, vh::Out& o ) { std::size_t n = in.i(); o.v( Algorithm::get3DPosition( std::vector< M34 >( n, M34::zeros() ), std::vector< V2 >( n, V2( 1, 2 ) ), 0 ) ); };
	H[ "trimis" + f ] = []( vh::In& in, vh::Out& o ) { std::size_t n = in.i(); o.v( Algorithm::get3DPosition( std::vector< M34 >( 2 + n, M34::zeros() ), std::vector< V2 >( 3 - n, V2( 1, 2 ) ), 0 ) ); };
	H[ "fstep" + f ] = []( vh::In& in, vh::Out& o ) { std::vector< V2 > a( 9, V2( 1, 2 ) ); o.m( Algorithm::getFundamentalMatrix( a, a, 0 ) ); };
	H[ "fmis" + f ] = []( vh::In& in, vh::Out& o ) { int n = in.i(); std::vector< V2 > a( 9 + n, V2( 1, 2 ) ), b( 10 - n, V2( 1, 2 ) ); o.m( Algorithm::getFundamentalMatrix( a, b, 1 ) ); };
	H[ "ffew" + f ] = []( vh::In& in, vh::Out& o ) { int n = in.i(); std::vector< V2 > a( 7 - n, V2( 1, 2 ) ); o.m( Algorithm::getFundamentalMatrix( a, a, 1 ) ); };
	H[ "dist" + f ] = []( vh::In& in, vh::Out& o ) { M3 m = mat< T, 3, 3 >( in ); V2 a = list< T, 2 >( in, 1 )[ 0 ], b = list< T, 2 >( in, 1 )[ 0 ]; o.d( Algorithm::pointToPointDist( a, b, m ) ); };
	H[ "dist3" + f ] = []( vh::In& in, vh::Out& o ) { M3 m = mat< T, 3, 3 >( in ); V2 a = list< T, 2 >( in, 1 )[ 0 ], b = list< T, 2 >( in, 1 )[ 0 ]; o.d( Algorithm::pointToPointDist( V3( a( 0 ), a( 1 ), 1 ), V3( b( 0 ), b( 1 ), 1 ), m ) ); };
	H[ "distobj" + f ] = []( vh::In& in, vh::Out& o ) { M3 m = mat< T, 3, 3 >( in ); V2 a = list< T, 2 >( in, 1 )[ 0 ], b = list< T, 2 >( in, 1 )[ 0 ]; o.d( Algorithm::EvaluateFundamentalMatrix< T >()( m, a, b ) ); };
	H[ "recon" + f ] = []( vh::In& in, vh::Out& o ) {
		int n = in.i(), k = in.i(); std::vector< V2 > a = list< T, 2 >( in, n ), b = list< T, 2 >( in, k ); M34 p = mat< T, 3, 4 >( in ), q = mat< T, 3, 4 >( in ); M3 m = mat< T, 3, 3 >( in );
		std::vector< V3 > r = Algorithm::reconstruct3DPoints( a, b, p, q, m ); o.i( r.size() ); for ( std::size_t i = 0; i < r.size(); ++i ) o.v( r[ i ] ); };
	H[ "apply" + f ] = []( vh::In& in, vh::Out& o ) {
		int r = in.i(), c = in.i(), l = in.i(), n = in.i();
		switch ( r * 100 + c * 10 + l )
		{
		case 232: apply< T, 2, 3, 2 >( in, o, n ); break; case 233: apply< T, 2, 3, 3 >( in, o, n ); break;
		case 332: apply< T, 3, 3, 2 >( in, o, n ); break; case 333: apply< T, 3, 3, 3 >( in, o, n ); break;
		case 342: apply< T, 3, 4, 2 >( in, o, n ); break; case 343: apply< T, 3, 4, 3 >( in, o, n ); break; case 344: apply< T, 3, 4, 4 >( in, o, n ); break;
		case 442: apply< T, 4, 4, 2 >( in, o, n ); break; case 443: apply< T, 4, 4, 3 >( in, o, n ); break; case 444: apply< T, 4, 4, 4 >( in, o, n ); break;
		} };
	H[ "project" + f ] = []( vh::In& in, vh::Out& o ) {
		int c = in.i(), l = in.i(), n = in.i();
		switch ( c * 10 + l ) { case 32: project< T, 3, 2 >( in, o, n ); break; case 42: project< T, 4, 2 >( in, o, n ); break; case 43: project< T, 4, 3 >( in, o, n ); break; case 44: project< T, 4, 4 >( in, o, n ); break; } };
	H[ "norm" + f ] = []( vh::In& in, vh::Out& o ) {
		int n = in.i(); T off = (T)in.d(); std::vector< V3 > p = list< T, 3 >( in, n ); for ( V3& v : p ) v += V3( off, off, off );
		V3 sh, sc; Math::Geometry::estimateNormalizationParameters( p.begin(), p.end(), sh, sc );
		for ( int i = 0; i < 3; ++i ) o.d( sh( i ) - off );
		for ( int i = 0; i < 3; ++i ) o.d( sc( i ) * sc( i ) );
		Math::Matrix< T, 4, 4 > a = Math::Geometry::generateNormalizationMatrix( sh, sc, false ), b = Math::Geometry::generateNormalizationMatrix( sh, sc, true ); o.m( Math::Matrix< T, 4, 4 >( ublas::prod( a, b ) ) );
		Math::Vector< T, 4 > s = Math::Vector< T, 4 >::zeros(); for ( V3& v : p ) s += ublas::prod( a, Math::Vector< T, 4 >( v( 0 ), v( 1 ), v( 2 ), 1 ) );
		for ( int i = 0; i < 3; ++i ) o.d( s( i ) / n );
	};
}
int main()
{
	std::cerr.setstate( std::ios::failbit );
	vh::Harness H;
	ops< double >( H, "" ); ops< float >( H, "f" );
	H[ "offaxis" ] = []( vh::In& in, vh::Out& o ) {
		std::vector< Math::Vector< double, 3 > > c = list< double, 3 >( in, 4 ); double n = in.d(), f = in.d(), w = in.d(), h = in.d(); Math::Vector< double, 3 > x = list< double, 3 >( in, 1 )[ 0 ];
		Math::Matrix< double, 4, 4 > m = Algorithm::offAxisProjectionMatrix( c[ 0 ], c[ 1 ], c[ 2 ], c[ 3 ], n, f, w, h ); Math::Vector< double, 4 > p = ublas::prod( m, Math::Vector< double, 4 >( x( 0 ), x( 1 ), x( 2 ), 1 ) );
		o.d( p( 0 ) / p( 3 ) ).d( p( 1 ) / p( 3 ) ).d( p( 2 ) / p( 3 ) ).d( p( 3 ) ); };
	H[ "fpose" ] = []( vh::In& in, vh::Out& o ) { int i = in.i(), j = in.i(); Math::Matrix< double, 3, 3 > k = mat< double, 3, 3 >( in ); Math::Pose p = pose( in ); Math::Matrix< double, 3, 3 > l = mat< double, 3, 3 >( in ); Math::Pose q = pose( in ); rel( o, Algorithm::fundamentalMatrixFromPoses( p, q, k, l ), i, j ); };
	H[ "epose" ] = []( vh::In& in, vh::Out& o ) {
		Math::Matrix< double, 3, 3 > f = mat< double, 3, 3 >( in ); Math::Vector< double, 2 > x = list< double, 2 >( in, 1 )[ 0 ], y = list< double, 2 >( in, 1 )[ 0 ]; Math::Matrix< double, 3, 3 > k = mat< double, 3, 3 >( in ), l = mat< double, 3, 3 >( in );
		Math::Pose p = Algorithm::poseFromFundamentalMatrix( f, x, y, k, l ); o.q( p.rotation() ).v( p.translation() ); };
	H[ "trires" ] = []( vh::In& in, vh::Out& o ) { int n = in.i(); std::vector< Math::Matrix< double, 3, 4 > > p; for ( int i = 0; i < n; ++i ) p.push_back( mat< double, 3, 4 >( in ) ); double r = -1; o.v( Algorithm::get3DPositionWithResidual( p, list< double, 2 >( in, n ), 1, &r ) ).d( r ); };
	return H.run();
}
