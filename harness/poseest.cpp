// Pose from images (one camera, several cameras, bundle adjustment) against PoseEst.tla.
#include "vh.h"
#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
#include <utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.h>
#include <utAlgorithm/MultipleCameraPoseOptimization.h>
#include <utAlgorithm/BundleAdjustment.h>
#include <utMath/MatrixOperations.h>
#include <utMath/Pose.h>
using namespace Ubitrack;
namespace ublas = boost::numeric::ublas;
namespace PE = Algorithm::PoseEstimation2D3D;
typedef Math::Vector< double, 2 > V2; typedef Math::Vector< double, 3 > V3; typedef Math::Matrix< double, 3, 3 > M3;
template< class T, std::size_t N > std::vector< Math::Vector< T, N > > list( vh::In& in, int n )
{
	std::vector< Math::Vector< T, N > > r;
	for ( int k = 0; k < n; ++k ) { Math::Vector< T, N > v; for ( std::size_t i = 0; i < N; ++i ) v( i ) = (T)in.d(); r.push_back( v ); }
	return r;
}
template< class T, std::size_t M, std::size_t N > Math::Matrix< T, M, N > mat( vh::In& in ) { Math::Matrix< T, M, N > m; for ( std::size_t i = 0; i < M; ++i ) for ( std::size_t j = 0; j < N; ++j ) m( i, j ) = (T)in.d(); return m; }
static Math::Pose pose( vh::In& in ) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); Math::Quaternion q( x, y, z, w ); return Math::Pose( q, list< double, 3 >( in, 1 )[ 0 ] ); }
static Math::Pose nudged( const Math::Pose& p, const V3& t, const V3& r )
{ double n = std::sqrt( 1 + ublas::inner_prod( r, r ) ); return Math::Pose( Math::Quaternion( p.rotation() * Math::Quaternion( r( 0 ) / n, r( 1 ) / n, r( 2 ) / n, 1 / n ) ), p.translation() + t ); }
// own arithmetic: the image of a point, the error of a pose, the inverse of a matrix
static void rotate( const Math::Pose& p, const double* a, double* y )
{
	double q[ 4 ] = { p.rotation().x(), p.rotation().y(), p.rotation().z(), p.rotation().w() }, u[ 3 ];
	u[ 0 ] = q[ 1 ] * a[ 2 ] - q[ 2 ] * a[ 1 ] + q[ 3 ] * a[ 0 ]; u[ 1 ] = q[ 2 ] * a[ 0 ] - q[ 0 ] * a[ 2 ] + q[ 3 ] * a[ 1 ]; u[ 2 ] = q[ 0 ] * a[ 1 ] - q[ 1 ] * a[ 0 ] + q[ 3 ] * a[ 2 ];
	y[ 0 ] = a[ 0 ] + 2 * ( q[ 1 ] * u[ 2 ] - q[ 2 ] * u[ 1 ] ) + p.translation()( 0 ); y[ 1 ] = a[ 1 ] + 2 * ( q[ 2 ] * u[ 0 ] - q[ 0 ] * u[ 2 ] ) + p.translation()( 1 ); y[ 2 ] = a[ 2 ] + 2 * ( q[ 0 ] * u[ 1 ] - q[ 1 ] * u[ 0 ] ) + p.translation()( 2 );
}
template< class T, class M > double error( const Math::Pose& p, const std::vector< Math::Vector< T, 3 > >& x, const std::vector< Math::Vector< T, 2 > >& im, const M& k )
{
	double e = 0;
	for ( std::size_t i = 0; i < x.size(); ++i )
	{
		double a[ 3 ] = { x[ i ]( 0 ), x[ i ]( 1 ), x[ i ]( 2 ) }, y[ 3 ], h[ 3 ]; rotate( p, a, y );
		for ( int r = 0; r < 3; ++r ) h[ r ] = k( r, 0 ) * y[ 0 ] + k( r, 1 ) * y[ 1 ] + k( r, 2 ) * y[ 2 ];
		double dx = h[ 0 ] / h[ 2 ] - im[ i ]( 0 ), dy = h[ 1 ] / h[ 2 ] - im[ i ]( 1 ); e += dx * dx + dy * dy;
	}
	return e;
}
template< class M > void inverse( vh::Out& o, const M& m, double scale )
{
	long double a[ 6 ][ 12 ];
	for ( int i = 0; i < 6; ++i ) for ( int j = 0; j < 12; ++j ) a[ i ][ j ] = j < 6 ? (long double)m( i, j ) / scale : j - 6 == i;
	for ( int c = 0; c < 6; ++c )
	{
		int p = c; for ( int r = c; r < 6; ++r ) if ( std::fabs( a[ r ][ c ] ) > std::fabs( a[ p ][ c ] ) ) p = r;
		std::swap( a[ c ], a[ p ] );
		for ( int r = 0; r < 6; ++r ) if ( r != c ) { long double f = a[ r ][ c ] / a[ c ][ c ]; for ( int j = 0; j < 12; ++j ) a[ r ][ j ] -= f * a[ c ][ j ]; }
	}
	for ( int i = 0; i < 6; ++i ) for ( int j = 6; j < 12; ++j ) o.d( (double)( a[ i ][ j ] / a[ i ][ i ] ) );
}
template< class T > void ops( vh::Harness& H, const std::string& f )
{
	typedef Math::Vector< T, 2 > U2; typedef Math::Vector< T, 3 > U3; typedef Math::Matrix< T, 3, 3 > N3; typedef Math::Matrix< T, 3, 4 > N34;
	H[ "hpose" + f ] = []( vh::In& in, vh::Out& o ) { N3 k = mat< T, 3, 3 >( in ), h = mat< T, 3, 3 >( in ); Math::Pose p = PE::poseFromHomography( h, N3( Math::invert_matrix( k ) ) ); o.q( p.rotation() ).v( p.translation() ); };
	H[ "opt" + f ] = []( vh::In& in, vh::Out& o ) {
		int it = in.i(), noise = in.i(), n = in.i(); N3 k = mat< T, 3, 3 >( in ); Math::Pose p = pose( in ); V3 t = list< double, 3 >( in, 1 )[ 0 ], r = list< double, 3 >( in, 1 )[ 0 ];
		std::vector< U3 > x = list< T, 3 >( in, n ); std::vector< U2 > im = list< T, 2 >( in, n );
		if ( noise ) for ( int i = 0; i < n; ++i ) { im[ i ]( 0 ) += ( ( i * i ) % 7 - 3 ) / T( 100 ); im[ i ]( 1 ) += ( ( i * 5 + 1 ) % 7 - 3 ) / T( 100 ); }
		Math::Pose s = nudged( p, t, r ); double before = error( s, x, im, k ); double res = PE::optimizePose( s, im, x, k, it ); double after = error( s, x, im, k );
		const double eps = sizeof( T ) == 4 ? 1e-4 : 1e-9;
		o.i( after <= before * ( 1 + eps ) + eps ).i( std::fabs( res - after ) <= eps * ( 1 + after ) ).q( s.rotation() ).v( s.translation() ); };
	H[ "lu" + f ] = []( vh::In& in, vh::Out& o ) {
		int n = in.i(); std::vector< U3 > x = list< T, 3 >( in, n ); std::vector< U2 > im = list< T, 2 >( in, n ); Math::Pose p; std::size_t it = 5000; T e = sizeof( T ) == 4 ? T( 1e-6 ) : T( 1e-13 );
		bool c = PE::estimatePose6D_2D3D( im, p, x, it, e ); o.i( c && it < 5000 ).q( p.rotation() ).v( p.translation() ); };
	H[ "cov1" + f ] = []( vh::In& in, vh::Out& o ) { int n = in.i(), s = in.i(); N3 k = mat< T, 3, 3 >( in ); Math::Pose p = pose( in ); std::vector< U3 > x = list< T, 3 >( in, n ); inverse( o, PE::singleCameraPoseError( p, x, k, T( s ) / 100 ), s / 100. ); };
	H[ "cov2" + f ] = []( vh::In& in, vh::Out& o ) {
		int n = in.i(), nc = in.i(), no = in.i(), s = in.i(); Math::Pose p = pose( in ); std::vector< U3 > x = list< T, 3 >( in, n ); std::vector< N34 > c; for ( int i = 0; i < nc; ++i ) c.push_back( mat< T, 3, 4 >( in ) );
		std::vector< std::pair< std::size_t, std::size_t > > obs; for ( int i = 0; i < no; ++i ) { int a = in.i(), b = in.i(); obs.push_back( std::make_pair( a, b ) ); }
		inverse( o, PE::multipleCameraPoseError( p, x, c, obs, T( s ) / 100 ), s / 100. ); };
	H[ "bundle" + f ] = []( vh::In& in, vh::Out& o ) {
		int nc = in.i(), n = in.i(); std::vector< U3 > x = list< T, 3 >( in, n ); { std::vector< U3 > dx = list< T, 3 >( in, n ); for ( int i = 0; i < n; ++i ) x[ i ] += dx[ i ]; }
		std::vector< Math::Pose > ps; std::vector< std::vector< U2 > > im;
		for ( int c = 0; c < nc; ++c ) { Math::Pose p = pose( in ); V3 r = list< double, 3 >( in, 1 )[ 0 ], t = list< double, 3 >( in, 1 )[ 0 ]; ps.push_back( nudged( p, t, r ) ); im.push_back( list< T, 2 >( in, n ) ); }
		double before = 0, after = 0; M3 one = M3::identity();
		for ( int c = 0; c < nc; ++c ) before += error( ps[ c ], x, im[ c ], one );
		Algorithm::simpleBundleAdjustment( im, ps, x );
		for ( int c = 0; c < nc; ++c ) after += error( ps[ c ], x, im[ c ], one );
		o.i( after <= before + 1e-7 ).d( std::sqrt( after ) ); for ( int i = 0; i < n; ++i ) o.v( x[ i ] ); for ( int c = 0; c < nc; ++c ) o.q( ps[ c ].rotation() ).v( ps[ c ].translation() ); };
}
int main()
{
	std::cerr.setstate( std::ios::failbit );
	vh::Harness H;
	ops< double >( H, "" ); ops< float >( H, "f" );
	H[ "pose" ] = []( vh::In& in, vh::Out& o ) {
		bool opt = in.i() != 0; int meth = in.i(), n = in.i(); M3 k = mat< double, 3, 3 >( in ); std::vector< V3 > x = list< double, 3 >( in, n ); std::vector< V2 > im = list< double, 2 >( in, n ); double res = -1;
		Math::ErrorPose p = PE::computePose( im, x, k, res, opt, meth ? PE::NONPLANAR_PROJECTION : PE::PLANAR_HOMOGRAPHY );
		Math::ErrorPose p2 = PE::computePose( im, x, k, opt, meth ? PE::NONPLANAR_PROJECTION : PE::PLANAR_HOMOGRAPHY );
		if ( ublas::norm_2( p.translation() - p2.translation() ) > 1e-9 ) throw std::runtime_error( "differs" );
		double c = 0; for ( int i = 0; i < 6; ++i ) for ( int j = 0; j < 6; ++j ) c = std::max( c, std::isnan( p.covariance()( i, j ) ) ? 1e9 : std::fabs( p.covariance()( i, j ) ) );
		o.q( p.rotation() ).v( p.translation() ).d( res ).d( c ); };
	H[ "posefew" ] = []( vh::In& in, vh::Out& o ) { int n = in.i(); std::vector< V3 > x( n, V3( 1, 2, 3 ) ); std::vector< V2 > im( n, V2( 1, 2 ) ); o.v( PE::computePose( im, x, M3( M3::identity() ) ).translation() ); };
	H[ "posecol" ] = []( vh::In& in, vh::Out& o ) { std::vector< V3 > x = list< double, 3 >( in, 4 ); std::vector< V2 > im; im.push_back( V2( 1, 2 ) ); im.push_back( V2( 3, 1 ) ); im.push_back( V2( 0, 7 ) ); im.push_back( V2( 9, 4 ) ); o.v( PE::computePose( im, x, M3( M3::identity() ) ).translation() ); };
	H[ "noisy" ] = []( vh::In& in, vh::Out& o ) {
		int meth = in.i(), n = in.i(); M3 k = mat< double, 3, 3 >( in ); std::vector< V3 > x = list< double, 3 >( in, n ); std::vector< V2 > im = list< double, 2 >( in, n );
		double sc = std::fabs( k( 0, 0 ) ) / 2000; for ( int i = 0; i < n; ++i ) { im[ i ]( 0 ) += ( ( i * i ) % 7 - 3 ) * sc; im[ i ]( 1 ) += ( ( i * 5 + 1 ) % 7 - 3 ) * sc; }
		double e[ 2 ];
		for ( int opt = 0; opt < 2; ++opt )
		{
			double res = -1; Math::ErrorPose p = PE::computePose( im, x, k, res, opt != 0, meth ? PE::NONPLANAR_PROJECTION : PE::PLANAR_HOMOGRAPHY ); e[ opt ] = error( p, x, im, k );
			Math::Matrix< double, 6, 6 > c = PE::singleCameraPoseError( p, x, k, e[ opt ] ); double m = 0, d = 0; for ( int i = 0; i < 6; ++i ) for ( int j = 0; j < 6; ++j ) { m = std::max( m, std::fabs( c( i, j ) ) ); d = std::max( d, std::fabs( c( i, j ) - p.covariance()( i, j ) ) ); }
			o.i( std::fabs( res - std::sqrt( e[ opt ] / ( 2 * n ) ) ) <= 1e-6 * res ).i( d <= 1e-4 * m );
		}
		o.i( e[ 1 ] <= e[ 0 ] * ( 1 + 1e-9 ) ); };
	H[ "multi" ] = []( vh::In& in, vh::Out& o ) {
		int nb = in.i(), nc = in.i(), mn = in.i(), init = in.i(); V3 t = list< double, 3 >( in, 1 )[ 0 ], r = list< double, 3 >( in, 1 )[ 0 ]; std::vector< Math::Scalar< int > > sz; int n = 0; for ( int b = 0; b < nb; ++b ) { sz.push_back( in.i() ); n += sz.back(); }
		std::vector< V3 > x = list< double, 3 >( in, n ); std::vector< M3 > ks; std::vector< Math::Pose > cp; std::vector< std::vector< V2 > > im; std::vector< std::vector< Math::Scalar< double > > > w;
		for ( int c = 0; c < nc; ++c ) { ks.push_back( mat< double, 3, 3 >( in ) ); cp.push_back( pose( in ) ); im.push_back( list< double, 2 >( in, n ) ); std::vector< Math::Scalar< double > > s; for ( int i = 0; i < n; ++i ) s.push_back( in.d() ); w.push_back( s ); }
		std::vector< Math::ErrorPose > ps; std::vector< Math::Scalar< double > > pw;
		if ( nb == 1 ) { Math::ErrorPose p; Math::Scalar< double > q( -7 ); if ( init ) Algorithm::multipleCameraPoseEstimation( x, im, w, cp, ks, mn, p, q, true, nudged( pose( in ), t, r ) ); else Algorithm::multipleCameraPoseEstimation( x, im, w, cp, ks, mn, p, q ); ps.push_back( p ); pw.push_back( q ); }
		else Algorithm::multipleCameraPoseEstimationWithLocalBundles( x, im, w, cp, ks, mn, ps, pw, sz );
		if ( ps.size() != nb || pw.size() != nb ) throw std::runtime_error( "size" );
		for ( int b = 0; b < nb; ++b ) o.d( pw[ b ] ).q( ps[ b ].rotation() ).v( ps[ b ].translation() ); };
	H[ "multibad" ] = []( vh::In& in, vh::Out& o ) {
		std::string what = in.s(); int bundles = in.i(); int n = what == "few" ? 2 : 4;
		std::vector< V3 > x( n, V3( 1, 2, 3 ) ); std::vector< M3 > ks( 2, M3( M3::identity() ) ); std::vector< Math::Pose > cp( 2 ); std::vector< std::vector< V2 > > im( 2, std::vector< V2 >( n, V2( 1, 2 ) ) ); std::vector< std::vector< Math::Scalar< double > > > w( 2, std::vector< Math::Scalar< double > >( n, 0. ) );
		if ( what == "cams2d" ) im.pop_back(); if ( what == "camsw" ) w.push_back( w[ 0 ] ); if ( what == "camsp" ) cp.pop_back(); if ( what == "camsk" ) ks.push_back( ks[ 0 ] ); if ( what == "pts2d" ) im[ 1 ].pop_back(); if ( what == "ptsw" ) w[ 1 ].push_back( 0. );
		Math::ErrorPose p; Math::Scalar< double > q; std::vector< Math::ErrorPose > ps; std::vector< Math::Scalar< double > > pw; std::vector< Math::Scalar< int > > sz( 1, n );
		if ( bundles ) Algorithm::multipleCameraPoseEstimationWithLocalBundles( x, im, w, cp, ks, 0, ps, pw, sz ); else Algorithm::multipleCameraPoseEstimation( x, im, w, cp, ks, 0, p, q ); };
	return H.run();
}
