// Registration of point sets, tool tips and hand-eye pairs against Align.tla, Tip.tla and HandEye.tla.
#include "vh.h"
#include <utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h>
#include <utAlgorithm/PoseEstimation3D3D/ErrorEstimation.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/PoseEstimation3D3D/Ransac.h>
#include <utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h>
#include <utAlgorithm/ToolTip/TipCalibration.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include <utAlgorithm/ToolTip/Ransac.h>
#include <utAlgorithm/PoseEstimation6D6D/TsaiLenz.h>
#include <utAlgorithm/PoseEstimation6D6D/DualQuaternion.h>
#include <utAlgorithm/PoseEstimation6D6D/DataSelection.h>
#include <utAlgorithm/OnlineRotHec.h>
#include <utAlgorithm/RotationHecKalmanFilter.h>
#include <utMath/Optimization/Ransac.h>
using namespace Ubitrack;
namespace A3 = Algorithm::PoseEstimation3D3D;
namespace TT = Algorithm::ToolTip;
namespace A6 = Algorithm::PoseEstimation6D6D;
typedef Math::Vector< double, 3 > V3;
typedef Math::Vector< float, 3 > F3;
static V3 rv( vh::In& in ) { return in.vec< V3 >( 3 ); }
static Math::Quaternion rq( vh::In& in ) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); return Math::Quaternion( x, y, z, w ); }
static F3 f3( const V3& v ) { return F3( (float)v( 0 ), (float)v( 1 ), (float)v( 2 ) ); }
struct NoOut { std::streambuf* b; NoOut() : b( std::cout.rdbuf( 0 ) ) {} ~NoOut() { std::cout.rdbuf( b ); } };

int main()
{
	std::cerr.setstate( std::ios::failbit );
	NoOut quiet;
	vh::Harness H;
	std::vector< V3 > a, b; std::vector< F3 > fa, fb; std::vector< Math::Pose > ps, hand, eye;
	std::string mode;
	H.reset = [&]{ a.clear(); b.clear(); fa.clear(); fb.clear(); ps.clear(); hand.clear(); eye.clear(); };
	H[ "new" ] = [&]( vh::In&, vh::Out& ) { H.reset(); };
	H[ "add" ] = [&]( vh::In& in, vh::Out& ) {
		if ( in.t.size() == 15 ) { Math::Quaternion q = rq( in ); V3 t = rv( in ); hand.push_back( Math::Pose( q, t ) ); q = rq( in ); t = rv( in ); eye.push_back( Math::Pose( q, t ) ); return; }
		int n = in.i();
		bool points = (int)in.t.size() == 2 + 6 * n;
		for ( int i = 0; i < n; ++i )
			if ( points ) { a.push_back( rv( in ) ); b.push_back( rv( in ) ); fa.push_back( f3( a.back() ) ); fb.push_back( f3( b.back() ) ); }
			else { Math::Quaternion q = rq( in ); V3 t = rv( in ); ps.push_back( Math::Pose( q, t ) ); }
	};
	auto out = [&]( vh::Out& o, bool ok, const Math::Pose& p ) { if ( !ok ) throw std::runtime_error( "refused" ); o.q( p.rotation() ).v( p.translation() ); };
	H[ "pose" ] = [&]( vh::In&, vh::Out& o ) { Math::Pose p; bool ok = A3::estimatePose6D_3D3D( a, p, b ); out( o, ok, p ); };
	H[ "posef" ] = [&]( vh::In&, vh::Out& o ) { Math::Pose p; bool ok = A3::estimatePose6D_3D3D( fa, p, fb ); out( o, ok, p ); };
	H[ "abs" ] = [&]( vh::In&, vh::Out& o ) { Math::Pose p; A3::EstimateAbsoluteOrientation< double >()( p, b, a ); out( o, true, p ); };
	H[ "rotm" ] = [&]( vh::In&, vh::Out& o ) { Math::Matrix< double, 3, 3 > m; if ( !A3::estimateRotation_3D3D( a, m, b ) ) throw std::runtime_error( "refused" ); o.m( m ); };
	H[ "rotmf" ] = [&]( vh::In&, vh::Out& o ) { Math::Matrix< float, 3, 3 > m; if ( !A3::estimateRotation_3D3D( fa, m, fb ) ) throw std::runtime_error( "refused" ); o.m( m ); };
	H[ "rotq" ] = [&]( vh::In&, vh::Out& o ) { Math::Quaternion q; if ( !A3::estimateRotation_3D3D( a, q, b ) ) throw std::runtime_error( "refused" ); o.q( q ); };
	H[ "rotqf" ] = [&]( vh::In&, vh::Out& o ) { Math::Quaternion q; if ( !A3::estimateRotation_3D3D( fa, q, fb ) ) throw std::runtime_error( "refused" ); o.q( q ); };
	H[ "scale" ] = [&]( vh::In&, vh::Out& o ) { o.d( A3::estimateScale_3D3D( a, b ) ).d( A3::estimateScale_3D3D( fa, fb ) ); };
	H[ "residual" ] = [&]( vh::In& in, vh::Out& o ) { Math::Quaternion q = rq( in ); Math::Pose p( q, rv( in ) ); o.d( A3::estimatePose6DResidual< double >( a.begin(), a.end(), p, b.begin(), b.end() ) ); };
	H[ "opt" ] = [&]( vh::In& in, vh::Out& o ) { Math::Quaternion q = rq( in ); Math::Pose p( q, rv( in ) ); bool ok = A3::estimatePose6D_3D3D( a, p, b, Math::Optimization::OptTerminate( 20, 0 ) ); out( o, ok, p ); };
	H[ "cov" ] = [&]( vh::In& in, vh::Out& o ) {
		Math::Quaternion q = rq( in ); Math::Pose p( q, rv( in ) ); int n = in.i(); std::vector< V3 > ca, cb;
		for ( int i = 0; i < n; ++i ) { ca.push_back( rv( in ) ); cb.push_back( rv( in ) ); }
		Math::Matrix< double, 6, 6 > c; if ( !A3::estimatePose6DCovariance( ca.begin(), ca.end(), p, cb.begin(), cb.end(), c ) ) throw std::runtime_error( "refused" ); o.m( c ); };
	H[ "ransac" ] = [&]( vh::In& in, vh::Out& o ) { int m = in.i(), s = in.i(); Math::Pose p; bool ok = A3::estimatePose6D_3D3D( a, p, b, Math::Optimization::RansacParameter< double >( 0.1, s, m, std::size_t( 2000 ) ) ); o.i( ok ); if ( ok ) out( o, ok, p ); };
	H[ "ransacf" ] = [&]( vh::In& in, vh::Out& o ) { int m = in.i(), s = in.i(); Math::Pose p; bool ok = A3::estimatePose6D_3D3D( fa, p, fb, Math::Optimization::RansacParameter< float >( 0.1f, s, m, std::size_t( 2000 ) ) ); o.i( ok ); if ( ok ) out( o, ok, p ); };
	H[ "ransacold" ] = [&]( vh::In& in, vh::Out& o ) {
		int m = in.i(), s = in.i(); Math::Pose p; std::vector< bool > in2;
		std::size_t k = Math::Optimization::ransac( p, b, a, 0.1, s + 1, m, 3, 3000, A3::EstimateAbsoluteOrientation< double >(), A3::EvaluateAbsoluteOrientation< double >(), &in2 );
		o.i( k ); if ( !k ) return; for ( std::size_t i = 0; i < in2.size(); ++i ) o.i( in2[ i ] ); out( o, true, p ); };
	// tool tip
	H[ "ttip" ] = [&]( vh::In&, vh::Out& o ) { V3 m, w; if ( !TT::estimatePosition3D_6D( w, ps, m ) ) throw std::runtime_error( "refused" ); o.v( m ).v( w ); };
	H[ "ttipf" ] = [&]( vh::In&, vh::Out& o ) { F3 m, w; if ( !TT::estimatePosition3D_6D( w, ps, m ) ) throw std::runtime_error( "refused" ); o.v( m ).v( w ); };
	H[ "tcal" ] = [&]( vh::In&, vh::Out& o ) { V3 m, w; TT::tipCalibration( ps, m, w ); o.v( m ).v( w ); };
	H[ "topt" ] = [&]( vh::In&, vh::Out& o ) { V3 m, w; if ( !TT::estimatePosition3D_6D( w, ps, m, Math::Optimization::OptTerminate( 100, 1e-9 ) ) ) throw std::runtime_error( "refused" ); o.v( m ).v( w ); };
	H[ "toptf" ] = [&]( vh::In&, vh::Out& o ) { F3 m, w; if ( !TT::estimatePosition3D_6D( w, ps, m, Math::Optimization::OptTerminate( 100, 1e-9 ) ) ) throw std::runtime_error( "refused" ); o.v( m ).v( w ); };
	H[ "terr" ] = [&]( vh::In& in, vh::Out& o ) { V3 w = rv( in ), m = rv( in ); std::pair< double, double > e = TT::estimatePosition3DError_6D( w, ps, m ); o.d( e.first ).d( e.second ); };
	H[ "transac" ] = [&]( vh::In& in, vh::Out& o ) { int k = in.i(), s = in.i(); V3 m, w; bool ok = TT::estimatePosition3D_6D( w, ps, m, Math::Optimization::RansacParameter< double >( 0.1, s, k, std::size_t( 2000 ) ) ); o.i( ok ); if ( ok ) o.v( m ).v( w ); };
	H[ "transacf" ] = [&]( vh::In& in, vh::Out& o ) { int k = in.i(), s = in.i(); F3 m, w; bool ok = TT::estimatePosition3D_6D( w, ps, m, Math::Optimization::RansacParameter< float >( 0.1f, s, k, std::size_t( 2000 ) ) ); o.i( ok ); if ( ok ) o.v( m ).v( w ); };
	// hand-eye
	auto mats = [&]( const std::vector< Math::Pose >& l ) { std::vector< Math::Matrix< double, 4, 4 > > r; for ( auto& p : l ) r.push_back( Math::Matrix< double, 4, 4 >( p ) ); return r; };
	auto matsf = [&]( const std::vector< Math::Pose >& l ) { std::vector< Math::Matrix< float, 4, 4 > > r; for ( auto& p : l ) { Math::Matrix< double, 4, 4 > d( p ); Math::Matrix< float, 4, 4 > m; for ( int i = 0; i < 4; ++i ) for ( int j = 0; j < 4; ++j ) m( i, j ) = (float)d( i, j ); r.push_back( m ); } return r; };
	H[ "tsai" ] = [&]( vh::In& in, vh::Out& o ) {
		std::string k = in.s(); bool all = in.i();
		out( o, true, k == "pose" ? A6::performHandEyeCalibration( hand, eye, all ) : k == "mat" ? A6::performHandEyeCalibration( mats( hand ), mats( eye ), all ) : A6::performHandEyeCalibration( matsf( hand ), matsf( eye ), all ) ); };
	H[ "tsaibad" ] = [&]( vh::In& in, vh::Out& o ) {
		std::string k = in.s(); std::vector< Math::Pose > h( hand ); h.pop_back();
		out( o, true, k == "pose" ? A6::performHandEyeCalibration( h, eye ) : A6::performHandEyeCalibration( mats( h ), mats( eye ) ) ); };
	H[ "dual" ] = [&]( vh::In& in, vh::Out& o ) {
		std::string k = in.s(); Math::Pose p; bool ok;
		if ( k == "poses" ) ok = A6::estimatePose6D_6D6D( hand, p, eye );
		else { std::vector< Math::Vector< double, 8 > > h, e; A6::generate_relative_6DPoses( hand, h, true ); A6::generate_relative_6DPoses( eye, e, false ); ok = A6::estimatePose6D_6D6D( h, p, e ); }
		o.i( ok ); out( o, ok, p ); };
	H[ "rel" ] = [&]( vh::In& in, vh::Out& o ) {
		int d = in.i(), i = in.i() - 1, j = in.i() - 1, n = eye.size(); std::vector< Math::Vector< double, 8 > > r; A6::generate_relative_6DPoses( eye, r, d );
		o.i( r.size() ); int k = 0; for ( int x = 0; x < i; ++x ) k += n - 1 - x; k += j - i - 1;
		// the translation of a dual quaternion (q, p) is 2 p q*
		const Math::Vector< double, 8 >& v = r.at( k );
		double qw = v( 0 ), qx = -v( 1 ), qy = -v( 2 ), qz = -v( 3 ), pw = v( 4 ), px = v( 5 ), py = v( 6 ), pz = v( 7 );
		o.d( v( 1 ) ).d( v( 2 ) ).d( v( 3 ) ).d( v( 0 ) ).d( 2 * ( pw*qx + px*qw + py*qz - pz*qy ) ).d( 2 * ( pw*qy - px*qz + py*qw + pz*qx ) ).d( 2 * ( pw*qz + px*qy - py*qx + pz*qw ) ); };
	auto motions = [&]( std::function< void( const Math::Quaternion&, const Math::Quaternion& ) > f ) {
		for ( int k = 0; k < 60; ++k ) for ( std::size_t i = 0; i < eye.size(); ++i ) for ( std::size_t j = i + 1; j < eye.size(); ++j )
			f( ~hand[ j ].rotation() * hand[ i ].rotation(), eye[ j ].rotation() * ~eye[ i ].rotation() ); };
	H[ "online" ] = [&]( vh::In&, vh::Out& o ) { Algorithm::OnlineRotHec h; motions( [&]( const Math::Quaternion& g, const Math::Quaternion& c ) { h.addMeasurement( g, c ); } ); o.q( h.computeResult() ); };
	H[ "kalman" ] = [&]( vh::In&, vh::Out& o ) { Algorithm::RotationHecKalmanFilter h; motions( [&]( const Math::Quaternion& g, const Math::Quaternion& c ) { h.addMeasurement( g, c ); } ); o.q( h.getResult() ); };
	return H.run();
}
