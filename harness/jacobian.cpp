// Replays Jacobian.tla behaviours: functions for optimisation and error propagation, with their derivatives.
#include "vh.h"
#include <cmath>
#include <vector>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/Pose.h>
#include <utMath/RotationVelocity.h>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/ublas/vector_proxy.hpp>
#include <boost/numeric/ublas/matrix_proxy.hpp>
using namespace Ubitrack;
typedef Math::Vector< double > VD;
typedef Math::Matrix< double > MD;
typedef Math::Vector< double, 2 > V2;
typedef Math::Vector< double, 3 > V3;
typedef Math::Vector< double, 4 > V4;
typedef Math::Matrix< double, 3, 3 > M3;
typedef Math::Matrix< double, 3, 4 > M34;

// the network that the bundle adjustment function works on is supplied by its user
namespace Ubitrack { namespace Algorithm {
template< class T > struct BundleAdjustmentNetwork
{
	struct FreePointMeasurement { std::size_t iCamera, iImage, iPoint; Math::Vector< T, 2 > measurement; };
	struct BodyPointMeasurement { std::size_t iCamera, iImage, iBody, iBodyPose, iPoint; Math::Vector< T, 2 > measurement; };
	typedef std::vector< Math::Vector< T, 3 > > PointsList;
	typedef std::vector< Math::Pose > PoseList;
	typedef std::vector< Math::Matrix< T, 3, 3 > > IntrinsicList;
	typedef std::vector< Math::Vector< T, 4 > > DistortionList;
	PointsList points; PoseList bodyPoses, images; IntrinsicList intrinsics; DistortionList distortions;
	std::vector< PointsList > bodies;
	std::vector< FreePointMeasurement > freePointMeasurements;
	std::vector< BodyPointMeasurement > bodyPointMeasurements;
	bool bEstimateIntrinsics;
};
} }

#include <utAlgorithm/Function/QuaternionRotation.h>
#include <utAlgorithm/Function/QuaternionRotationError.h>
#include <utAlgorithm/Function/LieRotation.h>
#include <utAlgorithm/Function/Dehomogenization.h>
#include <utAlgorithm/Function/ProjectivePoseNormalize.h>
#include <utAlgorithm/Function/SinglePointMultiProjection.h>
#include <utAlgorithm/Function/MultiplePointProjection.h>
#include <utAlgorithm/Function/MultiplePointProjectionError.h>
#include <utAlgorithm/Function/RadialDistortion.h>
#include <utAlgorithm/Function/MultipleCameraProjection.h>
#include <utAlgorithm/Function/MultipleCameraProjectionError.h>
#include <utAlgorithm/Function/MultipleCameraProjectionErrorART.h>
#include <utAlgorithm/Function/CameraIntrinsicsMultiplication.h>
#include <utAlgorithm/Function/BundleAdjustment.h>
#include <utAlgorithm/Function/RotHecFunction.h>
#include <utMath/Optimization/Function/LinearFunction.h>
#include <utMath/Optimization/Function/VectorNormalize.h>
#include <utMath/Optimization/Function/RotationVelocityIntegration.h>
#include <utMath/Optimization/Function/DiscreteJacobianApproximation.h>
#include <utTracking/Function/LinearTimeUpdate.h>
#include <utTracking/Function/QuaternionTimeUpdate.h>
#include <utTracking/Function/PoseTimeUpdate.h>
#include <utTracking/Function/InsideOutPoseTimeUpdate.h>
#include <utTracking/Function/InvertRotationVelocity.h>
// the functions that can be composed have the same include guards (in other namespaces)
#undef __UBITRACK_CALIBRATION_FUNCTION_DEHOMOGENIZATION_H_INCLUDED__
#undef __UBITRACK_CALIBRATION_FUNCTION_LIEROTATION_H_INCLUDED__
#undef __UBITRACK_CALIBRATION_FUNCTION_CAMERAINTRINSICSMULTIPLICATION_H_INCLUDED__
#include <utMath/Optimization/NewFunction/Function.h>
#include <utMath/Optimization/NewFunction/Addition.h>
#include <utMath/Optimization/NewFunction/Subtraction.h>
#include <utMath/Optimization/NewFunction/VectorNorm.h>
#include <utMath/Optimization/NewFunction/LinearTransformation.h>
#include <utMath/Optimization/NewFunction/Dehomogenization.h>
#include <utMath/Optimization/NewFunction/LieRotation.h>
#define CameraIntrinsicsMultiplication CameraIntrinsicsMultiplicationN // both are in the same namespace
#include <utAlgorithm/NewFunction/CameraIntrinsicsMultiplication.h>
#undef CameraIntrinsicsMultiplication

namespace F = Ubitrack::Algorithm::Function;
namespace O = Ubitrack::Math::Optimization::Function;
namespace N = Ubitrack::Math::Optimization::Function;
namespace TF = Ubitrack::Tracking::Function;
namespace ublas = boost::numeric::ublas;

static VD vec( vh::In& in, std::size_t n ) { VD v( n ); for ( std::size_t i = 0; i < n; ++i ) v( i ) = in.d(); return v; }
static V3 vec3( vh::In& in ) { return in.vec< V3 >( 3 ); }
static Math::Quaternion quat( vh::In& in ) { const V4 q = in.vec< V4 >( 4 ); return Math::Quaternion( q( 0 ), q( 1 ), q( 2 ), q( 3 ) ); }
template< class M > void fill( M& m, double x ) { for ( std::size_t r = 0; r < m.size1(); ++r ) for ( std::size_t c = 0; c < m.size2(); ++c ) m( r, c ) = x; }
static std::vector< V3 > points( vh::In& in ) { std::vector< V3 > p( in.i() ); for ( std::size_t i = 0; i < p.size(); ++i ) p[ i ] = vec3( in ); return p; }
static std::vector< M34 > cameras( vh::In& in ) { std::vector< M34 > p( in.i() ); for ( std::size_t i = 0; i < p.size(); ++i ) p[ i ] = in.mat< M34 >( 3, 4 ); return p; }
template< class U > std::vector< std::pair< U, U > > vis( vh::In& in ) { std::vector< std::pair< U, U > > p( in.i() ); for ( std::size_t i = 0; i < p.size(); ++i ) { p[ i ].first = in.i(); p[ i ].second = in.i(); } return p; }

// evaluates f in one of two ways
template< class FN, class X > void run( vh::Out& o, const FN& f, int w, const X& x, std::size_t n )
{
	VD r( n ); MD J( n, x.size() );
	for ( std::size_t i = 0; i < n; ++i ) r( i ) = 55; fill( J, 77 );
	if ( w == 0 ) { f.evaluate( r, x ); f.jacobian( x, J ); } else f.evaluateWithJacobian( r, x, J );
	if ( f.size() != n || r.size() != n ) std::_Exit( 96 );
	o.v( r ).m( J );
}
// functions without separate evaluation
template< class FN > void both( vh::Out& o, const FN& f, const VD& x, std::size_t n )
{
	VD r( n ); MD J( n, x.size() );
	for ( std::size_t i = 0; i < n; ++i ) r( i ) = 55; fill( J, 77 );
	f.evaluateWithJacobian( r, x, J );
	if ( f.size() != n ) std::_Exit( 96 );
	o.v( r ).m( J );
}
// composed functions leave alone what they do not depend on; first used with other values
template< class B > void composed( vh::Out& o, const B& b, int w, std::size_t n, const VD& x )
{
	VD y( x ); for ( std::size_t i = 0; i < y.size(); ++i ) y( i ) += 0.3 + i;
	VD r( n ); MD J( n, x.size() );
	b.evaluateWithJacobian( y, r, J );
	fill( J, 0 );
	if ( w == 0 ) { b.jacobian( x, J ); b.evaluate( x, r ); }
	else if ( w == 1 ) b.evaluateWithJacobian( x, r, J );
	else { b.evaluate( x, r ); b.evaluate( y, r ); b.jacobian( x, J ); b.evaluate( x, r ); }
	if ( b.size() != n ) std::_Exit( 96 );
	o.v( r ).m( J );
}
template< class T, std::size_t n > void dehom( vh::In& in, vh::Out& o, int w )
{
	const Math::Vector< T, n > c = in.vec< Math::Vector< T, n > >( n );
	Math::Vector< T, n - 1 > r; Math::Matrix< T, n - 1, n > J; fill( J, 77 );
	F::Dehomogenization< n > f;
	if ( w == 0 ) { f.evaluate( r, c ); f.jacobian( c, J ); } else f.evaluateWithJacobian( r, c, J );
	o.v( r ).m( J );
}
template< unsigned n, unsigned m > void linear( vh::In& in, vh::Out& o, int w )
{
	const Math::Matrix< double, n, m > a = in.mat< Math::Matrix< double, n, m > >( n, m ); const VD x = vec( in, m );
	typedef O::LinearFunction< n, m, double > L; const L l( a );
	if ( w <= 1 ) run( o, l, w, x, n );
	else if ( w == 2 ) { run( o, O::DiscreteJacobianApproximation< L >( l ), x.size() % 2, x, n ); }
	else run( o, O::DiscreteJacobianApproximation< L >( l, 0.125 ), 0, x, n );
}

int main()
{
	vh::Harness H;
	H[ "nothing" ] = []( vh::In&, vh::Out& ) {};
	H[ "quatrot" ] = []( vh::In& in, vh::Out& o )
	{
		const int w = in.i(); const V4 q = in.vec< V4 >( 4 ); const V3 v = vec3( in );
		V3 r; M34 J; M3 Jv; fill( J, 77 ); fill( Jv, 77 );
		F::QuaternionRotation< double > f( v );
		if ( w == 0 ) { f.evaluate( r, q ); f.jacobian( q, J ); } else if ( w == 1 ) f.evaluateWithJacobian( r, q, J );
		else O::QuaternionVectorRotation().evaluateWithJacobian( r, q, v, J, Jv );
		o.v( r ).m( J ); if ( w == 2 ) o.m( Jv );
	};
	H[ "quaterr" ] = []( vh::In& in, vh::Out& o ) { const V4 q = in.vec< V4 >( 4 ); const V3 v = vec3( in ); M3 J; fill( J, 77 ); F::QuaternionRotationError< double >( v ).jacobian( q, J ); o.m( J ); };
	H[ "lie" ] = []( vh::In& in, vh::Out& o )
	{
		const int w = in.i(); const V3 x = vec3( in ), v = vec3( in );
		if ( w == 2 ) { VD p( 3 ); p = x; composed( o, N::LieRotation() << N::parameter< 3 >( 0 ) << N::fixedParameterCopy< 3 >( v ), 1, 3, p ); return; }
		V3 r; M3 J; fill( J, 77 );
		F::LieRotation< double > f( v );
		if ( w == 0 ) { f.evaluate( r, x ); f.jacobian( x, J ); } else f.evaluateWithJacobian( r, x, J );
		o.v( r ).m( J );
	};
	H[ "dehom" ] = []( vh::In& in, vh::Out& o )
	{
		const bool f = in.s() == "f"; const int w = in.i(), n = in.i();
		if ( n == 2 ) { if ( f ) dehom< float, 2 >( in, o, w ); else dehom< double, 2 >( in, o, w ); }
		else if ( n == 3 ) { if ( f ) dehom< float, 3 >( in, o, w ); else dehom< double, 3 >( in, o, w ); }
		else if ( n == 4 ) { if ( f ) dehom< float, 4 >( in, o, w ); else dehom< double, 4 >( in, o, w ); }
		else { if ( f ) dehom< float, 5 >( in, o, w ); else dehom< double, 5 >( in, o, w ); }
	};
	H[ "projnorm" ] = []( vh::In& in, vh::Out& o ) { const VD x = vec( in, 7 ); VD r( 7 ); F::ProjectivePoseNormalize().evaluate( r, x ); o.v( r ); };
	H[ "single" ] = []( vh::In& in, vh::Out& o )
	{
		const int w = in.i(); const std::vector< M34 > c = cameras( in ); const VD x = vec( in, 3 );
		run( o, F::SinglePointMultiProjection< double, std::vector< M34 >::const_iterator >( c.begin(), c.end() ), w, x, 2 * c.size() );
	};
	H[ "multi" ] = []( vh::In& in, vh::Out& o )
	{
		const int w = in.i(); const M3 cam = in.mat< M3 >( 3, 3 ); const std::vector< V3 > p = points( in ); const VD x = vec( in, 7 );
		if ( w < 2 ) run( o, F::MultiplePointProjection< double >( p, cam ), w, x, 2 * p.size() );
		else { F::MultiplePointProjectionError< double > f( p, cam ); MD J( f.size(), 6 ); fill( J, 77 ); f.jacobian( x, J ); o.m( J ); }
	};
	H[ "multierr" ] = []( vh::In& in, vh::Out& o )
	{
		const std::vector< M34 > c = cameras( in ); const std::vector< V3 > p = points( in ); const auto v = vis< std::size_t >( in ); const VD x = vec( in, 7 );
		F::MultipleCameraProjectionError< double > f( p, c, v ); MD J( f.size(), 6 ); fill( J, 77 ); f.jacobian( x, J ); o.m( J );
	};
	H[ "art" ] = []( vh::In& in, vh::Out& o )
	{
		const int w = in.i(); const std::vector< M34 > c = cameras( in ); const std::vector< V3 > p = points( in ); const auto v = vis< unsigned >( in ); const V3 g = vec3( in ); const VD x = vec( in, 6 );
		typedef F::MultipleCameraProjectionErrorART< double > A;
		const A f = w == 0 ? A( p, c, v ) : A( p, c, v, g ); MD J( f.size(), 6 ); fill( J, 77 ); f.jacobian( x, J ); o.m( J );
	};
	H[ "distort" ] = []( vh::In& in, vh::Out& o )
	{
		const int w = in.i(); const V2 p = in.vec< V2 >( 2 ); const V4 d = in.vec< V4 >( 4 );
		V2 r; Math::Matrix< double, 2, 2 > J; Math::Matrix< double, 2, 4 > K; fill( J, 77 ); fill( K, 77 );
		F::RadialDistortionWrtP< double > f( d ); F::RadialDistortionWrtD< double > g( p );
		if ( w == 0 ) { F::radialDistortion( r, p, d ); o.v( r ); }
		else if ( w == 1 ) { f.evaluate( r, p ); f.jacobian( p, J ); o.v( r ).m( J ); }
		else if ( w == 2 ) { f.evaluateWithJacobian( r, p, J ); o.v( r ).m( J ); }
		else if ( w == 3 ) { g.evaluate( r, d ); g.jacobian( d, K ); o.v( r ).m( K ); }
		else { g.evaluateWithJacobian( r, d, K ); o.v( r ).m( K ); }
	};
	H[ "cim" ] = []( vh::In& in, vh::Out& o ) { const int w = in.i(); const V2 p = in.vec< V2 >( 2 ); const VD k = vec( in, 5 ); run( o, F::CameraIntrinsicsMultiplication< double >( p ), w, k, 2 ); };
	H[ "cams" ] = []( vh::In& in, vh::Out& o )
	{
		const int w = in.i(), nc = in.i(); std::vector< Math::Pose > ps; std::vector< M3 > ks; std::vector< V4 > ds;
		for ( int i = 0; i < nc; ++i ) { const Math::Quaternion q = quat( in ); const V3 t = vec3( in ); ps.push_back( Math::Pose( q, t ) ); ks.push_back( in.mat< M3 >( 3, 3 ) ); ds.push_back( in.vec< V4 >( 4 ) ); }
		const std::vector< V3 > p = points( in ); const auto v = vis< std::size_t >( in ); const VD x = vec( in, 7 );
		run( o, F::MultipleCameraProjection< double >( p, ps, ks, ds, v ), w, x, 2 * v.size() );
	};
	H[ "bundle" ] = []( vh::In& in, vh::Out& o )
	{
		typedef Algorithm::BundleAdjustmentNetwork< double > Net;
		const int w = in.i(); Net n; n.bEstimateIntrinsics = in.i() == 1;
		const int np = in.i(), nb = in.i(), ni = in.i(), nc = in.i();
		for ( int i = 0; i < nc; ++i )
		{
			const VD k = vec( in, 5 ); M3 m = M3::identity(); m( 0, 0 ) = k( 0 ); m( 0, 1 ) = k( 1 ); m( 0, 2 ) = k( 2 ); m( 1, 1 ) = k( 3 ); m( 1, 2 ) = k( 4 ); m( 2, 2 ) = -1;
			n.intrinsics.push_back( m ); n.distortions.push_back( in.vec< V4 >( 4 ) );
		}
		for ( int b = 0; b < 2; ++b ) { std::vector< V3 > p; for ( int i = 0; i < 2; ++i ) p.push_back( vec3( in ) ); n.bodies.push_back( p ); }
		for ( int k = in.i(); k > 0; --k ) { Net::FreePointMeasurement m; m.iCamera = in.i(); m.iImage = in.i(); m.iPoint = in.i(); m.measurement = V2( k, 2 ); n.freePointMeasurements.push_back( m ); }
		for ( int k = in.i(); k > 0; --k ) { Net::BodyPointMeasurement m; m.iCamera = in.i(); m.iImage = in.i(); m.iBody = in.i(); m.iBodyPose = in.i(); m.iPoint = in.i(); m.measurement = V2( -k, 3 ); n.bodyPointMeasurements.push_back( m ); }
		n.points.resize( np ); n.bodyPoses.resize( nb ); n.images.resize( ni );
		std::vector< double > x;
		for ( int i = 0; i < 3 * np + 6 * ( nb - 1 ) + 6 * ni; ++i ) x.push_back( in.d() );
		if ( n.bEstimateIntrinsics )
			for ( int i = 0; i < nc; ++i )
			{
				const M3& k = n.intrinsics[ i ]; const double a[ 5 ] = { k( 0, 0 ), k( 0, 1 ), k( 0, 2 ), k( 1, 1 ), k( 1, 2 ) };
				x.insert( x.end(), a, a + 5 ); for ( int j = 0; j < 4; ++j ) x.push_back( n.distortions[ i ]( j ) );
				// what is estimated does not depend on what was there before
				n.intrinsics[ i ] = M3::identity(); n.distortions[ i ] = V4( 9, 9, 9, 9 );
			}
		VD p( x.size() ); for ( std::size_t i = 0; i < x.size(); ++i ) p( i ) = x[ i ];
		Algorithm::BundleAdjustmentFunction< double > f( n );
		const std::size_t s = f.measurementSize();
		o.u( s ).u( f.parameterSize() );
		VD r( s ); MD J( s, p.size() ); fill( J, 77 );
		if ( w == 0 ) { f.evaluate( r, p ); f.jacobian( p, J ); } else f.evaluateWithJacobian( r, p, J );
		// into the network and back: the same parameters up to whole turns, so the same images
		f.updateParametersFromVector( p ); VD back( p.size() ); f.buildParameterVector( back ); VD r2( s ); f.evaluate( r2, back );
		for ( std::size_t i = 0; i < s; ++i ) if ( !( std::fabs( r2( i ) - r( i ) ) <= 1e-6 * ( 1 + std::fabs( r( i ) ) ) ) ) o.s( "other-images" );
		VD m( s ); f.buildMeasurementVector( m ); std::size_t at = 0;
		for ( auto& a : n.freePointMeasurements ) { if ( m( at ) != a.measurement( 0 ) || m( at + 1 ) != a.measurement( 1 ) ) o.s( "measurement" ); at += 2; }
		for ( auto& a : n.bodyPointMeasurements ) { if ( m( at ) != a.measurement( 0 ) || m( at + 1 ) != a.measurement( 1 ) ) o.s( "measurement" ); at += 2; }
		o.v( r ).m( J );
	};
	H[ "hec" ] = []( vh::In& in, vh::Out& o ) { const Math::Quaternion a = quat( in ), b = quat( in ); const VD x = vec( in, 4 ); both( o, F::RotHecMeasurement( a, b ), x, 4 ); };
	H[ "heccombine" ] = []( vh::In& in, vh::Out& o )
	{
		const V4 a = in.vec< V4 >( 4 ), b = in.vec< V4 >( 4 ); const Math::Quaternion x = quat( in ); Math::Matrix< double, 4, 4 > J, K; fill( J, 77 ); fill( K, 77 );
		F::RotHecCombine( x ).jacobian( a, b, J, K ); o.m( J ).m( K );
	};
	H[ "linear" ] = []( vh::In& in, vh::Out& o ) { const int w = in.i(), n = in.i(); if ( n == 1 ) linear< 2, 3 >( in, o, w ); else if ( n == 2 ) linear< 3, 2 >( in, o, w ); else linear< 4, 4 >( in, o, w ); };
	H[ "normalize" ] = []( vh::In& in, vh::Out& o ) { const int w = in.i(), n = in.i(); const VD x = vec( in, n ); run( o, O::VectorNormalize( n ), w, x, n ); };
	H[ "integrate" ] = []( vh::In& in, vh::Out& o )
	{
		const int w = in.i(); const O::RotationVelocityIntegration f( in.d() ); const V3 x = vec3( in ); V4 r; Math::Matrix< double, 4, 3 > J; fill( J, 77 );
		if ( w == 0 ) { f.evaluate( r, x ); f.jacobian( x, J ); } else f.evaluateWithJacobian( r, x, J );
		o.v( r ).m( J );
	};
	H[ "lineartime" ] = []( vh::In& in, vh::Out& o ) { const double dt = in.d(); const int sz = in.i(), od = in.i(); both( o, TF::LinearTimeUpdate( dt, sz, od ), vec( in, sz * ( od + 1 ) ), sz ); };
	H[ "quattime" ] = []( vh::In& in, vh::Out& o ) { const double dt = in.d(); const int od = in.i(); both( o, TF::QuaternionTimeUpdate( dt, od ), vec( in, 4 + 3 * od ), 4 ); };
	H[ "posetime" ] = []( vh::In& in, vh::Out& o ) { const double dt = in.d(); const int po = in.i(), ro = in.i(), n = in.i(); both( o, TF::PoseTimeUpdate( dt, po, ro ), vec( in, n ), n ); };
	H[ "inside" ] = []( vh::In& in, vh::Out& o ) { const double dt = in.d(); const int po = in.i(), n = in.i(); both( o, TF::InsideOutPoseTimeUpdate( dt, po ), vec( in, n ), n ); };
	H[ "invertvel" ] = []( vh::In& in, vh::Out& o ) { both( o, TF::InvertRotationVelocity(), vec( in, 7 ), 3 ); };
	// composed functions
	H[ "nnorm" ] = []( vh::In& in, vh::Out& o )
	{
		const int w = in.i(), n = in.i(); const VD x = vec( in, 7 ); const int s = in.i(), c = in.i() - 1; const V3 v = vec3( in );
		if ( s == 0 ) composed( o, N::VectorNorm< 3 >() << ( N::Subtraction< 3 >() << N::parameter< 3 >( c ) << N::fixedParameterRef< 3 >( v ) ), w, n, x );
		else if ( s == 1 ) composed( o, N::VectorNorm< 3 >() << ( N::Subtraction< 3 >() << N::fixedParameterRef< 3 >( v ) << N::parameter< 3 >( c ) ), w, n, x );
		else composed( o, N::VectorNorm< 3 >() << ( N::Addition< 3 >() << N::fixedParameterCopy< 3 >( v ) << N::parameter< 3 >( c ) ), w, n, x );
	};
	H[ "nadd" ] = []( vh::In& in, vh::Out& o )
	{
		const int w = in.i(), n = in.i(); const VD x = vec( in, 8 ); const int i = in.i() - 1, j = in.i() - 1;
		const Math::Matrix< double, 2, 3 > a = in.mat< Math::Matrix< double, 2, 3 > >( 2, 3 ); const Math::Matrix< double, 2, 2 > b = in.mat< Math::Matrix< double, 2, 2 > >( 2, 2 );
		composed( o, N::Addition< 2 >() << ( N::LinearTransformation< 2, 3 >( a ) << N::parameter< 3 >( i ) ) << ( N::LinearTransformation< 2, 2 >( b ) << N::parameter< 2 >( j ) ), w, n, x );
	};
	H[ "ncim" ] = []( vh::In& in, vh::Out& o )
	{
		const int w = in.i(), n = in.i(); const VD x = vec( in, 9 ); const int i = in.i() - 1, j = in.i() - 1;
		composed( o, F::CameraIntrinsicsMultiplicationN() << N::parameter< 5 >( i ) << ( N::Dehomogenization< 3 >() << N::parameter< 3 >( j ) ), w, n, x );
	};
	H[ "ndehom" ] = []( vh::In& in, vh::Out& o ) { const int w = in.i(), n = in.i(); const VD x = vec( in, 6 ); const int i = in.i() - 1; composed( o, N::Dehomogenization< 4 >() << N::parameter< 4 >( i ), w, n, x ); };
	H[ "nproj" ] = []( vh::In& in, vh::Out& o )
	{
		const int w = in.i(), n = in.i(); const VD x = vec( in, 10 ); const int s = in.i(), r = in.i() - 1, t = in.i() - 1, p = in.i() - 1; const M3 k = in.mat< M3 >( 3, 3 ); const V3 v = vec3( in );
		if ( s == 0 ) composed( o, N::Dehomogenization< 3 >() << ( N::LinearTransformation< 3, 3 >( k ) << ( N::Addition< 3 >() << N::parameter< 3 >( t ) << ( N::LieRotation() << N::parameter< 3 >( r ) << N::fixedParameterRef< 3 >( v ) ) ) ), w, n, x );
		else if ( s == 1 ) composed( o, N::Dehomogenization< 3 >() << ( N::LinearTransformation< 3, 3 >( k ) << ( N::Addition< 3 >() << ( N::LieRotation() << N::parameter< 3 >( r ) << N::fixedParameterCopy< 3 >( v ) ) << N::parameter< 3 >( t ) ) ), w, n, x );
		else composed( o, N::Dehomogenization< 3 >() << ( N::LinearTransformation< 3, 3 >( k ) << ( N::Addition< 3 >() << N::parameter< 3 >( t ) << ( N::LieRotation() << N::parameter< 3 >( r ) << N::parameter< 3 >( p ) ) ) ), w, n, x );
	};
	return H.run();
}
