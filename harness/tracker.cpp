// Replays Tracker.tla and TrackerSpin.tla behaviours: PoseKalmanFilter and RotationOnlyKF.
#include "vh.h"
#include <memory>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/ErrorPose.h>
#include <utMath/RotationVelocity.h>
#include <utMeasurement/Measurement.h>
#include <utTracking/PoseKalmanFilter.h>
#include <utTracking/RotationOnlyKF.h>
using namespace Ubitrack;
typedef Math::Vector< double, 3 > V3;
typedef unsigned long long TS;
static const TS BASE = 1000000000000000ULL;
static const double UNIT = 1e-8;

struct Dirty { Dirty() { std::vector< double* > p; for ( int n = 1; n < 40; ++n ) { double* x = (double*)std::malloc( n * 8 ); for ( int i = 0; i < n; ++i ) x[ i ] = 7.5; p.push_back( x ); } for ( double* x : p ) std::free( x ); } };

struct S
{
	int po = 0, oo = 0; bool rotOnly = false; double tick = 1;
	Math::Quaternion q0;
	std::unique_ptr< Tracking::PoseKalmanFilter > f;
	std::unique_ptr< Tracking::RotationOnlyKF > r;
	TS t( long long k ) const { return BASE + (TS)( k * (long long)( 1e9 / tick + 0.5 ) ); }
	long long k( TS x ) const { long long d = (long long)( x - BASE ), u = (long long)( 1e9 / tick + 0.5 ); return d % u ? 999999 : d / u; }
	// left multiplication by the conjugate of q0, as matrix
	void rel( double m[ 4 ][ 4 ] ) const
	{
		double x = -q0.x(), y = -q0.y(), z = -q0.z(), w = q0.w();
		double a[ 4 ][ 4 ] = { { w, -z, y, x }, { z, w, -x, y }, { -y, x, w, z }, { -x, -y, -z, w } };
		std::memcpy( m, a, sizeof a );
	}
};

// the state, axis by axis, and the covariance of each axis
static void state( S& s, vh::Out& o )
{
	const Math::Vector< double >& x = s.f->getState(); const Math::Matrix< double, 0, 0 >& c = s.f->getCovariance();
	const int n = x.size(), ir = 3 * ( s.po + 1 );
	// rotate the quaternion part into the frame of q0; the sign of the quaternion does not matter
	std::vector< std::vector< double > > T( n, std::vector< double >( n, 0.0 ) );
	double m[ 4 ][ 4 ]; s.rel( m );
	double w = 0; for ( int j = 0; j < 4; ++j ) w += m[ 3 ][ j ] * x( ir + j );
	double sg = w < 0 ? -1 : 1;
	for ( int i = 0; i < n; ++i ) for ( int j = 0; j < n; ++j )
		T[ i ][ j ] = ( i >= ir && i < ir + 4 ) ? ( j >= ir && j < ir + 4 ? sg * m[ i - ir ][ j - ir ] : 0 ) : ( i == j );
	std::vector< double > y( n, 0 ); std::vector< std::vector< double > > A( n, std::vector< double >( n, 0 ) ), C( A );
	for ( int i = 0; i < n; ++i ) for ( int j = 0; j < n; ++j ) { y[ i ] += T[ i ][ j ] * x( j ); for ( int k = 0; k < n; ++k ) A[ i ][ j ] += T[ i ][ k ] * c( k, j ); }
	for ( int i = 0; i < n; ++i ) for ( int j = 0; j < n; ++j ) for ( int k = 0; k < n; ++k ) C[ i ][ j ] += A[ i ][ k ] * T[ j ][ k ];
	std::vector< std::vector< int > > ax;
	for ( int a = 0; a < 3; ++a ) { std::vector< int > v; for ( int k = 0; k <= s.po; ++k ) v.push_back( 3 * k + a ); ax.push_back( v ); }
	for ( int a = 0; a < 3; ++a ) { std::vector< int > v; v.push_back( ir + a ); for ( int k = 1; k <= s.oo; ++k ) v.push_back( ir + 4 + 3 * ( k - 1 ) + a ); ax.push_back( v ); }
	for ( int a = 0; a < 6; ++a ) for ( int i : ax[ a ] ) o.d( a < 3 ? y[ i ] : y[ i ] / UNIT );
	for ( int a = 0; a < 6; ++a ) for ( int i : ax[ a ] ) for ( int j : ax[ a ] ) o.d( C[ i ][ j ] );
	// symmetric, and the axes stay independent
	for ( int i = 0; i < n; ++i ) for ( int j = 0; j < n; ++j ) if ( std::fabs( C[ i ][ j ] - C[ j ][ i ] ) > 1e-9 * ( 1 + std::fabs( C[ i ][ j ] ) ) ) throw std::runtime_error( "not symmetric" );
	for ( int a = 0; a < 6; ++a ) for ( int b = 0; b < 6; ++b ) if ( a != b ) for ( int i : ax[ a ] ) for ( int j : ax[ b ] )
		if ( std::fabs( C[ i ][ j ] ) > 2e-3 * ( std::sqrt( std::fabs( C[ i ][ i ] * C[ j ][ j ] ) ) + 1e-6 ) ) throw std::runtime_error( "axes correlated" );
}

static Math::ErrorPose ep( const Math::Quaternion& q, const V3& p, const double* var )
{
	Math::Matrix< double, 6, 6 > c; for ( int i = 0; i < 6; ++i ) for ( int j = 0; j < 6; ++j ) c( i, j ) = i == j ? var[ i ] : 0;
	return Math::ErrorPose( q, p, c );
}
static Math::Quaternion neg( const Math::Quaternion& q ) { return Math::Quaternion( -q.x(), -q.y(), -q.z(), -q.w() ); }
static Math::Quaternion rq( vh::In& in ) { double x = in.d(), y = in.d(), z = in.d(), w = in.d(); return Math::Quaternion( x, y, z, w ); }
static V3 rv( vh::In& in ) { double x = in.d(), y = in.d(), z = in.d(); return V3( x, y, z ); }
static Math::Quaternion small( const S& s, const V3& e )
{
	V3 h = e * UNIT;
	return s.q0 * Math::Quaternion( h( 0 ), h( 1 ), h( 2 ), std::sqrt( 1 - h( 0 ) * h( 0 ) - h( 1 ) * h( 1 ) - h( 2 ) * h( 2 ) ) );
}
// rotation vector of q, independent of the library
static V3 logq( Math::Quaternion q )
{
	double n = std::sqrt( q.x() * q.x() + q.y() * q.y() + q.z() * q.z() );
	if ( n == 0 ) return V3( 0, 0, 0 );
	double a = 2 * std::atan2( n, q.w() );
	return V3( q.x() / n * a, q.y() / n * a, q.z() / n * a );
}
static V3 rotv( const Math::Quaternion& q, const V3& v )
{
	double x = q.x(), y = q.y(), z = q.z(), w = q.w();
	return V3( ( w*w + x*x - y*y - z*z ) * v( 0 ) + 2*( x*y - w*z ) * v( 1 ) + 2*( x*z + w*y ) * v( 2 ),
		2*( x*y + w*z ) * v( 0 ) + ( w*w - x*x + y*y - z*z ) * v( 1 ) + 2*( y*z - w*x ) * v( 2 ),
		2*( x*z - w*y ) * v( 0 ) + 2*( y*z + w*x ) * v( 1 ) + ( w*w - x*x - y*y + z*z ) * v( 2 ) );
}
// covariances are checked exactly in the linear part; here (nearly exact velocity measurements) they only have to be numbers
static bool sound( const Math::Matrix< double, 6, 6 >& c )
{
	for ( int i = 0; i < 6; ++i ) for ( int j = 0; j < 6; ++j ) if ( !std::isfinite( c( i, j ) ) ) return false;
	return true;
}

int main()
{
	std::cerr.setstate( std::ios::failbit );
	vh::Harness H;
	S s;
	H.reset = [&]{ s = S(); };
	H[ "new" ] = [&]( vh::In& in, vh::Out& ) {
		s = S(); s.po = in.i(); s.oo = in.i(); int z = in.i(); s.q0 = rq( in );
		Dirty d;
		Tracking::LinearPoseMotionModel m( s.po, s.oo );
		if ( (int)m.stateSize() != 3 * ( s.po + 1 ) + 4 + 3 * s.oo || m.posOrder() != s.po || m.oriOrder() != s.oo ) throw std::runtime_error( "model" );
		for ( int i = 0; i <= s.po; ++i ) { double v = in.d(); if ( z != 2 ) m.setPosPN( i, v ); }
		for ( int i = 0; i <= s.oo; ++i ) { double v = in.d(); if ( z != 2 ) m.setOriPN( i, v ); }
		s.f.reset( new Tracking::PoseKalmanFilter( m ) );
	};
	H[ "pose" ] = [&]( vh::In& in, vh::Out& o ) {
		int t = in.i(), sg = in.i(); V3 p = rv( in ), e = rv( in ); double var[ 6 ]; for ( int i = 0; i < 6; ++i ) var[ i ] = 1.0 / in.i();
		Math::Quaternion q = small( s, e );
		s.f->addPoseMeasurement( Measurement::ErrorPose( s.t( t ), ep( sg ? neg( q ) : q, p, var ) ) );
		state( s, o );
	};
	H[ "rot" ] = [&]( vh::In& in, vh::Out& o ) {
		int t = in.i(), sg = in.i(); Math::Quaternion q = small( s, rv( in ) );
		s.f->addRotationMeasurement( Measurement::Rotation( s.t( t ), sg ? neg( q ) : q ) );
		state( s, o );
	};
	H[ "advance" ] = [&]( vh::In& in, vh::Out& o ) { s.f->timeUpdate( s.t( in.i() ) ); state( s, o ); };
	H[ "predict" ] = [&]( vh::In& in, vh::Out& o ) {
		Measurement::ErrorPose p = s.f->predictPose( s.t( in.i() ) );
		Math::Quaternion e = ~s.q0 * p->rotation(); double sg = e.w() < 0 ? -1 : 1;
		o.i( s.k( p.time() ) ).v( p->translation() ).d( sg * e.x() / UNIT ).d( sg * e.y() / UNIT ).d( sg * e.z() / UNIT );
		for ( int i = 0; i < 6; ++i ) o.d( p->covariance()( i, i ) );
	};
	H[ "ctor" ] = [&]( vh::In& in, vh::Out& ) { int po = in.i(), oo = in.i(); Tracking::LinearPoseMotionModel m( po, oo ); Tracking::PoseKalmanFilter f( m, true ); };
	H[ "snew" ] = [&]( vh::In& in, vh::Out& ) {
		std::string k = in.s(); s = S(); s.po = in.i(); s.oo = 1; s.tick = in.d(); s.rotOnly = k == "rot";
		if ( s.rotOnly ) { s.r.reset( new Tracking::RotationOnlyKF ); return; }
		Tracking::LinearPoseMotionModel m( s.po, 1 );
		for ( int i = 0; i <= s.po; ++i ) m.setPosPN( i, 1 );
		for ( int i = 0; i <= 1; ++i ) m.setOriPN( i, 1 );
		s.f.reset( new Tracking::PoseKalmanFilter( m, k == "io" ) );
	};
	static const double var[ 6 ] = { 1e-3, 1e-3, 1e-3, 1e-4, 1e-4, 1e-4 };
	auto pose = [&]( long long t, const Math::Quaternion& q, const V3& p ) { s.f->addPoseMeasurement( Measurement::ErrorPose( s.t( t ), ep( q, p, var ) ) ); };
	auto rot = [&]( long long t, const Math::Quaternion& q ) { if ( s.rotOnly ) s.r->addRotationMeasurement( Measurement::Rotation( s.t( t ), q ) ); else s.f->addRotationMeasurement( Measurement::Rotation( s.t( t ), q ) ); };
	auto vel = [&]( long long t, int inv, const V3& w ) {
		Measurement::RotationVelocity v( s.t( t ), Math::RotationVelocity( w ) );
		if ( s.rotOnly ) s.r->addVelocityMeasurement( v ); else if ( inv ) s.f->addInverseRotationVelocityMeasurement( v ); else s.f->addRotationVelocityMeasurement( v ); };
	auto pred = [&]( long long t, vh::Out& o, bool time ) {
		if ( s.rotOnly ) {
			Measurement::Rotation r = s.r->predict( s.t( t ) ); if ( time ) o.i( s.k( r.time() ) );
			double n = r->x() * r->x() + r->y() * r->y() + r->z() * r->z() + r->w() * r->w();
			o.q( *r ).i( std::fabs( n - 1 ) < 1e-9 );
			return; }
		Measurement::ErrorPose p = s.f->predictPose( s.t( t ) ), p2 = s.f->predictPose( s.t( t ) ); if ( time ) o.i( s.k( p.time() ) );
		o.q( p->rotation() ).v( p->translation() ).i( sound( p->covariance() ) && p->rotation() == p2->rotation() && p->covariance()( 0, 0 ) == p2->covariance()( 0, 0 ) );
	};
	H[ "spose" ] = [&]( vh::In& in, vh::Out& ) { int t = in.i(); Math::Quaternion q = rq( in ); V3 p = rv( in ); pose( t, q, p ); };
	H[ "srot" ] = [&]( vh::In& in, vh::Out& ) { int t = in.i(); rot( t, rq( in ) ); };
	H[ "svel" ] = [&]( vh::In& in, vh::Out& ) {
		int t = in.i(), inv = in.i(); Math::Quaternion u = rq( in ), q = rq( in ); V3 w = logq( u ) * s.tick;
		if ( inv ) { w = -rotv( q, w ); }
		vel( t, inv, w );
	};
	H[ "sfast" ] = [&]( vh::In& in, vh::Out& ) { int t = in.i(); V3 d = rv( in ); double n = in.d(); vel( t, 0, V3( d * ( n / std::sqrt( d( 0 ) * d( 0 ) + d( 1 ) * d( 1 ) + d( 2 ) * d( 2 ) ) ) ) ); };
	H[ "spredict" ] = [&]( vh::In& in, vh::Out& o ) { pred( in.i(), o, true ); };
	H[ "settle" ] = [&]( vh::In& in, vh::Out& o ) {
		int t = in.i(); Math::Quaternion q = rq( in ); V3 p = rv( in );
		for ( int i = 1; i <= 400; ++i ) { if ( s.rotOnly ) rot( t + i, q ); else pose( t + i, q, p ); }
		pred( t + 400, o, false );
	};
	return H.run();
}
