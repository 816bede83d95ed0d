// Replays Lens.tla behaviours: camera intrinsics, their storage, and lens distortion.
#include "vh.h"
#include <utSerialization/Serialization.h>
#include <utMath/CameraIntrinsics.h>
#include <utAlgorithm/CameraLens/Correction.h>
#include <utAlgorithm/CameraLens/Distortion.h>
#include <utAlgorithm/CameraLens/Undistortion.h>
#include <utAlgorithm/LensDistortion.h>
#include <utAlgorithm/Function/RadialDistortion.h>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
using namespace Ubitrack;
namespace CL = Ubitrack::Algorithm::CameraLens;

template< class T > struct Store
{
	typedef Math::CameraIntrinsics< T > Cam;
	Cam c[ 5 ];
	std::string blob, fmt;
	void save( int i, const std::string& f )
	{
		fmt = f;
		std::ostringstream s;
		if ( f == "text" ) { boost::archive::text_oarchive a( s ); const Cam& x = c[ i ]; a << x; }
		else if ( f == "binary" ) { boost::archive::binary_oarchive a( s ); const Cam& x = c[ i ]; a << x; }
		else if ( f == "msgpack" ) { msgpack::packer< std::ostringstream > p( s ); p.pack( c[ i ] ); }
		else { msgpack::zone z; msgpack::object o( c[ i ], z ); msgpack::packer< std::ostringstream > p( s ); p.pack( o ); }
		blob = s.str();
	}
	void load( int i, int m )
	{
		std::istringstream s( blob );
		if ( fmt == "text" ) { boost::archive::text_iarchive a( s ); a >> c[ i ]; }
		else if ( fmt == "binary" ) { boost::archive::binary_iarchive a( s ); a >> c[ i ]; }
		else
		{
			msgpack::object_handle h = msgpack::unpack( blob.data(), blob.size() );
			if ( m ) c[ i ] = h.get().as< Cam >(); else h.get().convert( c[ i ] );
		}
	}
};
static Store< double > SD;
static Store< float > SF;

template< class T > void mk( Math::CameraIntrinsics< T >& c, int rs, int w, int h, const std::vector< double >& k, const std::vector< double >& r, const std::vector< double >& t )
{
	typedef Math::CameraIntrinsics< T > Cam;
	Math::Matrix< T, 3, 3 > K; for ( int i = 0; i < 9; ++i ) K( i / 3, i % 3 ) = k[ i ];
	Math::Vector< T, 2 > tan( t[ 0 ], t[ 1 ] );
	if ( rs == 2 ) { Math::Vector< T, 2 > a; for ( int i = 0; i < 2; ++i ) a( i ) = r[ i ]; c = ( w || h ) ? Cam( K, a, tan, w, h ) : Cam( K, a, tan ); }
	else if ( rs == 3 ) { Math::Vector< T, 3 > a; for ( int i = 0; i < 3; ++i ) a( i ) = r[ i ]; c = Cam( K, a, tan, w, h ); }
	else if ( rs == 4 ) { Math::Vector< T, 4 > a; for ( int i = 0; i < 4; ++i ) a( i ) = r[ i ]; c = Cam( K, a, w, h ); }
	else { Math::Vector< T, 6 > a; for ( int i = 0; i < 6; ++i ) a( i ) = r[ i ]; c = Cam( K, a, tan, w, h ); }
}
template< class T > void gen( Math::CameraIntrinsics< T >& c, int rs, int w, int h, int ow, int oh, const std::vector< double >& k, const std::vector< double >& r, const std::vector< double >& t )
{
	Math::Matrix< T, 3, 3 > K; for ( int i = 0; i < 9; ++i ) K( i / 3, i % 3 ) = k[ i ];
	Math::Vector< T, 6 > a; for ( int i = 0; i < 6; ++i ) a( i ) = r[ i ];
	c = Math::CameraIntrinsics< T >( Math::Vector< int, 2 >( w, h ), K, rs, a, Math::Vector< T, 2 >( t[ 0 ], t[ 1 ] ), ow, oh );
}
static std::vector< double > nums( vh::In& in, int n ) { std::vector< double > r; for ( int i = 0; i < n; ++i ) r.push_back( in.d() ); return r; }

template< class T, class F > void one( const Math::CameraIntrinsics< T >& c, vh::In& in, vh::Out& o, int mode, F f )
{
	Math::Vector< T, 2 > p; p( 0 ) = in.d(); p( 1 ) = in.d();
	if ( mode ) { f( c, p, p ); o.v( p ); }
	else { Math::Vector< T, 2 > r( 77, 77 ), was( p ); f( c, p, r ); o.v( r ); if ( p( 0 ) != was( 0 ) || p( 1 ) != was( 1 ) ) o.s( "argument changed" ); }
}
template< class T, class F > void list( const Math::CameraIntrinsics< T >& c, vh::In& in, vh::Out& o, int mode, F f )
{
	int n = in.i();
	std::vector< Math::Vector< T, 2 > > p( n ), r;
	for ( int i = 0; i < n; ++i ) { p[ i ]( 0 ) = in.d(); p[ i ]( 1 ) = in.d(); }
	if ( mode == 1 ) r.resize( n + 2 ); else if ( mode == 2 ) r.resize( n );
	if ( mode == 3 ) { f( c, p, p ); r = p; } else f( c, p, r );
	o.i( r.size() );
	for ( std::size_t i = 0; i < r.size(); ++i ) o.v( r[ i ] );
}
template< class T > void op( const std::string& w, Store< T >& s, vh::In& in, vh::Out& o )
{
	int i = in.i(), mode = in.i();
	typedef Math::CameraIntrinsics< T > Cam;
	typedef Math::Vector< T, 2 > V;
	typedef std::vector< V > L;
	if ( w == "dist" ) one( s.c[ i ], in, o, mode, []( const Cam& c, const V& a, V& b ) { CL::distort( c, a, b ); } );
	else if ( w == "undist" ) one( s.c[ i ], in, o, mode, []( const Cam& c, const V& a, V& b ) { CL::undistort( c, a, b ); } );
	else if ( w == "distl" ) list( s.c[ i ], in, o, mode, []( const Cam& c, const L& a, L& b ) { CL::distort( c, a, b ); } );
	else list( s.c[ i ], in, o, mode, []( const Cam& c, const L& a, L& b ) { CL::undistort( c, a, b ); } );
}
template< class T > void angles( const Math::CameraIntrinsics< T >& c, vh::Out& o ) { o.d( c.angleHorizontal() ).d( c.angleVertical() ).d( c.angleDiagonal() ); }
template< class T > void old( const std::string& w, vh::In& in, vh::Out& o )
{
	Math::Matrix< T, 3, 3 > K; for ( int i = 0; i < 9; ++i ) K( i / 3, i % 3 ) = in.d();
	Math::Vector< T, 4 > d; for ( int i = 0; i < 4; ++i ) d( i ) = in.d();
	if ( w == "pwd" ) { Math::Vector< T, 3 > p; for ( int i = 0; i < 3; ++i ) p( i ) = in.d(); o.v( Algorithm::projectWithDistortion( p, d, K ) ); return; }
	Math::Vector< T, 2 > p; p( 0 ) = in.d(); p( 1 ) = in.d();
	if ( w == "ld" ) o.v( Algorithm::lensDistort( p, d, K ) ); else o.v( Algorithm::lensUnDistort( p, d, K ) );
}

int main()
{
	vh::Harness H;
	H.reset = [] { SD = Store< double >(); SF = Store< float >(); };
	H[ "mk" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(), rs = in.i(), w = in.i(), h = in.i(); std::vector< double > k = nums( in, 9 ), r = nums( in, 6 ), t = nums( in, 2 );
		mk( SD.c[ i ], rs, w, h, k, r, t ); mk( SF.c[ i ], rs, w, h, k, r, t ); };
	H[ "gen" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(), rs = in.i(), w = in.i(), h = in.i(), ow = in.i(), oh = in.i(); std::vector< double > k = nums( in, 9 ), r = nums( in, 6 ), t = nums( in, 2 );
		gen( SD.c[ i ], rs, w, h, ow, oh, k, r, t ); gen( SF.c[ i ], rs, w, h, ow, oh, k, r, t ); };
	H[ "new" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(); SD.c[ i ] = Math::CameraIntrinsics< double >(); SF.c[ i ] = Math::CameraIntrinsics< float >(); };
	H[ "copy" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(), j = in.i(); if ( in.i() ) { SD.c[ i ] = SD.c[ j ]; SF.c[ i ] = SF.c[ j ]; }
		else { Math::CameraIntrinsics< double > a( SD.c[ j ] ); Math::CameraIntrinsics< float > b( SF.c[ j ] ); std::swap( a, SD.c[ i ] ); std::swap( b, SF.c[ i ] ); } };
	H[ "flip" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(), j = in.i(); SD.c[ j ].flipHandiness( SD.c[ i ] ); SF.c[ j ].flipHandiness( SF.c[ i ] ); };
	H[ "save" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(); std::string f = in.s(); SD.save( i, f ); SF.save( i, f ); };
	H[ "load" ] = [&]( vh::In& in, vh::Out& o ) { int i = in.i(), m = in.i(); SD.load( i, m ); SF.load( i, m ); };
	H[ "show" ] = [&]( vh::In& in, vh::Out& o )
	{
		int i = in.i();
		const Math::CameraIntrinsics< double >& c = SD.c[ i ];
		const Math::CameraIntrinsics< float >& f = SF.c[ i ];
		o.i( c.calib_type ).i( c.radial_size ).i( c.dimension( 0 ) ).i( c.dimension( 1 ) ).m( c.matrix ).v( c.radial_params ).v( c.tangential_params );
		o.m( f.matrix ).v( f.radial_params ).v( f.tangential_params );
		if ( (int)f.calib_type != (int)c.calib_type || f.radial_size != c.radial_size || f.dimension( 0 ) != c.dimension( 0 ) || f.dimension( 1 ) != c.dimension( 1 ) ) o.s( "float differs" );
	};
	H[ "angles" ] = [&]( vh::In& in, vh::Out& o ) { std::string p = in.s(); int i = in.i(); if ( p == "d" ) angles( SD.c[ i ], o ); else angles( SF.c[ i ], o ); };
	for ( const char* w : { "dist", "undist", "distl", "undistl" } )
		H[ w ] = [w]( vh::In& in, vh::Out& o ) { if ( in.s() == "d" ) op( w, SD, in, o ); else op( w, SF, in, o ); };
	for ( const char* w : { "pwd", "ld", "lud" } )
		H[ w ] = [w]( vh::In& in, vh::Out& o ) { if ( in.s() == "d" ) old< double >( w, in, o ); else old< float >( w, in, o ); };
	H[ "jac" ] = [&]( vh::In& in, vh::Out& o )
	{
		Math::CameraIntrinsics< double > c;
		for ( int i = 0; i < 6; ++i ) c.radial_params( i ) = in.d();
		for ( int i = 0; i < 2; ++i ) c.tangential_params( i ) = in.d();
		Math::Vector< double, 2 > p, r; p( 0 ) = in.d(); p( 1 ) = in.d();
		CL::distort( c.radial_params, c.tangential_params, p, r ); o.v( r );
		CL::internal::PointUndistortion< double > f( c );
		Math::Matrix< double, 2, 2 > J;
		f.evaluateWithJacobian( r, p, J ); o.v( r ).m( J );
	};
	H[ "rdp" ] = [&]( vh::In& in, vh::Out& o )
	{
		Math::Vector< double, 4 > d; for ( int i = 0; i < 4; ++i ) d( i ) = in.d();
		Math::Vector< double, 2 > p, r; p( 0 ) = in.d(); p( 1 ) = in.d();
		Math::Matrix< double, 2, 2 > J;
		Algorithm::Function::RadialDistortionWrtP< double > f( d ); f.evaluateWithJacobian( r, p, J ); o.v( r ).m( J );
	};
	H[ "rdd" ] = [&]( vh::In& in, vh::Out& o )
	{
		Math::Vector< double, 4 > d; for ( int i = 0; i < 4; ++i ) d( i ) = in.d();
		Math::Vector< double, 2 > p, r; p( 0 ) = in.d(); p( 1 ) = in.d();
		Math::Matrix< double, 2, 4 > J;
		Algorithm::Function::RadialDistortionWrtD< double > f( p ); f.evaluateWithJacobian( r, d, J ); o.v( r ).m( J );
	};
	return H.run();
}
