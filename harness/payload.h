// Payload codecs: every payload type of the library is reduced to a finite family of distinguishable
// values make(1), make(2), ... ; id() maps a payload back (0 = none of them, i.e. corrupted).
#pragma once
#include <utMeasurement/Measurement.h>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/Pose.h>
#include <utMath/ErrorPose.h>
#include <utMath/ErrorVector.h>
#include <utMath/RotationVelocity.h>
#include <utMath/Scalar.h>
#include <utMath/CameraIntrinsics.h>
#include <limits>
#include <climits>
#include <string>
#include <vector>
#include <cmath>

namespace pl {
namespace M = Ubitrack::Math;

static const int NVAL = 9;

// numbers with something to lose: full mantissas, extreme exponents, signs, zeros
inline double num( int k )
{
	static const double t[] = { 1.0 / 3.0, -2.5, 1e-300, -1.7976931348623157e308, 0.1, 123456789.123456789, -0.0, 4.9406564584124654e-324,
		0.0, 2.2250738585072014e-308, -1.0, 3.141592653589793, 1e17 + 2, -7.0 / 11.0, 65536.000000001, 1.0000000000000002 };
	return t[ ( ( k % 16 ) + 16 ) % 16 ];
}
inline double num( int v, int k ) { return num( 7 * v + 3 * k + k * k ) ; }
inline bool same( double a, double b ) { return a == b; }
inline bool same( float a, float b ) { return a == b; }
inline bool same( long long a, long long b ) { return a == b; }
inline bool same( int a, int b ) { return a == b; }
inline bool same( unsigned long a, unsigned long b ) { return a == b; }
inline bool same( const std::string& a, const std::string& b ) { return a == b; }

template< class T > T lim( double x ) { const double m = std::numeric_limits< T >::max(); return x > m ? (T)m : x < -m ? (T)-m : (T)x; }
// small, well behaved and pairwise different component values: the first component identifies v
inline double comp( int v, int k ) { return k == 0 ? v + 0.1 : num( v, k ); }

template< class T > struct P;

template<> struct P< double > { static double make( int v ) { return v + 0.1; } static bool eq( double a, double b ) { return same( a, b ); } };
template<> struct P< float > { static float make( int v ) { return v + 0.1f; } static bool eq( float a, float b ) { return same( a, b ); } };
template<> struct P< int > { static int make( int v ) { return v % 3 == 0 ? INT_MIN + v : v % 3 == 1 ? v : INT_MAX - v; } static bool eq( int a, int b ) { return a == b; } };
template<> struct P< unsigned long > { static unsigned long make( int v ) { return v % 2 ? ULONG_MAX - v : v; } static bool eq( unsigned long a, unsigned long b ) { return a == b; } };
template<> struct P< unsigned long long > { static unsigned long long make( int v ) { return v % 2 ? ULLONG_MAX - v : v; } static bool eq( unsigned long long a, unsigned long long b ) { return a == b; } };

template<> struct P< std::string >
{
	static std::string make( int v )
	{
		static const std::string t[] = { "x", "", " ", "two words", "line\nbreak", std::string( "nul\0in", 6 ), "\xff\x80high", "\"quoted\" 12 ", std::string( 300, 'z' ), "0" };
		return t[ v % 10 ];
	}
	static bool eq( const std::string& a, const std::string& b ) { return a == b; }
};

template< class B > struct P< M::Scalar< B > >
{
	static M::Scalar< B > make( int v ) { return M::Scalar< B >( P< B >::make( v ) ); }
	static bool eq( const M::Scalar< B >& a, const M::Scalar< B >& b ) { return P< B >::eq( a.m_value, b.m_value ); }
};

template< class T, std::size_t N > struct P< M::Vector< T, N > >
{
	static M::Vector< T, N > make( int v ) { M::Vector< T, N > r; for ( std::size_t k = 0; k < N; ++k ) r( k ) = lim< T >( comp( v, k ) ); return r; }
	static bool eq( const M::Vector< T, N >& a, const M::Vector< T, N >& b ) { for ( std::size_t k = 0; k < N; ++k ) if ( !same( a( k ), b( k ) ) ) return false; return true; }
};

template< class T > struct P< M::Vector< T, 0 > >
{
	static M::Vector< T, 0 > make( int v ) { M::Vector< T, 0 > r( 1 + v % 5 ); for ( std::size_t k = 0; k < r.size(); ++k ) r( k ) = lim< T >( comp( v, k ) ); return r; }
	static bool eq( const M::Vector< T, 0 >& a, const M::Vector< T, 0 >& b )
	{ if ( a.size() != b.size() ) return false; for ( std::size_t k = 0; k < a.size(); ++k ) if ( !same( a( k ), b( k ) ) ) return false; return true; }
};

template< class T, std::size_t R, std::size_t C > struct P< M::Matrix< T, R, C > >
{
	static M::Matrix< T, R, C > make( int v ) { M::Matrix< T, R, C > r; for ( std::size_t i = 0; i < R; ++i ) for ( std::size_t j = 0; j < C; ++j ) r( i, j ) = lim< T >( comp( v, i * C + j ) ); return r; }
	static bool eq( const M::Matrix< T, R, C >& a, const M::Matrix< T, R, C >& b )
	{ for ( std::size_t i = 0; i < R; ++i ) for ( std::size_t j = 0; j < C; ++j ) if ( !same( a( i, j ), b( i, j ) ) ) return false; return true; }
};

template<> struct P< M::Quaternion >
{
	static M::Quaternion make( int v ) { return M::Quaternion( comp( v, 0 ), comp( v, 1 ), comp( v, 2 ), comp( v, 3 ) ); }
	static bool eq( const M::Quaternion& a, const M::Quaternion& b ) { return same( a.x(), b.x() ) && same( a.y(), b.y() ) && same( a.z(), b.z() ) && same( a.w(), b.w() ); }
};

template<> struct P< M::Pose >
{
	static M::Pose make( int v ) { return M::Pose( P< M::Quaternion >::make( v ), P< M::Vector< double, 3 > >::make( v + 100 ) ); }
	static bool eq( const M::Pose& a, const M::Pose& b ) { return P< M::Quaternion >::eq( a.rotation(), b.rotation() ) && P< M::Vector< double, 3 > >::eq( a.translation(), b.translation() ); }
};

template<> struct P< M::ErrorPose >
{
	static M::ErrorPose make( int v ) { return M::ErrorPose( P< M::Pose >::make( v ), P< M::Matrix< double, 6, 6 > >::make( v + 200 ) ); }
	static bool eq( const M::ErrorPose& a, const M::ErrorPose& b )
	{ return P< M::Pose >::eq( a, b ) && P< M::Matrix< double, 6, 6 > >::eq( a.covariance(), b.covariance() ); }
};

template< std::size_t N > struct P< M::ErrorVector< double, N > >
{
	typedef M::ErrorVector< double, N > T;
	static T make( int v ) { return T( P< M::Vector< double, N > >::make( v ), P< M::Matrix< double, N, N > >::make( v + 300 ) ); }
	static bool eq( const T& a, const T& b ) { return P< M::Vector< double, N > >::eq( a.value, b.value ) && P< M::Matrix< double, N, N > >::eq( a.covariance, b.covariance ); }
};

template<> struct P< M::RotationVelocity >
{
	static M::RotationVelocity make( int v ) { return M::RotationVelocity( comp( v, 0 ), comp( v, 1 ), comp( v, 2 ) ); }
	static bool eq( const M::RotationVelocity& a, const M::RotationVelocity& b ) { for ( int k = 0; k < 3; ++k ) if ( !same( a( k ), b( k ) ) ) return false; return true; }
};

template<> struct P< M::CameraIntrinsics< double > >
{
	typedef M::CameraIntrinsics< double > T;
	static T make( int v )
	{
		M::Matrix< double, 3, 3 > m( P< M::Matrix< double, 3, 3 > >::make( v + 400 ) );
		M::Vector< double, 2 > tan( P< M::Vector< double, 2 > >::make( v + 500 ) );
		switch ( v % 4 )
		{
		case 0: return T( m, P< M::Vector< double, 2 > >::make( v ), tan, 640 + v, 480 );
		case 1: return T( m, P< M::Vector< double, 3 > >::make( v ), tan, 640 + v, 480 );
		case 2: return T( m, P< M::Vector< double, 6 > >::make( v ), tan, 640 + v, 480 );
		default: return T( m, P< M::Vector< double, 4 > >::make( v ), 640 + v, 480 );
		}
	}
	static bool eq( const T& a, const T& b )
	{
		if ( a.calib_type != b.calib_type || a.radial_size != b.radial_size || a.dimension( 0 ) != b.dimension( 0 ) || a.dimension( 1 ) != b.dimension( 1 ) ) return false;
		if ( !P< M::Matrix< double, 3, 3 > >::eq( a.matrix, b.matrix ) ) return false;
		for ( std::size_t k = 0; k < T::radial( a.calib_type ); ++k ) if ( !same( a.radial_params( k ), b.radial_params( k ) ) ) return false;
		return same( a.tangential_params( 0 ), b.tangential_params( 0 ) ) && same( a.tangential_params( 1 ), b.tangential_params( 1 ) );
	}
};

template< class T > struct P< std::vector< T > >
{
	// lengths 0, 1 and more all occur; make(v) differ by content or length
	static std::vector< T > make( int v )
	{
		static const int len[] = { 3, 0, 1, 2, 7, 1, 2, 5, 40, 3 };
		std::vector< T > r;
		for ( int k = 0; k < len[ v % 10 ]; ++k ) r.push_back( P< T >::make( 1 + ( v + k ) % NVAL ) );
		return r;
	}
	static bool eq( const std::vector< T >& a, const std::vector< T >& b )
	{ if ( a.size() != b.size() ) return false; for ( std::size_t k = 0; k < a.size(); ++k ) if ( !P< T >::eq( a[ k ], b[ k ] ) ) return false; return true; }
};

// 0 = not one of the values
template< class T > int id( const T& x ) { for ( int v = 1; v <= NVAL; ++v ) if ( P< T >::eq( x, P< T >::make( v ) ) ) return v; return 0; }

inline unsigned long long timeOf( int i )
{
	static const unsigned long long t[] = { 0ull, 1ull, 4294967296ull, 9223372036854775808ull, 18446744073709551615ull, 1172835701521021000ull, 4294967295ull, 256ull };
	return t[ i ];
}
inline int timeId( unsigned long long x ) { for ( int i = 0; i < 8; ++i ) if ( timeOf( i ) == x ) return i; return 99; }

// all payload types of measurements, X(type)
#define PAYLOAD_SINGLE( X ) \
	X( pl::M::Scalar< double > ) X( pl::M::Scalar< int > ) X( pl::M::Scalar< unsigned long > ) \
	X( VH_T2( pl::M::Vector< double, 2 > ) ) X( VH_T2( pl::M::Vector< double, 3 > ) ) X( VH_T2( pl::M::Vector< double, 4 > ) ) X( VH_T2( pl::M::Vector< double, 8 > ) ) \
	X( VH_T2( pl::M::Vector< float, 3 > ) ) \
	X( pl::M::Quaternion ) X( VH_T2( pl::M::Matrix< double, 3, 3 > ) ) X( VH_T2( pl::M::Matrix< double, 3, 4 > ) ) X( VH_T2( pl::M::Matrix< double, 4, 4 > ) ) \
	X( pl::M::Pose ) X( pl::M::ErrorPose ) X( VH_T2( pl::M::ErrorVector< double, 2 > ) ) X( VH_T2( pl::M::ErrorVector< double, 3 > ) ) \
	X( pl::M::RotationVelocity ) X( pl::M::CameraIntrinsics< double > )
#define PAYLOAD_LIST( X ) \
	X( std::vector< pl::M::Scalar< int > > ) X( std::vector< pl::M::Scalar< double > > ) X( std::vector< pl::M::Scalar< unsigned long > > ) \
	X( std::vector< pl::M::Pose > ) X( VH_T2( std::vector< pl::M::Vector< double, 2 > > ) ) X( VH_T2( std::vector< pl::M::Vector< double, 3 > > ) ) \
	X( std::vector< pl::M::ErrorPose > ) X( VH_T2( std::vector< pl::M::ErrorVector< double, 2 > > ) ) X( VH_T2( std::vector< pl::M::ErrorVector< double, 3 > > ) )
#define VH_T2( ... ) __VA_ARGS__

} // namespace pl
