// Replays Conic.tla behaviours: plane conics in registers, images of quadrics.
#include "vh.h"
#include <cmath>
#include <utMath/Geometry/Conic.h>
#include <utMath/Geometry/QuadricFunctors.h>
using namespace Ubitrack;
namespace G = Ubitrack::Math::Geometry;
typedef Math::Vector< double, 6 > C6;
static C6 reg[ 5 ];

template< class T > Math::Vector< T, 6 > get( int i ) { Math::Vector< T, 6 > r; for ( int k = 0; k < 6; ++k ) r( k ) = static_cast< T >( reg[ i ]( k ) ); return r; }
template< class T > void put( int j, const Math::Vector< T, 6 >& v, vh::Out& o ) { o.v( v ); if ( j ) for ( int k = 0; k < 6; ++k ) reg[ j ]( k ) = v( k ); }
template< class T > Math::Matrix< T, 3, 4 > cam( vh::In& in ) { return in.mat< Math::Matrix< T, 3, 4 > >( 3, 4 ); }

template< class T > void op( const std::string& n, vh::In& in, vh::Out& o )
{
	typedef Math::Vector< T, 6 > V6;
	if ( n == "from" ) { Math::Matrix< T, 3, 3 > m = in.mat< Math::Matrix< T, 3, 3 > >( 3, 3 ); o.v( G::ConicFromMatrix< T >()( m ) ); return; }
	if ( n == "pquadric" ) { Math::Matrix< T, 3, 4 > P = cam< T >( in ); o.v( G::ProjectQuadric< T >()( P, G::Quadric< T >( in.vec< Math::Vector< T, 10 > >( 10 ) ) ) ); return; }
	if ( n == "pellipsoid" ) { Math::Matrix< T, 3, 4 > P = cam< T >( in ); o.v( G::ProjectEllipsoid< T >()( P, in.vec< V6 >( 6 ) ) ); return; }
	if ( n == "pboth" ) { Math::Matrix< T, 3, 4 > P = cam< T >( in ); o.v( G::ProjectQuadric< T >()( P, G::Ellipsoid2Quadric< T >()( in.vec< V6 >( 6 ) ) ) ); return; }
	if ( n == "pspheroid" ) { Math::Matrix< T, 3, 4 > P = cam< T >( in ); o.v( G::ProjectSpheroid< T >()( P, in.vec< Math::Vector< T, 4 > >( 4 ) ) ); return; }
	if ( n == "ellipsoid" ) { o.v( G::Ellipsoid2Quadric< T >()( in.vec< V6 >( 6 ) ) ); return; }
	const int j = in.i();
	if ( n == "move" ) { const V6 c = get< T >( in.i() ); put< T >( j, G::TranslateConic< T >()( in.vec< Math::Vector< T, 2 > >( 2 ), c ), o ); return; }
	if ( n == "scale" )
	{
		const V6 c = get< T >( in.i() ); const int w = in.i(); const T s1 = in.d(), s2 = in.d();
		put< T >( j, w == 1 ? G::ScaleConicUnsafe< T >( s1 )( c ) : G::ScaleConicUnsafe< T >( s1, s2 )( c ), o ); return;
	}
	if ( n == "flip" ) { const V6 c = get< T >( in.i() ); put< T >( j, G::FlipConicHorizontal< T >( in.i() )( c ), o ); return; }
	if ( n == "dual" ) { const V6 c = get< T >( in.i() ); put< T >( j, G::ConicInverse< T >()( c ), o ); return; }
	const V6 c = get< T >( j );
	if ( n == "mat" ) { const Math::Matrix< T, 3, 3 > m = G::MatrixFromConic< T >()( G::Conic< T >( c ) ); o.m( m ); o.v( G::ConicFromMatrix< T >()( m ) ); }
	else if ( n == "eval" ) o.d( G::ConicPixel< T >()( c, in.vec< Math::Vector< T, 2 > >( 2 ) ) );
	else if ( n == "det" ) o.d( G::ConicDeterminant< T >()( c ) );
	else if ( n == "kind" )
	{
		const T e = in.d();
		o.i( G::IsConicCircle< T >()( c ) ).i( G::IsConicDegenerate< T >()( c ) ).i( G::IsConicEllipse< T >()( c ) ).i( G::IsConicHyperbola< T >()( c ) ).i( G::IsConicParabola< T >()( c ) );
		o.i( G::IsConicCircle< T >( e )( c ) ).i( G::IsConicDegenerate< T >( e )( c ) ).i( G::IsConicParabola< T >( e )( c ) );
	}
	else if ( n == "centre" ) o.v( G::ConicCenter< T >()( c ) );
	else if ( n == "ecc" ) { const double e = G::ConicEccentricity< T >()( c ); o.d( e * e ); }
	else if ( n == "shape" ) { o.v( G::ConicSemiAxes< T >()( c ) ); o.d( G::ConicArea< T >()( c ) ); }
	else if ( n == "angle" ) { const double a = G::ConicAngle< T >()( c ); o.d( std::cos( 2 * a ) ).d( std::sin( 2 * a ) ); }
	else if ( n == "box" ) { o.v( G::ConicUpperLowerLimit< T >()( c ) ); o.v( G::ConicLeftRightLimit< T >()( c ) ); }
	else if ( n == "row" ) o.v( G::ConicHorizontalIntersection< T >()( c, static_cast< T >( in.d() ) ) );
	else std::_Exit( 98 );
}

int main()
{
	vh::Harness H;
	H.reset = [] { for ( int i = 0; i < 5; ++i ) { const double v[ 6 ] = { 1, 0, 1, 0, 0, -1 }; for ( int k = 0; k < 6; ++k ) reg[ i ]( k ) = v[ k ]; } };
	H[ "nothing" ] = []( vh::In&, vh::Out& ) {};
	H[ "set" ] = []( vh::In& in, vh::Out& ) { const int j = in.i(); reg[ j ] = in.vec< C6 >( 6 ); };
	for ( const char* n : { "from", "pquadric", "pellipsoid", "pboth", "pspheroid", "ellipsoid", "move", "scale", "flip", "dual", "mat", "eval", "det", "kind", "centre", "ecc", "shape", "angle", "box", "row" } )
	{
		const std::string s( n );
		H[ s ] = [ s ]( vh::In& in, vh::Out& o ) { if ( in.s() == "f" ) op< float >( s, in, o ); else op< double >( s, in, o ); };
	}
	return H.run();
}
