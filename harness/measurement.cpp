// Replays Measurement.tla behaviours on the real Measurement<T>, for every payload type at once.
#include "vh.h"
#include "payload.h"
#include <memory>

namespace UM = Ubitrack::Measurement;
static const int NH = 5;

struct World
{
	virtual ~World() {}
	virtual void op( const std::string& n, const std::vector< int >& a ) = 0;
	virtual std::string obs() = 0;
};

template< class T > std::string printed( const UM::Measurement< T >& m, int ) { std::ostringstream s; s << m; return s.str(); }

template< class T, bool PRINT > struct W : World
{
	typedef UM::Measurement< T > H;
	H h[ NH + 1 ];
	void op( const std::string& n, const std::vector< int >& a )
	{
		const int i = a[ 0 ], j = a.size() > 1 ? a[ 1 ] : 0, k = a.size() > 2 ? a[ 2 ] : 0;
		if ( n == "default" ) h[ i ] = H();
		else if ( n == "fromTime" ) h[ i ] = H( (UM::Timestamp)pl::timeOf( j ) );
		else if ( n == "fromPtr" ) h[ i ] = H( boost::shared_ptr< T >( h[ j ] ) );
		else if ( n == "fromVal" ) h[ i ] = H( pl::P< T >::make( j ) );
		else if ( n == "fromTimePtr" ) h[ i ] = H( pl::timeOf( j ), boost::shared_ptr< T >( h[ k ] ) );
		else if ( n == "fromTimeVal" ) h[ i ] = H( pl::timeOf( j ), pl::P< T >::make( k ) );
		else if ( n == "copy" ) { H c( h[ j ] ); h[ i ] = c; }
		else if ( n == "clone" ) h[ i ] = h[ j ].clone();
		else if ( n == "constCast" ) h[ i ] = h[ j ].template constCast< T >();
		else if ( n == "write" ) *h[ i ] = pl::P< T >::make( j );
		else if ( n == "setTime" ) h[ i ].time( pl::timeOf( j ) );
		else if ( n == "invalidate" ) h[ i ].invalidate();
		else if ( n == "release" ) h[ i ].reset();
		else if ( n == "swap" ) std::swap( h[ i ], h[ j ] );
		else std::_Exit( 98 );
	}
	template< bool B > typename std::enable_if< B, int >::type checkPrint( const H& m )
	{
		if ( m.invalid() ) return printed( m, 0 ) == "INVALID" ? 0 : 1;
		if ( !m.get() ) return 0;
		std::ostringstream s; s << *m << " " << UM::timestampToShortString( m.time() );
		return printed( m, 0 ) == s.str() ? 0 : 1;
	}
	template< bool B > typename std::enable_if< !B, int >::type checkPrint( const H& ) { return 0; }
	std::string obs()
	{
		vh::Out o;
		int bad = 0;
		for ( int i = 1; i <= NH; ++i )
		{
			const H& m = h[ i ];
			int first = 0;
			for ( int k = NH; k >= 1; --k ) if ( m.get() && h[ k ].get() == m.get() ) first = k;
			o.i( m.get() ? 1 : 0 ).i( pl::timeId( m.time() ) ).i( m.invalid() ? 1 : 0 ).i( m.get() ? pl::id( *m ) : 0 ).i( m.get() ? m.use_count() : 0 ).i( first );
			bad |= checkPrint< PRINT >( m );
		}
		if ( bad ) o.s( "wrong-printed-form" );
		return o.b;
	}
};

int main()
{
	vh::Harness H;
	std::vector< std::shared_ptr< World > > w;
	H.reset = [&]{
		w.clear();
		#define X1( ... ) w.push_back( std::make_shared< W< __VA_ARGS__, true > >() );
		PAYLOAD_SINGLE( X1 )
		#define X2( ... ) w.push_back( std::make_shared< W< __VA_ARGS__, false > >() );
		PAYLOAD_LIST( X2 )
		X2( std::string )
	};
	for ( const char* n : { "default", "fromTime", "fromPtr", "fromVal", "fromTimePtr", "fromTimeVal", "copy", "clone", "constCast", "write", "setTime", "invalidate", "release", "swap" } )
	{
		std::string name( n );
		H[ name ] = [&w, name]( vh::In& in, vh::Out& out ) {
			std::vector< int > a;
			while ( in.more() ) a.push_back( in.i() );
			std::string first;
			for ( std::size_t k = 0; k < w.size(); ++k )
			{
				w[ k ]->op( name, a );
				std::string o = w[ k ]->obs();
				if ( k == 0 ) { first = o; out.b = o; }
				else if ( o != first ) { out.b = o; out.s( "differs-for-payload-type" ); out.i( k ); break; }
			}
		};
	}
	return H.run();
}
