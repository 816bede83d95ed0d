// Replays Serialization.tla behaviours: message streams in every format the library offers.
#include "vh.h"
#include <utSerialization/Serialization.h>
#include "payload.h"
#include <memory>

namespace UM = Ubitrack::Measurement;
namespace US = Ubitrack::Serialization;

struct Stream
{
	std::string fmt;
	std::stringstream ss;                       // archives and sink of the framed formats
	std::unique_ptr< std::stringstream > rs;    // reader side of an archive (outlives the archives)
	std::unique_ptr< boost::archive::text_oarchive > to;
	std::unique_ptr< boost::archive::binary_oarchive > bo;
	std::unique_ptr< boost::archive::text_iarchive > ti;
	std::unique_ptr< boost::archive::binary_iarchive > bi;
	msgpack::unpacker pac;
	std::vector< std::size_t > ends;            // end offset of every framed message
	std::size_t fed = 0;
};

static std::map< int, std::unique_ptr< Stream > > S;
static unsigned counter = 0;

template< class T > void put( Stream& s, const T& x )
{
	if ( s.fmt == "text" ) { if ( !s.to ) s.to.reset( new boost::archive::text_oarchive( s.ss ) ); US::BoostArchive::serialize( *s.to, x ); }
	else if ( s.fmt == "binary" ) { if ( !s.bo ) s.bo.reset( new boost::archive::binary_oarchive( s.ss ) ); US::BoostArchive::serialize( *s.bo, x ); }
	else if ( s.fmt == "prototext" ) US::serialize( US::PROTOCOL_BOOST_TEXT, s.ss, x );
	else if ( s.fmt == "protobinary" ) US::serialize( US::PROTOCOL_BOOST_BINARY, s.ss, x );
	else if ( s.fmt == "protomsgpack" ) US::serialize( US::PROTOCOL_MSGPACK, s.ss, x );
	else if ( s.fmt == "msgpack" ) { msgpack::packer< std::stringstream > pk( s.ss ); US::MsgpackArchive::serialize( pk, x ); }
	else if ( s.fmt == "msgpackzone" ) { msgpack::zone z; msgpack::object o( x, z ); msgpack::packer< std::stringstream > pk( s.ss ); pk.pack( o ); }
	s.ends.push_back( s.ss.str().size() );
}

template< class T > void get( Stream& s, T& x )
{
	if ( s.fmt == "text" ) { if ( !s.ti ) s.ti.reset( new boost::archive::text_iarchive( *s.rs ) ); US::BoostArchive::deserialize( *s.ti, x ); }
	else if ( s.fmt == "binary" ) { if ( !s.bi ) s.bi.reset( new boost::archive::binary_iarchive( *s.rs ) ); US::BoostArchive::deserialize( *s.bi, x ); }
	else if ( s.fmt == "prototext" ) { boost::archive::text_iarchive a( *s.rs ); US::BoostArchive::deserialize( a, x ); }
	else if ( s.fmt == "protobinary" ) { boost::archive::binary_iarchive a( *s.rs ); US::BoostArchive::deserialize( a, x ); }
	else if ( s.fmt == "msgpackzone" ) { msgpack::object_handle oh; if ( s.pac.next( oh ) ) x = oh.get().template as< T >(); }
	else US::MsgpackArchive::deserialize( s.pac, x );
}

struct Type
{
	virtual ~Type() {}
	virtual void write( Stream&, int m, int tm, int v ) = 0;
	virtual void read( Stream&, int m, vh::Out& ) = 0;
	virtual bool none( Stream& ) = 0;       // true: reported or variable untouched
	virtual void wrong( Stream& ) = 0;
};

template< class T > struct Ty : Type
{
	typedef UM::Measurement< T > H;
	void write( Stream& s, int m, int tm, int v )
	{
		if ( !m ) put( s, pl::P< T >::make( v ) );
		else if ( v ) put( s, H( pl::timeOf( tm ), pl::P< T >::make( v ) ) );
		else put( s, H( (UM::Timestamp)pl::timeOf( tm ) ) );
	}
	void read( Stream& s, int m, vh::Out& o )
	{
		if ( !m ) { T x( pl::P< T >::make( 10 ) ); get( s, x ); o.s( "ok" ).i( pl::id( x ) ).i( 0 ); }
		else
		{
			H h;
			if ( counter++ % 2 ) h = H( 4, pl::P< T >::make( 10 ) );
			get( s, h );
			o.s( "ok" ).i( h.get() ? pl::id( *h ) : 0 ).i( pl::timeId( h.time() ) );
		}
	}
	bool none( Stream& s )
	{
		T x( pl::P< T >::make( 10 ) );
		try { get( s, x ); } catch ( ... ) { return true; }
		return pl::P< T >::eq( x, pl::P< T >::make( 10 ) );
	}
	void wrong( Stream& s ) { T x( pl::P< T >::make( 10 ) ); get( s, x ); }
};

int main()
{
	vh::Harness H;
	std::map< std::string, std::unique_ptr< Type > > T;
	namespace M = Ubitrack::Math;
	#define TY( n, ... ) T[ n ].reset( new Ty< __VA_ARGS__ > );
	TY( "VX", M::Vector< double, 0 > ) TY( "d", double ) TY( "i", int ) TY( "Vd", std::vector< double > )
	TY( "Sd", M::Scalar< double > ) TY( "Si", M::Scalar< int > ) TY( "Su", M::Scalar< unsigned long > ) TY( "str", std::string )
	TY( "V2", M::Vector< double, 2 > ) TY( "V3", M::Vector< double, 3 > ) TY( "V4", M::Vector< double, 4 > ) TY( "V8", M::Vector< double, 8 > ) TY( "F3", M::Vector< float, 3 > )
	TY( "Q", M::Quaternion ) TY( "M33", M::Matrix< double, 3, 3 > ) TY( "M34", M::Matrix< double, 3, 4 > ) TY( "M44", M::Matrix< double, 4, 4 > ) TY( "M66", M::Matrix< double, 6, 6 > )
	TY( "M23", M::Matrix< double, 2, 3 > ) TY( "M43", M::Matrix< double, 4, 3 > )
	TY( "P", M::Pose ) TY( "EP", M::ErrorPose ) TY( "E2", M::ErrorVector< double, 2 > ) TY( "E3", M::ErrorVector< double, 3 > ) TY( "RV", M::RotationVelocity ) TY( "K", M::CameraIntrinsics< double > )
	TY( "LSi", std::vector< M::Scalar< int > > ) TY( "LSd", std::vector< M::Scalar< double > > ) TY( "LSu", std::vector< M::Scalar< unsigned long > > ) TY( "LP", std::vector< M::Pose > )
	TY( "LV2", std::vector< M::Vector< double, 2 > > ) TY( "LV3", std::vector< M::Vector< double, 3 > > ) TY( "LEP", std::vector< M::ErrorPose > )
	TY( "LE2", std::vector< M::ErrorVector< double, 2 > > ) TY( "LE3", std::vector< M::ErrorVector< double, 3 > > ) TY( "LQ", std::vector< M::Quaternion > ) TY( "LM34", std::vector< M::Matrix< double, 3, 4 > > )

	H.reset = [&]{ S.clear(); };
	H[ "open" ] = [&]( vh::In& in, vh::Out& ) { int s = in.i(); S[ s ].reset( new Stream ); S[ s ]->fmt = in.s(); };
	H[ "write" ] = [&]( vh::In& in, vh::Out& ) { int s = in.i(); std::string t = in.s(); int m = in.i(), tm = in.i(), v = in.i(); T.at( t )->write( *S.at( s ), m, tm, v ); };
	H[ "finish" ] = [&]( vh::In& in, vh::Out& ) { Stream& s = *S.at( in.i() ); s.to.reset(); s.bo.reset(); s.rs.reset( new std::stringstream( s.ss.str() ) ); };
	H[ "feed" ] = [&]( vh::In& in, vh::Out& ) {
		Stream& s = *S.at( in.i() ); std::size_t k = in.i(); int p = in.i();
		std::string all = s.ss.str();
		std::size_t end = k ? s.ends.at( k - 1 ) : 0;
		if ( p ) end += ( s.ends.at( k ) - end ) / 2;      // a proper part (possibly nothing) of the next message
		if ( end > s.fed )
		{
			s.pac.reserve_buffer( end - s.fed );
			std::memcpy( s.pac.buffer(), all.data() + s.fed, end - s.fed );
			s.pac.buffer_consumed( end - s.fed );
			s.fed = end;
		}
	};
	H[ "read" ] = [&]( vh::In& in, vh::Out& o ) { int s = in.i(); std::string t = in.s(); int m = in.i(); T.at( t )->read( *S.at( s ), m, o ); };
	H[ "readnone" ] = [&]( vh::In& in, vh::Out& o ) { int s = in.i(); std::string t = in.s(); o.s( T.at( t )->none( *S.at( s ) ) ? "none" : "made-up-value" ); };
	H[ "readwrong" ] = [&]( vh::In& in, vh::Out& ) { int s = in.i(); std::string t = in.s(); T.at( t )->wrong( *S.at( s ) ); };
	return H.run();
}
