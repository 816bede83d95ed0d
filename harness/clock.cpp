// Replays Clock.tla / Calendar.tla behaviours.
#include "vh.h"
#include <cmath>
#include <ctime>
#include <sys/time.h>
#include <memory>
#include <utMeasurement/Timestamp.h>
#include <utMeasurement/TimestampSync.h>
#include <utMeasurement/TimestampSyncLS.h>

namespace UM = Ubitrack::Measurement;
typedef unsigned long long u64;
static const u64 bases[] = { 1000000000ull, 1172835701521021000ull, 1700000000123456789ull, 9000000000000000001ull, 4611686018427387904ull };

struct Sync
{
	std::unique_ptr< UM::TimestampSync > kf;
	std::unique_ptr< UM::TimestampSyncLS > ls;
	u64 base; long long rateNum, rateDen; // local ns per tick = rateNum / rateDen
	long long ticks = 0; double origin = 0;
	u64 exact() const { return base + (u64)( (__int128)ticks * rateNum / rateDen ); }
	u64 event( u64 local ) { return kf ? kf->convertNativeToLocal( origin + (double)ticks, local ) : ls->convertNativeToLocal( origin + (double)ticks, local ); }
	unsigned count() { return kf ? kf->getEventCount() : ls->getEventCount(); }
};

int main()
{
	std::cerr.setstate( std::ios::failbit );
	vh::Harness H;
	std::unique_ptr< Sync > S;
	H.reset = [&]{ S.reset(); };
	H[ "start" ] = [&]( vh::In& in, vh::Out& o ) {
		std::string k = in.s(); int f = in.i(), b = in.i();
		S.reset( new Sync );
		S->base = bases[ b ];
		S->rateNum = 1000000000; S->rateDen = f;
		S->origin = k == "kf" && b % 2 ? 1e6 : 0;
		if ( k == "kf" ) S->kf.reset( new UM::TimestampSync( f ) ); else S->ls.reset( new UM::TimestampSyncLS );
		o.i( S->count() );
	};
	// true rate differs from the nominal one by ppm parts per million
	H[ "drift" ] = [&]( vh::In& in, vh::Out& o ) {
		int f = in.i(), ppm = in.i(), b = in.i();
		S.reset( new Sync );
		S->base = bases[ b ]; S->rateNum = 1000ll * ( 1000000 + ppm ); S->rateDen = f;
		S->kf.reset( new UM::TimestampSync( f ) );
		o.i( S->count() );
	};
	H[ "good" ] = [&]( vh::In& in, vh::Out& o ) {
		int k = in.i(), d = in.i(); long long dev = 0, worst = 0;
		for ( int i = 0; i < k; ++i )
		{
			if ( S->count() ) S->ticks += d;
			dev = (long long)( S->event( S->exact() ) - S->exact() );
			if ( std::llabs( dev ) > std::llabs( worst ) ) worst = dev;
		}
		o.i( S->count() ).i( worst );
	};
	// like good, but only the last deviation counts (settling)
	H[ "settle" ] = [&]( vh::In& in, vh::Out& o ) {
		int k = in.i(), d = in.i(); long long dev = 0;
		for ( int i = 0; i < k; ++i ) { if ( S->count() ) S->ticks += d; dev = (long long)( S->event( S->exact() ) - S->exact() ); }
		o.i( S->count() ).i( dev );
	};
	// a persistent shift of the local clock
	H[ "shift" ] = [&]( vh::In& in, vh::Out& o ) { S->base += 1000ll * in.i(); o.i( S->count() ); };
	H[ "bad" ] = [&]( vh::In& in, vh::Out& o ) {
		int d = in.i(); long long off = in.i();
		S->ticks += d;
		long long dev = (long long)( S->event( S->exact() + (u64)( off * 1000 ) ) - S->exact() );
		if ( S->ls && S->count() <= 11 ) dev /= 1000;
		o.i( S->count() ).i( dev );
	};
	auto stamp = []( vh::In& in ) { u64 d = in.i(), s = in.i(), us = in.i(), ns = in.i(); return ( ( d * 86400ull + s ) * 1000000ull + us ) * 1000ull + ns; };
	H[ "long" ] = [&]( vh::In& in, vh::Out& o ) { o.s( UM::timestampToString( stamp( in ) ) ); };
	H[ "short" ] = [&]( vh::In& in, vh::Out& o ) {
		u64 t = stamp( in ); int z = in.i();
		char tz[ 32 ]; std::snprintf( tz, sizeof tz, "XXX%c%02d:%02d", z > 0 ? '-' : '+', std::abs( z ) / 60, std::abs( z ) % 60 );
		setenv( "TZ", tz, 1 ); tzset();
		o.s( UM::timestampToShortString( t ) );
	};
	H[ "now" ] = [&]( vh::In&, vh::Out& o ) {
		int ok = 1;
		u64 last = 0;
		for ( int i = 0; i < 1000; ++i )
		{
			timeval a, b; gettimeofday( &a, 0 ); u64 t = UM::now(); gettimeofday( &b, 0 );
			u64 ta = a.tv_sec * 1000000000ull + a.tv_usec * 1000ull, tb = b.tv_sec * 1000000000ull + b.tv_usec * 1000ull;
			if ( ta <= tb && ( t < ta || t > tb + 999 ) ) ok = 0;
			last = t;
		}
		o.i( ok );
	};
	return H.run();
}
