// Replays Device.tla: serial ports on pseudo terminals, timers, sleeping, exceptions.
#include "vh.h"
#include <chrono>
#include <fstream>
#include <iomanip>
#include <memory>
#include <new>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <pty.h>
#include <termios.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <boost/filesystem.hpp>
#include <log4cpp/Category.hh>
#include <log4cpp/AppenderSkeleton.hh>
#include <utUtil/BlockTimer.h>
#include <utUtil/OS.h>
#include <utUtil/SerialPort.h>
#undef N
#undef O
#undef E
using namespace Ubitrack;
namespace bf = boost::filesystem;

static std::string ROOT;
static void cleanup() { if ( !ROOT.empty() ) { boost::system::error_code e; bf::remove_all( ROOT, e ); ROOT.clear(); } }

struct Dev { int master = -1, slave = -1; dev_t id = 0; tcflag_t flags = 0; bool up = false, told = false; };
static Dev V[ 3 ];
// a pseudo terminal has 8 bits and no parity whatever it is told: what it was told is noted here and told again
extern "C" int tcsetattr( int fd, int how, const struct termios* t ) noexcept
{
	typedef int (*F)( int, int, const struct termios* ); static F real = (F)dlsym( RTLD_NEXT, "tcsetattr" );
	struct termios u = *t; struct stat s; bool ours = false;
	if ( !fstat( fd, &s ) ) for ( Dev& v : V ) if ( v.up && v.id == s.st_rdev ) { ours = true; u.c_cflag = ( u.c_cflag & ~( CSIZE | PARENB ) ) | CS8; }
	int r = real( fd, how, ours ? &u : t );
	if ( !r && !fstat( fd, &s ) ) for ( Dev& v : V ) if ( v.up && v.id == s.st_rdev ) { v.flags = t->c_cflag; v.told = true; }
	return r;
}
extern "C" int tcgetattr( int fd, struct termios* t ) noexcept
{
	typedef int (*F)( int, struct termios* ); static F real = (F)dlsym( RTLD_NEXT, "tcgetattr" );
	int r = real( fd, t ); struct stat s; const tcflag_t m = CSIZE | PARENB | PARODD;
	if ( !r && !fstat( fd, &s ) ) for ( Dev& v : V ) if ( v.up && v.told && v.id == s.st_rdev ) t->c_cflag = ( t->c_cflag & ~m ) | ( v.flags & m );
	return r;
}
static int speed( speed_t s ) { switch ( s ) { case B2400: return 2400; case B4800: return 4800; case B9600: return 9600; case B19200: return 19200; case B38400: return 38400; case B57600: return 57600; case B115200: return 115200; case B230400: return 230400; } return -1; }
static int waiting( int fd ) { int n = 0; return ioctl( fd, FIONREAD, &n ) < 0 ? -1 : n; }
static std::string name( int d ) { return d == 4 ? ROOT + "/file" : ROOT + "/tty" + char( '0' + d ); }
static void drop( int d ) { Dev& v = V[ d ]; if ( v.master >= 0 ) ::close( v.master ); if ( v.slave >= 0 ) ::close( v.slave ); v = Dev(); ::unlink( name( d ).c_str() ); }
static void fresh( int d )
{
	drop( d ); Dev& v = V[ d ]; char n[ 256 ];
	if ( openpty( &v.master, &v.slave, n, 0, 0 ) ) std::_Exit( 96 );
	fcntl( v.master, F_SETFL, O_NONBLOCK ); struct stat s; fstat( v.slave, &s ); v.id = s.st_rdev; v.up = true;
	termios t; tcgetattr( v.slave, &t ); cfmakeraw( &t ); t.c_cflag = CS8 | CREAD | CLOCAL | ( d == 2 ? CSTOPB : 0 ); cfsetospeed( &t, d == 1 ? B4800 : B2400 ); cfsetispeed( &t, d == 1 ? B4800 : B2400 ); t.c_cc[ VTIME ] = 7; t.c_cc[ VMIN ] = 9;
	tcsetattr( v.slave, TCSANOW, &t );
	if ( symlink( n, name( d ).c_str() ) ) std::_Exit( 96 );
}
static int descriptors() { int n = 0; DIR* d = opendir( "/proc/self/fd" ); while ( readdir( d ) ) ++n; closedir( d ); return n; }
static int BASE;
static std::unique_ptr< Util::SerialPort > P[ 4 ];
static void state( vh::Out& o )
{
	int gone = 0; for ( int d = 1; d <= 2; ++d ) if ( !V[ d ].up ) ++gone; // master of a device that went
	o.i( descriptors() + gone - BASE );
	for ( int d = 1; d <= 2; ++d )
	{
		Dev& v = V[ d ]; if ( !v.up ) { o.i( -1 ); continue; }
		termios t; if ( tcgetattr( v.slave, &t ) ) { o.i( -2 ); continue; }
		tcflag_t f = v.flags; o.i( cfgetispeed( &t ) == cfgetospeed( &t ) ? speed( cfgetospeed( &t ) ) : -1 );
		o.i( ( f & CSIZE ) == CS5 ? 5 : ( f & CSIZE ) == CS6 ? 6 : ( f & CSIZE ) == CS7 ? 7 : 8 ); o.i( !( f & PARENB ) ? 0 : f & PARODD ? 1 : 2 ); o.i( t.c_cflag & CSTOPB ? 2 : 1 ); o.i( t.c_cc[ VTIME ] ); o.i( t.c_cc[ VMIN ] );
		o.i( !( t.c_lflag & ( ICANON | ECHO | ISIG | IEXTEN ) ) && !( t.c_oflag & OPOST ) && !( t.c_iflag & ( ICRNL | INLCR | IGNCR | IXON | ISTRIP ) ) && ( t.c_cflag & CREAD ) && ( t.c_cflag & CLOCAL ) );
		o.i( waiting( v.slave ) );
	}
}
template< class F > static bool guarded( vh::Out& o, F f ) { try { f(); return true; } catch ( const Util::Exception& e ) { o.i( -1 ); return false; } }
static std::vector< unsigned char > bytes( vh::In& in, int n ) { std::vector< unsigned char > b( n ); for ( int i = 0; i < n; ++i ) b[ i ] = in.i(); return b; }

// ---- log events of timers and exceptions
struct Event { std::string text, file; unsigned line; std::string category; };
static std::vector< Event > EVENTS;
struct Collect : log4cpp::AppenderSkeleton
{
	Collect() : log4cpp::AppenderSkeleton( "collect" ) {}
	virtual void close() {}
	virtual bool requiresLayout() const { return false; }
	virtual void setLayout( log4cpp::Layout* ) {}
	virtual void _append( const log4cpp::LoggingEvent& e ) { Event x; x.text = e.message; x.file = e.file; x.line = e.line; x.category = e.categoryName; EVENTS.push_back( x ); }
};
struct Timer { void* memory = 0; Util::BlockTimer* t = 0; std::string name; int runs = 0; };
static Timer T[ 3 ];
static void dropTimer( Timer& t ) { if ( t.t ) t.t->~BlockTimer(); ::operator delete( t.memory ); t = Timer(); }
static std::string text( const std::string& n, int runs ) { std::ostringstream s; s << n << " runs: " << std::setw( 6 ) << runs << ","; return s.str(); }

int main()
{
	std::atexit( cleanup );
	char t[] = "/tmp/vh_dev_XXXXXX"; if ( !mkdtemp( t ) ) std::_Exit( 96 ); ROOT = t;
	{ std::ofstream f( name( 4 ).c_str() ); f << "no terminal"; }
	log4cpp::Category& L = log4cpp::Category::getInstance( "vh.timer" ); L.setAdditivity( false ); L.setPriority( log4cpp::Priority::INFO ); L.addAppender( new Collect );
	log4cpp::Category& X = log4cpp::Category::getInstance( "Ubitrack.Util.Exception" ); X.setAdditivity( false ); X.addAppender( new Collect ); X.setPriority( log4cpp::Priority::WARN );
	vh::Harness H;
	H.reset = [] { for ( auto& p : P ) p.reset(); for ( int d = 1; d <= 2; ++d ) fresh( d ); for ( auto& x : T ) dropTimer( x ); EVENTS.clear(); BASE = descriptors(); };
	H[ "new" ] = []( vh::In& in, vh::Out& o ) { int p = in.i(), d = in.i(); long baud = in.ll(); int b = in.i(), q = in.i(), s = in.i(); P[ p ].reset(); if ( b == 8 && q == 0 && s == 1 ) P[ p ].reset( new Util::SerialPort( name( d ), baud ) ); else P[ p ].reset( new Util::SerialPort( name( d ), baud, b, q, s ) ); o.i( P[ p ]->getBaudRate() ); state( o ); };
	H[ "drop" ] = []( vh::In& in, vh::Out& o ) { P[ in.i() ].reset(); o.i( 0 ); state( o ); };
	H[ "open" ] = []( vh::In& in, vh::Out& o ) { int p = in.i(), vt = in.i(), vm = in.i(); if ( guarded( o, [&] { P[ p ]->open( vt, vm ); } ) ) o.i( 0 ); state( o ); };
	H[ "opend" ] = []( vh::In& in, vh::Out& o ) { int p = in.i(); if ( guarded( o, [&] { P[ p ]->open(); } ) ) o.i( 0 ); state( o ); };
	H[ "close" ] = []( vh::In& in, vh::Out& o ) { int p = in.i(); if ( guarded( o, [&] { P[ p ]->close(); } ) ) o.i( 0 ); state( o ); };
	H[ "in" ] = []( vh::In& in, vh::Out& o )
	{
		int d = in.i(), n = in.i(); std::vector< unsigned char > b = bytes( in, n ); int want = waiting( V[ d ].slave ) + n;
		if ( ::write( V[ d ].master, &b[ 0 ], n ) != n ) std::_Exit( 96 );
		for ( int i = 0; i < 5000 && waiting( V[ d ].slave ) < want; ++i ) ::usleep( 1000 ); // the bytes arrive a little later
		state( o );
	};
	H[ "read" ] = []( vh::In& in, vh::Out& o )
	{
		int p = in.i(), n = in.i(); std::vector< unsigned char > b( n + 8, 0xEE ); unsigned long r = 0;
		if ( guarded( o, [&] { r = P[ p ]->read( &b[ 0 ], n ); } ) ) { o.i( 0 ); o.i( r ); for ( unsigned long i = 0; i < r && i < b.size(); ++i ) o.i( b[ i ] ); }
		for ( std::size_t i = r; i < b.size(); ++i ) if ( b[ i ] != 0xEE ) { o.i( 901 ); break; }
		state( o );
	};
	H[ "send" ] = []( vh::In& in, vh::Out& o )
	{
		int p = in.i(), d = in.i(), n = in.i(); std::vector< unsigned char > b = bytes( in, n ), g; unsigned long r = 0;
		if ( guarded( o, [&] { r = P[ p ]->send( &b[ 0 ], n ); } ) )
		{
			o.i( 0 ); o.i( r );
			for ( int i = 0; i < 5000 && g.size() < r; ++i ) { unsigned char x[ 512 ]; int k = ::read( V[ d ].master, x, sizeof x ); if ( k > 0 ) g.insert( g.end(), x, x + k ); else ::usleep( 1000 ); }
			for ( unsigned char c : g ) o.i( c );
		}
		state( o );
	};
	H[ "avail" ] = []( vh::In& in, vh::Out& o ) { int p = in.i(); unsigned long r = 0; if ( guarded( o, [&] { r = P[ p ]->bytesOnRead(); } ) ) { o.i( 0 ); o.i( r ); } state( o ); };
	H[ "flush" ] = []( vh::In& in, vh::Out& o ) { int p = in.i(); if ( guarded( o, [&] { P[ p ]->flush(); } ) ) o.i( 0 ); state( o ); };
	H[ "brk" ] = []( vh::In& in, vh::Out& o ) { int p = in.i(); if ( guarded( o, [&] { P[ p ]->sendBreak(); } ) ) o.i( 0 ); state( o ); };
	H[ "gone" ] = []( vh::In& in, vh::Out& o ) { int d = in.i(); ::close( V[ d ].master ); V[ d ].master = -1; V[ d ].up = false; ::unlink( name( d ).c_str() ); state( o ); };
	// ---- timers
	H[ "tnew" ] = [&]( vh::In& in, vh::Out& o )
	{
		Timer& x = T[ in.i() ]; int l = in.i(); EVENTS.clear(); std::string was = x.name; int runs = x.runs; dropTimer( x );
		o.i( EVENTS.size() ); o.i( EVENTS.size() == 1 && EVENTS[ 0 ].text.find( text( was, runs ) ) != std::string::npos ); o.i( EVENTS.empty() ? 0 : EVENTS[ 0 ].line );
		static int serial = 0; std::ostringstream n; n << "timer" << ++serial; x.name = n.str();
		x.memory = ::operator new( sizeof( Util::BlockTimer ) ); std::memset( x.memory, 0x5A, sizeof( Util::BlockTimer ) ); // no lucky zeros
		x.t = l == 0 ? new ( x.memory ) Util::BlockTimer( x.name ) : l == 1 ? new ( x.memory ) Util::BlockTimer( x.name, L ) : new ( x.memory ) Util::BlockTimer( x.name, "vh.timer" );
		if ( x.t->getName() != x.name || x.t->getRuns() != 0 || x.t->getTotalTime() != 0 ) o.i( 901 );
	};
	H[ "tadd" ] = []( vh::In& in, vh::Out& o ) { Timer& x = T[ in.i() ]; x.t->addMeasurement( in.ll() ); ++x.runs; int ask = in.i(); o.i( x.t->getRuns() ); if ( ask > 0 ) o.d( x.t->getTotalTime() ); if ( ask > 1 ) o.d( x.t->getAvgTime() ); };
	H[ "trun" ] = []( vh::In& in, vh::Out& o )
	{
		Timer& x = T[ in.i() ]; int w = in.i(), line = in.i(), ms = in.i(); double before = x.t->getTotalTime(); auto a = std::chrono::steady_clock::now();
		try
		{
			if ( w <= 2 ) { Util::BlockTimer::Time m( *x.t ); ::usleep( ms * 1000 ); if ( w == 2 ) throw 1; }
			else { Util::BlockTimer::Time m( *x.t, "some/file.cpp", line ); ::usleep( ms * 1000 ); if ( w == 4 ) throw 1; }
		}
		catch ( int ) {}
		double outer = std::chrono::duration< double, std::milli >( std::chrono::steady_clock::now() - a ).count(), took = x.t->getTotalTime() - before; ++x.runs;
		o.i( x.t->getRuns() ); o.i( took >= ms - 0.5 && took <= outer + 0.5 );
		if ( !x.t->initialized() ) o.i( 902 );
	};
	H[ "sleep" ] = []( vh::In& in, vh::Out& o )
	{
		int ms = in.i(), ns = in.i(); auto a = std::chrono::steady_clock::now(); if ( ns ) Util::sleep( ms, ns ); else Util::sleep( ms );
		o.i( std::chrono::duration< double, std::milli >( std::chrono::steady_clock::now() - a ).count() >= ms + ns * 1e-6 - 0.05 );
	};
	H[ "exc" ] = [&]( vh::In& in, vh::Out& o )
	{
		std::string m = in.s(); bool given = in.i() != 0; std::string f = in.s(); unsigned n = in.i(); int debug = in.i(); EVENTS.clear(); X.setPriority( debug ? log4cpp::Priority::DEBUG : log4cpp::Priority::WARN );
		Util::Exception e( m, n, given ? f.c_str() : 0 ); X.setPriority( log4cpp::Priority::WARN ); std::ostringstream s, w; s << e; w << "Exception \"" << m << "\" from " << f << ":" << n;
		o.s( e.what() ); o.i( e.line() ); o.s( e.file() ); o.i( s.str() == w.str() ); o.i( EVENTS.size() ); o.i( EVENTS.empty() || ( EVENTS[ 0 ].text.find( m ) != std::string::npos && EVENTS[ 0 ].text.find( f ) != std::string::npos ) );
	};
	H[ "throw" ] = []( vh::In& in, vh::Out& o )
	{
		std::string m = in.s(); unsigned l = 0;
		try { l = __LINE__; UBITRACK_THROW( m ); }
		catch ( const std::runtime_error& r ) { const Util::Exception& e = dynamic_cast< const Util::Exception& >( r ); o.s( r.what() ); o.i( e.line() == l ); o.i( e.file() == __FILE__ ); }
	};
	H.reset();
	int r = H.run(); for ( auto& p : P ) p.reset(); for ( auto& x : T ) dropTimer( x ); cleanup(); return r;
}
