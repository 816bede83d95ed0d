// Replays LogFiles.tla behaviours: appenders that write files.
#include "vh.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <log4cpp/FileAppender.hh>
#include <log4cpp/RollingFileAppender.hh>
#include <log4cpp/PatternLayout.hh>
using namespace log4cpp;

static std::string base;
static std::string dirName( int d ) { return base + "/d" + std::to_string( d ); }
static void wipe( const std::string& d )
{
	if ( DIR* p = opendir( d.c_str() ) ) { std::vector< std::string > l; while ( dirent* e = readdir( p ) ) l.push_back( e->d_name ); closedir( p ); for ( auto& n : l ) if ( n != "." && n != ".." ) unlink( ( d + "/" + n ).c_str() ); rmdir( d.c_str() ); }
}
static const int NA = 4;
static FileAppender* app[ NA + 1 ];
static void look( vh::Out& o, int d )
{
	DIR* p = opendir( dirName( d ).c_str() ); if ( !p ) { o.s( "away" ); return; }
	std::vector< std::string > l; while ( dirent* e = readdir( p ) ) l.push_back( e->d_name ); closedir( p );
	// by base, then by number
	auto key = []( const std::string& n ) { const bool a = n.compare( 0, 5, "a.log" ) == 0; const std::string r = n.substr( a ? 5 : std::min< std::size_t >( 1, n.size() ) ); return std::make_pair( a ? 0 : 1, r.empty() ? 0 : std::atoi( r.c_str() + 1 ) ); };
	std::sort( l.begin(), l.end(), [&]( const std::string& a, const std::string& b ) { return key( a ) < key( b ); } );
	for ( auto& n : l )
		if ( n != "." && n != ".." )
		{
			const std::string f = dirName( d ) + "/" + n; struct stat st; stat( f.c_str(), &st ); std::ifstream i( f.c_str(), std::ios::binary ); std::stringstream s; s << i.rdbuf();
			o.s( n ).s( s.str() ).u( st.st_mode & 0777 );
		}
}
static int number( int d, bool away )
{
	const std::string n = dirName( d ) + ( away ? "-away" : "" ); int k = 0;
	if ( DIR* p = opendir( n.c_str() ) ) { while ( dirent* e = readdir( p ) ) if ( e->d_name[ 0 ] != '.' ) k += 3; closedir( p ); return k; }
	return away ? -1 : number( d, true );
}
static void all( vh::Out& o ) { o.i( number( 1, false ) ).i( number( 2, false ) ); look( o, 1 ); look( o, 2 ); }

int main()
{
	umask( 022 );
	char t[] = "/tmp/vh-logfile-XXXXXX"; base = mkdtemp( t );
	vh::Harness H;
	auto clean = [] { for ( int k = 1; k <= NA; ++k ) { delete app[ k ]; app[ k ] = 0; } for ( int d = 1; d <= 2; ++d ) { wipe( dirName( d ) ); wipe( dirName( d ) + "-away" ); } };
	H.reset = [&] { clean(); for ( int d = 1; d <= 2; ++d ) mkdir( dirName( d ).c_str(), 0755 ); };
	H[ "nothing" ] = []( vh::In&, vh::Out& o ) { all( o ); };
	H[ "new" ] = []( vh::In& in, vh::Out& o )
	{
		const int k = in.i(); const std::string n = in.s(); const int d = in.i(); const std::string f = dirName( d ) + "/" + in.s(); const bool a = in.i() == 1; const int m = in.i(), x = in.i(), c = in.i();
		const std::string name = "F" + std::to_string( k );
		app[ k ] = n == "fd" ? new FileAppender( name, open( f.c_str(), O_CREAT | O_APPEND | O_WRONLY, m ) ) : n == "file" ? ( a && m == 0644 ? new FileAppender( name, f ) : new FileAppender( name, f, a, m ) )
			: x == 10 && a ? new RollingFileAppender( name, f, x, c, a, m ) : new RollingFileAppender( name, f, x, c, a, m );
		PatternLayout* l = new PatternLayout; l->setConversionPattern( "%m%n" ); app[ k ]->setLayout( l );
		if ( n != "fd" && ( app[ k ]->getAppend() != a || app[ k ]->getMode() != (mode_t)m ) ) o.s( "settings" );
		if ( RollingFileAppender* r = dynamic_cast< RollingFileAppender* >( app[ k ] ) ) if ( (int)r->getMaxFileSize() != x || (int)r->getMaxBackupIndex() != c ) o.s( "limits" );
		all( o );
	};
	H[ "log" ] = []( vh::In& in, vh::Out& o ) { FileAppender* a = app[ in.i() ]; const int n = in.i(); for ( int i = 0; i < n; ++i ) a->doAppend( LoggingEvent( "c", in.s(), "", 300 ) ); all( o ); };
	H[ "reopen" ] = []( vh::In& in, vh::Out& o ) { o.u( app[ in.i() ]->reopen() ); all( o ); };
	H[ "reopenall" ] = []( vh::In&, vh::Out& o ) { o.u( Appender::reopenAll() ); all( o ); };
	H[ "close" ] = []( vh::In& in, vh::Out& o ) { app[ in.i() ]->close(); all( o ); };
	H[ "closeall" ] = []( vh::In&, vh::Out& o ) { Appender::closeAll(); all( o ); };
	H[ "delete" ] = []( vh::In& in, vh::Out& o ) { const int k = in.i(); delete app[ k ]; app[ k ] = 0; all( o ); };
	H[ "set" ] = []( vh::In& in, vh::Out& o )
	{
		FileAppender* a = app[ in.i() ]; RollingFileAppender* r = dynamic_cast< RollingFileAppender* >( a );
		a->setAppend( in.i() == 1 ); a->setMode( in.i() ); const int x = in.i(), c = in.i(); if ( r ) { r->setMaximumFileSize( x ); r->setMaxBackupIndex( c ); }
		o.u( a->getAppend() ).u( a->getMode() ).u( r ? r->getMaxFileSize() : 0 ).u( r ? r->getMaxBackupIndex() : 0 ); all( o );
	};
	H[ "roll" ] = []( vh::In& in, vh::Out& o ) { dynamic_cast< RollingFileAppender* >( app[ in.i() ] )->rollOver(); all( o ); };
	H[ "remove" ] = []( vh::In& in, vh::Out& o ) { const int d = in.i(); unlink( ( dirName( d ) + "/" + in.s() ).c_str() ); all( o ); };
	H[ "rename" ] = []( vh::In& in, vh::Out& o ) { const int d = in.i(); const std::string a = dirName( d ) + "/" + in.s(), b = dirName( d ) + "/" + in.s(); rename( a.c_str(), b.c_str() ); all( o ); };
	H[ "away" ] = []( vh::In& in, vh::Out& o ) { const int d = in.i(); const std::string n = dirName( d ), w = n + "-away"; if ( in.i() ) rename( w.c_str(), n.c_str() ); else rename( n.c_str(), w.c_str() ); all( o ); };
	const int r = H.run();
	clean(); rmdir( base.c_str() );
	return r;
}
