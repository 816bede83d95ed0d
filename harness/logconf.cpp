// Replays LogConf.tla behaviours: configuration by property files.
#include "vh.h"
#include <fstream>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
#include <time.h>
#include <utUtil/Logging.h>
#include <log4cpp/Category.hh>
#include <log4cpp/HierarchyMaintainer.hh>
#include <log4cpp/PropertyConfigurator.hh>
#include <log4cpp/AppenderSkeleton.hh>
using namespace log4cpp;

struct Fresh : HierarchyMaintainer
{
	static void make() { HierarchyMaintainer& m = HierarchyMaintainer::getDefaultMaintainer(); m.shutdown(); m.deleteAllCategories(); ( m.*( &Fresh::_categoryMap ) ).clear(); }
};
struct All { static void remove() { for ( const char* n : { "A", "A-x", "AB", "z", "A_" } ) for ( int g = 1; g <= 100; ++g ) delete Appender::getAppender( n + std::to_string( g ) ); } };
static const char* const files[] = { "f1.log", "f2.log", "sub/f3.log", "foobar" };
static std::stringstream con, err;
static time_t before;
static std::string norm( std::string s )
{
	for ( time_t t = before; t <= time( 0 ) + 1; ++t )
	{
		const std::string n = std::to_string( t );
		for ( std::string::size_type p; ( p = s.find( n ) ) != std::string::npos; ) s.replace( p, n.size(), "NOW" );
	}
	return s;
}
// lines of the default layout start with the time of the day
static std::string normTime( std::string s )
{
	for ( std::string::size_type p = 0; p < s.size(); )
	{
		bool t = s.size() >= p + 12; const char* const f = "dd:dd:dd.ddd";
		for ( int i = 0; t && i < 12; ++i ) t = f[ i ] == 'd' ? std::isdigit( (unsigned char)s[ p + i ] ) : s[ p + i ] == f[ i ];
		if ( t ) s.replace( p, 12, "TIME" );
		const std::string::size_type e = s.find( '\n', p ); p = e == std::string::npos ? s.size() : e + 1;
	}
	return s;
}
static void show( vh::Out& o )
{
	std::unique_ptr< std::vector< Category* > > l( Category::getCurrentCategories() );
	o.u( l->size() );
	for ( Category* c : *l ) o.s( c->getName() ).i( c->getPriority() ).i( c->getChainedPriority() ).u( c->getAdditivity() ).u( c->getAllAppenders().size() );
}
static void showFiles( vh::Out& o )
{
	for ( const char* f : files ) { std::ifstream i( f, std::ios::binary ); std::stringstream s; s << i.rdbuf(); o.u( i.is_open() ).s( norm( s.str() ) ); }
}
static void clean()
{
	Fresh::make(); All::remove();
	for ( const char* f : files ) unlink( f ); unlink( "log.conf" );
	con.str( "" ); err.str( "" ); before = time( 0 );
}
static void write( vh::In& in )
{
	const bool last = in.i() == 1; const int n = in.i(); std::ofstream f( "log.conf", std::ios::binary );
	for ( int i = 0; i < n; ++i ) { f << in.s(); if ( i < n - 1 || last ) f << '\n'; }
}

int main()
{
	setenv( "VPENV", "f", 1 ); for ( const char* v : { "stem", "my.dir", "empty", "nothing", "nope" } ) unsetenv( v );
	char t[] = "/tmp/vh-logconf-XXXXXX"; const std::string base = mkdtemp( t );
	if ( chdir( base.c_str() ) ) return 99;
	mkdir( "sub", 0755 );
	std::streambuf* const oldOut = std::cout.rdbuf( con.rdbuf() ); std::streambuf* const oldErr = std::cerr.rdbuf( err.rdbuf() );
	vh::Harness H;
	H.reset = clean;
	H[ "configure" ] = []( vh::In& in, vh::Out& o )
	{
		write( in );
		try { PropertyConfigurator::configure( "log.conf" ); }
		catch ( const ConfigureFailure& ) { clean(); throw; }
		catch ( ... ) { std::_Exit( 95 ); }
		show( o ); showFiles( o );
	};
	H[ "init" ] = []( vh::In& in, vh::Out& o ) { write( in ); Ubitrack::Util::initLogging( "log.conf" ); show( o ); showFiles( o ); };
	H[ "configure?" ] = []( vh::In&, vh::Out& o ) { PropertyConfigurator::configure( "nowhere.conf" ); show( o ); };
	H[ "init?" ] = []( vh::In&, vh::Out& o ) { Ubitrack::Util::initLogging( "nowhere.conf" ); show( o ); showFiles( o ); };
	H[ "log" ] = []( vh::In& in, vh::Out& o )
	{
		const std::string n = in.s(); const int p = in.i(); const std::string m = in.s(), f = in.s(); const int l = in.i();
		con.str( "" ); err.str( "" ); con.clear(); err.clear();
		Category::getInstance( n ).log( p, m, f.c_str(), l );
		o.s( norm( con.str() ) ).s( normTime( err.str() ) ); showFiles( o );
	};
	const int r = H.run();
	clean(); rmdir( "sub" ); std::cout.rdbuf( oldOut ); std::cerr.rdbuf( oldErr );
	if ( chdir( "/" ) ) return 99;
	rmdir( base.c_str() );
	return r;
}
