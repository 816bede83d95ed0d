// Replays Log.tla behaviours: categories, appenders, layouts, contexts.
#include "vh.h"
#include <condition_variable>
#include <cstdarg>
#include <memory>
#include <mutex>
#include <queue>
#include <thread>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <unistd.h>
#include <time.h>
#include <log4cpp/Category.hh>
#include <log4cpp/FixedContextCategory.hh>
#include <log4cpp/HierarchyMaintainer.hh>
#include <log4cpp/StringQueueAppender.hh>
#include <log4cpp/RemoteSyslogAppender.hh>
#include <log4cpp/BasicLayout.hh>
#include <log4cpp/SimpleLayout.hh>
#include <log4cpp/PatternLayout.hh>
#include <log4cpp/NDC.hh>
namespace log4cpp { CategoryStream& eol( CategoryStream& ); CategoryStream& left( CategoryStream& ); }
using namespace log4cpp;

// a hierarchy from scratch
struct Fresh : HierarchyMaintainer
{
	static void make()
	{
		HierarchyMaintainer& m = HierarchyMaintainer::getDefaultMaintainer();
		m.shutdown(); m.deleteAllCategories(); ( m.*( &Fresh::_categoryMap ) ).clear();
	}
};
static const int NA = 4;
struct QueueApp : StringQueueAppender
{
	int k; std::vector< std::string > seen;
	static QueueApp* all[ NA + 1 ];
	QueueApp( int k ) : StringQueueAppender( "A" + std::to_string( k ) ), k( k ) { all[ k ] = this; }
	~QueueApp() { all[ k ] = 0; }
	void _append( const LoggingEvent& e ) { seen.push_back( e.message ); StringQueueAppender::_append( e ); }
};
QueueApp* QueueApp::all[ NA + 1 ];
struct WordFilter : Filter
{
	std::string w; Decision d;
	WordFilter( const std::string& w, Decision d ) : w( w ), d( d ) {}
	Decision _decide( const LoggingEvent& e ) { return e.message == w ? d : NEUTRAL; }
};
static FixedContextCategory* fixedCat[ 3 ];

// a second thread that does what it is told
struct Worker
{
	std::mutex m; std::condition_variable c; std::function< void() > job; bool busy = false, stop = false; std::thread t;
	Worker() : t( [this] { for ( ;; ) { std::unique_lock< std::mutex > l( m ); c.wait( l, [this] { return busy || stop; } ); if ( stop ) return; l.unlock(); job(); l.lock(); busy = false; c.notify_all(); } } ) {}
	~Worker() { { std::lock_guard< std::mutex > l( m ); stop = true; } c.notify_all(); t.join(); }
	void run( const std::function< void() >& f ) { std::unique_lock< std::mutex > l( m ); job = f; busy = true; c.notify_all(); c.wait( l, [this] { return !busy; } ); }
};
static Worker* worker;
static void on( int t, const std::function< void() >& f ) { if ( t == 0 ) f(); else worker->run( f ); }

static Layout* layout( const std::string& k, const std::string& p )
{
	if ( k == "basic" ) return new BasicLayout; if ( k == "simple" ) return new SimpleLayout;
	PatternLayout* l = new PatternLayout; if ( k == "pattern" ) { l->setConversionPattern( p ); if ( l->getConversionPattern() != p ) std::_Exit( 96 ); } return l;
}
static time_t before;
static std::string norm( std::string s )
{
	for ( time_t t = before; t <= time( 0 ) + 1; ++t )
	{
		const std::string n = std::to_string( t );
		for ( std::string::size_type p; ( p = s.find( n ) ) != std::string::npos; ) s.replace( p, n.size(), "NOW" );
	}
	return s;
}
static void got( vh::Out& o )
{
	for ( int a = 1; a <= NA; ++a )
	{
		QueueApp* q = QueueApp::all[ a ];
		if ( !q ) { o.u( 0 ); continue; }
		o.u( q->queueSize() ); q->seen.clear();
		while ( q->queueSize() ) o.s( norm( q->popMessage() ) );
	}
}
static void liveness( vh::Out& o )
{
	for ( int a = 1; a <= NA; ++a )
	{
		if ( Appender::getAppender( "A" + std::to_string( a ) ) != QueueApp::all[ a ] ) o.s( "registry" );
		o.u( QueueApp::all[ a ] ? 1 : 0 );
	}
}
static void logva( Category& c, int p, const char* f, ... ) { va_list v; va_start( v, f ); c.logva( p, f, v ); va_end( v ); }
static void level( Category& c, int p, const std::string& m, int alt )
{
	switch ( p ) { case 0: if ( alt ) c.emerg( m ); else c.fatal( m ); break; case 100: c.alert( m ); break; case 200: c.crit( m ); break; case 300: c.error( m ); break; case 400: c.warn( m ); break;
		case 500: c.notice( m ); break; case 600: c.info( m ); break; case 700: c.debug( m ); break; default: c.trace( m ); }
}
static void levelf( Category& c, int p, const std::string& m, int alt )
{
	const char* s = m.c_str();
	switch ( p ) { case 0: if ( alt ) c.emerg( "%s", s ); else c.fatal( "%s", s ); break; case 100: c.alert( "%s", s ); break; case 200: c.crit( "%s", s ); break; case 300: c.error( "%s", s ); break; case 400: c.warn( "%s", s ); break;
		case 500: c.notice( "%s", s ); break; case 600: c.info( "%s", s ); break; case 700: c.debug( "%s", s ); break; default: c.trace( "%s", s ); }
}
static CategoryStream levelstream( Category& c, int p, int alt )
{
	switch ( p ) { case 0: return alt ? c.emergStream() : c.fatalStream(); case 100: return c.alertStream(); case 200: return c.critStream(); case 300: return c.errorStream(); case 400: return c.warnStream();
		case 500: return c.noticeStream(); case 600: return c.infoStream(); case 700: return c.debugStream(); case 750: return c.traceStream(); default: return c.getStream( p ); }
}
#line 77 "/src/mac.cpp"
static void macro( Category& c, int p, const std::string& m, int alt ) { switch ( p ) { case 0: if ( alt ) { LOG4CPP_EMERG( c, m ) } else { LOG4CPP_FATAL( c, m << "" ) } break; case 100: LOG4CPP_ALERT( c, m ) break; case 200: LOG4CPP_CRIT( c, m ) break; case 300: LOG4CPP_ERROR( c, m ) break; case 400: LOG4CPP_WARN( c, m ) break; case 500: LOG4CPP_NOTICE( c, m ) break; case 600: LOG4CPP_INFO( c, m ) break; case 700: LOG4CPP_DEBUG( c, m ) break; default: LOG4CPP_TRACE( c, m ) } }
#line 200 "log.cpp"

int main()
{
	setenv( "TZ", "UTC", 1 ); tzset();
	Worker w; worker = &w;
	vh::Harness H;
	H.reset = []
	{
		for ( int k = 1; k <= 2; ++k ) { delete fixedCat[ k ]; fixedCat[ k ] = 0; }
		Fresh::make();
		for ( int a = 1; a <= NA; ++a ) delete QueueApp::all[ a ];
		for ( int t = 0; t < 2; ++t ) on( t, [] { NDC::clear(); } );
	};
	H[ "nothing" ] = []( vh::In&, vh::Out& ) {};
	H[ "get" ] = []( vh::In& in, vh::Out& o )
	{
		const std::string n = in.s(); in.i();
		Category* e = Category::exists( n ); Category& c = n == "" ? Category::getRoot() : Category::getInstance( n );
		if ( c.getName() != n || ( e && e != &c ) || Category::exists( n ) != &c || &Category::getInstance( n ) != &c ) o.s( "other category" );
		const std::string::size_type dot = n.rfind( '.' );
		if ( c.getParent() != ( n == "" ? 0 : Category::exists( dot == std::string::npos ? "" : n.substr( 0, dot ) ) ) ) o.s( "other parent" );
		o.u( e ? 1 : 0 );
		std::unique_ptr< std::vector< Category* > > l( Category::getCurrentCategories() );
		o.u( l->size() ); for ( Category* x : *l ) o.s( x->getName() );
		o.i( c.getPriority() ).i( c.getChainedPriority() );
	};
	H[ "prio" ] = []( vh::In& in, vh::Out& o )
	{
		const std::string n = in.s(); const int p = in.i(); Category& c = Category::getInstance( n );
		if ( n == "" ) Category::setRootPriority( p ); else c.setPriority( p );
		if ( Category::getRootPriority() != Category::getRoot().getPriority() ) o.s( "root" );
		o.i( c.getPriority() ).i( c.getChainedPriority() );
	};
	H[ "additive" ] = []( vh::In& in, vh::Out& o ) { Category& c = Category::getInstance( in.s() ); const bool b = c.getAdditivity(); const bool n = in.i() == 1; c.setAdditivity( n ); if ( c.getAdditivity() != n ) o.s( "not set" ); o.u( b ); };
	H[ "show" ] = []( vh::In& in, vh::Out& o )
	{
		const int p = in.i(); std::unique_ptr< std::vector< Category* > > l( Category::getCurrentCategories() );
		o.u( l->empty() ? 0 : 1 );
		for ( Category* c : *l )
		{
			o.s( c->getName() ).i( c->getPriority() ).i( c->getChainedPriority() ).u( c->isPriorityEnabled( p ) );
			const bool e[] = { c->isFatalEnabled(), c->isEmergEnabled(), c->isAlertEnabled(), c->isCritEnabled(), c->isErrorEnabled(), c->isWarnEnabled(), c->isNoticeEnabled(), c->isInfoEnabled(), c->isDebugEnabled(), c->isTraceEnabled() };
			const int q[] = { 0, 0, 100, 200, 300, 400, 500, 600, 700, 750 };
			for ( int i = 0; i < 10; ++i ) if ( e[ i ] != ( c->getChainedPriority() >= q[ i ] ) ) o.s( "enabled" );
		}
	};
	H[ "new" ] = []( vh::In& in, vh::Out& ) { const int a = in.i(), t = in.i(); const std::string k = in.s(), p = in.s(); QueueApp* q = new QueueApp( a ); q->setLayout( layout( k, p ) ); q->setThreshold( t ); };
	H[ "threshold" ] = []( vh::In& in, vh::Out& o ) { QueueApp* q = QueueApp::all[ in.i() ]; q->setThreshold( in.i() ); o.i( q->getThreshold() ); };
	H[ "layout" ] = []( vh::In& in, vh::Out& ) { QueueApp* q = QueueApp::all[ in.i() ]; const std::string k = in.s(), p = in.s(); q->setLayout( layout( k, p ) ); };
	H[ "filter" ] = []( vh::In& in, vh::Out& o )
	{
		QueueApp* q = QueueApp::all[ in.i() ]; const int n = in.i(); Filter* f = 0;
		for ( int i = 0; i < n; ++i ) { const std::string w = in.s(), d = in.s(); Filter* g = new WordFilter( w, d == "deny" ? Filter::DENY : d == "accept" ? Filter::ACCEPT : Filter::NEUTRAL ); if ( f ) f->appendChainedFilter( g ); else f = g; }
		q->setFilter( f ); if ( q->getFilter() != f ) o.s( "not set" );
	};
	H[ "attach" ] = []( vh::In& in, vh::Out& o )
	{
		Category& c = Category::getInstance( in.s() ); QueueApp* q = QueueApp::all[ in.i() ];
		if ( in.i() ) c.addAppender( q ); else c.addAppender( *q );
		o.u( c.ownsAppender( q ) ).u( c.getAllAppenders().size() );
	};
	H[ "detach" ] = []( vh::In& in, vh::Out& o ) { Category& c = Category::getInstance( in.s() ); c.removeAppender( QueueApp::all[ in.i() ] ); liveness( o ); };
	H[ "detachall" ] = []( vh::In& in, vh::Out& o ) { Category::getInstance( in.s() ).removeAllAppenders(); liveness( o ); };
	H[ "shutdown" ] = []( vh::In&, vh::Out& o ) { Category::shutdown(); liveness( o ); };
	H[ "delete" ] = []( vh::In& in, vh::Out& o ) { delete QueueApp::all[ in.i() ]; liveness( o ); };
	H[ "appenders" ] = []( vh::In& in, vh::Out& o )
	{
		Category& c = Category::getInstance( in.s() ); const int k = in.i(); const AppenderSet s = c.getAllAppenders();
		if ( ( c.getAppender() != 0 ) != !s.empty() || ( !s.empty() && !s.count( c.getAppender() ) ) ) o.s( "first" );
		o.u( s.size() );
		for ( int a = 1; a <= NA; ++a ) o.u( QueueApp::all[ a ] && s.count( QueueApp::all[ a ] ) ? 1 : 0 );
		for ( int a = 1; a <= NA; ++a ) o.u( QueueApp::all[ a ] && c.ownsAppender( QueueApp::all[ a ] ) ? 1 : 0 );
		Appender* const x = c.getAppender( "A" + std::to_string( k ) ), * const y = Appender::getAppender( "A" + std::to_string( k ) );
		if ( ( x && x != QueueApp::all[ k ] ) || ( y && y != QueueApp::all[ k ] ) ) o.s( "other" );
		o.u( x ? 1 : 0 ).u( y ? 1 : 0 );
	};
	H[ "log" ] = []( vh::In& in, vh::Out& o )
	{
		const int t = in.i(); const std::string n = in.s(), w = in.s(); const int p = in.i(); const std::string m = in.s(), f = in.s(); const int l = in.i(), alt = l % 2;
		before = time( 0 );
		on( t, [&]
		{
			Category& c = Category::getInstance( n );
			if ( w == "string" ) c.log( p, m ); else if ( w == "printf" ) c.log( p, "%s%.*s", m.c_str(), 0, "zzz" ); else if ( w == "logva" ) logva( c, p, "%s%s", m.c_str(), "" );
			else if ( w == "level" ) level( c, p, m, alt ); else if ( w == "levelf" ) levelf( c, p, m, alt ); else if ( w == "macro" ) macro( c, p, m, alt );
			else if ( w == "stream" ) { levelstream( c, p, alt ) << m.substr( 0, m.size() / 2 ) << m.substr( m.size() / 2 ); } else c.log( p, m, f.c_str(), l );
		} );
		got( o );
	};
	H[ "long" ] = []( vh::In& in, vh::Out& o )
	{
		Category& c = Category::getInstance( in.s() ); const std::string w = in.s(); const int p = in.i(), n = in.i(); const std::string m( n / 2, 'y' );
		before = time( 0 );
		if ( w == "printf" ) c.log( p, "%s%s%s", m.c_str(), n % 2 ? "y" : "", m.c_str() ); else if ( w == "logva" ) logva( c, p, "%s%.*s%s", m.c_str(), n % 2, "yz", m.c_str() );
		else if ( p == 100 ) c.alert( "%s%.*s%s", m.c_str(), n % 2, "yz", m.c_str() ); else c.error( "%s%.*s%s", m.c_str(), n % 2, "yz", m.c_str() );
		got( o );
	};
	H[ "stream" ] = []( vh::In& in, vh::Out& o )
	{
		Category& c = Category::getInstance( in.s() ); const int p = in.i(), w = in.i(), n = in.i();
		before = time( 0 );
		{
			CategoryStream s = w == 0 ? c.getStream( p ) : w == 1 ? c << p : CategoryStream( c, p );
			for ( int i = 0; i < n; ++i )
			{
				const std::string k = in.s();
				if ( k == "width" ) s.width( in.i() );
				else { const std::string x = in.s(); if ( k == "text" ) { if ( x == "12" ) s << 12; else s << x; } else if ( k == "left" ) s << log4cpp::left; else if ( k == "eol" ) s << log4cpp::eol; else if ( k == "flush" ) s.flush(); else s << CategoryStream::ENDLINE; }
			}
		}
		got( o );
	};
	H[ "fixed" ] = []( vh::In& in, vh::Out& o ) { const int k = in.i(); const std::string n = in.s(), x = in.s(); fixedCat[ k ] = new FixedContextCategory( n, x ); if ( fixedCat[ k ]->getName() != n || fixedCat[ k ]->getContext() != x ) o.s( "other" ); o.i( fixedCat[ k ]->getChainedPriority() ); };
	H[ "unfix" ] = []( vh::In& in, vh::Out& )
	{
		// what follows must not depend on the memory of the category that is gone
		const int k = in.i(); fixedCat[ k ]->~FixedContextCategory(); std::memset( (void*)fixedCat[ k ], 0x5a, sizeof( FixedContextCategory ) ); fixedCat[ k ] = 0;
	};
	H[ "context" ] = []( vh::In& in, vh::Out& o ) { const int k = in.i(); fixedCat[ k ]->setContext( in.s() ); o.s( fixedCat[ k ]->getContext() ); };
	H[ "fixedprio" ] = []( vh::In& in, vh::Out& o ) { const int k = in.i(); fixedCat[ k ]->setPriority( in.i() ); o.i( fixedCat[ k ]->getPriority() ).i( fixedCat[ k ]->getChainedPriority() ); };
	H[ "fixedlog" ] = []( vh::In& in, vh::Out& o )
	{
		FixedContextCategory& c = *fixedCat[ in.i() ]; const std::string w = in.s(); const int p = in.i(); const std::string m = in.s();
		const Category& d = Category::getInstance( c.getName() );
		if ( c.getAllAppenders() != d.getAllAppenders() || c.getAdditivity() != d.getAdditivity() || c.getAppender() != d.getAppender() ) o.s( "delegate" );
		before = time( 0 );
		if ( w == "string" ) c.log( p, m ); else c.log( p, "%s%s%s", m.c_str(), "", "" );
		got( o );
	};
	H[ "push" ] = []( vh::In& in, vh::Out& o ) { const int t = in.i(); const std::string x = in.s(); on( t, [&] { NDC::push( x ); o.s( NDC::get() ).u( NDC::getDepth() ); } ); };
	H[ "pop" ] = []( vh::In& in, vh::Out& o ) { on( in.i(), [&] { o.s( NDC::pop() ); o.s( NDC::get() ).u( NDC::getDepth() ); } ); };
	H[ "clear" ] = []( vh::In& in, vh::Out& o ) { on( in.i(), [&] { NDC::clear(); o.s( NDC::get() ).u( NDC::getDepth() ); } ); };
	H[ "context?" ] = []( vh::In& in, vh::Out& o ) { on( in.i(), [&] { NDC::setMaxDepth( 1 ); o.s( NDC::get() ).u( NDC::getDepth() ); } ); };
	H[ "inherit" ] = []( vh::In& in, vh::Out& o ) { const int t = in.i(); NDC::ContextStack* s = 0; on( 1 - t, [&] { s = NDC::cloneStack(); } ); on( t, [&] { NDC::inherit( s ); o.s( NDC::get() ).u( NDC::getDepth() ); } ); delete s; };
	H[ "format" ] = []( vh::In& in, vh::Out& o )
	{
		const std::string k = in.s(), p = in.s(), n = in.s(), m = in.s(), x = in.s(); const int q = in.i(); const std::string f = in.s(); const int l = in.i(), sec = in.i(), ms = in.i();
		std::unique_ptr< Layout > y( layout( k, p ) );
		LoggingEvent e( n, m, x, q, f.empty() && l % 2 ? 0 : f.c_str(), l ); e.timeStamp = TimeStamp( sec, ms * 1000 + ms % 1000 );
		const std::string r = y->format( e ); if ( y->format( e ) != r ) o.s( "second time" );
		o.s( r );
	};
	H[ "elapsed" ] = []( vh::In& in, vh::Out& o )
	{
		PatternLayout y; y.setConversionPattern( "%r" ); const TimeStamp& s = TimeStamp::getStartTime();
		LoggingEvent e( "c", "m", "", 0 ); e.timeStamp = TimeStamp( s.getSeconds() + in.i(), s.getMicroSeconds() ); o.s( y.format( e ) );
	};
	H[ "badpattern" ] = []( vh::In& in, vh::Out& ) { PatternLayout y; y.setConversionPattern( in.s() ); };
	H[ "prioname" ] = []( vh::In& in, vh::Out& o ) { o.s( Priority::getPriorityName( in.i() ) ); };
	H[ "priovalue" ] = []( vh::In& in, vh::Out& o ) { o.i( Priority::getPriorityValue( in.s() ) ); };
	H[ "threads" ] = []( vh::In& in, vh::Out& o )
	{
		const int n = in.i(), p = in.i(), k = in.i(); std::vector< std::string > names; for ( int i = 0; i < k; ++i ) names.push_back( in.s() );
		std::vector< std::thread > ts;
		for ( int i = 0; i < k; ++i ) ts.push_back( std::thread( [=]
		{
			for ( int j = 0; j < n; ++j )
			{
				Category& c = Category::getInstance( names[ i ] ); NDC::push( names[ i ] );
				if ( j % 3 ) c.log( p, "%d %d", i, j ); else c.log( p, std::to_string( i ) + " " + std::to_string( j ) );
				NDC::pop(); delete Category::getCurrentCategories();
			}
		} ) );
		for ( std::thread& t : ts ) t.join();
		for ( int a = 1; a <= NA; ++a )
		{
			QueueApp* q = QueueApp::all[ a ]; std::vector< int > cnt( k ), next( k );
			if ( q )
			{
				if ( q->seen.size() != q->queueSize() ) o.s( "lost" );
				for ( const std::string& m : q->seen ) { int i, j; if ( std::sscanf( m.c_str(), "%d %d", &i, &j ) != 2 || i < 0 || i >= k || j != next[ i ] ) { o.s( "order " + m ); break; } ++next[ i ]; ++cnt[ i ]; }
				q->seen.clear(); while ( q->queueSize() ) q->popMessage();
			}
			for ( int i = 0; i < k; ++i ) o.i( cnt[ i ] );
		}
	};
	H[ "syslog" ] = []( vh::In& in, vh::Out& o )
	{
		const int fac = in.i(), p = in.i(), n = in.i();
		const int fd = socket( AF_INET, SOCK_DGRAM, 0 ); sockaddr_in a; std::memset( &a, 0, sizeof a ); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl( INADDR_LOOPBACK );
		if ( bind( fd, (sockaddr*)&a, sizeof a ) ) { std::perror( "bind" ); std::_Exit( 96 ); }
		socklen_t l = sizeof a; getsockname( fd, (sockaddr*)&a, &l );
		std::string m; for ( int i = 0; i < n; ++i ) m += char( 'a' + i % 26 );
		{
			RemoteSyslogAppender s( "syslog", "verif", "127.0.0.1", fac, ntohs( a.sin_port ) ); PatternLayout* y = new PatternLayout; y->setConversionPattern( "%m" ); s.setLayout( y );
			s.doAppend( LoggingEvent( "c", m, "", p ) );
		}
		timeval tv = { 0, 300000 }; setsockopt( fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv );
		std::vector< int > len; std::string pre, all; char b[ 4096 ];
		for ( ;; )
		{
			const int r = recv( fd, b, sizeof b, 0 ); if ( r < 0 ) break;
			const std::string d( b, r ); const std::string h = d.substr( 0, d.find( '>' ) + 1 );
			if ( len.empty() ) pre = h; else if ( h != pre ) { o.s( "preamble" ); break; }
			len.push_back( r - h.size() ); all += d.substr( h.size() );
			if ( all.size() >= m.size() ) break;
		}
		close( fd );
		if ( all != m ) o.s( "text" );
		o.s( pre ).u( len.size() ); for ( int x : len ) o.i( x );
	};
	return H.run();
}
