// Shared by all harnesses: line protocol between the replayer and the code under test.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <sys/time.h>
#include <functional>
#include <stdexcept>
#include <utUtil/Exception.h>

namespace vh {

struct In
{
	std::vector< std::string > t;
	std::size_t p = 0;
	const std::string& tok()
	{
		if ( p >= t.size() ) { std::fprintf( stderr, "harness: missing argument in '%s'\n", t.empty() ? "" : t[0].c_str() ); std::fflush( stdout ); std::_Exit( 97 ); }
		return t[ p++ ];
	}
	bool more() const { return p < t.size(); }
	int i() { return std::atoi( tok().c_str() ); }
	long long ll() { return std::atoll( tok().c_str() ); }
	double d() { return std::strtod( tok().c_str(), 0 ); }
	std::string s()
	{
		std::string x = tok(), r;
		if ( x.empty() || x[ 0 ] != '~' ) return x;
		for ( std::size_t k = 1; k < x.size(); ++k )
			if ( x[ k ] == '%' && k + 2 < x.size() + 0 ) { r += (char)std::strtol( x.substr( k + 1, 2 ).c_str(), 0, 16 ); k += 2; }
			else r += x[ k ];
		return r;
	}
	template< class V > V vec( std::size_t n ) { V v; for ( std::size_t k = 0; k < n; ++k ) v( k ) = d(); return v; }
	template< class M > M mat( std::size_t m, std::size_t n ) { M a; for ( std::size_t r = 0; r < m; ++r ) for ( std::size_t c = 0; c < n; ++c ) a( r, c ) = d(); return a; }
};

struct Out
{
	std::string b;
	Out& i( long long x ) { char t[ 32 ]; std::snprintf( t, sizeof t, " %lld", x ); b += t; return *this; }
	Out& u( unsigned long long x ) { char t[ 32 ]; std::snprintf( t, sizeof t, " %llu", x ); b += t; return *this; }
	Out& d( double x ) { char t[ 48 ]; std::snprintf( t, sizeof t, " %.17g", x ); b += t; return *this; }
	Out& s( const std::string& x )
	{
		b += " ~";
		for ( unsigned char c : x )
			if ( std::isalnum( c ) ) b += (char)c; else { char t[ 8 ]; std::snprintf( t, sizeof t, "%%%02X", c ); b += t; }
		return *this;
	}
	template< class V > Out& v( const V& x ) { for ( std::size_t k = 0; k < x.size(); ++k ) d( x( k ) ); return *this; }
	template< class M > Out& m( const M& x ) { for ( std::size_t r = 0; r < x.size1(); ++r ) for ( std::size_t c = 0; c < x.size2(); ++c ) d( x( r, c ) ); return *this; }
	template< class Q > Out& q( const Q& x ) { d( x.x() ); d( x.y() ); d( x.z() ); d( x.w() ); return *this; }
};

typedef std::function< void( In&, Out& ) > Fn;

struct Harness
{
	std::map< std::string, Fn > ops;
	std::function< void() > reset;
	Fn& operator[]( const std::string& n ) { return ops[ n ]; }

	int run()
	{
		// answers go to the real stdout; whatever the code under test prints goes nowhere near it
		std::string line;
		while ( std::getline( std::cin, line ) )
		{
			In in;
			std::istringstream is( line );
			std::string w;
			while ( is >> w ) in.t.push_back( w );
			if ( in.t.empty() ) continue;
			std::string op = in.tok();
			if ( op == "case" ) { if ( reset ) reset(); std::puts( "=" ); std::fflush( stdout ); continue; }
			std::map< std::string, Fn >::iterator f = ops.find( op );
			if ( f == ops.end() ) { std::fprintf( stderr, "harness: unknown op %s\n", op.c_str() ); std::fflush( stdout ); std::_Exit( 98 ); }
			Out o;
			std::string ans;
			// a step that never ends (10 s of computing, or 60 s of waiting) ends the process
			itimerval cpu = { { 0, 0 }, { 10, 0 } }, wall = { { 0, 0 }, { 60, 0 } };
			setitimer( ITIMER_PROF, &cpu, 0 ); setitimer( ITIMER_REAL, &wall, 0 );
			try { f->second( in, o ); ans = "=" + o.b; }
			catch ( const Ubitrack::Util::Exception& e ) { ans = std::string( "! ubitrack" ); }
			catch ( const std::exception& e ) { ans = std::string( "! std" ); }
			catch ( ... ) { ans = "! other"; }
			std::puts( ans.c_str() );
			std::fflush( stdout );
		}
		return 0;
	}
};

} // namespace vh
