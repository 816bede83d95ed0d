// Assignments found by Munkres against the planted optimum of MunkresGen.tla.
#include "vh.h"
#include <utMath/Graph/Munkres.h>
#include <utMath/Matrix.h>
using namespace Ubitrack;
template< class T > struct Solver
{
	Math::Matrix< T, 0, 0 > c; std::unique_ptr< Math::Graph::Munkres< T > > m; bool solved = false;
	void set( vh::In& in, bool fresh )
	{
		int r = in.i(), k = in.i(); c.resize( r, k, false );
		for ( int i = 0; i < r; ++i ) for ( int j = 0; j < k; ++j ) c( i, j ) = (T)in.d();
		Math::Matrix< T, 0, 0 > tmp( c );
		if ( !m && fresh ) m.reset( new Math::Graph::Munkres< T >( tmp ) );
		else { if ( !m ) m.reset( new Math::Graph::Munkres< T >() ); m->setMatrix( tmp ); }
		m->solve();
	}
	void ask( const std::string& what, vh::Out& o )
	{
		std::size_t n = std::max( c.size1(), c.size2() ); std::vector< int > f( n, -1 ); bool ok = true; std::size_t size = n;
		if ( what == "mask" )
		{
			Math::Matrix< T, 0, 0 > k( m->getMaskMatrix() ); size = k.size1(); if ( k.size2() != size ) ok = false;
			for ( std::size_t i = 0; ok && i < size; ++i ) for ( std::size_t j = 0; j < size; ++j ) if ( k( i, j ) == T( 1 ) ) { if ( i >= n || f[ i ] >= 0 ) ok = false; else f[ i ] = (int)j; }
		}
		else
		{
			std::vector< std::size_t > l = what == "rows" ? m->getRowMatchList() : m->getColMatchList(); size = l.size();
			for ( std::size_t i = 0; i < size; ++i ) { std::size_t a = what == "rows" ? i : l[ i ], b = what == "rows" ? l[ i ] : i; if ( a >= n || f[ a ] >= 0 ) ok = false; else f[ a ] = (int)b; }
		}
		std::vector< int > seen( n, 0 ); std::size_t real = 0; double sum = 0;
		for ( std::size_t i = 0; i < n; ++i )
		{
			if ( f[ i ] < 0 || f[ i ] >= (int)n || seen[ f[ i ] ]++ ) { ok = false; continue; }
			if ( i < c.size1() && f[ i ] < (int)c.size2() ) { ++real; sum += (double)c( i, f[ i ] ); }
		}
		o.i( size ).i( ok ).i( real ).d( sum );
	}
};
int main()
{
	vh::Harness H;
	Solver< double > d; Solver< float > f; Solver< int > z; int cur = 0, count = 0;
	H.reset = [&]{ d.m.reset(); f.m.reset(); z.m.reset(); count = 0; };
	H[ "set" ] = [&]( vh::In& in, vh::Out& ) { cur = 0; d.set( in, ++count & 1 ); };
	H[ "setf" ] = [&]( vh::In& in, vh::Out& ) { cur = 1; f.set( in, ++count & 1 ); };
	H[ "seti" ] = [&]( vh::In& in, vh::Out& ) { cur = 2; z.set( in, ++count & 1 ); };
	for ( const char* w : { "rows", "cols", "mask" } )
		H[ w ] = [&, w]( vh::In&, vh::Out& o ) { if ( cur == 0 ) d.ask( w, o ); else if ( cur == 1 ) f.ask( w, o ); else z.ask( w, o ); };
	return H.run();
}
