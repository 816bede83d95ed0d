// Replays Xml.tla: documents read and written, and trees edited.
#include "vh.h"
#include <fstream>
#include <memory>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <boost/filesystem.hpp>
#include <tinyxml.h>
namespace bf = boost::filesystem;

static std::string ROOT;
static void cleanup() { if ( !ROOT.empty() ) { boost::system::error_code e; bf::remove_all( ROOT, e ); ROOT.clear(); } }

// ---- strings are code points outside, UTF-8 inside
static std::string str( vh::In& in )
{
	int n = in.i(); std::string r;
	for ( int i = 0; i < n; ++i )
	{
		unsigned c = in.i();
		if ( c < 0x80 ) r += char( c );
		else if ( c < 0x800 ) { r += char( 0xC0 | c >> 6 ); r += char( 0x80 | ( c & 63 ) ); }
		else if ( c < 0x10000 ) { r += char( 0xE0 | c >> 12 ); r += char( 0x80 | ( c >> 6 & 63 ) ); r += char( 0x80 | ( c & 63 ) ); }
		else { r += char( 0xF0 | c >> 18 ); r += char( 0x80 | ( c >> 12 & 63 ) ); r += char( 0x80 | ( c >> 6 & 63 ) ); r += char( 0x80 | ( c & 63 ) ); }
	}
	return r;
}
static void put( vh::Out& o, const std::string& s )
{
	std::vector< long > r;
	for ( std::size_t i = 0; i < s.size(); )
	{
		unsigned char c = s[ i ]; int n = c < 0x80 ? 0 : c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC0 ? 1 : -1;
		bool ok = n >= 0 && i + n < s.size(); unsigned long v = n == 0 ? c : n == 1 ? c & 31 : n == 2 ? c & 15 : c & 7;
		for ( int k = 1; ok && k <= n; ++k ) { unsigned char d = s[ i + k ]; if ( ( d & 0xC0 ) != 0x80 ) ok = false; v = v << 6 | ( d & 63 ); }
		if ( ok ) { r.push_back( v ); i += n + 1; } else { r.push_back( 2000000 + c ); ++i; }
	}
	o.i( r.size() ); for ( long x : r ) o.i( x );
}
static void put( vh::Out& o, const char* s ) { if ( s ) put( o, std::string( s ) ); else o.i( -1 ); }

// ---- trees: told in full, with every link between the nodes looked at
static int kind( const TiXmlNode* n ) { return n->ToElement() ? 1 : n->ToText() ? ( n->ToText()->CDATA() ? 3 : 2 ) : n->ToComment() ? 4 : n->ToUnknown() ? 5 : n->ToDeclaration() ? 6 : 0; }
static void links( const TiXmlNode* n, int depth = 0 )
{
	if ( depth > 1000 ) throw std::runtime_error( "deep" );
	const TiXmlNode* before = 0; int count = 0;
	for ( const TiXmlNode* c = n->FirstChild(); c; before = c, c = c->NextSibling() )
	{
		if ( c->Parent() != n || c->PreviousSibling() != before || ++count > 100000 ) throw std::runtime_error( "links" );
		links( c, depth + 1 );
	}
	if ( n->LastChild() != before || n->NoChildren() != ( count == 0 ) ) throw std::runtime_error( "links" );
	if ( const TiXmlElement* e = n->ToElement() )
	{
		const TiXmlAttribute* last = 0;
		for ( const TiXmlAttribute* a = e->FirstAttribute(); a; last = a, a = a->Next() ) if ( a->Previous() != last ) throw std::runtime_error( "attribute links" );
		if ( e->LastAttribute() != last ) throw std::runtime_error( "attribute links" );
	}
}
static void kids( vh::Out& o, const TiXmlNode* n, std::vector< int >* at );
static void node( vh::Out& o, const TiXmlNode* n, std::vector< int >* at )
{
	o.i( kind( n ) ); put( o, n->ValueStr() );
	if ( n->ValueStr() != n->Value() && n->ValueStr().find( '\0' ) == std::string::npos ) throw std::runtime_error( "value" );
	if ( at ) { at->push_back( n->Row() ); at->push_back( n->Column() ); }
	if ( const TiXmlDeclaration* d = n->ToDeclaration() ) { put( o, d->Version() ); put( o, d->Encoding() ); put( o, d->Standalone() ); }
	else if ( const TiXmlElement* e = n->ToElement() )
	{
		int k = 0; for ( const TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next() ) ++k;
		o.i( k );
		for ( const TiXmlAttribute* a = e->FirstAttribute(); a; a = a->Next() )
		{
			put( o, a->NameTStr() ); put( o, a->ValueStr() ); if ( at ) { at->push_back( a->Row() ); at->push_back( a->Column() ); }
			const std::string* v = e->Attribute( a->NameTStr() ); if ( !v || *v != a->ValueStr() || !e->Attribute( a->Name() ) ) throw std::runtime_error( "attribute" );
		}
	}
	else o.i( 0 );
	kids( o, n, at );
}
static void kids( vh::Out& o, const TiXmlNode* n, std::vector< int >* at )
{
	int k = 0; for ( const TiXmlNode* c = n->FirstChild(); c; c = c->NextSibling() ) ++k;
	o.i( k ); for ( const TiXmlNode* c = n->FirstChild(); c; c = c->NextSibling() ) node( o, c, at );
}
static void tell( vh::Out& o, const TiXmlNode& n, std::vector< int >* at = 0 ) { links( &n ); kids( o, &n, at ); }

// ---- trees built from what the specification says
static TiXmlNode* make( vh::In& in )
{
	int k = in.i(); std::string v = str( in ); TiXmlNode* n = 0;
	if ( k == 6 ) { std::string a = str( in ), b = str( in ), c = str( in ); n = a.size() % 2 ? new TiXmlDeclaration( a, b, c ) : new TiXmlDeclaration( a.c_str(), b.c_str(), c.c_str() ); }
	else
	{
		if ( k == 1 ) n = v.size() % 2 ? new TiXmlElement( v ) : new TiXmlElement( v.c_str() );
		else if ( k == 2 ) n = v.size() % 2 ? new TiXmlText( v ) : new TiXmlText( v.c_str() );
		else if ( k == 3 ) { TiXmlText* t = new TiXmlText( v ); t->SetCDATA( true ); n = t; }
		else if ( k == 4 ) { n = new TiXmlComment(); n->SetValue( v ); }
		else { n = new TiXmlUnknown(); n->SetValue( v.c_str() ); }
		int m = in.i(); for ( int i = 0; i < m; ++i ) { std::string a = str( in ), b = str( in ); if ( i % 2 ) n->ToElement()->SetAttribute( a, b ); else n->ToElement()->SetAttribute( a.c_str(), b.c_str() ); }
	}
	int m = in.i(); for ( int i = 0; i < m; ++i ) n->LinkEndChild( make( in ) );
	return n;
}
static void makeAll( vh::In& in, TiXmlDocument& d ) { int n = in.i(); for ( int i = 0; i < n; ++i ) d.LinkEndChild( make( in ) ); }

static TiXmlEncoding enc( const std::string& s ) { return s == "utf8" ? TIXML_ENCODING_UTF8 : s == "legacy" ? TIXML_ENCODING_LEGACY : TIXML_ENCODING_UNKNOWN; }
// a copy of the text that ends at the end of what may be read
struct Guarded
{
	char* base; std::size_t len; char* text;
	Guarded( const std::string& s )
	{
		std::size_t page = sysconf( _SC_PAGESIZE ), body = ( s.size() + 1 + page - 1 ) / page * page; len = body + page;
		base = (char*)mmap( 0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
		if ( base == MAP_FAILED ) std::_Exit( 96 );
		mprotect( base + body, page, PROT_NONE );
		text = base + body - s.size() - 1; std::memcpy( text, s.c_str(), s.size() + 1 );
	}
	~Guarded() { munmap( base, len ); }
};
struct Condense { Condense( bool b ) { TiXmlBase::SetCondenseWhiteSpace( b ); } ~Condense() { TiXmlBase::SetCondenseWhiteSpace( true ); } };
static void save( const std::string& f, const std::string& s ) { std::ofstream o( f.c_str(), std::ios::binary ); o << s; }
static std::string load( const std::string& f ) { std::ifstream i( f.c_str(), std::ios::binary ); std::stringstream s; s << i.rdbuf(); return s.str(); }

// ---- the state of the editing behaviours
static std::unique_ptr< TiXmlDocument > D[ 2 ];
static TiXmlNode* at( vh::In& in, TiXmlNode* n )
{
	int k = in.i();
	for ( int i = 0; i < k; ++i ) { int c = in.i(); n = n->FirstChild(); while ( --c > 0 && n ) n = n->NextSibling(); if ( !n ) throw std::runtime_error( "no such node" ); }
	return n;
}
static TiXmlNode* child( TiXmlNode* n, int c ) { n = n->FirstChild(); while ( --c > 0 && n ) n = n->NextSibling(); if ( !n ) throw std::runtime_error( "no such child" ); return n; }
static int place( const TiXmlNode* n ) { if ( !n ) return 0; int k = 1; while ( n->PreviousSibling() ) { n = n->PreviousSibling(); ++k; } return k; }
static void both( vh::Out& o ) { tell( o, *D[ 0 ] ); tell( o, *D[ 1 ] ); }

struct Walk : TiXmlVisitor
{
	vh::Out& o; int stop; Walk( vh::Out& x, int s ) : o( x ), stop( s ) {}
	bool say( int k ) { o.i( k ); return --stop != 0; }
	virtual bool VisitEnter( const TiXmlDocument& ) { return say( 10 ); }
	virtual bool VisitExit( const TiXmlDocument& ) { return say( 11 ); }
	virtual bool VisitEnter( const TiXmlElement& e, const TiXmlAttribute* a ) { if ( a != e.FirstAttribute() ) say( 99 ); return say( 1 ); }
	virtual bool VisitExit( const TiXmlElement& ) { return say( 12 ); }
	virtual bool Visit( const TiXmlDeclaration& ) { return say( 6 ); }
	virtual bool Visit( const TiXmlText& t ) { return say( t.CDATA() ? 3 : 2 ); }
	virtual bool Visit( const TiXmlComment& ) { return say( 4 ); }
	virtual bool Visit( const TiXmlUnknown& ) { return say( 5 ); }
};

int main()
{
	std::atexit( cleanup );
	char t[] = "/tmp/vh_xml_XXXXXX"; if ( !mkdtemp( t ) ) std::_Exit( 96 ); ROOT = t;
	vh::Harness H;
	H.reset = [] { TiXmlBase::SetCondenseWhiteSpace( true ); D[ 0 ].reset( new TiXmlDocument() ); D[ 1 ].reset( new TiXmlDocument() ); };
	auto read = [&]( TiXmlDocument& d, const std::string& via, const std::string& e, const std::string& s, std::string& rest )
	{
		if ( via == "memory" ) { Guarded g( s ); d.Parse( g.text, 0, enc( e ) ); }
		else if ( via == "file" ) { save( ROOT + "/in.xml", s ); bool ok = d.LoadFile( ROOT + "/in.xml", enc( e ) ); if ( ok == d.Error() ) throw std::runtime_error( "result" ); if ( d.ValueStr() != ROOT + "/in.xml" ) throw std::runtime_error( "name" ); }
		else { std::istringstream is( s ); is >> d; std::stringstream r; if ( is.good() ) { int c; while ( ( c = is.get() ) >= 0 ) r << char( c ); } rest = r.str(); }
	};
	H[ "parse" ] = [&]( vh::In& in, vh::Out& o )
	{
		std::string via = in.s(), e = in.s(); Condense c( in.i() != 0 ); int tab = in.i(); std::string s = str( in ), rest;
		TiXmlDocument d; d.SetTabSize( tab ); read( d, via, e, s, rest );
		o.i( d.Error() ); if ( d.Error() ) { put( o, d.ErrorDesc() ); return; }
		std::vector< int > p; tell( o, d, &p ); for ( int x : p ) o.i( x ); put( o, rest );
	};
	H[ "bad" ] = [&]( vh::In& in, vh::Out& o )
	{
		std::string via = in.s(), e = in.s(); Condense c( in.i() != 0 ); int tab = in.i(), strip = in.i(); std::string s = str( in ), rest; s.resize( s.size() - strip );
		TiXmlDocument d; d.SetTabSize( tab ); read( d, via, e, s, rest ); links( &d ); o.i( d.Error() && d.ErrorId() > 0 && *d.ErrorDesc() );
		d.ClearError(); if ( d.Error() ) o.i( 9 );
	};
	H[ "print" ] = [&]( vh::In& in, vh::Out& o )
	{
		std::string i = str( in ), b = str( in ); TiXmlDocument d; makeAll( in, d ); links( &d );
		d.SaveFile( ROOT + "/out.xml" ); std::string one = load( ROOT + "/out.xml" ); FILE* f = std::fopen( ( ROOT + "/out2.xml" ).c_str(), "w" ); d.Print( f ); std::fclose( f ); if ( load( ROOT + "/out2.xml" ) != one ) throw std::runtime_error( "print" );
		put( o, one );
		TiXmlPrinter p; p.SetIndent( i.c_str() ); p.SetLineBreak( b.c_str() ); d.Accept( &p ); put( o, p.Str() ); if ( p.Str() != p.CStr() || p.Size() != p.Str().size() ) throw std::runtime_error( "printer" );
		std::ostringstream os; os << d; std::string st( "x" ); st << d; if ( st != "x" + os.str() ) throw std::runtime_error( "stream" );
		put( o, os.str() );
	};
	H[ "round" ] = [&]( vh::In& in, vh::Out& o )
	{
		int w = in.i(); TiXmlDocument d, e; makeAll( in, d ); std::string text;
		if ( w == 1 ) { if ( !d.SaveFile( ROOT + "/r.xml" ) ) o.i( -1 ); if ( !e.LoadFile( ROOT + "/r.xml" ) ) { o.i( -2 ); put( o, e.ErrorDesc() ); } }
		else if ( w == 2 ) { TiXmlPrinter p; d.Accept( &p ); e.Parse( p.CStr() ); if ( e.Error() ) o.i( -2 ); }
		else { std::ostringstream os; os << d; e.Parse( os.str().c_str(), 0, TIXML_ENCODING_UTF8 ); if ( e.Error() ) o.i( -2 ); }
		tell( o, e );
	};
	H[ "fail" ] = [&]( vh::In& in, vh::Out& o )
	{
		std::string k = in.s(); TiXmlDocument d; bool r = true;
		if ( k == "missing" ) r = d.LoadFile( ROOT + "/missing.xml" );
		else if ( k == "directory" ) r = d.LoadFile( ROOT );
		else if ( k == "empty" ) { save( ROOT + "/empty.xml", "" ); r = d.LoadFile( ROOT + "/empty.xml" ); }
		else { d.LinkEndChild( new TiXmlElement( "a" ) ); r = d.SaveFile( k == "full" ? std::string( "/dev/full" ) : ROOT + "/nodir/x.xml" ); o.i( r ); return; }
		o.i( r || !d.Error() );
	};
	// ---- editing
	H[ "add" ] = [&]( vh::In& in, vh::Out& o )
	{
		int w = in.i(), d = in.i(); TiXmlNode* p = at( in, D[ d ].get() ); int i = in.i(); std::unique_ptr< TiXmlNode > n( make( in ) ); TiXmlNode* r = 0;
		if ( w == 1 ) r = p->LinkEndChild( n.release() );
		else if ( w == 2 ) r = p->InsertEndChild( *n );
		else if ( w == 3 ) r = p->InsertBeforeChild( child( p, i ), *n );
		else if ( w == 4 ) r = p->InsertAfterChild( child( p, i ), *n );
		else r = p->ReplaceChild( child( p, i ), *n );
		o.i( place( r ) ); if ( r && ( r->Parent() != p || r->GetDocument() != D[ d ].get() ) ) o.i( -1 ); both( o );
	};
	H[ "foreign" ] = [&]( vh::In& in, vh::Out& o ) // nodes that cannot go there
	{
		int w = in.i(); TiXmlNode* p = at( in, D[ 0 ].get() ); TiXmlDocument x; x.LinkEndChild( new TiXmlElement( "x" ) ); TiXmlElement other( "o" ); other.LinkEndChild( new TiXmlElement( "c" ) ); TiXmlNode* r = 0; bool err = true;
		D[ 0 ]->ClearError();
		if ( w == 1 ) r = p->InsertEndChild( x ); else if ( w == 2 ) r = p->LinkEndChild( static_cast< TiXmlNode& >( x ).Clone() ); else if ( w == 3 ) { if ( p->FirstChild() ) r = p->InsertBeforeChild( p->FirstChild(), x ); else D[ 0 ]->SetError( TiXmlBase::TIXML_ERROR, 0, 0, TIXML_ENCODING_UNKNOWN ); }
		else if ( w == 4 ) { if ( p->LastChild() ) r = p->InsertAfterChild( p->LastChild(), x ); else D[ 0 ]->SetError( TiXmlBase::TIXML_ERROR, 0, 0, TIXML_ENCODING_UNKNOWN ); }
		else if ( w == 5 ) { if ( p->FirstChild() ) r = p->ReplaceChild( p->FirstChild(), x ); else D[ 0 ]->SetError( TiXmlBase::TIXML_ERROR, 0, 0, TIXML_ENCODING_UNKNOWN ); }
		else { err = false; r = w == 6 ? p->InsertBeforeChild( other.FirstChild(), TiXmlElement( "n" ) ) : w == 7 ? p->InsertAfterChild( other.FirstChild(), TiXmlElement( "n" ) ) : p->ReplaceChild( other.FirstChild(), TiXmlElement( "n" ) ); }
		o.i( r != 0 ); o.i( D[ 0 ]->Error() == err ); both( o );
	};
	H[ "remove" ] = [&]( vh::In& in, vh::Out& o ) { int d = in.i(); TiXmlNode* p = at( in, D[ d ].get() ); o.i( p->RemoveChild( child( p, in.i() ) ) ); both( o ); };
	H[ "clear" ] = [&]( vh::In& in, vh::Out& o ) { int d = in.i(); at( in, D[ d ].get() )->Clear(); both( o ); };
	H[ "value" ] = [&]( vh::In& in, vh::Out& o ) { int d = in.i(); TiXmlNode* p = at( in, D[ d ].get() ); std::string v = str( in ); if ( v.size() % 2 ) p->SetValue( v ); else p->SetValue( v.c_str() ); both( o ); };
	H[ "set" ] = [&]( vh::In& in, vh::Out& o )
	{
		int w = in.i(), d = in.i(); TiXmlElement* e = at( in, D[ d ].get() )->ToElement(); std::string a = str( in ); TiXmlAttribute* x = e->FirstAttribute(); while ( x && x->NameTStr() != a ) x = x->Next();
		if ( w == 1 ) e->SetAttribute( a.c_str(), str( in ).c_str() ); else if ( w == 2 ) e->SetAttribute( a, str( in ) ); else if ( w == 3 ) e->SetAttribute( a.c_str(), in.i() ); else if ( w == 4 ) e->SetAttribute( a, in.i() );
		else if ( w == 5 ) e->SetDoubleAttribute( a.c_str(), in.i() / 8. ); else if ( w == 6 ) { if ( x ) x->SetValue( str( in ) ); else e->SetAttribute( a, str( in ) ); }
		else if ( w == 7 ) { if ( x ) x->SetIntValue( in.i() ); else e->SetAttribute( a, in.i() ); } else if ( w == 8 ) { if ( x ) x->SetDoubleValue( in.i() / 8. ); else e->SetDoubleAttribute( a.c_str(), in.i() / 8. ); }
		else if ( w == 9 ) e->RemoveAttribute( a ); else e->RemoveAttribute( a.c_str() );
		both( o );
	};
	H[ "query" ] = [&]( vh::In& in, vh::Out& o )
	{
		int d = in.i(); TiXmlElement* e = at( in, D[ d ].get() )->ToElement(); std::string a = str( in ); int i = -77, j = -77, k = -77; double f = -77, g = -77;
		int r = e->QueryIntAttribute( a.c_str(), &i ); if ( r != e->QueryIntAttribute( a, &j ) || i != j ) o.i( 901 );
		o.i( r == TIXML_SUCCESS ? 0 : r == TIXML_NO_ATTRIBUTE ? 1 : 2 ); o.i( r == TIXML_SUCCESS ? i : 0 );
		int q = e->QueryDoubleAttribute( a.c_str(), &f ); if ( q != e->QueryDoubleAttribute( a, &g ) || f != g ) o.i( 902 ); o.i( q == TIXML_SUCCESS ? 0 : q == TIXML_NO_ATTRIBUTE ? 1 : 2 ); o.d( q == TIXML_SUCCESS ? f * 8 : 0 );
		int v = e->QueryValueAttribute( a, &k ); o.i( v == TIXML_SUCCESS ? 0 : v == TIXML_NO_ATTRIBUTE ? 1 : 2 ); o.i( v == TIXML_SUCCESS ? k : 0 );
		int x = -5; double y = -5; put( o, e->Attribute( a.c_str(), &x ) ); o.i( x ); const std::string* s = e->Attribute( a, &x ); if ( ( s == 0 ) != ( e->Attribute( a.c_str() ) == 0 ) ) o.i( 903 ); e->Attribute( a.c_str(), &y ); o.d( y * 8 ); y = -5; e->Attribute( a, &y ); o.d( y * 8 );
		for ( TiXmlAttribute* z = e->FirstAttribute(); z; z = z->Next() ) if ( z->NameTStr() == a && ( z->IntValue() != x || z->DoubleValue() != y ) ) o.i( 904 );
		put( o, e->GetText() );
	};
	H[ "find" ] = [&]( vh::In& in, vh::Out& o )
	{
		int d = in.i(); TiXmlNode* p = at( in, D[ d ].get() ); std::string v = str( in ); int i = in.i(), n = in.i(); const TiXmlNode* cp = p;
		o.i( place( p->FirstChild() ) ).i( place( p->LastChild() ) ).i( place( i % 2 ? p->FirstChild( v ) : p->FirstChild( v.c_str() ) ) ).i( place( i % 2 ? p->LastChild( v ) : p->LastChild( v.c_str() ) ) );
		o.i( place( p->FirstChildElement() ) ).i( place( i % 2 ? p->FirstChildElement( v ) : cp->FirstChildElement( v.c_str() ) ) );
		if ( i > 0 )
		{
			TiXmlNode* c = child( p, i ); const TiXmlNode* cc = c;
			o.i( place( c->NextSibling() ) ).i( place( c->PreviousSibling() ) ).i( place( i % 2 ? c->NextSibling( v ) : cc->NextSibling( v.c_str() ) ) ).i( place( i % 2 ? c->PreviousSibling( v ) : cc->PreviousSibling( v.c_str() ) ) );
			o.i( place( c->NextSiblingElement() ) ).i( place( i % 2 ? c->NextSiblingElement( v ) : cc->NextSiblingElement( v.c_str() ) ) );
			o.i( place( p->IterateChildren( c ) ) ).i( place( i % 2 ? p->IterateChildren( v, c ) : p->IterateChildren( v.c_str(), c ) ) );
		}
		TiXmlHandle h( p ); o.i( place( h.Child( n ).ToNode() ) ).i( place( i % 2 ? h.Child( v, n ).ToNode() : h.Child( v.c_str(), n ).ToNode() ) ).i( place( h.ChildElement( n ).ToElement() ) ).i( place( i % 2 ? h.ChildElement( v, n ).ToElement() : h.ChildElement( v.c_str(), n ).ToElement() ) );
		o.i( place( h.FirstChild().ToNode() ) ).i( place( h.FirstChild( v ).ToNode() ) ).i( place( h.FirstChildElement().ToElement() ) ).i( place( h.FirstChildElement( v ).ToElement() ) );
		o.i( place( D[ d ]->RootElement() ) ); o.i( p->GetDocument() == D[ d ].get() );
		o.i( TiXmlHandle( 0 ).FirstChild().Child( 1 ).ChildElement( v, 0 ).FirstChildElement().ToNode() != 0 );
	};
	H[ "copy" ] = [&]( vh::In& in, vh::Out& o )
	{
		int w = in.i(); D[ 0 ]->ClearError();
		if ( w == 1 ) D[ 1 ].reset( new TiXmlDocument( *D[ 0 ] ) ); else if ( w == 2 ) *D[ 1 ] = *D[ 0 ]; else if ( w == 3 ) D[ 1 ].reset( static_cast< TiXmlNode& >( *D[ 0 ] ).Clone()->ToDocument() ); else std::swap( D[ 0 ], D[ 1 ] );
		both( o );
	};
	H[ "assign" ] = [&]( vh::In& in, vh::Out& o ) // the element at the second place becomes a copy of the one at the first (of the other document)
	{
		TiXmlNode* a = at( in, D[ 0 ].get() ); TiXmlNode* b = at( in, D[ 1 ].get() ); *b->ToElement() = *a->ToElement(); both( o );
	};
	H[ "self" ] = [&]( vh::In& in, vh::Out& o ) { int d = in.i(); TiXmlNode* a = at( in, D[ d ].get() ); if ( TiXmlElement* e = a->ToElement() ) { TiXmlElement& f = *e; f = *e; } else { TiXmlDocument& f = *D[ d ]; f = *D[ d ]; } both( o ); };
	H[ "show" ] = [&]( vh::In& in, vh::Out& o ) { int d = in.i(); TiXmlNode* a = at( in, D[ d ].get() ); D[ d ]->SaveFile( ROOT + "/show.xml" ); put( o, load( ROOT + "/show.xml" ) ); std::ostringstream os; os << *a; put( o, os.str() ); };
	H[ "walk" ] = [&]( vh::In& in, vh::Out& o ) { int d = in.i(); Walk w( o, in.i() ); o.i( D[ d ]->Accept( &w ) ); };
	H.reset();
	int r = H.run(); cleanup(); return r;
}
