// Replays Files.tla behaviours in a scratch directory of its own.
#include "vh.h"
#include <fstream>
#include <iterator>
#include <unistd.h>
#include <sys/stat.h>
#include <boost/filesystem.hpp>
#include <boost/serialization/vector.hpp>
#include <utSerialization/Serialization.h>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/Pose.h>
#include <utMeasurement/Measurement.h>
#include <utUtil/CalibFile.h>
#include <utUtil/GlobFiles.h>
#include <utUtil/SimpleStringIArchive.h>
#include <utUtil/SimpleStringOArchive.h>
using namespace Ubitrack;
typedef Math::Vector< double, 3 > V3;
typedef Math::Matrix< double, 3, 3 > M33;
typedef std::vector< V3 > L3;
namespace bf = boost::filesystem;

static std::string ROOT;
static void cleanup() { if ( !ROOT.empty() ) { boost::system::error_code e; bf::remove_all( ROOT, e ); ROOT.clear(); } }
static void fresh()
{
	cleanup();
	char t[] = "/tmp/vh_files_XXXXXX";
	if ( !mkdtemp( t ) ) { std::perror( "mkdtemp" ); std::_Exit( 96 ); }
	ROOT = t;
	bf::create_directory( ROOT + "/p" ); bf::create_directory( ROOT + "/q" );
	std::ofstream( ( ROOT + "/target" ).c_str() ) << "x";
}
static std::string file( int f ) { return ROOT + "/data" + char( '0' + f ) + ".cal"; }

static void get( vh::In& in, int& x ) { x = in.i(); }
static void get( vh::In& in, V3& x ) { x = in.vec< V3 >( 3 ); }
static void get( vh::In& in, M33& x ) { x = in.mat< M33 >( 3, 3 ); }
static void get( vh::In& in, Math::Pose& x ) { double a = in.d(), b = in.d(), c = in.d(), d = in.d(); V3 t = in.vec< V3 >( 3 ); x = Math::Pose( Math::Quaternion( a, b, c, d ), t ); }
static void get( vh::In& in, L3& x ) { int n = in.i(); x.clear(); for ( int i = 0; i < n; ++i ) x.push_back( in.vec< V3 >( 3 ) ); }
static void put( vh::Out& o, int x ) { o.i( x ); }
static void put( vh::Out& o, const V3& x ) { o.v( x ); }
static void put( vh::Out& o, const M33& x ) { o.m( x ); }
static void put( vh::Out& o, const Math::Pose& x ) { o.q( x.rotation() ); o.v( x.translation() ); }
static void put( vh::Out& o, const L3& x ) { o.i( x.size() ); for ( std::size_t i = 0; i < x.size(); ++i ) o.v( x[ i ] ); }
template< class T > static T& used() { static T x; return x; }

template< class T > static void writeT( vh::In& in, const std::string& name, const std::string& form )
{
	T x; get( in, x );
	if ( form == "text" ) Util::writeCalibFile( name, x ); else Util::writeBinaryCalibFile( name, x );
}
template< class T > static void writeM( vh::In& in, const std::string& name )
{
	Measurement::Timestamp t = in.ll(); T x; get( in, x );
	Util::writeCalibFile( name, Measurement::Measurement< T >( t, boost::shared_ptr< T >( new T( x ) ) ) );
}
static void write( vh::In& in, const std::string& name, const std::string& form )
{
	std::string ty = in.s();
	if ( ty == "int" ) writeT< int >( in, name, form );
	else if ( ty == "vec3" ) writeT< V3 >( in, name, form );
	else if ( ty == "pose" ) writeT< Math::Pose >( in, name, form );
	else if ( ty == "mat33" ) writeT< M33 >( in, name, form );
	else if ( ty == "list" ) writeT< L3 >( in, name, form );
	else if ( ty == "mvec3" ) writeM< V3 >( in, name );
	else if ( ty == "mpose" ) writeM< Math::Pose >( in, name );
	else if ( ty == "mmat33" ) writeM< M33 >( in, name );
	else writeM< L3 >( in, name );
}
template< class T > static void readT( vh::Out& o, const std::string& name, const std::string& form, bool u )
{
	T y; T& x = u ? used< T >() : y;
	if ( form == "text" ) Util::readCalibFile( name, x ); else Util::readBinaryCalibFile( name, x );
	put( o, x );
}
template< class T > static void readM( vh::Out& o, const std::string& name, bool u )
{
	Measurement::Measurement< T > y; Measurement::Measurement< T >& x = u ? used< Measurement::Measurement< T > >() : y;
	Util::readCalibFile( name, x );
	o.u( x.time() ); put( o, *x );
}
template< class T > static void dropT( vh::Out& o, const std::string& name, bool u ) { T y; T& x = u ? used< T >() : y; Util::readCalibFileDropMeasurement( name, x ); put( o, x ); }

template< class T > static void sout( vh::In& in, Util::SimpleStringOArchive& a, const T& x ) { a << x; }

int main()
{
	std::atexit( cleanup );
	vh::Harness H;
	H.reset = fresh;
	H["nothing"] = []( vh::In&, vh::Out& ) {};
	H["write"] = []( vh::In& in, vh::Out& ) { int f = in.i(); std::string form = in.s(); write( in, file( f ), form ); };
	H["nowhere"] = []( vh::In& in, vh::Out& ) { std::string w = in.s(), form = in.s(); write( in, w == "full" ? std::string( "/dev/full" ) : ROOT + "/missing/x.cal", form ); };
	H["read"] = []( vh::In& in, vh::Out& o )
	{
		int f = in.i(); std::string form = in.s(), ty = in.s(), n = file( f ); bool u = in.i();
		if ( ty == "int" ) readT< int >( o, n, form, u );
		else if ( ty == "vec3" ) readT< V3 >( o, n, form, u );
		else if ( ty == "pose" ) readT< Math::Pose >( o, n, form, u );
		else if ( ty == "mat33" ) readT< M33 >( o, n, form, u );
		else if ( ty == "list" ) readT< L3 >( o, n, form, u );
		else if ( ty == "mvec3" ) readM< V3 >( o, n, u );
		else if ( ty == "mpose" ) readM< Math::Pose >( o, n, u );
		else if ( ty == "mmat33" ) readM< M33 >( o, n, u );
		else readM< L3 >( o, n, u );
	};
	H["drop"] = []( vh::In& in, vh::Out& o )
	{
		int f = in.i(); std::string ty = in.s(), n = file( f ); bool u = in.i();
		if ( ty == "mvec3" ) dropT< V3 >( o, n, u );
		else if ( ty == "mpose" ) dropT< Math::Pose >( o, n, u );
		else if ( ty == "mmat33" ) dropT< M33 >( o, n, u );
		else dropT< L3 >( o, n, u );
	};
	H["damage"] = []( vh::In& in, vh::Out& )
	{
		int f = in.i(); std::string w = in.s(); int k = in.i();
		if ( bf::is_directory( file( f ) ) ) return;
		if ( w == "empty" ) { std::ofstream( file( f ).c_str() ); return; }
		if ( w == "junk" ) { std::ofstream( file( f ).c_str() ) << ( k % 2 ? "this is not an archive\n" : "22 serialisation::archive 19 0 0 1 2 3 4\n" ); return; }
		if ( !bf::exists( file( f ) ) ) return;
		std::string c;
		{ std::ifstream i( file( f ).c_str(), std::ios::binary ); c.assign( std::istreambuf_iterator< char >( i ), std::istreambuf_iterator< char >() ); }
		if ( c.compare( 0, 3, "22 " ) == 0 )
		{	// text: keep k/16 of the words
			std::vector< std::size_t > ends;
			for ( std::size_t i = 0; i < c.size(); ++i ) if ( !std::isspace( (unsigned char)c[ i ] ) && ( i + 1 == c.size() || std::isspace( (unsigned char)c[ i + 1 ] ) ) ) ends.push_back( i + 1 );
			std::size_t n = ends.size() * k / 16;
			c.resize( n ? ends[ n - 1 ] : 0 );
		}
		else c.resize( c.size() * k / 16 );
		std::ofstream( file( f ).c_str(), std::ios::binary ) << c;
	};
	H["rm"] = []( vh::In& in, vh::Out& ) { bf::remove_all( file( in.i() ) ); };
	H["mkdir"] = []( vh::In& in, vh::Out& ) { std::string n = file( in.i() ); bf::remove_all( n ); bf::create_directory( n ); };
	H["copy"] = []( vh::In& in, vh::Out& )
	{
		std::string a = file( in.i() ), b = file( in.i() );
		bf::remove_all( b );
		if ( bf::exists( a ) ) { std::ifstream i( a.c_str(), std::ios::binary ); std::string c( ( std::istreambuf_iterator< char >( i ) ), std::istreambuf_iterator< char >() ); std::ofstream( b.c_str(), std::ios::binary ) << c; }
	};
	H["entry"] = []( vh::In& in, vh::Out& )
	{
		int d = in.i(); std::string n = in.s(), k = in.s(), p = ROOT + ( d == 1 ? "/p/" : "/q/" ) + n;
		bf::remove_all( p );
		if ( k == "file" ) std::ofstream( p.c_str() ) << "x";
		else if ( k == "dir" ) bf::create_directory( p );
		else if ( k == "link" ) bf::create_symlink( ROOT + "/target", p );
		else if ( k == "dead" ) bf::create_symlink( ROOT + "/nothing", p );
	};
	static std::list< bf::path > L;
	H["glob"] = []( vh::In& in, vh::Out& o )
	{
		int clear = in.i(); std::string where = in.s(), pat = in.s(); bool dirs = in.i();
		if ( clear ) L.clear();
		std::string d = ROOT + "/" + where;
		if ( pat == "images" ) Util::globFiles( d, Util::PATTERN_OPENCV_IMAGE_FILES, L );
		else if ( pat == "calibration" ) Util::globFiles( d, Util::PATTERN_UBITRACK_CALIBRATION_FILES, L );
		else if ( pat == "binary" ) Util::globFiles( d, Util::PATTERN_UBITRACK_BOOST_BINARY, L );
		else if ( pat == "directories" ) Util::globFiles( d, Util::PATTERN_DIRECTORIES, L );
		else if ( dirs ) Util::globFiles( d, pat, L, true );
		else Util::globFiles( d, pat, L );
		o.i( L.size() );
		for ( auto& p : L ) { std::string s = p.string(); o.s( s.compare( 0, ROOT.size() + 1, ROOT + "/" ) == 0 ? s.substr( ROOT.size() + 1 ) : s ); }
	};
	H["strout"] = []( vh::In& in, vh::Out& o )
	{
		Util::SimpleStringOArchive a;
		int n = in.i();
		for ( int i = 0; i < n; ++i )
		{
			std::string t = in.s(); int k = in.i();
			if ( t == "char" ) { char c = in.s()[ 0 ]; a << c; }
			else if ( t == "int" ) { int x = in.i(); a << x; }
			else if ( t == "uint" ) { unsigned x = in.ll(); a << x; }
			else if ( t == "ull" ) { unsigned long long x = in.ll(); a << x; }
			else if ( t == "double" ) { double x = in.d(); a << x; }
			else if ( t == "float" ) { float x = in.d(); a << x; }
			else if ( t == "vec3" ) { V3 x = in.vec< V3 >( 3 ); a << x; }
			else if ( t == "quat" ) { double w[ 4 ]; for ( double& y : w ) y = in.d(); a << Math::Quaternion( w[ 0 ], w[ 1 ], w[ 2 ], w[ 3 ] ); }
			else if ( t == "pose" ) { Math::Pose x; get( in, x ); a << x; }
			else if ( t == "mat23" ) { Math::Matrix< double, 2, 3 > x = in.mat< Math::Matrix< double, 2, 3 > >( 2, 3 ); Math::Matrix< double, 2, 3 > const& y = x; a << y; }
			else { std::vector< double > x; for ( int j = 0; j < k; ++j ) x.push_back( in.d() ); a << x; }
		}
		o.s( a.str() );
	};
	H["strin"] = []( vh::In& in, vh::Out& o )
	{
		Util::SimpleStringIArchive a( in.s() );
		int n = in.i();
		for ( int i = 0; i < n; ++i )
		{
			std::string t = in.s();
			if ( t == "char" ) { char c; a >> c; o.s( std::string( 1, c ) ); }
			else if ( t == "int" ) { int x; a >> x; o.i( x ); }
			else if ( t == "uint" ) { unsigned x; a >> x; o.u( x ); }
			else if ( t == "ull" ) { unsigned long long x; a >> x; o.u( x ); }
			else if ( t == "double" ) { double x; a >> x; o.d( x ); }
			else if ( t == "float" ) { float x; a >> x; o.d( x ); }
			else if ( t == "vec3" ) { V3 x; a >> x; o.v( x ); }
			else if ( t == "quat" ) { Math::Quaternion x; a >> x; o.q( x ); }
			else if ( t == "pose" ) { Math::Pose x; a >> x; put( o, x ); }
			else if ( t == "mat23" ) { Math::Matrix< double, 2, 3 > x; a >> x; o.m( x ); }
			else { std::vector< double > x; a >> x; o.i( x.size() ); for ( double y : x ) o.d( y ); }
		}
	};
	return H.run();
}
