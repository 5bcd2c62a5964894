// P27: the player, the picture viewer, the webcam viewer and the webcam stand-in present exactly the pictures they are given, in order.
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include "mutate.hh"
#include "tool.hh"
#include "jpegen.hh"
#include "viewshim/campic.hh"
#include "enc_state_serializer.hh"
#include "player.hh"
#include "jpeg.hh"
#include <linux/videodev2.h>
#include <chrono>
#include <map>
using namespace std;
using namespace vp8gen;
static void save( const Decoder & d, const string & path ) { EncoderStateSerializer o; d.serialize( o ); o.write( path ); }

struct Pic { unsigned w = 0, h = 0; Bytes b; bool operator==( const Pic & o ) const { return w == o.w && h == o.h && b == o.b; } };
static Pic pic( const BaseRaster & r )
{
  Pic p; p.w = r.display_width(); p.h = r.display_height(); auto add = [&]( const TwoD<uint8_t> & t, unsigned w, unsigned h ) { for ( unsigned y = 0; y < h; y++ ) for ( unsigned x = 0; x < w; x++ ) p.b.push_back( t.at( x, y ) ); };
  add( r.Y(), p.w, p.h ); add( r.U(), ( p.w + 1 ) / 2, ( p.h + 1 ) / 2 ); add( r.V(), ( p.w + 1 ) / 2, ( p.h + 1 ) / 2 ); return p;
}
struct Screen { unsigned windows = 0, w = 0, h = 0, full = 0; vector<Pic> shown; };
static Screen screen( pbt::Ctx & c )
{
  Bytes b = slurp( c.scratch + "/shown" ); Screen s; size_t at = 0; auto u = [&]() -> unsigned { if ( at + 4 > b.size() ) c.fail( "harness", "record of the display cut off" ); unsigned v; memcpy( &v, &b[ at ], 4 ); at += 4; return v; };
  while ( at < b.size() ) { unsigned k = u(); if ( k == 0x57 ) { s.windows++; s.w = u(); s.h = u(); s.full = u(); } else { Pic p; p.w = u(); p.h = u(); size_t n = (size_t)p.w * p.h + 2 * (size_t)( ( p.w + 1 ) / 2 ) * ( ( p.h + 1 ) / 2 ); if ( k != 0x44 || at + n > b.size() ) c.fail( "harness", "record of the display cut off" ); p.b.assign( b.begin() + at, b.begin() + at + n ); at += n; s.shown.push_back( move( p ) ); } }
  return s;
}
static ToolRun view( pbt::Ctx & c, const vector<string> & args, int exit_after = 0, const string & in = "" )
{
  unlink( ( c.scratch + "/shown" ).c_str() ); setenv( "VP_SHOWN", ( c.scratch + "/shown" ).c_str(), 1 ); if ( exit_after ) setenv( "VP_EXIT_AFTER", to_string( exit_after ).c_str(), 1 ); else unsetenv( "VP_EXIT_AFTER" );
  return tool( c, args, in );
}
static void same( pbt::Ctx & c, const vector<Pic> & got, const vector<Pic> & want, const string & log )
{
  for ( size_t i = 0; i < min( got.size(), want.size() ); i++ ) if ( !( got[ i ] == want[ i ] ) ) { size_t k = 0; while ( k < min( got[ i ].b.size(), want[ i ].b.size() ) && got[ i ].b[ k ] == want[ i ].b[ k ] ) k++; c.fail( "picture", "picture " + to_string( i ) + " of " + to_string( want.size() ) + " differs at byte " + to_string( k ) + " (" + to_string( got[ i ].w ) + "x" + to_string( got[ i ].h ) + ") " + log ); }
  c.require( got.size() == want.size(), "count", to_string( got.size() ) + " pictures shown, " + to_string( want.size() ) + " to show; " + log );
}

// ---- vp8play
static void player( pbt::Ctx & c )
{
  Src & g = c.g; Features f = Features::draw( g ); int w, h; Gen::draw_size( g, f, w, h, 4 ); bool state = g.draw( 3 ) == 0; if ( state ) f.golden = false; Options o; o.allow_hidden = g.draw( 2 ); Gen gen( g, w, h, f, o ); Digest dg;
  int lead = g.draw( 4 ), n = 1 + g.draw( 6 ); Decoder d( w, h ); vector<Bytes> fr; vector<bool> key; vector<Pic> want; string log = to_string( w ) + "x" + to_string( h ); bool last_hidden = false;
  auto step = [&]( bool show ) { Bytes b = gen.frame(); dg.add( b ); Optional<RasterHandle> r = d.parse_and_decode_frame( chunk( b ) ); if ( show ) { last_hidden = !r.initialized(); if ( r.initialized() ) want.push_back( pic( r.get() ) ); } return b; };
  uint32_t mini = 0; vector<string> args { "vp8play", "p.ivf" };
  if ( state ) { for ( int i = 0; i <= lead; i++ ) step( false ); save( d, c.scratch + "/s.state" ); d = EncoderStateDeserializer::build<Decoder>( c.scratch + "/s.state" ); if ( g.draw( 2 ) ) mini = d.minihash(); args.push_back( "s.state" ); log += " from a state after " + to_string( lead + 1 ) + " frames,"; }
  else if ( lead ) { Gen other( g, w, h, f, o ); other.frame(); int k = 0; for ( int i = 0; i < lead; i++ ) { Bytes b = other.frame(); if ( other.key ) continue; fr.push_back( b ); k++; } log += " behind " + to_string( k ) + " frames without a key frame,"; }
  for ( int i = 0; i < n; i++ ) fr.push_back( step( true ) );
  spit( c.scratch + "/p.ivf", ivf_file( w, h, fr, 1 + g.draw( 60 ), 1, mini ) ); log += " " + to_string( n ) + " frames";
  ToolRun r = view( c, args, 0, string( g.draw( 20 ), '\n' ) ); c.require( r.ok() || ( last_hidden && !r.crashed() ), "fails", r.err + " " + log );
  Screen s = screen( c ); c.require( s.windows == 1 && (int)s.w == w && (int)s.h == h && !s.full, "window", to_string( s.w ) + "x" + to_string( s.h ) + " " + log ); same( c, s.shown, want, log );
  c.tag( state ? "from a state" : lead ? "frames in front" : "plain file" ); if ( last_hidden ) c.tag( "hidden at the end" ); c.nontrivial( dg.h ); c.sample( log + ", " + to_string( want.size() ) + " shown" );
}

// ---- display-jpeg
static void still( pbt::Ctx & c )
{
  Src & g = c.g; int w = 1 + g.draw( 130 ), h = 1 + g.draw( 90 ); P422 p = picture( g, w, h ); JOpt o; o.quality = 1 + g.draw( 100 ); o.restart = g.draw( 3 ) ? 0 : 1 + g.draw( 20 ); o.progressive = g.chance( 1, 6 ); o.optimize = g.draw( 2 ); Bytes j = jpeg( p, o ); string log = to_string( w ) + "x" + to_string( h ) + " JPEG of " + to_string( j.size() ) + " bytes";
  JPEGDecompresser d; d.begin_decoding( Chunk( j.data(), j.size() ) ); MutableRasterHandle m { (uint16_t)w, (uint16_t)h }; d.decode( m.get() ); spit( c.scratch + "/p.jpg", j );
  ToolRun r = view( c, { "display-jpeg", "p.jpg" }, 1 ); c.require( r.ok(), "fails", r.err + " " + log ); Screen s = screen( c ); c.require( s.windows == 1 && (int)s.w == w && (int)s.h == h, "window", log ); same( c, s.shown, { pic( m.get() ) }, log );
  Digest dg; dg.add( j ); c.nontrivial( dg.h ); c.tag( "still picture" ); c.sample( log );
}

// ---- real-webcam
static void webcam( pbt::Ctx & c )
{
  Src & g = c.g; string plan; int n = 1 + g.draw( 5 ); for ( int i = 0; i < n; i++ ) plan += g.draw( 4 ) ? char( 'a' + g.draw( 26 ) ) : '.';
  static const map<string, uint32_t> F { { "NV12", V4L2_PIX_FMT_NV12 }, { "YUYV", V4L2_PIX_FMT_YUYV }, { "YU12", V4L2_PIX_FMT_YUV420 }, { "MJPG", V4L2_PIX_FMT_MJPEG } };
  string dev = "/dev/video0", fmt = "NV12"; bool full = g.draw( 2 ); vector<string> args { "real-webcam" };
  if ( g.draw( 2 ) ) { dev = "/dev/cam" + to_string( g.draw( 100 ) ); if ( g.draw( 2 ) ) { args.push_back( "-d" ); args.push_back( dev ); } else args.push_back( "--device=" + dev ); }
  if ( g.draw( 2 ) ) { fmt = g.pick<string>( { "NV12", "YUYV", "YU12", "MJPG" } ); if ( g.draw( 2 ) ) { args.push_back( "-p" ); args.push_back( fmt ); } else args.push_back( "--pixfmt=" + fmt ); }
  if ( full ) args.insert( args.begin() + 1, g.draw( 2 ) ? "-f" : "--fullscreen" );
  setenv( "VP_CAMERA", plan.c_str(), 1 ); setenv( "VP_CAMLOG", ( c.scratch + "/camlog" ).c_str(), 1 ); ToolRun r = view( c, args ); string log = show( args ) + " with pictures " + plan; c.require( r.ok(), "fails", r.err + " " + log );
  Bytes l = slurp( c.scratch + "/camlog" ); c.require( string( l.begin(), l.end() ) == "1280 720 " + to_string( F.at( fmt ) ) + " " + dev, "camera", string( l.begin(), l.end() ) + " " + log );
  vector<Pic> want; for ( char k : plan ) if ( k != '.' ) { Pic p; p.w = 1280; p.h = 720; p.b.reserve( 1280 * 720 * 3 / 2 ); campic( k, [&]( int, unsigned, unsigned, uint8_t v ) { p.b.push_back( v ); }, 1280, 720 ); want.push_back( move( p ) ); }
  Screen s = screen( c ); c.require( s.windows == 1 && s.w == 1280 && s.h == 720 && s.full == full, "window", log ); same( c, s.shown, want, log );
  Digest dg; dg.add( Bytes( log.begin(), log.end() ) ); c.nontrivial( dg.h ); c.tag( "webcam viewer" ); c.sample( log );
}

// ---- fake-webcam
static void fake( pbt::Ctx & c )
{
  Src & g = c.g; int w = 1 + g.draw( 70 ), h = 1 + g.draw( 50 ), n = g.draw( 7 ); unsigned fps = g.pick<unsigned>( { 1000, 500, 250, 100 } ); Prng r( g.seed() ); size_t one = (size_t)w * h + 2 * (size_t)( ( w + 1 ) / 2 ) * ( ( h + 1 ) / 2 );
  string in = "YUV4MPEG2 W" + to_string( w ) + " H" + to_string( h ) + " F" + to_string( 1 + g.draw( 60 ) ) + ":1 Ip A1:1" + ( g.draw( 2 ) ? " C420" : "" ) + "\n"; Bytes file( in.begin(), in.end() ); vector<Bytes> want;
  for ( int i = 0; i < n; i++ ) { for ( char k : string( "FRAME\n" ) ) file.push_back( k ); Bytes p( one ); for ( auto & x : p ) x = r.next(); file.insert( file.end(), p.begin(), p.end() ); want.push_back( p ); }
  spit( c.scratch + "/v.y4m", file ); string log = to_string( w ) + "x" + to_string( h ) + ", " + to_string( n ) + " pictures at " + to_string( fps ) + " per second"; auto t0 = chrono::steady_clock::now();
  ToolRun t = tool( c, { "fake-webcam", "v.y4m", to_string( fps ) } ); double took = chrono::duration<double>( chrono::steady_clock::now() - t0 ).count(); c.require( t.ok(), "fails", t.err + " " + log );
  Digest dg; dg.add( file ); c.nontrivial( dg.h ); c.tag( n ? "webcam stand-in" : "webcam stand-in, no picture" ); c.sample( log );
  if ( n == 0 ) { c.require( t.out.find( "FRAME" ) == string::npos, "count", "frames from nowhere; " + log ); return; }
  size_t e = t.out.find( '\n' ); c.require( e != string::npos, "header", log ); string hd = t.out.substr( 0, e ); istringstream is( hd ); string word; is >> word; c.require( word == "YUV4MPEG2", "header", hd + " " + log ); string W, H, F, C;
  while ( is >> word ) { string v = word.substr( 1 ); switch ( word[ 0 ] ) { case 'W': W = v; break; case 'H': H = v; break; case 'F': F = v; break; case 'C': C = v; break; } }
  c.require( W == to_string( w ) && H == to_string( h ) && F == to_string( fps ) + ":1" && ( C.empty() || C.substr( 0, 3 ) == "420" ), "header", hd + " " + log );
  size_t at = e + 1; for ( int i = 0; i < n; i++ ) { size_t nl = t.out.find( '\n', at ); c.require( t.out.compare( at, 5, "FRAME" ) == 0 && nl != string::npos && nl + 1 + one <= t.out.size(), "count", "only " + to_string( i ) + " pictures; " + log ); c.require( !memcmp( t.out.data() + nl + 1, want[ i ].data(), one ), "picture", "picture " + to_string( i ) + "; " + log ); at = nl + 1 + one; }
  c.require( at == t.out.size(), "count", "more than was read; " + log ); c.require( took > ( n - 1 ) * 0.99 / fps - 0.0005, "too-fast", to_string( took ) + " s; " + log );
}

// each picture comes out no earlier than its time: the clock starts after the harness's own reading of it, before the program is run
static void paced( pbt::Ctx & c )
{
  Src & g = c.g; int w = 1 + g.draw( 40 ), h = 1 + g.draw( 30 ), n = 2 + g.draw( 4 ); unsigned fps = g.pick<unsigned>( { 25, 20, 12, 30, 7 } ); size_t one = (size_t)w * h + 2 * (size_t)( ( w + 1 ) / 2 ) * ( ( h + 1 ) / 2 ); string in = "YUV4MPEG2 W" + to_string( w ) + " H" + to_string( h ) + " F24:1 Ip A1:1 C420\n"; Prng r( g.seed() );
  for ( int i = 0; i < n; i++ ) { in += "FRAME\n"; for ( size_t k = 0; k < one; k++ ) in.push_back( r.next() ); } spit( c.scratch + "/v.y4m", Bytes( in.begin(), in.end() ) ); string log = to_string( w ) + "x" + to_string( h ) + ", " + to_string( n ) + " pictures at " + to_string( fps ) + " per second", exe = self_dir() + "/fake-webcam", rate = to_string( fps );
  int p[ 2 ]; if ( pipe( p ) ) c.fail( "harness", "pipe" ); auto t0 = chrono::steady_clock::now(); pid_t pid = fork();
  if ( !pid ) { dup2( p[ 1 ], 1 ); int z = open( "/dev/null", O_RDWR ); dup2( z, 0 ); dup2( z, 2 ); for ( int k = 3; k < 64; k++ ) close( k ); if ( chdir( c.scratch.c_str() ) ) _exit( 126 ); signal( SIGPROF, SIG_DFL ); execl( exe.c_str(), exe.c_str(), "v.y4m", rate.c_str(), nullptr ); _exit( 127 ); }
  close( p[ 1 ] ); vector<double> at; string out; char b[ 65536 ]; size_t header = string::npos;
  while ( true ) { ssize_t k = read( p[ 0 ], b, sizeof b ); if ( k < 0 && errno == EINTR ) continue; if ( k <= 0 ) break; double t = chrono::duration<double>( chrono::steady_clock::now() - t0 ).count(); out.append( b, k ); if ( header == string::npos ) { header = out.find( '\n' ); if ( header == string::npos ) continue; } while ( out.size() > header + 1 + at.size() * ( one + 6 ) + 6 ) at.push_back( t ); }
  close( p[ 0 ] ); int st; while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {} c.require( WIFEXITED( st ) && WEXITSTATUS( st ) == 0, "fails", log ); c.require( (int)at.size() == n, "count", to_string( at.size() ) + " pictures; " + log );
  for ( int i = 0; i < n; i++ ) c.require( at[ i ] >= i * ( 1.0 / fps - 2e-6 ), "too-fast", "picture " + to_string( i ) + " after " + to_string( at[ i ] ) + " s; " + log );
  Digest dg; dg.add( Bytes( in.begin(), in.end() ) ); c.nontrivial( dg.h ); c.tag( "pictures on time" ); c.sample( log );
}

int main( int argc, char ** argv )
{
  vpxref::api();
  vector<pbt::Sub> subs { { "player", player, 8000, 100000 }, { "still", still, 2500, 30000 }, { "webcam", webcam, 300, 4000 }, { "fake", fake, 2500, 30000 }, { "paced", paced, 250, 3000 } };
  return pbt::Runner( "P27", subs ).main( argc, argv );
}
