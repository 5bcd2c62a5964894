// P14: raw video files and picture comparison.
#include "pbt.hh"
#include "iofault.hh"
#include "tool.hh"
#include "alf.hh"
#include "picgen.hh"
#include "yuv4mpeg.hh"
#include <fcntl.h>
#include <cmath>
using namespace std;

static void put( Bytes & o, const string & s ) { o.insert( o.end(), s.begin(), s.end() ); }
static void put( Bytes & o, const vpxref::Planes & p ) { put( o, "FRAME\n" ); o.insert( o.end(), p.y.begin(), p.y.end() ); o.insert( o.end(), p.u.begin(), p.u.end() ); o.insert( o.end(), p.v.begin(), p.v.end() ); }

static void read_back( pbt::Ctx & c, const string & path, const vector<vpxref::Planes> & want, unsigned w, unsigned h, unsigned fn, unsigned fd, const string & log )
{
  unique_ptr<YUV4MPEGReader> r;
  try { if ( c.g.draw( 2 ) ) r.reset( new YUV4MPEGReader( path ) ); else r.reset( new YUV4MPEGReader( FileDescriptor( open( path.c_str(), O_RDONLY ) ) ) ); } catch ( const exception & e ) { c.fail( "unreadable", string( e.what() ) + " " + log ); }
  c.require( r->display_width() == w && r->display_height() == h && r->header().width == w && r->header().height == h, "size", log ); c.require( r->header().fps_numerator == fn && r->header().fps_denominator == fd, "frame-rate", to_string( r->header().fps_numerator ) + ":" + to_string( r->header().fps_denominator ) + " " + log );
  size_t ys = (size_t)w * h, cs = (size_t)( ( w + 1 ) / 2 ) * ( ( h + 1 ) / 2 ); c.require( r->y_plane_length() == ys && r->uv_plane_length() == cs && r->frame_length() == ys + 2 * cs, "plane-length", log );
  for ( size_t i = 0; i <= want.size(); i++ ) {
    string at = "frame " + to_string( i ) + " of " + to_string( want.size() ) + ", " + log; Optional<RasterHandle> f; try { f = r->get_next_frame(); } catch ( const exception & e ) { c.fail( "frame-unreadable", string( e.what() ) + " " + at ); }
    c.require( f.initialized() == ( i < want.size() ), "number-of-frames", at ); if ( i == want.size() ) break;
    string d = diff( planes( f.get().get(), true ), want[ i ] ); c.require( d.empty(), "samples", d + " " + at );
    vpxref::Planes e = planes( f.get().get(), false ), s = want[ i ];   // the rest of the last macroblocks repeats the edges
    auto ext = [&]( const Bytes & p, unsigned pw, unsigned ph, const Bytes & q, unsigned qw, unsigned qh ) { for ( unsigned y = 0; y < ph; y++ ) for ( unsigned x = 0; x < pw; x++ ) if ( p[ y * pw + x ] != q[ min( y, qh - 1 ) * qw + min( x, qw - 1 ) ] ) return false; return true; };
    c.require( ext( e.y, e.w, e.h, s.y, w, h ) && ext( e.u, e.w / 2, e.h / 2, s.u, ( w + 1 ) / 2, ( h + 1 ) / 2 ) && ext( e.v, e.w / 2, e.h / 2, s.v, ( w + 1 ) / 2, ( h + 1 ) / 2 ), "edges", at );
  }
}

static bool wide = false;   // one dimension at a power of two or larger than any picture the other cases take
static void draw_size( Src & g, int & w, int & h ) { if ( wide ) { w = g.pick<int>( { 257, 1024, 4096, 8192, 65536 / 8, 16383 } ) + g.draw( 9 ) - 8; if ( g.draw( 2 ) ) w = 250 + g.draw( 6000 ); h = 1 + g.draw( 20 ); if ( g.draw( 3 ) == 0 ) swap( w, h ); return; } if ( g.draw( 2 ) ) { w = 1 + g.draw( 24 ); h = 1 + g.draw( 24 ); } else draw_pic_size( g, w, h, g.chance( 1, 20 ) ? 40 : 6 ); }

static void roundtrip( pbt::Ctx & c )
{
  Src & g = c.g; int w, h; draw_size( g, w, h ); unsigned fn = g.draw( 2 ) ? 1 + g.draw( 120 ) : 1 + g.draw( 65535 ), fd = g.draw( 2 ) ? 1 : 1 + g.draw( 65535 ); string path = c.scratch + "/a.y4m", log = to_string( w ) + "x" + to_string( h ) + " " + to_string( fn ) + ":" + to_string( fd );
  iofault::rng = Prng( g.seed() ); iofault::on = g.draw( 2 ); struct Off { ~Off() { iofault::on = false; } } off; if ( iofault::on ) { c.tag( "short transfers" ); log += " (short transfers)"; }
  Pics p( g, w, h ); int n = g.draw( wide ? 3 : 6 ); vector<vpxref::Planes> want; Digest dg; Bytes layout;
  {
    FileDescriptor f( open( path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ) ); MutableRasterHandle first( w, h ); YUV4MPEGHeader hd( first.get() ); c.require( hd.width == w && hd.height == h, "header-from-picture", log );
    hd.fps_numerator = fn; hd.fps_denominator = fd; hd.pixel_aspect_ratio_numerator = 1 + g.draw( 20 ); hd.interlacing_mode = (YUV4MPEGHeader::InterlacingMode)g.draw( 4 ); hd.color_space = g.pick( { YUV4MPEGHeader::C420, YUV4MPEGHeader::C420jpeg, YUV4MPEGHeader::C420paldv } );
    string s = hd.to_string(); c.require( s.size() > 10 && s.substr( 0, 10 ) == "YUV4MPEG2 " && s.back() == '\n' && s.find( '\n' ) == s.size() - 1, "header", s ); c.require( ( " " + s ).find( " W" + to_string( w ) + " " ) != string::npos && s.find( " H" + to_string( h ) + " " ) != string::npos && s.find( " F" + to_string( fn ) + ":" + to_string( fd ) + " " ) != string::npos && s.find( " C420" ) != string::npos, "header", s );
    f.write( s ); put( layout, s ); for ( int i = 0; i < n; i++ ) { p.next(); p.add( dg ); RasterHandle r = p.raster(); YUV4MPEGFrameWriter::write( r.get(), f ); want.push_back( planes( r.get(), true ) ); put( layout, want.back() ); }
  }
  bool o = iofault::on; iofault::on = false; c.require( slurp( path ) == layout, "layout", log ); iofault::on = o; read_back( c, path, want, w, h, fn, fd, log );
  if ( ( w | h ) & 1 ) c.tag( "odd size" ); c.tag( "frames", n ); if ( n ) c.nontrivial( dg.h ^ w ); c.sample( log + " " + to_string( n ) + " frames" );
}

// files other programs write
static void foreign( pbt::Ctx & c )
{
  Src & g = c.g; int w, h; draw_size( g, w, h ); unsigned fn = 1 + g.draw( 240 ), fd = 1 + g.draw( 1001 ); vector<string> t { "W" + to_string( w ), "H" + to_string( h ), "F" + to_string( fn ) + ":" + to_string( fd ) };
  if ( g.draw( 2 ) ) t.push_back( g.pick<string>( { "Ip", "It", "Ib", "Im" } ) ); if ( g.draw( 2 ) ) t.push_back( g.pick<string>( { "A1:1", "A0:0", "A10:11" } ) ); if ( g.draw( 2 ) ) t.push_back( g.pick<string>( { "C420", "C420jpeg", "C420mpeg2", "C420paldv" } ) ); if ( g.draw( 2 ) ) t.push_back( g.pick<string>( { "XYSCSS=420JPEG", "XCOLORRANGE=LIMITED", "X" } ) );
  for ( size_t i = t.size(); i > 1; i-- ) swap( t[ i - 1 ], t[ g.draw( i ) ] ); string s = "YUV4MPEG2"; for ( auto & x : t ) s += " " + x; Bytes file; put( file, s + "\n" );
  iofault::rng = Prng( g.seed() ); iofault::on = g.draw( 2 ); struct Off { ~Off() { iofault::on = false; } } off;
  Pics p( g, w, h ); int n = g.draw( wide ? 3 : 5 ); vector<vpxref::Planes> want; Digest dg; for ( int i = 0; i < n; i++ ) { p.next(); p.add( dg ); want.push_back( planes( p.raster().get(), true ) ); put( file, want.back() ); }
  string path = c.scratch + "/a.y4m"; bool o = iofault::on; iofault::on = false; spit( path, file ); iofault::on = o; read_back( c, path, want, w, h, fn, fd, s ); c.tag( "frames", n ); if ( n ) c.nontrivial( dg.h ); c.sample( s );
}

// SSIM as x264 defines it: 8x8 windows every four samples, integer statistics
static double ssim_def( const TwoD<uint8_t> & a, const TwoD<uint8_t> & b )
{
  int w = a.width(), h = a.height(); double t = 0; long n = 0;
  for ( int y = 0; y + 8 <= h; y += 4 ) for ( int x = 0; x + 8 <= w; x += 4 ) {
    double s1 = 0, s2 = 0, ss = 0, s12 = 0; for ( int j = 0; j < 8; j++ ) for ( int i = 0; i < 8; i++ ) { double p = a.at( x + i, y + j ), q = b.at( x + i, y + j ); s1 += p; s2 += q; ss += p * p + q * q; s12 += p * q; }
    double c1 = floor( .01 * .01 * 255 * 255 * 64 + .5 ), c2 = floor( .03 * .03 * 255 * 255 * 64 * 63 + .5 ), vars = ss * 64 - s1 * s1 - s2 * s2, cov = s12 * 64 - s1 * s2; t += ( 2 * s1 * s2 + c1 ) * ( 2 * cov + c2 ) / ( ( s1 * s1 + s2 * s2 + c1 ) * ( vars + c2 ) ); n++;
  }
  return t / n;
}
static void ssim( pbt::Ctx & c )
{
  Src & g = c.g; int w, h; draw_size( g, w, h ); Pics p( g, w, h ), q( g, w, h ); p.next(); RasterHandle a = p.raster(); string how; MutableRasterHandle m( w, h ); m.get().copy_from( a.get() );
  unsigned kind = g.draw( 5 ); Prng r( g.seed() );
  switch ( kind ) {
  case 0: how = "equal"; break;
  case 1: how = "one sample"; m.get().Y().at( g.draw( m.get().Y().width() ), g.draw( m.get().Y().height() ) ) ^= 1 + g.draw( 255 ); break;
  case 2: { how = "noise"; int amp = 1 + g.draw( 100 ); m.get().Y().forall( [&]( uint8_t & v ) { v = min( 255, max( 0, int( v ) + int( r.below( 2 * amp + 1 ) ) - amp ) ); } ); break; }
  case 3: how = "another picture"; q.next(); q.fill( m.get() ); break;
  case 4: how = "chroma only"; m.get().U().forall( [&]( uint8_t & v ) { v = r.next(); } ); m.get().V().at( 0, 0 ) ^= 1; break;
  }
  RasterHandle b( move( m ) ); string log = to_string( w ) + "x" + to_string( h ) + " " + how; double s = a.get().quality( b.get() ), t = b.get().quality( a.get() ), d = ssim_def( a.get().Y(), b.get().Y() );
  c.require( isfinite( s ) && fabs( s - d ) < 2e-4, "ssim", to_string( s ) + " instead of " + to_string( d ) + " " + log ); c.require( fabs( s - t ) < 1e-6, "asymmetric", log ); if ( kind == 0 || kind == 4 ) c.require( s == 1, "equal-pictures", to_string( s ) + " " + log );
  bool eq = kind == 0 || ( kind == 3 && planes( a.get(), false ).y == planes( b.get(), false ).y && planes( a.get(), false ).u == planes( b.get(), false ).u && planes( a.get(), false ).v == planes( b.get(), false ).v ); c.require( ( a.get() == b.get() ) == eq && ( a.get() != b.get() ) == !eq, "equality", log );
  c.tag( how ); Digest dg; p.add( dg ); c.nontrivial( dg.h ^ kind ); c.sample( log + " " + to_string( s ) );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs { { "roundtrip", roundtrip, 12000, 200000 }, { "foreign", foreign, 6000, 100000 }, { "ssim", ssim, 15000, 300000 }, { "wide", []( pbt::Ctx & c ) { wide = true; switch ( c.g.draw( 3 ) ) { case 0: roundtrip( c ); break; case 1: foreign( c ); break; default: ssim( c ); } }, 600, 20000 } };
  return pbt::Runner( "P14", subs ).main( argc, argv );
}
