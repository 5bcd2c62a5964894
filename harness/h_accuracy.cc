// P30: before the loop filter, what an encoded frame decodes to differs from its source by no more than quantization can cause.
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include "picgen.hh"
#include "encoder.hh"
#include <cmath>
using namespace std;
using namespace vp8gen;

struct Steps { double ydc, yac, y2dc, y2ac, uvdc, uvac; };
static Steps steps( int q )       // RFC 6386, section 9.6 and 14.1
{
  const uint16_t * dc = vp8t::dc_q, * ac = vp8t::ac_q;
  return { (double)dc[ q ], (double)ac[ q ], dc[ q ] * 2.0, max( 8.0, floor( ac[ q ] * 155 / 100 ) ), min( 132.0, (double)dc[ q ] ), (double)ac[ q ] };
}

// norms: a coefficient is twice the orthonormal one, in both transforms
static double bound4( double dc, double ac ) { return sqrt( ( dc * dc + 15 * ac * ac ) / 4 ); }
static const double SLACK = 0.9;      // rounding in the transforms, per sample

struct Worst { double chroma = 0, luma = 0, coef = 0, second = 0; };
static const double ROUND = 9, ROUND2 = 60;      // rounding, per coefficient of the first and second transform

// twice the orthonormal cosine transform of a block of errors
static void dct4( const double * e, double * o )
{
  static double b[ 4 ][ 4 ]; if ( !b[ 0 ][ 0 ] ) for ( int k = 3; k >= 0; k-- ) for ( int x = 3; x >= 0; x-- ) b[ k ][ x ] = ( k ? sqrt( 0.5 ) : 0.5 ) * cos( ( 2 * x + 1 ) * k * M_PI / 8 );
  for ( int v = 0; v < 4; v++ ) for ( int u = 0; u < 4; u++ ) { double t = 0; for ( int y = 0; y < 4; y++ ) for ( int x = 0; x < 4; x++ ) t += e[ y * 4 + x ] * b[ v ][ y ] * b[ u ][ x ]; o[ v * 4 + u ] = 2 * t; }
}
static void wht4( const double * d, double * o )     // twice the orthonormal one, as the format defines its rows
{
  static const int r[ 4 ][ 4 ] = { { 1, 1, 1, 1 }, { 1, 1, -1, -1 }, { 1, -1, -1, 1 }, { 1, -1, 1, -1 } };
  for ( int v = 0; v < 4; v++ ) for ( int u = 0; u < 4; u++ ) { double t = 0; for ( int y = 0; y < 4; y++ ) for ( int x = 0; x < 4; x++ ) t += d[ y * 4 + x ] * r[ v ][ y ] * r[ u ][ x ]; o[ v * 4 + u ] = t / 2; }
}
// errors of the unfiltered picture against the source, block by block; "" when all are within what quantization explains
template <class FrameType>
static string judge( const FrameType & f, const VP8Raster & got, const Pics & src, int q, double levels, Worst & worst )
{
  Steps s = steps( q ); ostringstream o; const vector<uint8_t> * pl[] = { &src.plane( 0 ), &src.plane( 1 ), &src.plane( 2 ) }; const TwoD<uint8_t> * gp[] = { &got.Y(), &got.U(), &got.V() };
  auto norm = [&]( int k, unsigned x0, unsigned y0, unsigned n ) { double e = 0; unsigned w = gp[ k ]->width(); for ( unsigned y = y0; y < y0 + n; y++ ) for ( unsigned x = x0; x < x0 + n; x++ ) { double d = (double)gp[ k ]->at( x, y ) - ( *pl[ k ] )[ y * w + x ]; e += d * d; } return sqrt( e ); };
  // a block none of whose samples was limited to 0..255 can be judged coefficient by coefficient; 1: no limited sample
  auto coefs = [&]( int k, unsigned x0, unsigned y0, double * o ) { double e[ 16 ]; unsigned w = gp[ k ]->width(); bool free = true; for ( unsigned y = 0; y < 4; y++ ) for ( unsigned x = 0; x < 4; x++ ) { uint8_t v = gp[ k ]->at( x0 + x, y0 + y ); if ( v == 0 || v == 255 ) free = false; e[ y * 4 + x ] = (double)v - ( *pl[ k ] )[ ( y0 + y ) * w + x0 + x ]; } dct4( e, o ); return free; };
  auto each = [&]( int k, unsigned x0, unsigned y0, double dc, double ac ) { double t[ 16 ]; if ( !coefs( k, x0, y0, t ) ) return; for ( int i = dc < 0; i < 16; i++ ) { double b = ( i ? ac : dc ) * levels + ROUND; worst.coef = max( worst.coef, fabs( t[ i ] ) / b ); if ( fabs( t[ i ] ) > b && o.str().empty() ) o << "plane " << k << ", block at " << x0 << "," << y0 << ": coefficient " << i << " is off by " << t[ i ] << ", quantizer " << q << " explains " << b; } };
  double cb = bound4( s.uvdc * levels, s.uvac * levels ) + 4 * SLACK;
  f.macroblocks().forall_ij( [&]( const auto & mb, unsigned c, unsigned r ) {
    bool y2 = mb.Y2().coded();
    if ( !y2 ) { double b = bound4( s.ydc * levels, s.yac * levels ) + 4 * SLACK; for ( unsigned j = 0; j < 4; j++ ) for ( unsigned i = 0; i < 4; i++ ) { double e = norm( 0, c * 16 + i * 4, r * 16 + j * 4, 4 ); worst.luma = max( worst.luma, e / b ); if ( e > b && o.str().empty() ) o << "luma block " << i << "," << j << " of macroblock " << c << "," << r << " is off by " << e << ", quantizer " << q << " explains " << b; } }
    else {
      double small = levels > 1 && ( s.y2dc < 35 || s.y2ac < 35 ) ? 35 : 0;       // the two-pass encoder drops second-order blocks that add up to less
      double b = sqrt( 16 * 15 * s.yac * levels * s.yac * levels / 4 + pow( max( small, sqrt( s.y2dc * levels * s.y2dc * levels + 15 * s.y2ac * levels * s.y2ac * levels ) ), 2 ) / 16 ) + 16 * SLACK, e = norm( 0, c * 16, r * 16, 16 ); worst.luma = max( worst.luma, e / b );
      if ( e > b && o.str().empty() ) o << "luma of macroblock " << c << "," << r << " is off by " << e << ", quantizer " << q << " explains " << b; }
    double dcs[ 16 ], z[ 16 ]; bool free = true;
    for ( unsigned j = 0; j < 4; j++ ) for ( unsigned i = 0; i < 4; i++ ) { double t[ 16 ]; free = coefs( 0, c * 16 + i * 4, r * 16 + j * 4, t ) && free; dcs[ j * 4 + i ] = t[ 0 ]; each( 0, c * 16 + i * 4, r * 16 + j * 4, y2 ? -1 : s.ydc, s.yac ); }
    if ( y2 && free ) { wht4( dcs, z ); double small = levels > 1 && ( s.y2dc < 35 || s.y2ac < 35 ) ? 35 : 0; for ( int i = 0; i < 16; i++ ) { double b = max( small, ( i ? s.y2ac : s.y2dc ) * levels ) + ROUND2; worst.second = max( worst.second, fabs( z[ i ] ) / b ); if ( fabs( z[ i ] ) > b && o.str().empty() ) o << "macroblock " << c << "," << r << ": second-order coefficient " << i << " is off by " << z[ i ] << ", quantizer " << q << " explains " << b; } }
    for ( int k = 1; k < 3; k++ ) for ( unsigned j = 0; j < 2; j++ ) for ( unsigned i = 0; i < 2; i++ ) { each( k, c * 8 + i * 4, r * 8 + j * 4, s.uvdc, s.uvac ); double e = norm( k, c * 8 + i * 4, r * 8 + j * 4, 4 ); worst.chroma = max( worst.chroma, e / cb ); if ( e > cb && o.str().empty() ) o << ( k == 1 ? "U" : "V" ) << " block " << i << "," << j << " of macroblock " << c << "," << r << " is off by " << e << ", quantizer " << q << " explains " << cb; }
  } );
  return o.str();
}

static void session( pbt::Ctx & c, int maxmb, int frames, bool far = false )
{
  Src & g = c.g; int w, h; draw_pic_size( g, w, h, maxmb ); if ( far ) { w = 300 + g.draw( 500 ); h = 1 + g.draw( 48 ); if ( g.draw( 2 ) ) swap( w, h ); }
  bool two = g.draw( 2 ); EncoderQuality quality = g.draw( 2 ) ? REALTIME_QUALITY : BEST_QUALITY; ostringstream log; log << w << "x" << h << ( two ? " two-pass" : "" ) << ( quality == REALTIME_QUALITY ? " realtime" : " best" );
  Decoder dec( w, h ); unique_ptr<Encoder> enc; bool fresh = true;
  if ( g.chance( 1, 3 ) ) {        // take over from another encoder's stream
    Features f = Features::draw( g ); Gen gen( g, w, h, f ); int n = 1 + g.draw( 4 ); log << " from stream of " << n;
    for ( int i = 0; i < n; i++ ) dec.parse_and_decode_frame( chunk( gen.frame() ) );
    enc.reset( new Encoder( dec, two, quality ) ); fresh = false; c.tag( "from a decoder state" );
  } else enc.reset( new Encoder( w, h, two, quality ) );
  Pics pics( g, w, h, far ); int n = 1 + g.draw( frames ); Digest dg; Worst worst; int lowq = 0;
  for ( int i = 0; i < n; i++ ) {
    pics.next(); pics.add( dg ); RasterHandle pic = pics.raster(); log << " " << pics.kind;
    if ( g.chance( 1, 8 ) ) { unique_ptr<Encoder> e2( g.draw( 2 ) ? new Encoder( *enc ) : new Encoder( move( *enc ) ) ); enc = move( e2 ); log << "(other object)"; }
    Bytes b; int mode = g.weighted( { 8, 1, 1 } ), q = g.pick<int>( { 0, 4, 10, -1 } ); if ( q < 0 ) q = g.draw( 128 ); bool filtered_from_zero = quality == BEST_QUALITY;
    if ( mode == 0 ) { log << " q" << q; b = enc->encode_with_quantizer( pic.get(), q ); }
    else if ( mode == 1 ) { size_t t = g.draw( 40000 ); log << " size" << t; b = enc->encode_with_target_size( pic.get(), t ); }
    else { double s = 0.8 + g.draw( 21 ) / 100.0; log << " ssim" << s; b = enc->encode_with_minimum_ssim( pic.get(), s ); }
    Bytes x( b ); x.shrink_to_fit(); Decoder plain( dec ); UncompressedChunk u = plain.decompress_frame( chunk( x ) ); string bad; int level, used; Optional<RasterHandle> raw;
    auto look = [&]( auto f ) { used = f.header().quant_indices.y_ac_qi; level = f.header().loop_filter_level; f.mutable_header().loop_filter_level = 0; raw.reset( plain.decode_frame( f ).second ); bad = judge( f, raw.get().get(), pics, mode == 0 ? q : used, two && fresh ? 2 : 1, worst ); };
    if ( u.key_frame() ) look( plain.parse_frame<KeyFrame>( u ) ); else look( plain.parse_frame<InterFrame>( u ) );
    c.require( bad.empty(), "off-the-source", bad + "; frame " + to_string( i ) + " of " + log.str() ); if ( used < 20 ) lowq++;
    RasterHandle shown = dec.parse_and_decode_frame( chunk( x ) ).get(); c.require( level != 0 || diff( planes( shown.get(), false ), planes( raw.get().get(), false ) ).empty(), "harness:unfiltered", log.str() );
    // a best-quality encoder tries the filter's levels from none upwards
    if ( filtered_from_zero && level ) { double with = shown.get().quality( pic.get() ), without = raw.get().get().quality( pic.get() ); c.require( with >= without, "filter-harms", to_string( with ) + " with level " + to_string( level ) + ", " + to_string( without ) + " without; frame " + to_string( i ) + " of " + log.str() ); c.tag( "filtered frames" ); }
    if ( level == 0 ) c.tag( "unfiltered frames" ); fresh = false; c.tag( mode == 0 ? "by quantizer" : mode == 1 ? "by target size" : "by minimum ssim" ); c.tag( u.key_frame() ? "key frames" : "inter frames" );
  }
  c.tag( "frames", n ); c.tag( "fine quantizers", lowq ); if ( worst.luma > 0.2 || worst.chroma > 0.2 ) c.nontrivial( dg.h ^ hash<string>()( log.str() ) ); c.sample( log.str() + ", at worst " + to_string( (int)( worst.luma * 100 ) ) + "% of the luma and " + to_string( (int)( worst.chroma * 100 ) ) + "% of the chroma bound" );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs { { "small", []( pbt::Ctx & c ) { session( c, 4, 5 ); }, 12000, 200000 }, { "large", []( pbt::Ctx & c ) { session( c, 12, 4 ); }, 4000, 40000 }, { "long", []( pbt::Ctx & c ) { session( c, 3, 30 ); }, 2000, 30000 }, { "far", []( pbt::Ctx & c ) { session( c, 4, 3, true ); }, 1600, 20000 } };
  return pbt::Runner( "P30", subs ).main( argc, argv );
}
