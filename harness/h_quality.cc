// P11: requests to the encoder are honoured, and what it reports is true.
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include "picgen.hh"
#include "encoder.hh"
using namespace std;
using namespace vp8gen;

struct Sess {
  int w, h; bool two; EncoderQuality q; unique_ptr<Decoder> dec; unique_ptr<Encoder> enc; unique_ptr<Pics> pics; ostringstream log; Digest dg; int lastq = -1;
  Sess( Src & g, int maxmb )
  {
    draw_pic_size( g, w, h, maxmb ); if ( w < 8 ) w = 8; if ( h < 8 ) h = 8; two = g.draw( 2 ); q = g.draw( 2 ) ? REALTIME_QUALITY : BEST_QUALITY; dec.reset( new Decoder( w, h ) );
    log << w << "x" << h << ( two ? " two-pass" : "" ) << ( q == REALTIME_QUALITY ? " realtime" : " best" );
    if ( g.chance( 1, 5 ) ) { Gen gen( g, w, h, Features::draw( g ) ); int n = 1 + g.draw( 3 ); for ( int i = 0; i < n; i++ ) { Bytes b = gen.frame(); dec->parse_and_decode_frame( chunk( b ) ); } enc.reset( new Encoder( *dec, two, q ) ); log << " from a state"; } else enc.reset( new Encoder( w, h, two, q ) );
    pics.reset( new Pics( g, w, h ) );
  }
  RasterHandle next() { pics->next(); pics->add( dg ); log << " " << pics->kind; return pics->raster(); }
};
struct Hdr { QuantIndices q; };
static int quantizer_of( pbt::Ctx & c, Sess & s, const Bytes & b )
{
  QuantIndices qi; Decoder d( *s.dec );
  try { if ( b[ 0 ] & 1 ) qi = d.parse_frame<InterFrame>( d.decompress_frame( chunk( b ) ) ).header().quant_indices; else qi = d.parse_frame<KeyFrame>( d.decompress_frame( chunk( b ) ) ).header().quant_indices; } catch ( const exception & e ) { c.fail( "unreadable", e.what() ); }
  for ( const auto & x : { qi.y_dc, qi.y2_dc, qi.y2_ac, qi.uv_dc, qi.uv_ac } ) c.require( !x.initialized() || x.get() == 0, "quantizer-delta", s.log.str() );
  return qi.y_ac_qi;
}
// decode what was emitted; the reported SSIM is that of the decoded picture
static double finish( pbt::Ctx & c, Sess & s, const Bytes & b, const RasterHandle & pic )
{
  Optional<RasterHandle> o = s.dec->parse_and_decode_frame( chunk( b ) ); double real = o.get().get().quality( pic.get() );
  c.require( s.enc->stats().ssim.initialized(), "no-ssim", s.log.str() ); double said = s.enc->stats().ssim.get();
  c.require( said == real, "reported-ssim", "reported " + to_string( said ) + ", decoded picture has " + to_string( real ) + ": " + s.log.str() );
  return real;
}
static double trial( const Encoder & e, const RasterHandle & pic, int q ) { Encoder x( e ); x.encode_with_quantizer( pic.get(), q ); return x.stats().ssim.get(); }

static void quantizer( pbt::Ctx & c, int maxmb, int frames )
{
  Src & g = c.g; Sess s( g, maxmb ); int n = 1 + g.draw( frames );
  for ( int i = 0; i < n; i++ ) { RasterHandle p = s.next(); int q = g.draw( 3 ) ? g.draw( 128 ) : g.pick<int>( { 0, 127, 1, 126 } ); s.log << " q" << q; Bytes b = s.enc->encode_with_quantizer( p.get(), q ); int got = quantizer_of( c, s, b ); c.require( got == q, "quantizer", "asked for " + to_string( q ) + ", frame has " + to_string( got ) + ": " + s.log.str() ); finish( c, s, b, p ); }
  c.tag( "frames", n ); c.nontrivial( s.dg.h ); c.sample( s.log.str() );
}
// Every macroblock shows its part of the picture as closely as the quantizer lets it: the transforms are orthogonal up to a factor of two, so coefficients that are less than a step
// (in the second pass, which may lower them: two steps) off are at most half a step (a step) per sample on average, and the second transform's steps of 1.55 and 2 times that add to it.
static void close( pbt::Ctx & c, int maxmb, int frames )
{
  Src & g = c.g; Sess s( g, maxmb ); int n = 1 + g.draw( frames ); size_t mbs = 0; double worst = 0;
  for ( int i = 0; i < n; i++ ) {
    RasterHandle p = s.next(); int q = g.draw( 3 ) ? g.draw( 128 ) : g.draw( 24 ); s.log << " q" << q; Bytes b = s.enc->encode_with_quantizer( p.get(), q ); Decoder t( *s.dec ); int level; Quantizer z;
    if ( b[ 0 ] & 1 ) { InterFrame f = t.parse_frame<InterFrame>( t.decompress_frame( chunk( b ) ) ); level = f.header().loop_filter_level; z = Quantizer( f.header().quant_indices ); } else { KeyFrame f = t.parse_frame<KeyFrame>( t.decompress_frame( chunk( b ) ) ); level = f.header().loop_filter_level; z = Quantizer( f.header().quant_indices ); }
    Optional<RasterHandle> o = s.dec->parse_and_decode_frame( chunk( b ) ); if ( level > 8 ) { c.tag( "strongly filtered" ); continue; }
    vpxref::Planes A = planes( o.get().get(), true ), B = planes( p.get(), true );
    auto far = [&]( const Bytes & x, const Bytes & y, int pw, int cx, int cy, int sz, int step ) { double e = 0; for ( int v = 0; v < sz; v++ ) for ( int u = 0; u < sz; u++ ) { int at = ( cy * sz + v ) * pw + cx * sz + u; e += abs( x[ at ] - y[ at ] ); } e /= sz * sz; double most = ( 3 + 0.75 * step ) * ( s.two ? 2 : 1 ); worst = max( worst, e / most ); c.require( e <= most, "not-the-picture", "macroblock " + to_string( cx ) + "," + to_string( cy ) + ( sz == 8 ? " chroma" : "" ) + ": mean error " + to_string( e ) + ", step " + to_string( step ) + ", filter level " + to_string( level ) + ": " + s.log.str() ); };
    for ( int cy = 0; cy < s.h / 16; cy++ ) for ( int cx = 0; cx < s.w / 16; cx++ ) { far( A.y, B.y, s.w, cx, cy, 16, z.y_ac ); far( A.u, B.u, ( s.w + 1 ) / 2, cx, cy, 8, z.uv_ac ); far( A.v, B.v, ( s.w + 1 ) / 2, cx, cy, 8, z.uv_ac ); mbs++; }
  }
  c.tag( "macroblocks", mbs ); c.tag( worst > 0.9 ? "worst > 0.9 of the bound" : worst > 0.7 ? "worst > 0.7" : worst > 0.5 ? "worst > 0.5" : "worst <= 0.5" ); if ( mbs ) c.nontrivial( s.dg.h ); c.sample( s.log.str() + ": " + to_string( mbs ) + " macroblocks, worst at " + to_string( worst ) + " of the bound" );
}
static void minimum( pbt::Ctx & c, int maxmb, int frames )
{
  Src & g = c.g; Sess s( g, maxmb ); int n = 1 + g.draw( frames );
  for ( int i = 0; i < n; i++ ) {
    RasterHandle p = s.next(); double want;
    switch ( g.draw( 4 ) ) { case 0: want = 0.3 + g.draw( 70 ) / 100.0; break; case 1: want = 0.9 + g.draw( 110 ) / 1000.0; break; case 2: want = trial( *s.enc, p, g.draw( 128 ) ); break; default: want = g.pick<double>( { 0.0, 1.0, 0.99, 1.5 } ); }
    s.log << " ssim" << want; Encoder before( *s.enc ); Bytes b = s.enc->encode_with_minimum_ssim( p.get(), want ); int q = quantizer_of( c, s, b ); double got = finish( c, s, b, p );
    string w = "asked for " + to_string( want ) + ", got quantizer " + to_string( q ) + " with " + to_string( got ) + ": " + s.log.str();
    c.require( got == trial( before, p, q ), "not-that-quantizer's-picture", w );
    if ( got < want ) { double best = trial( before, p, 0 ); c.require( best < want, "minimum-missed", w + "; quantizer 0 has " + to_string( best ) ); c.tag( "out of reach" ); }
    else if ( q < 127 ) { double next = trial( before, p, q + 1 ); c.require( next < want, "too-fine", w + "; quantizer " + to_string( q + 1 ) + " has " + to_string( next ) ); c.tag( "reached" ); } else c.tag( "coarsest suffices" );
  }
  c.tag( "frames", n ); c.nontrivial( s.dg.h ); c.sample( s.log.str() );
}
static void target( pbt::Ctx & c, int maxmb, int frames )
{
  Src & g = c.g; Sess s( g, maxmb ); int n = 1 + g.draw( frames ), last = -1;
  for ( int i = 0; i < n; i++ ) {
    RasterHandle p = s.next();
    if ( g.chance( 1, 3 ) ) { int q = g.draw( 128 ); s.log << " q" << q; Bytes b = s.enc->encode_with_quantizer( p.get(), q ); if ( s.q == REALTIME_QUALITY ) last = q; finish( c, s, b, p ); continue; }
    auto est = [&]( const Encoder & e, int q ) { Encoder x( e ); return x.estimate_frame_size( p.get(), q ); };
    int lo = 4, hi = 127; if ( last >= 0 ) { lo = max( 4, last - 16 ); hi = min( 127, last + 16 ); }
    size_t want; switch ( g.draw( 4 ) ) { case 0: want = est( *s.enc, lo + g.draw( hi - lo + 1 ) ); break; case 1: want = est( *s.enc, lo + g.draw( hi - lo + 1 ) ) - 1; break; case 2: want = g.draw( 20000 ); break; default: want = g.pick<size_t>( { 0, 1, 1000000 } ); }
    s.log << " size" << want; Encoder before( *s.enc ); Bytes b = s.enc->encode_with_target_size( p.get(), want ); int q = quantizer_of( c, s, b ); finish( c, s, b, p ); if ( s.q == REALTIME_QUALITY ) last = q;
    size_t e = est( before, q ); string w = "target " + to_string( want ) + ", quantizer " + to_string( q ) + " of [" + to_string( lo ) + "," + to_string( hi ) + "] estimated at " + to_string( e ) + ": " + s.log.str();
    c.require( q >= lo && q <= hi, "quantizer-range", w );
    if ( e > want ) { c.require( q == hi, "over-target", w ); c.tag( "out of reach" ); } else { c.tag( "within" ); if ( q > lo ) { size_t f = est( before, q - 1 ); c.require( f > want, "under-target", w + "; quantizer " + to_string( q - 1 ) + " estimated at " + to_string( f ) ); } }
  }
  c.tag( "frames", n ); c.nontrivial( s.dg.h ); c.sample( s.log.str() );
}

int main( int argc, char ** argv )
{
  vpxref::api();
  vector<pbt::Sub> subs { { "quantizer", []( pbt::Ctx & c ) { quantizer( c, 5, 8 ); }, 8000, 100000 }, { "closeness", []( pbt::Ctx & c ) { close( c, 8, 8 ); }, 6000, 80000 }, { "minimum-ssim", []( pbt::Ctx & c ) { minimum( c, 5, 4 ); }, 3000, 50000 }, { "target-size", []( pbt::Ctx & c ) { target( c, 12, 6 ); }, 4000, 50000 } };
  return pbt::Runner( "P11", subs ).main( argc, argv );
}
