// P09: what the encoder emits decodes to the encoder's own state, in alfalfa and in libvpx.
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include "picgen.hh"
#include "encoder.hh"
using namespace std;
using namespace vp8gen;

static Bytes read_header( const Bytes & b ) { return Bytes( b.begin(), b.begin() + min<size_t>( 10, b.size() ) ); }

static void session( pbt::Ctx & c, int maxmb, int frames, bool far = false )
{
  Src & g = c.g; int w, h; draw_pic_size( g, w, h, maxmb ); if ( far ) { w = 300 + g.draw( 700 ); h = 1 + g.draw( 48 ); if ( g.draw( 2 ) ) swap( w, h ); } int mw = ( w + 15 ) / 16 * 16, mh = ( h + 15 ) / 16 * 16; bool two = g.draw( 2 ); EncoderQuality q = g.draw( 2 ) ? REALTIME_QUALITY : BEST_QUALITY;
  Decoder dec( w, h ); vpxref::Decoder ref; unique_ptr<Encoder> enc; ostringstream log; log << w << "x" << h << ( two ? " two-pass" : "" ) << ( q == REALTIME_QUALITY ? " realtime" : " best" ); bool fresh = true;
  if ( g.chance( 1, 3 ) ) {        // take over from another encoder's stream
    Features f = Features::draw( g ); Gen gen( g, w, h, f ); int n = 1 + g.draw( 4 ); log << " from stream of " << n << ( f.seg ? " segmented" : "" ) << ( f.lfdelta ? " lf-delta" : "" );
    for ( int i = 0; i < n; i++ ) { Bytes b = gen.frame(); dec.parse_and_decode_frame( chunk( b ) ); ref.decode( b ); }
    enc.reset( new Encoder( dec, two, q ) ); fresh = false; c.tag( "from a decoder state" );
    c.require( enc->minihash() == dec.minihash(), "initial-minihash", log.str() );
  } else enc.reset( new Encoder( w, h, two, q ) );
  Pics pics( g, w, h, far ); int n = 1 + g.draw( frames ); Digest dg; size_t bytes = 0; set<string> kinds;
  for ( int i = 0; i < n; i++ ) {
    pics.next(); pics.add( dg ); RasterHandle pic = pics.raster(); kinds.insert( pics.kind ); log << " " << pics.kind;
    // things that must not disturb
    switch ( g.weighted( { 8, 1, 1, 1, 1 } ) ) {
    case 1: { Encoder e2( *enc ); e2.encode_with_quantizer( pic.get(), g.draw( 128 ) ); log << "(copy encodes)"; break; }
    case 2: { if ( w >= 4 && h >= 4 ) enc->estimate_frame_size( pic.get(), g.draw( 128 ) ); log << "(estimate)"; break; }
    case 3: { unique_ptr<Encoder> e2( new Encoder( move( *enc ) ) ); enc = move( e2 ); log << "(moved)"; break; }
    case 4: { if ( !fresh ) { enc.reset( new Encoder( enc->export_decoder(), two, q ) ); log << "(re-made)"; } else { enc.reset( new Encoder( *enc ) ); log << "(copied)"; } break; }
    default: break;
    }
    Bytes b; int mode = g.weighted( { 6, 2, 1 } ); int qi = g.pick<int>( { 0, 127, -1, -1, -1, 4, 60 } ); if ( qi < 0 ) qi = g.draw( 128 );
    try {
      if ( mode == 0 ) { log << " q" << qi; b = enc->encode_with_quantizer( pic.get(), qi ); }
      else if ( mode == 1 ) { size_t t = g.draw( 2 ) ? 50 + g.draw( 4000 ) : g.draw( 40000 ); log << " size" << t; b = enc->encode_with_target_size( pic.get(), t ); }
      else { double s = 0.5 + g.draw( 51 ) / 100.0; log << " ssim" << s; b = enc->encode_with_minimum_ssim( pic.get(), s ); }
    } catch ( const exception & e ) { c.fail( "encoder-throws", string( e.what() ) + " " + log.str() ); }
    bytes += b.size(); c.require( b.size() > 3, "empty-frame", log.str() ); c.require( !( b[ 0 ] & 1 ) == fresh, "key-frame", log.str() ); fresh = false;
    Bytes x( b ); x.shrink_to_fit(); Optional<RasterHandle> out;
    try { out = dec.parse_and_decode_frame( chunk( x ) ); } catch ( const exception & e ) { c.fail( "alfalfa-refuses", string( e.what() ) + " " + log.str() ); }
    c.require( out.initialized(), "hidden-frame", log.str() );
    Decoder ed = enc->export_decoder(); References er = ed.get_references(), dr = dec.get_references();
    string d = diff( planes( er.last.get(), false ), planes( dr.last.get(), false ) ); c.require( d.empty(), "reconstruction", d + " " + log.str() );
    c.require( ed.get_state() == dec.get_state(), "decoder-state", log.str() ); c.require( ed == dec, "decoder", log.str() ); c.require( enc->minihash() == dec.minihash(), "minihash", log.str() );
    c.require( !ref.decode( x ), "libvpx-refuses", log.str() ); vpxref::Planes p; c.require( ref.shown( p ), "libvpx-hidden", log.str() );
    d = diff( planes( out.get().get(), true ), p ); c.require( d.empty(), "libvpx-picture", d + " " + log.str() );
    const RasterHandle * hs[] = { &er.last, &er.golden, &er.alternative };
    for ( int k = 0; k < 3; k++ ) { vpxref::Planes r; ref.reference( 1 << k, mw, mh, r ); d = diff( planes( hs[ k ]->get(), false ), r ); c.require( d.empty(), "libvpx-reference", d + " " + log.str() ); }
    c.tag( mode == 0 ? "by quantizer" : mode == 1 ? "by target size" : "by minimum ssim" );
  }
  for ( auto & k : kinds ) c.tag( k ); c.tag( "frames", n ); if ( w % 16 || h % 16 ) c.tag( "ragged size" ); c.tag( two ? "two-pass" : "one-pass" ); c.tag( q == REALTIME_QUALITY ? "realtime" : "best" );
  if ( bytes > 40 ) c.nontrivial( dg.h ^ hash<string>()( log.str() ) ); c.sample( log.str() + ", " + to_string( bytes ) + " bytes" );
}

int main( int argc, char ** argv )
{
  vpxref::api();
  vector<pbt::Sub> subs { { "small", []( pbt::Ctx & c ) { session( c, 4, 6 ); }, 24000, 400000 }, { "large", []( pbt::Ctx & c ) { session( c, 10, 5 ); }, 5000, 60000 }, { "long", []( pbt::Ctx & c ) { session( c, 3, 30 ); }, 3000, 40000 }, { "marathon", []( pbt::Ctx & c ) { session( c, 2, 600 ); }, 100, 2000 }, { "far", []( pbt::Ctx & c ) { session( c, 4, 3, true ); }, 3000, 60000 }, { "huge", []( pbt::Ctx & c ) { session( c, 40, 3 ); }, 250, 4000 } };
  return pbt::Runner( "P09", subs ).main( argc, argv );
}
