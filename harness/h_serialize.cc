// P04: parse -> serialize -> parse.
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include "decoder_state.hh"
using namespace std;
using namespace vp8gen;

static string join( const set<string> & s ) { string r; for ( auto & x : s ) r += ( r.empty() ? "" : "," ) + x; return r; }

template <class F> static Bytes again( pbt::Ctx & c, Decoder & d, const Bytes & fr, const string & where )
{
  DecoderState s = d.get_state(), t = s, u = s;
  F f = s.parse_and_apply<F>( d.decompress_frame( chunk( fr ) ) );
  // the tables that hold after the frame (what the tools pass); for an inter frame those before it serve just as well
  Bytes b = f.serialize( s.probability_tables );
  if ( !is_same<F, KeyFrame>::value ) c.require( f.serialize( t.probability_tables ) == b, "tables-before-after", where );
  Bytes exact( b ); exact.shrink_to_fit();
  try {
    F g = u.parse_and_apply<F>( d.decompress_frame( chunk( exact ) ) );
    c.require( f == g, "frame-differs", where ); c.require( g.show_frame() == f.show_frame(), "show-flag", where ); c.require( f.header() == g.header(), "header-differs", where );
    c.require( u == s, "state-differs", where ); c.require( g.serialize( u.probability_tables ) == b, "not-idempotent", where );
  } catch ( const exception & e ) { c.fail( "serialized-refused", string( e.what() ) + " " + where ); }
  return b;
}

static void roundtrip( pbt::Ctx & c, int maxmb, int frames, bool heavy = false )
{
  Src & g = c.g; Features f = Features::draw( g ); int w, h; Gen::draw_size( g, f, w, h, maxmb ); Options o;
  if ( heavy ) { w = g.range( 400, 800 ); h = g.range( 400, 800 ); o.heavy = f.tinyq = f.multipart = f.split = true; o.drift = f.farmv = g.draw( 2 ); }   // partitions whose lengths need three bytes
  Gen gen( g, w, h, f, o );
  Decoder a( w, h ), b( w, h ); vpxref::Decoder ref; int n = 1 + g.draw( frames ); Digest dg; size_t bytes = 0;
  for ( int i = 0; i < n; i++ ) {
    Bytes fr = gen.frame(); dg.add( fr ); string where = "frame " + to_string( i ) + ( gen.key ? " (key) " : " (inter) " ) + to_string( w ) + "x" + to_string( h ) + " " + join( gen.tags );
    Bytes se;
    try { se = gen.key ? again<KeyFrame>( c, a, fr, where ) : again<InterFrame>( c, a, fr, where ); }
    catch ( const pbt::Failure & ) { throw; } catch ( const exception & e ) { c.fail( "serialize-throws", string( e.what() ) + " " + where ); }
    bytes += se.size(); Bytes ex( se ); ex.shrink_to_fit();
    Optional<RasterHandle> x = a.parse_and_decode_frame( chunk( fr ) ), y;
    try { y = b.parse_and_decode_frame( chunk( ex ) ); } catch ( const exception & e ) { c.fail( "serialized-refused", string( e.what() ) + " " + where ); }
    c.require( x.initialized() == y.initialized(), "shown", where );
    if ( x.initialized() ) { string d = diff( planes( y.get().get(), false ), planes( x.get().get(), false ) ); c.require( d.empty(), "pixels", d + " " + where ); }
    c.require( a == b, "decoder-state", where );
    c.require( !ref.decode( ex ), "reference-refuses", where ); vpxref::Planes p; bool s = ref.shown( p );
    if ( s && x.initialized() ) { string d = diff( p, planes( x.get().get(), true ) ); c.require( d.empty(), "reference-pixels", d + " " + where ); }
  }
  for ( auto & t : gen.tags ) c.tag( t ); c.tag( "frames", n );
  if ( gen.coef_blocks && bytes > 60 ) c.nontrivial( dg.h );
  c.sample( to_string( w ) + "x" + to_string( h ) + ", " + to_string( n ) + " frames, " + to_string( bytes ) + " bytes written, " + join( gen.tags ) );
}

int main( int argc, char ** argv )
{
  vpxref::api();
  vector<pbt::Sub> subs { { "small", []( pbt::Ctx & c ) { roundtrip( c, 4, 7 ); }, 20000, 400000 }, { "large", []( pbt::Ctx & c ) { roundtrip( c, 10, 4 ); }, 2500, 50000 },
    { "heavy", []( pbt::Ctx & c ) { roundtrip( c, 1, 2, true ); }, 40, 1000 } };
  return pbt::Runner( "P04", subs ).main( argc, argv );
}
