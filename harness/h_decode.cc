#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
using namespace std;
using namespace vp8gen;

static string join( const set<string> & s ) { string r; for ( auto & x : s ) r += ( r.empty() ? "" : "," ) + x; return r; }

// for demonstrations: write the stream as an IVF file
static void dump( const Bytes & fr, int w, int h, int i )
{
  const char * path = getenv( "VP_DUMP" ); if ( !path ) return;
  auto le = []( uint64_t v, int n ) { string s; for ( int k = 0; k < n; k++ ) s += char( v >> ( 8 * k ) ); return s; };
  static string all; if ( i == 0 ) all.clear();
  all += le( fr.size(), 4 ) + le( i, 8 ) + string( fr.begin(), fr.end() );
  ofstream f( path ); f << "DKIF" << le( 0, 2 ) << le( 32, 2 ) << "VP80" << le( w, 2 ) << le( h, 2 ) << le( 30, 4 ) << le( 1, 4 ) << le( i + 1, 4 ) << le( 0, 4 ) << all;
}

// every generated valid stream decodes to the pixels of the reference decoder
static void conformance( pbt::Ctx & c, int maxmb, int maxframes, bool pause = false, bool wide = false, bool heavy = false )
{
  Features f = Features::draw( c.g );
  int w, h; Gen::draw_size( c.g, f, w, h, maxmb );
  if ( wide ) { int l = c.g.range( 300, 4080 ), s = 1 + c.g.draw( 32 ); w = l; h = s; if ( c.g.draw( 2 ) ) swap( w, h ); }
  int n = 1 + c.g.draw( maxframes );
  Options o; o.toggle = pause; if ( wide ) { o.drift = c.g.draw( 4 ); f.farmv = true; }
  if ( heavy ) { w = c.g.range( 400, 800 ); h = c.g.range( 400, 800 ); o.heavy = f.tinyq = f.multipart = f.split = true; o.drift = f.farmv = c.g.draw( 2 ); }   // partitions whose lengths need three bytes
  if ( pause ) { f.seg = f.seg_keep = f.seg_nomap = f.lfdelta = true; f.seg_persist = false; }
  Gen gen( c.g, w, h, f, o );
  Decoder dec( w, h );
  vpxref::Decoder ref;
  Digest dg; size_t bytes = 0; int shown = 0;
  ostringstream desc; desc << w << "x" << h << " frames:";
  for ( int i = 0; i < n; i++ ) {
    Bytes fr = gen.frame();
    dump( fr, w, h, i );
    dg.add( fr ); bytes += fr.size();
    desc << " " << ( gen.key ? "K" : "P" ) << ( gen.last_shown ? "" : "h" ) << fr.size();
    auto where = [&]() { return "frame " + to_string( i ) + " of " + desc.str() + " features " + join( gen.tags ); };
    if ( ref.decode( fr ) ) { c.tag( "(libvpx rejects)" ); c.fail( "generator:reference-rejects", where() ); }
    Optional<RasterHandle> out;
    try { out = dec.parse_and_decode_frame( chunk( fr ) ); }
    catch ( const exception & e ) { c.fail( "valid-frame-rejected", string( e.what() ) + "; " + where() ); }
    vpxref::Planes p; bool s = ref.shown( p );
    c.require( out.initialized() == gen.last_shown, "show-flag", where() );
    if ( s && out.initialized() ) { shown++; string d = diff( planes( out.get().get(), true ), p ); c.require( d.empty(), "shown-pixels", d + "; " + where() ); }
    References r = dec.get_references();
    const RasterHandle * hs[] = { &r.last, &r.golden, &r.alternative }; const char * nm[] = { "last", "golden", "alternate" };
    for ( int k = 0; k < 3; k++ ) {
      vpxref::Planes q; if ( !ref.reference( 1 << k, gen.mbw * 16, gen.mbh * 16, q ) ) { c.fail( "generator:no-reference", where() ); }
      string d = diff( planes( hs[ k ]->get(), false ), q );
      c.require( d.empty(), string( "reference-" ) + nm[ k ], d + "; " + where() );
    }
  }
  for ( auto & t : gen.tags ) c.tag( t );
  c.tag( "frames", n ); c.tag( "shown", shown ); c.tag( "inter-mb", gen.inter_mbs ); c.tag( "coef-blocks", gen.coef_blocks );
  if ( gen.coef_blocks && bytes > 60 ) c.nontrivial( dg.h );
  c.sample( desc.str() + " features " + join( gen.tags ) );
}

int main( int argc, char ** argv )
{
  vpxref::api();
  vector<pbt::Sub> subs {
    { "small", []( pbt::Ctx & c ) { conformance( c, 5, 8 ); }, 30000, 600000 },
    { "large", []( pbt::Ctx & c ) { conformance( c, 12, 6 ); }, 3000, 60000 },
    { "long", []( pbt::Ctx & c ) { conformance( c, 3, 40 ); }, 2000, 40000 },
    { "marathon", []( pbt::Ctx & c ) { conformance( c, 2, 700 ); }, 200, 4000 },
    { "pause", []( pbt::Ctx & c ) { conformance( c, 3, 10, true ); }, 2000, 40000 },
    { "wide", []( pbt::Ctx & c ) { conformance( c, 3, 4, false, true ); }, 1000, 20000 },
    { "heavy", []( pbt::Ctx & c ) { conformance( c, 1, 3, false, false, true ); }, 60, 1500 },
  };
  return pbt::Runner( "P01", subs ).main( argc, argv );
}
