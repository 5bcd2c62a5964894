// P03: truncated frames under error concealment.
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include <malloc.h>
using namespace std;
using namespace vp8gen;

struct Fr { Bytes b; bool key, shown; size_t fp_off, fp_size; vector<size_t> mb_start, part_len; };
static Fr take( Gen & gen, bool force_key = false )
{
  Fr f; f.b = gen.frame( force_key ); f.key = gen.key; f.shown = gen.last_shown; f.fp_off = gen.first_partition_offset; f.fp_size = gen.first_partition_size; f.mb_start = gen.mb_start; f.part_len = gen.part_len; return f;
}
static string at( size_t i, const Fr & f, size_t k, int w, int h )
{ return "frame " + to_string( i ) + ( f.key ? " (key)" : " (inter)" ) + " " + to_string( w ) + "x" + to_string( h ) + ", " + to_string( k ) + " of " + to_string( f.b.size() ) + " bytes, first partition [" + to_string( f.fp_off ) + "," + to_string( f.fp_off + f.fp_size ) + "), " + to_string( f.part_len.size() ) + " residual partitions"; }

// the frame header has arrived (the writer may hold back up to four bytes, the reader reads two ahead)
static size_t least( const Fr & f ) { return min( f.b.size() - 1, f.fp_off + f.mb_start[ 0 ] + 6 ); }

// where to cut: anywhere, or near the places where the structure changes
static size_t cut( Src & g, const Fr & f )
{
  size_t n = f.b.size(), k;
  switch ( g.draw( 5 ) ) {
  case 0: k = least( f ) + g.draw( 8 ); break;
  case 1: k = f.fp_off + g.draw( f.fp_size + 1 ); break;
  case 2: k = f.fp_off + f.fp_size + g.draw( 3 * f.part_len.size() + 6 ) - 3; break;
  case 3: k = n - 1 - g.draw( min<size_t>( n - 1, 6 ) ); break;
  default: k = 1 + g.draw( n - 1 );
  }
  return max( least( f ), min( k, n - 1 ) );
}

static void dims( pbt::Ctx & c, const Optional<RasterHandle> & o, int w, int h, const string & where )
{
  c.require( o.get().get().display_width() == w && o.get().get().display_height() == h && o.get().get().Y().width() == (unsigned)( w + 15 ) / 16 * 16 && o.get().get().U().height() == (unsigned)( h + 15 ) / 16 * 8, "picture-size", where );
}

// complete frames: concealment on and off agree in pixels and state
static void intact( pbt::Ctx & c )
{
  Src & g = c.g; Features f = Features::draw( g ); int w, h; Gen::draw_size( g, f, w, h, 4 ); Gen gen( g, w, h, f );
  Decoder a( w, h ), b( w, h ); b.set_error_concealment( true ); Digest dg; int n = 1 + g.draw( 8 );
  for ( int i = 0; i < n; i++ ) {
    Fr fr = take( gen ); dg.add( fr.b ); string where = at( i, fr, fr.b.size(), w, h );
    Optional<RasterHandle> x, y; bool threw = false;
    try { x = a.parse_and_decode_frame( chunk( fr.b ) ); } catch ( const exception & ) { threw = true; }
    if ( threw ) { c.tag( "refused without concealment" ); return; }
    try { y = b.parse_and_decode_frame( chunk( fr.b ) ); } catch ( const exception & e ) { c.fail( "intact-refused", string( e.what() ) + " " + where ); }
    c.require( x.initialized() == y.initialized(), "intact-shown", where );
    if ( x.initialized() ) { string d = diff( planes( y.get().get(), false ), planes( x.get().get(), false ) ); c.require( d.empty(), "intact-pixels", d + " " + where ); }
    c.require( a == b && a.get_hash() == b.get_hash(), "intact-state", where );
  }
  c.tag( "frames", n ); if ( gen.coef_blocks ) c.nontrivial( dg.h );
  c.sample( to_string( w ) + "x" + to_string( h ) + ", " + to_string( n ) + " complete frames" );
}

// histories of complete and cut frames: always a picture, and a complete key frame brings everything back
static void history( pbt::Ctx & c )
{
  Src & g = c.g; Features f = Features::draw( g ); f.altkey = f.altkey || g.draw( 2 ); int w, h; Gen::draw_size( g, f, w, h, 4 ); Gen gen( g, w, h, f );
  Decoder good( w, h ), dec( w, h ); dec.set_error_concealment( true ); bool clean = true; unsigned damaged = 0, resync = 0; Digest dg; int n = 2 + g.draw( 10 );
  for ( int i = 0; i < n; i++ ) {
    Fr fr = take( gen, i > 1 && g.chance( 1, 7 ) );
    Optional<RasterHandle> x, y;
    try { x = good.parse_and_decode_frame( chunk( fr.b ) ); } catch ( const exception & ) { c.tag( "refused complete" ); return; }
    bool damage = i > 0 && g.chance( 2, 5 ); size_t k = damage ? cut( g, fr ) : fr.b.size(); Bytes b( fr.b.begin(), fr.b.begin() + k ); b.shrink_to_fit();
    string where = at( i, fr, k, w, h ); dg.add( b );
    try { y = dec.parse_and_decode_frame( chunk( b ) ); } catch ( const exception & e ) { c.fail( damage ? "damaged-frame-refused" : "frame-after-damage-refused", string( e.what() ) + ": " + where ); }
    c.require( y.initialized() == fr.shown, "no-picture", where );
    if ( y.initialized() ) dims( c, y, w, h, where );
    if ( damage ) { clean = false; damaged++; } else if ( fr.key && !clean ) { clean = true; resync++; }
    if ( clean ) {
      if ( y.initialized() ) { string d = diff( planes( y.get().get(), false ), planes( x.get().get(), false ) ); c.require( d.empty(), "pixels-after-key", d + " " + where ); }
      c.require( dec == good, "state-after-key", where );
    }
  }
  c.tag( "frames", n ); c.tag( "damaged", damaged ); c.tag( "resynchronised", resync );
  if ( damaged ) c.nontrivial( dg.h );
  c.sample( to_string( w ) + "x" + to_string( h ) + ", " + to_string( n ) + " frames, " + to_string( damaged ) + " cut, " + to_string( resync ) + " resynchronised" );
}

// macroblocks of an inter frame whose headers did not arrive repeat the previous picture
static void lost( pbt::Ctx & c )
{
  Src & g = c.g; Features f = Features::draw( g ); int w, h; Gen::draw_size( g, f, w, h, 9 ); Options o; o.no_filter = true; o.allow_hidden = false; Gen gen( g, w, h, f, o );
  Decoder dec( w, h ); dec.set_error_concealment( true ); Digest dg; int n = 1 + g.draw( 5 );
  for ( int i = 0; i < n; i++ ) { Fr fr = take( gen ); dec.parse_and_decode_frame( chunk( fr.b ) ); dg.add( fr.b ); }
  Fr fr = take( gen ); if ( fr.key ) return;
  size_t k = least( fr ), room = fr.fp_off + fr.fp_size; if ( k >= room ) return; k += g.draw( room - k ); Bytes b( fr.b.begin(), fr.b.begin() + k ); b.shrink_to_fit(); dg.add( b );
  string where = at( n, fr, k, w, h ); vpxref::Planes last = planes( dec.get_references().last.get(), false ); Decoder before( dec );
  Optional<RasterHandle> y;
  try { y = dec.parse_and_decode_frame( chunk( b ) ); } catch ( const exception & e ) { c.fail( "damaged-frame-refused", string( e.what() ) + ": " + where ); }
  c.require( y.initialized(), "no-picture", where ); dims( c, y, w, h, where );
  vpxref::Planes got = planes( y.get().get(), false ); unsigned gone = 0;
  // the macroblock at which the data ends, too, comes out the same whatever memory held before
  mallopt( M_PERTURB, 0xff ); Optional<RasterHandle> y2 = before.parse_and_decode_frame( chunk( b ) ); mallopt( M_PERTURB, 0x5a ); { string d = y2.initialized() ? diff( planes( y2.get().get(), false ), got ) : "no picture"; c.require( d.empty() && before == dec, "same-frame-twice", d + "; " + where ); }
  for ( size_t m = 0; m < fr.mb_start.size(); m++ ) {
    // the writer may hold back up to four bytes, the reader reads two ahead
    if ( fr.mb_start[ m ] < k - fr.fp_off + 4 ) continue;
    gone++; unsigned r = m / gen.mbw, cc = m % gen.mbw;
    auto same = [&]( const Bytes & x, const Bytes & y, unsigned wd, unsigned s ) { for ( unsigned j = 0; j < s; j++ ) for ( unsigned i = 0; i < s; i++ ) if ( x[ ( r * s + j ) * wd + cc * s + i ] != y[ ( r * s + j ) * wd + cc * s + i ] ) return false; return true; };
    c.require( same( got.y, last.y, last.w, 16 ) && same( got.u, last.u, last.w / 2, 8 ) && same( got.v, last.v, last.w / 2, 8 ), "lost-macroblock", "macroblock " + to_string( m ) + " is not the previous picture's; " + where );
  }
  c.tag( "macroblocks", fr.mb_start.size() ); c.tag( "lost macroblocks", gone );
  if ( gone ) c.nontrivial( dg.h );
  c.sample( where + ": " + to_string( gone ) + " macroblocks lost" );
}

// residual data that did not arrive counts as zero bits: the decoder given the zero-filled complete frame agrees
static void residue( pbt::Ctx & c )
{
  Src & g = c.g; Features f = Features::draw( g ); int w, h; Gen::draw_size( g, f, w, h, 5 ); Gen gen( g, w, h, f );
  Decoder dec( w, h ); dec.set_error_concealment( true ); Decoder ref( w, h ); Digest dg; int n = g.draw( 5 );
  for ( int i = 0; i < n; i++ ) { Fr fr = take( gen ); dec.parse_and_decode_frame( chunk( fr.b ) ); ref.parse_and_decode_frame( chunk( fr.b ) ); dg.add( fr.b ); }
  Fr fr = take( gen ); size_t base = fr.fp_off + fr.fp_size; if ( fr.b.size() <= base + 1 ) return;
  size_t k = base + 1 + g.draw( fr.b.size() - base - 1 ); Bytes b( fr.b.begin(), fr.b.begin() + k ); b.shrink_to_fit(); dg.add( b );
  string where = at( n, fr, k, w, h );
  // the zero-filled equivalent
  Bytes e( fr.b.begin(), fr.b.begin() + base ); size_t np = fr.part_len.size(), table = 3 * ( np - 1 ); vector<Bytes> ps( np );
  if ( k >= base + table ) { size_t pos = base + table; for ( size_t i = 0; i < np; i++ ) { size_t end = pos + fr.part_len[ i ]; ps[ i ].assign( fr.b.begin() + min( pos, k ), fr.b.begin() + min( end, k ) ); pos = end; } }
  for ( size_t i = 0; i < np; i++ ) ps[ i ].resize( max<size_t>( fr.part_len[ i ], 4 ) + 16, 0 );
  for ( size_t i = 0; i + 1 < np; i++ ) for ( int s = 0; s < 24; s += 8 ) e.push_back( ps[ i ].size() >> s );
  for ( auto & p : ps ) e.insert( e.end(), p.begin(), p.end() );
  Optional<RasterHandle> y;
  try { y = dec.parse_and_decode_frame( chunk( b ) ); } catch ( const exception & x ) { c.fail( "damaged-frame-refused", string( x.what() ) + ": " + where ); }
  c.require( y.initialized() == fr.shown, "no-picture", where );
  Optional<RasterHandle> z;
  try { z = ref.parse_and_decode_frame( chunk( e ) ); } catch ( const exception & x ) { c.tag( "(zero-filled frame refused)" ); return; }
  c.tag( fr.key ? "key" : "inter" ); if ( np > 1 ) c.tag( "several partitions" );
  if ( k < base + table ) c.tag( "cut in partition table" );
  c.require( z.initialized() == y.initialized(), "no-picture", where );
  if ( z.initialized() ) { string d = diff( planes( y.get().get(), false ), planes( z.get().get(), false ) ); c.require( d.empty(), "cut-residue-pixels", d + "; " + where ); }
  c.require( dec == ref, "cut-residue-state", where ); c.nontrivial( dg.h );
  c.sample( where );
}

int main( int argc, char ** argv )
{
  vpxref::api();
  vector<pbt::Sub> subs { { "intact", intact, 20000, 200000 }, { "history", history, 40000, 300000 }, { "lost", lost, 24000, 200000 }, { "residue", residue, 24000, 200000 } };
  return pbt::Runner( "P03", subs ).main( argc, argv );
}
