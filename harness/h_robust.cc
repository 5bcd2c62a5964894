// P02: malformed frames, IVF files, states and raw video are refused or decoded; memory safety by AddressSanitizer.
#include "memcap.hh"
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include "mutate.hh"
#include "ivf.hh"
#include "enc_state_serializer.hh"
#include "yuv4mpeg.hh"
#include "ivf_reader.hh"
using namespace std;
using namespace vp8gen;

static void spit( const string & path, const Bytes & b ) { ofstream f( path, ios::binary ); f.write( (const char *)b.data(), b.size() ); }
static Bytes slurp( const string & path ) { ifstream f( path, ios::binary ); return Bytes( ( istreambuf_iterator<char>( f ) ), istreambuf_iterator<char>() ); }

struct Stream { int w, h; vector<Bytes> fr; vector<int> first; set<string> tags; };
static Stream stream( Src & g, int maxmb, int maxframes )
{
  Stream s; Features f = Features::draw( g ); Gen::draw_size( g, f, s.w, s.h, maxmb );
  Gen gen( g, s.w, s.h, f, Options() ); int n = 1 + g.draw( maxframes );
  for ( int i = 0; i < n; i++ ) { s.fr.push_back( gen.frame() ); s.first.push_back( gen.first_partition_offset + gen.first_partition_size ); }
  s.tags = gen.tags; return s;
}

// memory for a w x h picture chain plus n input bytes
static size_t allowance( size_t w, size_t h, size_t n ) { return ( 24u << 20 ) + 120 * ( w + 128 ) * ( h + 128 ) + 64 * n; }

// the same valid stream in a fresh decoder still decodes to what libvpx says
static void still_good( pbt::Ctx & c, const Stream & s )
{
  Decoder d( s.w, s.h ); vpxref::Decoder ref;
  for ( size_t i = 0; i < s.fr.size(); i++ ) {
    ref.decode( s.fr[ i ] ); vpxref::Planes p; bool shown = ref.shown( p );
    try { auto o = d.parse_and_decode_frame( chunk( s.fr[ i ] ) ); if ( shown && o.initialized() ) { string df = diff( planes( o.get().get(), true ), p ); c.require( df.empty(), "valid-stream-after-refusal", df ); } }
    catch ( const exception & e ) { c.fail( "valid-stream-refused-after", e.what() ); }
  }
}

template <class F> static bool guarded( pbt::Ctx & c, size_t cap, const string & what, F f )
{
  memcap::arm( cap ); bool ok = true;
  try { f(); memcap::disarm(); } catch ( const exception & e ) { memcap::disarm(); ok = false; if ( memcap::tripped ) c.fail( what + ":memory", e.what() ); }
  return ok;
}

static void frames( pbt::Ctx & c, bool conceal )
{
  Src & g = c.g; Stream s = stream( g, 4, 6 ), t = s; unsigned ok = 0, bad = 0; Digest dg;
  bool mutated = false;
  for ( size_t i = 0; i < t.fr.size(); i++ ) {
    if ( g.chance( 1, 2 ) || ( !mutated && i + 1 == t.fr.size() ) ) { const Bytes & o = s.fr[ g.draw( s.fr.size() ) ]; mutate( g, t.fr[ i ], g.draw( 3 ) ? s.first[ i ] : 12, &o ); mutated = true; }
    if ( g.chance( 1, 12 ) ) { Bytes n( g.draw( 400 ) ); Prng r( g.seed() ); for ( auto & x : n ) x = r.next(); if ( n.size() > 10 && g.draw( 2 ) ) copy( s.fr[ 0 ].begin(), s.fr[ 0 ].begin() + min<size_t>( 10, s.fr[ 0 ].size() ), n.begin() ); t.fr[ i ] = n; }
    dg.add( t.fr[ i ] );
  }
  Decoder d( s.w, s.h ); d.set_error_concealment( conceal );
  // exact-size heap copies so that reads past the end are seen
  for ( auto & f : t.fr ) { Bytes copy( f ); copy.shrink_to_fit();
    if ( guarded( c, allowance( s.w, s.h, f.size() ), "frame", [&] { auto o = d.parse_and_decode_frame( chunk( copy ) ); if ( o.initialized() ) planes( o.get().get(), true ); } ) ) ok++; else bad++; }
  guarded( c, allowance( s.w, s.h, 0 ), "hash", [&] { d.get_hash(); } );
  if ( g.chance( 1, 4 ) ) still_good( c, s );
  c.tag( "frames decoded", ok ); c.tag( "frames refused", bad );
  if ( mutated ) c.nontrivial( dg.h );
  c.sample( to_string( s.w ) + "x" + to_string( s.h ) + ", " + to_string( t.fr.size() ) + " frames, " + to_string( ok ) + " decoded, " + to_string( bad ) + " refused" );
}

static void ivf( pbt::Ctx & c )
{
  Src & g = c.g; Stream s = stream( g, 3, 5 );
  Bytes b = ivf_file( s.w, s.h, s.fr ); 
  if ( g.chance( 1, 3 ) ) { Bytes o = ivf_file( s.w, s.h, s.fr ); mutate( g, b, 44, &o ); }
  else if ( g.chance( 1, 2 ) ) mutate( g, b, 32 );
  else if ( g.chance( 1, 8 ) ) b.resize( g.draw( min<size_t>( b.size(), 60 ) ) );
  else { size_t at = 32; for ( unsigned k = g.draw( s.fr.size() ); k && at + 4 < b.size(); k-- ) at += 12 + ( b[ at ] | b[ at + 1 ] << 8 | b[ at + 2 ] << 16 ); for ( int i = 0; i < 4 && at + i < b.size(); i++ ) if ( g.draw( 2 ) ) b[ at + i ] = g.pick<int>( { 0, 255, 128, 1 } ); }
  if ( b.size() > 16 ) { b[ 13 ] &= 0x07; b[ 15 ] &= 0x07; }        // the picture sizes stated stay below 2048
  string path = c.scratch + "/f.ivf"; spit( path, b );
  size_t w = b.size() > 16 ? b[ 12 ] | b[ 13 ] << 8 : 0, h = b.size() > 16 ? b[ 14 ] | b[ 15 ] << 8 : 0; unsigned n = 0;
  bool opened = guarded( c, allowance( 0, 0, b.size() ), "ivf-index", [&] {
    IVF f( path ); size_t tot = 0; for ( unsigned i = 0; i < f.frame_count(); i++ ) { Chunk k = f.frame( i ); for ( size_t j = 0; j < k.size(); j++ ) tot += k.buffer()[ j ]; } if ( tot == 1 ) c.tag( "one" ); } );
  bool played = guarded( c, allowance( w, h, b.size() ), "ivf-play", [&] { FilePlayer p( path ); while ( !p.eof() ) { RasterHandle r = p.advance(); n++; if ( n > 40 ) break; } } );
  c.tag( opened ? "index read" : "index refused" ); c.tag( played ? "played" : "refused" ); c.tag( "pictures", n );
  Digest dg; dg.add( b ); c.nontrivial( dg.h );
  c.sample( "IVF of " + to_string( b.size() ) + " bytes, " + ( opened ? "opened" : "refused" ) + ", " + to_string( n ) + " pictures" );
}

static void state( pbt::Ctx & c )
{
  Src & g = c.g; Stream s = stream( g, 3, 6 ); size_t cut = g.draw( s.fr.size() );
  string path = c.scratch + "/s.state";
  { Decoder d( s.w, s.h ); for ( size_t i = 0; i <= cut; i++ ) d.parse_and_decode_frame( chunk( s.fr[ i ] ) ); EncoderStateSerializer o; d.serialize( o ); o.write( path ); }
  Bytes b = slurp( path );
  if ( !g.chance( 1, 20 ) ) {
    switch ( g.draw( 4 ) ) {
    case 0: mutate( g, b, 1400 ); break;
    case 1: mutate( g, b, 24 ); break;
    case 2: { // a length, tag or size field somewhere near the structure of the file
      size_t at = g.draw( 3 ) == 0 ? g.draw( 30 ) : 1050 + g.draw( 200 ); for ( unsigned k = 1 + g.draw( 4 ); k--; at++ ) if ( at < b.size() ) b[ at ] = g.draw( 2 ) ? g.draw( 13 ) : g.draw( 256 ); break; }
    case 3: { // swap in another picture size
      for ( size_t at = 0; at + 4 <= b.size(); at++ ) if ( b[ at ] == ( s.w & 255 ) && b[ at + 1 ] == s.w >> 8 && b[ at + 2 ] == ( s.h & 255 ) && b[ at + 3 ] == s.h >> 8 && g.draw( 2 ) ) { int k = g.draw( 2 ) * 2; b[ at + k ] = g.draw( 256 ); b[ at + k + 1 ] = g.draw( 2 ); } break; }
    }
  }
  spit( path, b );
  unsigned ok = 0, bad = 0; bool loaded = false; Digest dg; dg.add( b );
  // the sizes a state may name are bounded by 16 bits each; bound the picture memory by what the file names
  size_t w = b.size() > 12 ? b[ 10 ] | b[ 11 ] << 8 : 0, h = b.size() > 13 ? b[ 12 ] | b[ 13 ] << 8 : 0;
  if ( w * h > 4000000 ) return;
  guarded( c, allowance( w, h, b.size() ), "state", [&] {
    Decoder d = EncoderStateDeserializer::build<Decoder>( path ); loaded = true;
    for ( size_t i = cut + 1; i < s.fr.size(); i++ ) { try { d.parse_and_decode_frame( chunk( s.fr[ i ] ) ); ok++; } catch ( const exception & ) { bad++; } }
    d.get_hash(); Decoder e = d; if ( !( e == d ) ) c.fail( "copy-unequal", "" );
    EncoderStateSerializer o; d.serialize( o );
  } );
  c.tag( loaded ? "loaded" : "refused" ); c.tag( "frames decoded", ok ); c.tag( "frames refused", bad );
  c.nontrivial( dg.h ); c.sample( "state of " + to_string( b.size() ) + " bytes, " + ( loaded ? "loaded" : "refused" ) );
}

static void y4m( pbt::Ctx & c )
{
  Src & g = c.g; int w = 1 + g.draw( 40 ), h = 1 + g.draw( 40 ); unsigned n = g.draw( 4 );
  auto num = [&]( int v ) -> string { switch ( g.draw( 12 ) ) { case 0: return ""; case 1: return "-1"; case 2: return "0"; case 3: return "70000"; case 4: return "99999999999999999999"; case 5: return "12x"; case 6: return to_string( g.draw( 600 ) ); default: return to_string( v ); } };
  bool wild = g.draw( 2 ); auto N = [&]( int v ) { return wild ? num( v ) : to_string( v ); };
  string hd = "YUV4MPEG2 W" + N( w ) + " H" + N( h ) + " F" + N( 30 ) + ":" + N( 1 ) + " I" + g.pick<const char *>( { "p", "t", "b", "m", "" , "?" } ) + " A" + N( 1 ) + ":" + N( 1 ) + " C" + g.pick<const char *>( { "420", "420jpeg", "420paldv", "422", "" } ) + "\n";
  Bytes b( hd.begin(), hd.end() );
  for ( unsigned i = 0; i < n; i++ ) { string f = "FRAME\n"; b.insert( b.end(), f.begin(), f.end() ); b.resize( b.size() + w * h + 2 * ( ( w + 1 ) / 2 ) * ( ( h + 1 ) / 2 ), i * 7 ); }
  if ( g.draw( 3 ) ) mutate( g, b, hd.size() + 6 );
  string path = c.scratch + "/f.y4m"; spit( path, b ); unsigned got = 0; bool opened = false;
  guarded( c, ( 700u << 20 ), "y4m", [&] {
    YUV4MPEGReader r( path ); opened = true;
    if ( (size_t)r.display_width() * r.display_height() > 3000000 ) return;
    for ( int i = 0; i < 8; i++ ) { auto o = r.get_next_frame(); if ( !o.initialized() ) break; planes( o.get().get(), true ); got++; } } );
  c.tag( opened ? "opened" : "refused" ); c.tag( "pictures", got ); Digest dg; dg.add( b ); c.nontrivial( dg.h );
  c.sample( hd.substr( 0, hd.size() - 1 ) + " -> " + ( opened ? to_string( got ) + " pictures" : "refused" ) );
}

int main( int argc, char ** argv )
{
  vpxref::api();
  vector<pbt::Sub> subs {
    { "frames", []( pbt::Ctx & c ) { frames( c, false ); }, 8000, 400000 },
    { "frames-concealed", []( pbt::Ctx & c ) { frames( c, true ); }, 4500, 200000 },
    { "ivf", ivf, 4000, 100000 },
    { "state", state, 4000, 100000 },
    { "y4m", y4m, 3000, 60000 },
  };
  return pbt::Runner( "P02", subs ).main( argc, argv );
}
