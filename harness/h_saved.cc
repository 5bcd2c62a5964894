// P08: saving and loading decoder states.
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include "mutate.hh"
#include "enc_state_serializer.hh"
#include "player.hh"
using namespace std;
using namespace vp8gen;
static Bytes slurp( const string & path ) { ifstream f( path, ios::binary ); return Bytes( ( istreambuf_iterator<char>( f ) ), istreambuf_iterator<char>() ); }
static void save( const Decoder & d, const string & path ) { EncoderStateSerializer o; d.serialize( o ); o.write( path ); }

static void resume( pbt::Ctx & c )
{
  Src & g = c.g; Features f = Features::draw( g ); int w, h; Gen::draw_size( g, f, w, h, 4 ); bool plain = g.draw( 2 ); if ( plain ) f.golden = false;
  Gen gen( g, w, h, f ); Decoder a( w, h ); int n = 1 + g.draw( 6 ), m = g.draw( 6 ); Digest dg;
  for ( int i = 0; i < n; i++ ) { Bytes b = gen.frame(); dg.add( b ); a.parse_and_decode_frame( chunk( b ) ); }
  string p1 = c.scratch + "/a.state", p2 = c.scratch + "/b.state", where = to_string( w ) + "x" + to_string( h ) + " after " + to_string( n ) + " frames";
  save( a, p1 ); Bytes x = slurp( p1 );
  Decoder b = EncoderStateDeserializer::build<Decoder>( p1 ); References ra = a.get_references(), rb = b.get_references();
  c.require( b.get_width() == w && b.get_height() == h, "size", where ); c.require( a.get_state() == b.get_state(), "tables", where );
  vpxref::Planes last = planes( ra.last.get(), false );
  for ( const RasterHandle * r : { &rb.last, &rb.golden, &rb.alternative } ) { string d = diff( planes( r->get(), false ), last ); c.require( d.empty(), "pictures", d + " " + where ); }
  References collapsed = ra; collapsed.golden = ra.last; collapsed.alternative = ra.last; Decoder a2( a.get_state(), collapsed );
  c.require( b == a2 && b.get_hash() == a2.get_hash(), "not-the-saved-state", where );
  save( b, p2 ); c.require( slurp( p2 ) == x, "save-load-save", where );
  if ( g.draw( 2 ) ) { FILE * t = fopen( ( c.scratch + "/c.state" ).c_str(), "w+" ); EncoderStateSerializer o; a.serialize( o ); o.write( t ); fclose( t ); c.require( slurp( c.scratch + "/c.state" ) == x, "two-ways-of-writing", where ); }
  // continue: the collapsed original always, the original itself when golden and alternate are not read
  gen.f.golden = gen.f.golden && !g.draw( 2 ); bool exact = !gen.f.golden, keyed = false; unsigned shown = 0; vector<Bytes> cont;
  for ( int i = 0; i < m; i++ ) {
    Bytes k = gen.frame(); cont.push_back( k ); Optional<RasterHandle> u, v, t; string at = where + ", continuation frame " + to_string( i );
    try { u = a2.parse_and_decode_frame( chunk( k ) ); v = b.parse_and_decode_frame( chunk( k ) ); } catch ( const exception & e ) { c.fail( "refused", string( e.what() ) + " " + at ); }
    c.require( u.initialized() == v.initialized(), "shown", at );
    if ( u.initialized() ) { shown++; string d = diff( planes( v.get().get(), false ), planes( u.get().get(), false ) ); c.require( d.empty(), "continuation-pixels", d + " " + at ); }
    c.require( a2 == b, "continuation-state", at );
    t = a.parse_and_decode_frame( chunk( k ) ); if ( gen.key ) exact = true;      // a key frame replaces all three pictures
    if ( exact ) { if ( t.initialized() ) { string d = diff( planes( v.get().get(), false ), planes( t.get().get(), false ) ); c.require( d.empty(), "original-pixels", d + " " + at ); } c.require( a.get_state() == b.get_state(), "original-state", at ); if ( gen.key ) keyed = true; if ( keyed ) c.require( a == b, "original-after-key", at ); }
  }
  c.tag( exact ? "continuation without golden" : "continuation with golden" ); if ( a.get_state().segmentation.initialized() ) c.tag( "segmentation" ); if ( a.get_state().filter_adjustments.initialized() ) c.tag( "filter deltas" );
  c.nontrivial( dg.h ); c.sample( where + ", state of " + to_string( x.size() ) + " bytes, " + to_string( m ) + " frames further" );
}

// a player takes up a state only for a file that asks for it
static void player( pbt::Ctx & c )
{
  Src & g = c.g; Features f = Features::draw( g ); f.golden = false; int w, h; Gen::draw_size( g, f, w, h, 3 ); Options o; o.allow_hidden = false; Gen gen( g, w, h, f, o ); Decoder a( w, h ); int n = 1 + g.draw( 4 ), m = 1 + g.draw( 4 ); Digest dg;
  for ( int i = 0; i < n; i++ ) { Bytes b = gen.frame(); dg.add( b ); a.parse_and_decode_frame( chunk( b ) ); }
  string sp = c.scratch + "/a.state", ip = c.scratch + "/c.ivf"; save( a, sp ); Decoder b = EncoderStateDeserializer::build<Decoder>( sp );
  vector<Bytes> cont; for ( int i = 0; i < m; i++ ) cont.push_back( gen.frame() );
  int kind = g.draw( 5 ); uint32_t mini = b.minihash(); int fw = w, fh = h; bool ok = true; string what = "asks for this state";
  if ( kind == 1 ) { mini = 0; what = "asks for nothing"; }
  if ( kind == 2 ) { mini ^= 1u << g.draw( 32 ); ok = mini == 0; what = "asks for another state"; }
  if ( kind == 3 ) { if ( g.draw( 2 ) ) fw += g.draw( 2 ) ? 1 : -1; else fh += g.draw( 2 ) ? 1 : 16; if ( fw < 1 ) fw = 2; ok = false; what = "another picture size"; if ( g.draw( 2 ) ) mini = 0; }
  Bytes file = ivf_file( fw, fh, cont, 30, 1, mini ); if ( kind == 4 ) { memcpy( &file[ 8 ], g.draw( 2 ) ? "VP90" : "H264", 4 ); ok = false; what = "another codec"; }
  { ofstream t( ip, ios::binary ); t.write( (const char *)file.data(), file.size() ); }
  unsigned got = 0;
  try {
    EncoderStateDeserializer id( sp ); FilePlayer p = FilePlayer::deserialize( id, ip );
    c.require( ok, "accepted", what );
    for ( int i = 0; i < m; i++ ) { c.require( !p.eof(), "early-end", what ); RasterHandle r = p.advance(); RasterHandle q = b.parse_and_decode_frame( chunk( cont[ i ] ) ).get(); string d = diff( planes( r.get(), false ), planes( q.get(), false ) ); c.require( d.empty(), "player-pixels", d ); got++; c.require( p.current_decoder() == b, "player-state", what ); }
    c.require( p.eof(), "late-end", what );
  } catch ( const pbt::Failure & ) { throw; } catch ( const exception & e ) { c.require( !ok, "refused", what + ": " + e.what() ); }
  c.tag( what ); c.nontrivial( dg.h ^ kind ); c.sample( what + ": " + ( ok ? "played " + to_string( got ) : "refused" ) );
}

int main( int argc, char ** argv )
{
  vpxref::api();
  vector<pbt::Sub> subs { { "resume", resume, 20000, 400000 }, { "player", player, 8000, 100000 } };
  return pbt::Runner( "P08", subs ).main( argc, argv );
}
