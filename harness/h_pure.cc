// P06: decoding is a function of state and bytes; copies and pictures are independent.
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include "encoder.hh"
#include <memory>
#include <malloc.h>
using namespace std;
using namespace vp8gen;

struct Step { Bytes b; bool shown; vpxref::Planes pic; vpxref::Planes ref[ 3 ]; bool has_pic = false; };
struct Strm { vector<Step> s; };

static Strm make( Src & g, int w, int h, const Features & f, int n )
{
  Strm st; Gen gen( g, w, h, f ); vpxref::Decoder ref;
  for ( int i = 0; i < n; i++ ) { Step x; x.b = gen.frame(); x.shown = gen.last_shown; ref.decode( x.b ); x.has_pic = ref.shown( x.pic ); for ( int k = 0; k < 3; k++ ) ref.reference( 1 << k, gen.mbw * 16, gen.mbh * 16, x.ref[ k ] ); st.s.push_back( move( x ) ); }
  return st;
}
struct Slot { unique_ptr<Decoder> d; int stream = -1, pos = 0; };      // pos frames of that stream decoded
struct Held { RasterHandle r; vpxref::Planes want; string what; };

static void history( pbt::Ctx & c )
{
  Src & g = c.g; Features f = Features::draw( g ); int w, h; Gen::draw_size( g, f, w, h, 3 );
  vector<Strm> st; int ns = 1 + g.draw( 3 ); for ( int i = 0; i < ns; i++ ) { Features ff = Features::draw( g ); st.push_back( make( g, w, h, ff, 1 + g.draw( 7 ) ) ); }
  vector<Slot> sl; vector<Held> held; ostringstream log; unsigned decodes = 0, copies = 0, drops = 0; unique_ptr<Encoder> enc; Digest dg; for ( auto & s : st ) for ( auto & x : s.s ) dg.add( x.b );
  const Decoder fresh( w, h ); const uint32_t first = fresh.minihash(); const vpxref::Planes blank = planes( fresh.get_references().last.get(), false );
  auto check_blank = [&]( const Decoder & d ) { References r = d.get_references(); const RasterHandle * hs[] = { &r.last, &r.golden, &r.alternative }; for ( auto x : hs ) { vpxref::Planes p = planes( x->get(), false ); c.require( p.y == blank.y && p.u == blank.u && p.v == blank.v, "new-decoder-pictures", log.str() ); } };
  auto check_refs = [&]( Slot & s, const string & when ) {
    if ( s.stream < 0 ) check_blank( *s.d ); if ( s.stream < 0 || !s.pos ) return; const Step & x = st[ s.stream ].s[ s.pos - 1 ]; References r = s.d->get_references(); const RasterHandle * hs[] = { &r.last, &r.golden, &r.alternative };
    for ( int k = 0; k < 3; k++ ) { string d = diff( planes( hs[ k ]->get(), false ), x.ref[ k ] ); c.require( d.empty(), "reference-pictures", d + " " + when + ": " + log.str() ); } };
  auto hold = [&]( const RasterHandle & r, const string & what ) { held.push_back( { r, planes( r.get(), false ), what } ); };
  // a new decoder starts with blank pictures, whatever the process did before
  int ops = 4 + g.draw( 40 );
  for ( int op = 0; op < ops; op++ ) {
    unsigned kind = g.weighted( { 14, 3, 3, 2, 1, 2, 1, 1, 1 } );
    if ( sl.empty() || ( sl.size() < 6 && g.chance( 1, 16 ) ) ) { sl.emplace_back(); sl.back().d.reset( new Decoder( w, h ) ); log << " new"; c.require( sl.back().d->minihash() == first, "new-decoder-state", log.str() ); check_blank( *sl.back().d ); continue; }
    size_t i = g.draw( sl.size() ); Slot & s = sl[ i ];
    switch ( kind ) {
    case 0: {
      if ( s.stream < 0 || s.pos >= (int)st[ s.stream ].s.size() || g.chance( 1, 12 ) ) { s.stream = g.draw( ns ); s.pos = 0; }
      const Step & x = st[ s.stream ].s[ s.pos ]; log << " " << i << ":dec(" << s.stream << "." << s.pos << ")"; Bytes b( x.b ); b.shrink_to_fit();
      Optional<RasterHandle> o; bool direct = g.chance( 1, 3 );
      try { if ( direct ) { auto p = s.d->get_frame_output( chunk( b ) ); if ( p.first ) o.initialize( p.second ); c.require( p.first == x.shown, "shown", log.str() ); } else o = s.d->parse_and_decode_frame( chunk( b ) ); } catch ( const exception & e ) { c.fail( "refused", string( e.what() ) + log.str() ); }
      fill( b.begin(), b.end(), 0xaa );      // the frame's bytes are not needed any more
      s.pos++; decodes++; c.require( o.initialized() == x.shown, "shown", log.str() );
      if ( o.initialized() && x.has_pic ) { string d = diff( planes( o.get().get(), true ), x.pic ); c.require( d.empty(), "picture", d + log.str() ); if ( g.chance( 1, 3 ) ) hold( o.get(), "picture" ); }
      check_refs( s, "after decoding" ); break; }
    case 1: if ( sl.size() < 6 ) { Slot n; n.d.reset( new Decoder( *s.d ) ); n.stream = s.stream; n.pos = s.pos; log << " copy" << i; c.require( *n.d == *s.d, "copy-unequal", log.str() ); sl.push_back( move( n ) ); copies++; } break;
    case 2: if ( g.draw( 2 ) || sl.size() > 4 ) { log << " drop" << i; sl.erase( sl.begin() + i ); drops++; } break;
    case 3: { size_t j = g.draw( sl.size() ); log << " " << j << "=" << i; *sl[ j ].d = *s.d; sl[ j ].stream = s.stream; sl[ j ].pos = s.pos; copies++; break; }
    case 4: { log << " move" << i; unique_ptr<Decoder> d( new Decoder( move( *s.d ) ) ); s.d = move( d ); break; }
    case 5: { log << " hold-refs" << i; if ( s.stream >= 0 && s.pos ) { References r = s.d->get_references(); hold( r.last, "last" ); hold( r.golden, "golden" ); hold( r.alternative, "alternate" ); } break; }
    case 6: { log << " junk"; MutableRasterHandle m( w, h ); uint8_t v = g.draw( 256 ); m.get().Y().forall( [&]( uint8_t & p ) { p = v; } ); m.get().U().forall( [&]( uint8_t & p ) { p = v + 1; } ); m.get().V().forall( [&]( uint8_t & p ) { p = v + 2; } ); if ( g.draw( 2 ) ) hold( RasterHandle( move( m ) ), "junk" ); break; }
    case 7: { // a copy is given rubbish; the original does not notice
      log << " rubbish" << i; Decoder d( *s.d ); Bytes b( st[ 0 ].s[ 0 ].b ); Prng r( g.seed() ); for ( size_t k = 3; k < b.size(); k++ ) if ( r.chance( 1, 3 ) ) b[ k ] = r.next(); if ( g.draw( 2 ) ) b[ 0 ] ^= 1; d.set_error_concealment( g.draw( 2 ) );
      // a prefix of a good frame, as when packets are lost
      if ( g.draw( 2 ) && s.stream >= 0 && s.pos < (int)st[ s.stream ].s.size() ) { b = st[ s.stream ].s[ s.pos ].b; b.resize( 1 + g.draw( b.size() ) ); d.set_error_concealment( g.draw( 4 ) ); log << "(cut)"; } b.shrink_to_fit();
      Decoder d2( d ); bool bad[ 2 ] = { false, false }; vpxref::Planes out[ 2 ]; // the outcome does not depend on what memory held before
      for ( int k = 0; k < 2; k++ ) { mallopt( M_PERTURB, k ? 0x5a : 0xff ); try { auto o = ( k ? d2 : d ).parse_and_decode_frame( chunk( b ) ); if ( o.initialized() ) out[ k ] = planes( o.get().get(), true ); } catch ( const exception & ) { bad[ k ] = true; } }
      string e = bad[ 0 ] != bad[ 1 ] ? "refused once" : bad[ 0 ] ? "" : !( d == d2 ) ? "states differ" : out[ 0 ].y != out[ 1 ].y || out[ 0 ].u != out[ 1 ].u || out[ 0 ].v != out[ 1 ].v ? "pictures differ" : ""; c.require( e.empty(), "same-frame-twice", e + "; " + log.str() ); c.tag( bad[ 0 ] ? "damaged frames refused" : "damaged frames decoded twice" ); break; }
    default: { log << " encode"; try { if ( !enc ) enc.reset( new Encoder( w, h, false, REALTIME_QUALITY ) ); MutableRasterHandle m( w, h ); Prng r( g.seed() ); m.get().Y().forall( [&]( uint8_t & p ) { p = r.next(); } ); m.get().U().forall( [&]( uint8_t & p ) { p = r.next(); } ); m.get().V().forall( [&]( uint8_t & p ) { p = 7; } ); enc->encode_with_quantizer( m.get(), 20 + g.draw( 80 ) ); } catch ( const exception & e ) { c.fail( "encoder", e.what() ); } break; }
    }
    // everybody else is where they were
    if ( g.chance( 1, 3 ) ) for ( auto & t : sl ) check_refs( t, "later" );
    while ( held.size() > 8 ) { Held & x = held[ g.draw( held.size() ) ]; string d = diff( planes( x.r.get(), false ), x.want ); c.require( d.empty(), "held-picture", x.what + " " + d + log.str() ); held.erase( held.begin() + ( &x - &held[ 0 ] ) ); }
  }
  for ( auto & t : sl ) check_refs( t, "at the end" );
  for ( auto & x : held ) { string d = diff( planes( x.r.get(), false ), x.want ); c.require( d.empty(), "held-picture", x.what + " " + d + log.str() ); }
  for ( auto & a : sl ) for ( auto & b : sl ) if ( a.stream >= 0 && a.stream == b.stream && a.pos == b.pos && a.pos ) c.require( *a.d == *b.d && a.d->get_hash() == b.d->get_hash(), "same-history-unequal", log.str() );
  c.tag( "decodes", decodes ); c.tag( "copies", copies ); c.tag( "drops", drops ); if ( enc ) c.tag( "with an encoder in the process" );
  if ( decodes > 2 && copies ) c.nontrivial( dg.h ^ hash<string>()( log.str() ) ); c.sample( to_string( w ) + "x" + to_string( h ) + ", " + to_string( ns ) + " streams:" + log.str() );
}

int main( int argc, char ** argv )
{
  vpxref::api();
  vector<pbt::Sub> subs { { "history", history, 16000, 400000 } };
  return pbt::Runner( "P06", subs ).main( argc, argv );
}
