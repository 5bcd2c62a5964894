// P07: equality and fingerprints of decoder states.
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include "decoder_state.hh"
#include "enc_state_serializer.hh"
using namespace std;
using namespace vp8gen;

static RasterHandle dup( const RasterHandle & r, int plane = -1, unsigned x = 0, unsigned y = 0, int d = 0 )
{
  MutableRasterHandle m( r.get().display_width(), r.get().display_height() ); m.get().copy_from( r.get() );
  if ( plane >= 0 ) { TwoD<uint8_t> & p = plane == 0 ? m.get().Y() : plane == 1 ? m.get().U() : m.get().V(); p.at( x, y ) += d; }
  return RasterHandle( move( m ) );
}
struct W { int w, h; vector<Bytes> fr; };
static W stream( Src & g, const Features & f, int w, int h, int n ) { W s { w, h, {} }; Gen gen( g, w, h, f ); for ( int i = 0; i < n; i++ ) s.fr.push_back( gen.frame() ); return s; }
static void feed( Decoder & d, const W & s ) { for ( auto & b : s.fr ) d.parse_and_decode_frame( chunk( b ) ); }

static void same( pbt::Ctx & c, const Decoder & a, const Decoder & b, const string & how )
{
  c.require( a == b && b == a && !( a != b ), "equal-states-unequal", how ); c.require( a.get_hash() == b.get_hash() && !( a.get_hash() != b.get_hash() ) && a.get_hash().hash() == b.get_hash().hash() && a.get_hash().str() == b.get_hash().str(), "equal-states-hash", how );
  c.require( a.minihash() == b.minihash() && a.minihash_match( b.minihash() ), "equal-states-minihash", how );
}

// the same state, reached in different ways
static void same_state( pbt::Ctx & c )
{
  Src & g = c.g; Features f = Features::draw( g ); int w, h; Gen::draw_size( g, f, w, h, 4 ); W s = stream( g, f, w, h, 1 + g.draw( 6 ) ); Decoder a( w, h ); feed( a, s ); Digest dg; for ( auto & b : s.fr ) dg.add( b ); string how;
  switch ( g.draw( 6 ) ) {
  case 0: { how = "decoded twice"; Decoder b( w, h ); feed( b, s ); same( c, a, b, how ); break; }
  case 1: { how = "other content before the key frame"; W t = stream( g, Features::draw( g ), w, h, 1 + g.draw( 5 ) ); Decoder b( w, h ); feed( b, t ); feed( b, s ); same( c, a, b, how ); break; }
  case 2: { how = "copied and reassembled"; Decoder b( a.get_state(), a.get_references() ); same( c, a, b, how ); break; }
  case 3: { how = "deep copies of the pictures"; References r = a.get_references(); References q = r; q.last = dup( r.last ); q.golden = dup( r.golden ); q.alternative = dup( r.alternative ); Decoder b( a.get_state(), q ); same( c, a, b, how ); break; }
  case 4: { how = "fingerprint taken before, with concealment on"; Decoder b( w, h ); b.set_error_concealment( true ); for ( auto & x : s.fr ) { b.parse_and_decode_frame( chunk( x ) ); b.get_hash(); b.minihash(); } same( c, a, b, how ); break; }
  default: { how = "two equal tables built by hand"; DecoderState x = a.get_state(); x.probability_tables = ProbabilityTables( a.get_state().probability_tables ); Decoder b( w, h ); b = Decoder( x, a.get_references() ); same( c, a, b, how ); }
  }
  c.require( a.minihash_match( 0 ), "zero-matches", "" ); c.require( a.minihash() == (uint32_t)a.get_hash().hash(), "minihash-of-hash", "" );
  c.tag( how ); c.nontrivial( dg.h ); c.sample( how );
}

// one component differs
static void differ( pbt::Ctx & c )
{
  Src & g = c.g; Features f = Features::draw( g ); f.seg = f.seg || g.draw( 2 ); f.lfdelta = f.lfdelta || g.draw( 2 ); f.golden = f.golden || g.draw( 2 ); int w, h; Gen::draw_size( g, f, w, h, 4 ); W s = stream( g, f, w, h, 1 + g.draw( 5 ) );
  Decoder a( w, h ); feed( a, s ); if ( g.draw( 2 ) ) a.get_hash(); Digest dg; for ( auto & b : s.fr ) dg.add( b );
  unsigned mw = ( w + 15 ) / 16, mh = ( h + 15 ) / 16; bool mini_seen = false; string what;
  for ( int attempt = 0; attempt < 3 && !mini_seen; attempt++ ) {
    DecoderState x = a.get_state(); References r = a.get_references(); int d = 1 + g.draw( 255 ); if ( g.draw( 3 ) == 0 ) d = g.draw( 2 ) ? 1 : 255;
    unsigned kind = g.weighted( { 4, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 6, 2, 2 } );
    if ( kind >= 5 && kind <= 8 && !x.segmentation.initialized() ) kind = 0;
    if ( ( kind == 9 || kind == 10 ) && !x.filter_adjustments.initialized() ) kind = 11;
    switch ( kind ) {
    case 0: { what = "coefficient probability"; x.probability_tables.coeff_probs.at( g.draw( BLOCK_TYPES ) ).at( g.draw( COEF_BANDS ) ).at( g.draw( PREV_COEF_CONTEXTS ) ).at( g.draw( ENTROPY_NODES ) ) += d; break; }
    case 1: { what = "luma mode probability"; x.probability_tables.y_mode_probs.at( g.draw( x.probability_tables.y_mode_probs.size() ) ) += d; break; }
    case 2: { what = "chroma mode probability"; x.probability_tables.uv_mode_probs.at( g.draw( x.probability_tables.uv_mode_probs.size() ) ) += d; break; }
    case 3: case 4: { what = "motion vector probability"; x.probability_tables.motion_vector_probs.at( g.draw( 2 ) ).at( g.draw( MV_PROB_CNT ) ) += d; break; }
    case 5: { what = "segment map"; uint8_t & m = x.segmentation.get().map.at( g.draw( mw ), g.draw( mh ) ); m = ( m + 1 + g.draw( 3 ) ) & 3; break; }
    case 6: { what = "segment quantizer"; x.segmentation.get().segment_quantizer_adjustments.at( g.draw( 4 ) ) += d; break; }
    case 7: { what = "segment filter level"; x.segmentation.get().segment_filter_adjustments.at( g.draw( 4 ) ) += d; break; }
    case 8: { if ( g.draw( 2 ) ) { what = "segment mode"; x.segmentation.get().absolute_segment_adjustments ^= 1; } else { what = "segmentation off"; x.segmentation.clear(); } break; }
    case 9: { what = "filter reference delta"; x.filter_adjustments.get().loopfilter_ref_adjustments.at( g.draw( 4 ) ) += d; break; }
    case 10: { if ( g.draw( 3 ) ) { what = "filter mode delta"; x.filter_adjustments.get().loopfilter_mode_adjustments.at( g.draw( 4 ) ) += d; } else { what = "filter deltas off"; x.filter_adjustments.clear(); } break; }
    case 11: { // one sample anywhere in the macroblock-aligned picture of one reference
      int pl = g.draw( 3 ); unsigned pw = mw * ( pl ? 8 : 16 ), ph = mh * ( pl ? 8 : 16 ), px = g.draw( 4 ) ? g.draw( pw ) : pw - 1, py = g.draw( 4 ) ? g.draw( ph ) : ph - 1; int which = g.draw( 3 ); RasterHandle & t = which == 0 ? r.last : which == 1 ? r.golden : r.alternative;
      what = string( "sample of " ) + ( which == 0 ? "last" : which == 1 ? "golden" : "alternate" ); t = dup( t, pl, px, py, d ); break; }
    case 12: { what = "golden and alternate exchanged"; if ( diff( planes( r.golden.get(), false ), planes( r.alternative.get(), false ) ).empty() ) { c.tag( "(no difference to make)" ); return; } swap( r.golden, r.alternative ); break; }
    default: { what = "last and golden exchanged"; if ( diff( planes( r.golden.get(), false ), planes( r.last.get(), false ) ).empty() ) { c.tag( "(no difference to make)" ); return; } swap( r.golden, r.last ); }
    }
    Decoder b( x, r ); c.require( a != b && !( a == b ) && b != a, "different-states-equal", what ); c.require( a.get_hash() != b.get_hash() && !( a.get_hash() == b.get_hash() ) && a.get_hash().hash() != b.get_hash().hash(), "different-states-hash", what );
    c.require( a.get_hash().str() != b.get_hash().str(), "different-states-string", what );
    mini_seen = a.minihash() != b.minihash() && !a.minihash_match( b.minihash() );
  }
  c.require( mini_seen, "different-states-minihash", what );
  c.tag( what ); c.nontrivial( dg.h ^ hash<string>()( what ) ); c.sample( to_string( w ) + "x" + to_string( h ) + ": " + what );
}

// two different points of generated streams: equal exactly when a field-by-field comparison says so
static void pairs( pbt::Ctx & c )
{
  Src & g = c.g; Features f = Features::draw( g ); int w, h; Gen::draw_size( g, f, w, h, 2 ); W s = stream( g, f, w, h, 2 + g.draw( 6 ) ); vector<Decoder> v; Decoder d( w, h ); for ( auto & b : s.fr ) { d.parse_and_decode_frame( chunk( b ) ); v.push_back( d ); }
  auto img = []( const Decoder & d ) { DecoderState s = d.get_state(); References r = d.get_references(); string o; auto put = [&]( int v ) { o += to_string( v ) + ","; };
    for ( unsigned i = 0; i < BLOCK_TYPES; i++ ) for ( unsigned j = 0; j < COEF_BANDS; j++ ) for ( unsigned k = 0; k < PREV_COEF_CONTEXTS; k++ ) for ( unsigned l = 0; l < ENTROPY_NODES; l++ ) put( s.probability_tables.coeff_probs.at( i ).at( j ).at( k ).at( l ) );
    for ( unsigned i = 0; i < 4; i++ ) put( s.probability_tables.y_mode_probs.at( i ) ); for ( unsigned i = 0; i < 3; i++ ) put( s.probability_tables.uv_mode_probs.at( i ) ); for ( unsigned i = 0; i < 2; i++ ) for ( unsigned j = 0; j < MV_PROB_CNT; j++ ) put( s.probability_tables.motion_vector_probs.at( i ).at( j ) );
    put( s.segmentation.initialized() ); if ( s.segmentation.initialized() ) { auto & g = s.segmentation.get(); put( g.absolute_segment_adjustments ); for ( int i = 0; i < 4; i++ ) { put( g.segment_quantizer_adjustments.at( i ) ); put( g.segment_filter_adjustments.at( i ) ); } for ( unsigned y = 0; y < ( s.height + 15u ) / 16; y++ ) for ( unsigned x = 0; x < ( s.width + 15u ) / 16; x++ ) put( g.map.at( x, y ) ); }
    put( s.filter_adjustments.initialized() ); if ( s.filter_adjustments.initialized() ) for ( int i = 0; i < 4; i++ ) { put( s.filter_adjustments.get().loopfilter_ref_adjustments.at( i ) ); put( s.filter_adjustments.get().loopfilter_mode_adjustments.at( i ) ); }
    for ( const RasterHandle * h : { &r.last, &r.golden, &r.alternative } ) { vpxref::Planes p = planes( h->get(), false ); for ( auto * q : { &p.y, &p.u, &p.v } ) o.append( (const char *)q->data(), q->size() ); }
    return o; };
  unsigned eq = 0, ne = 0; vector<string> im; for ( auto & x : v ) im.push_back( img( x ) ); Digest dg; for ( auto & b : s.fr ) dg.add( b );
  for ( size_t i = 0; i < v.size(); i++ ) for ( size_t j = 0; j <= i; j++ ) {
    bool e = im[ i ] == im[ j ]; ( e ? eq : ne )++; string w = "frames " + to_string( i ) + " and " + to_string( j );
    c.require( ( v[ i ] == v[ j ] ) == e, "equality", w + ( e ? " same" : " different" ) ); c.require( ( v[ i ].get_hash() == v[ j ].get_hash() ) == e, "hash", w + ( e ? " same" : " different" ) ); }
  c.tag( "equal pairs", eq ); c.tag( "different pairs", ne ); if ( ne ) c.nontrivial( dg.h ); c.sample( to_string( v.size() ) + " states, " + to_string( ne ) + " different pairs" );
}

int main( int argc, char ** argv )
{
  vpxref::api();
  vector<pbt::Sub> subs { { "equal", same_state, 12000, 200000 }, { "differ", differ, 30000, 600000 }, { "pairs", pairs, 6000, 100000 } };
  return pbt::Runner( "P07", subs ).main( argc, argv );
}
