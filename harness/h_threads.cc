// P20: encoders and decoders used in parallel threads.
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include "picgen.hh"
#include "encoder.hh"
#include "shim/picsum.hh"
#include <thread>
#include <atomic>
using namespace std;
using namespace vp8gen;

struct Step { int kind, qi, pic, arg; };
struct Script { int who; vector<Step> steps; string str() const { ostringstream o; o << ( who == 0 ? "decodes" : who == 1 ? "encodes" : "conceals" ); for ( auto & s : steps ) o << " " << "cFqSeCxh"[ s.kind ] << s.pic; return o.str(); } };
typedef vector<uint64_t> Out;

struct World {
  int w, h; vector<Bytes> frames; vector<RasterHandle> pics; unique_ptr<Decoder> base; unique_ptr<Encoder> enc; size_t at;
};
static uint64_t sum( const Bytes & b ) { Digest d; d.add( b ); return d.h; }

// one thread's work; everything it does is determined by the script and the shared, constant world
static Out run( const World & w, const Script & s )
{
  Out o;
  if ( s.who != 1 ) {
    Decoder d( *w.base ); if ( s.who == 2 ) d.set_error_concealment( true ); size_t at = w.at; vector<RasterHandle> held;
    for ( auto & t : s.steps ) {
      if ( t.kind == 5 ) { Decoder e( d ); Decoder f( move( e ) ); d = f; o.push_back( d.minihash() ); continue; }
      if ( t.kind == 7 ) { o.push_back( w.base->get_references().last.hash() ); o.push_back( d.get_hash().hash() ); continue; }
      if ( t.kind == 4 ) { held.clear(); continue; }
      if ( at >= w.frames.size() ) { d = *w.base; at = w.at; }
      Bytes b = w.frames[ at++ ]; bool cut = s.who == 2 && t.kind == 3 && b.size() > 40; if ( cut ) b.resize( 30 + t.arg % ( b.size() - 30 ) ); b.shrink_to_fit();
      try { auto r = d.parse_and_decode_frame( chunk( b ) ); o.push_back( r.initialized() ? picsum( r.get().get() ) : 1 ); if ( r.initialized() && t.kind == 6 ) held.push_back( r.get() ); } catch ( const exception & e ) { o.push_back( 2 ); }
      o.push_back( d.minihash() );
    }
    for ( auto & r : held ) o.push_back( picsum( r.get() ) );
    return o;
  }
  Encoder e( *w.enc );
  for ( auto & t : s.steps ) {
    const VP8Raster & p = w.pics[ t.pic ].get();
    switch ( t.kind ) {
    case 3: o.push_back( sum( e.encode_with_target_size( p, 100 + t.arg % 8000 ) ) ); break;
    case 4: o.push_back( e.estimate_frame_size( p, t.qi ) ); break;
    case 5: { Encoder c( e ); o.push_back( sum( c.encode_with_quantizer( p, t.qi ) ) ); if ( t.arg & 1 ) e = move( c ); break; }
    case 6: { Decoder d = e.export_decoder(); o.push_back( d.get_references().last.hash() ); break; }
    case 7: o.push_back( sum( e.encode_with_minimum_ssim( p, 0.6 + t.arg % 40 / 100.0 ) ) ); break;
    default: o.push_back( sum( e.encode_with_quantizer( p, t.qi ) ) );
    }
    o.push_back( e.minihash() );
  }
  return o;
}

static void threads( pbt::Ctx & c, int maxmb, int maxsteps )
{
  Src & g = c.g; World w; draw_pic_size( g, w.w, w.h, maxmb ); if ( w.w < 8 ) w.w = 8; if ( w.h < 8 ) w.h = 8; ostringstream log; log << w.w << "x" << w.h; Digest dg;
  { Gen gen( g, w.w, w.h, Features::draw( g ) ); int n = 2 + g.draw( 6 ); for ( int i = 0; i < n; i++ ) { w.frames.push_back( gen.frame() ); dg.add( w.frames.back() ); } }
  w.base.reset( new Decoder( w.w, w.h ) ); w.at = 1 + g.draw( w.frames.size() - 1 ); for ( size_t i = 0; i < w.at; i++ ) w.base->parse_and_decode_frame( chunk( w.frames[ i ] ) );
  { Pics p( g, w.w, w.h ); for ( int i = 0; i < 3; i++ ) { p.next(); w.pics.push_back( p.raster() ); p.add( dg ); } }
  bool two = g.draw( 2 ); EncoderQuality q = g.draw( 2 ) ? REALTIME_QUALITY : BEST_QUALITY; int src = g.draw( 3 );
  if ( src == 0 ) w.enc.reset( new Encoder( w.w, w.h, two, q ) ); else if ( src == 1 ) { w.enc.reset( new Encoder( w.w, w.h, two, q ) ); w.enc->encode_with_quantizer( w.pics[ 0 ].get(), g.draw( 128 ) ); } else w.enc.reset( new Encoder( *w.base, two, q ) );
  int n = 2 + g.draw( 5 ); vector<Script> s( n ); for ( auto & x : s ) { x.who = g.weighted( { 3, 3, 2 } ); int k = 1 + g.draw( maxsteps ); for ( int i = 0; i < k; i++ ) { int a = g.draw( 8 ); x.steps.push_back( { a, (int)g.draw( 128 ), (int)g.draw( 3 ), (int)g.draw( 1 << 14 ) } ); } log << "; " << x.str(); }
  vector<Out> want; bool before = g.draw( 2 ); if ( before ) for ( auto & x : s ) want.push_back( run( w, x ) );
  int rounds = 1 + g.draw( 3 ); vector<vector<Out>> got( rounds, vector<Out>( n ) );
  for ( int r = 0; r < rounds; r++ ) { atomic<int> ready { 0 }; vector<thread> t; for ( int i = 0; i < n; i++ ) t.emplace_back( [&, i] { ready++; while ( ready < n ) {} try { got[ r ][ i ] = run( w, s[ i ] ); } catch ( const exception & e ) { got[ r ][ i ] = Out { 77 }; } } ); for ( auto & x : t ) x.join(); }
  if ( !before ) for ( auto & x : s ) want.push_back( run( w, x ) );
  for ( int r = 0; r < rounds; r++ ) for ( int i = 0; i < n; i++ ) { if ( got[ r ][ i ] == want[ i ] ) continue; size_t k = 0; while ( k < got[ r ][ i ].size() && k < want[ i ].size() && got[ r ][ i ][ k ] == want[ i ][ k ] ) k++; c.fail( "thread-result", "thread " + to_string( i ) + " (" + s[ i ].str() + ") differs from its result alone at output " + to_string( k ) + "; " + log.str() ); }
  c.tag( "threads", n * rounds ); for ( auto & x : s ) c.tag( x.who == 0 ? "decoding" : x.who == 1 ? "encoding" : "concealing" ); c.tag( before ? "alone first" : "threads first" ); c.nontrivial( dg.h ^ hash<string>()( log.str() ) ); c.sample( log.str() );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs { { "small", []( pbt::Ctx & c ) { threads( c, 2, 8 ); }, 3000, 60000 }, { "large", []( pbt::Ctx & c ) { threads( c, 6, 5 ); }, 800, 16000 } };
  for ( auto & s : subs ) s.jobs = 4;
  return pbt::Runner( "P20", subs ).main( argc, argv );
}
