// P10: encoding is a function of the encoder's state and the picture.
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include "picgen.hh"
#include "encoder.hh"
#include <malloc.h>
using namespace std;
using namespace vp8gen;

struct Op { int mode, qi; size_t size; double ssim; };
static Op draw_op( Src & g ) { Op o; o.mode = g.weighted( { 6, 2, 1, 1 } ); o.qi = g.draw( 128 ); o.size = g.draw( 2 ) ? 50 + g.draw( 4000 ) : g.draw( 40000 ); o.ssim = 0.5 + g.draw( 50 ) / 100.0; return o; }
static Bytes run( Encoder & e, const VP8Raster & r, const Op & o )
{
  if ( o.mode == 0 ) return e.encode_with_quantizer( r, o.qi ); if ( o.mode == 1 ) return e.encode_with_target_size( r, o.size ); if ( o.mode == 2 ) return e.encode_with_minimum_ssim( r, o.ssim );
  size_t s = e.estimate_frame_size( r, o.qi ); Bytes b; for ( int i = 0; i < 8; i++ ) b.push_back( s >> ( 8 * i ) ); return b;        // an estimate is an outcome too
}
static string str( const Op & o ) { return o.mode == 0 ? "q" + to_string( o.qi ) : o.mode == 1 ? "size" + to_string( o.size ) : o.mode == 2 ? "ssim" + to_string( o.ssim ).substr( 0, 4 ) : "estimate" + to_string( o.qi ); }

struct Job {
  bool two; EncoderQuality q; unique_ptr<Decoder> start; vector<vector<uint8_t>> planes; vector<Op> ops; int w, h;
  Encoder make() const { if ( start ) return Encoder( *start, two, q ); return Encoder( w, h, two, q ); }
  vector<vector<Bytes>> pics;
};
static RasterHandle picture( int w, int h, const vector<Bytes> & p, bool other_copy = false ) { (void)other_copy; MutableRasterHandle m( w, h ); for ( int k = 0; k < 3; k++ ) { TwoD<uint8_t> & t = k == 0 ? m.get().Y() : k == 1 ? m.get().U() : m.get().V(); for ( unsigned y = 0; y < t.height(); y++ ) for ( unsigned x = 0; x < t.width(); x++ ) t.at( x, y ) = p[ k ][ y * t.width() + x ]; } return RasterHandle( move( m ) ); }
static Job draw_job( Src & g, int w, int h, int frames )
{
  Job j; j.w = w; j.h = h; j.two = g.draw( 2 ); j.q = g.draw( 2 ) ? REALTIME_QUALITY : BEST_QUALITY;
  if ( g.chance( 1, 4 ) ) { Gen gen( g, w, h, Features::draw( g ) ); j.start.reset( new Decoder( w, h ) ); int n = 1 + g.draw( 3 ); for ( int i = 0; i < n; i++ ) { Bytes b = gen.frame(); j.start->parse_and_decode_frame( chunk( b ) ); } }
  Pics p( g, w, h ); int n = 1 + g.draw( frames ); for ( int i = 0; i < n; i++ ) { p.next(); vector<Bytes> v; for ( int k = 0; k < 3; k++ ) v.push_back( p.plane( k ) ); j.pics.push_back( v ); j.ops.push_back( draw_op( g ) ); }
  return j;
}

static void determinism( pbt::Ctx & c, int maxmb, int frames )
{
  Src & g = c.g; int w, h; draw_pic_size( g, w, h, maxmb ); if ( w < 4 ) w = 4; if ( h < 4 ) h = 4;
  Job a = draw_job( g, w, h, frames ), b = draw_job( g, w, h, frames ); ostringstream log; log << w << "x" << h << ( a.two ? " two-pass" : "" ) << ( a.q == REALTIME_QUALITY ? " realtime" : " best" ) << ( a.start ? " from a state" : "" ); for ( auto & o : a.ops ) log << " " << str( o ); log << " |";
  mallopt( M_PERTURB, 0 );
  vector<Bytes> want; vector<uint32_t> hashes; Digest dg;
  { Encoder e = a.make(); for ( size_t i = 0; i < a.ops.size(); i++ ) { RasterHandle r = picture( w, h, a.pics[ i ] ); want.push_back( run( e, r.get(), a.ops[ i ] ) ); hashes.push_back( e.minihash() ); for ( auto & p : a.pics[ i ] ) dg.add( p ); } }
  mallopt( M_PERTURB, 1 + g.draw( 255 ) );
  // again, among other work in the same process
  unique_ptr<Encoder> other; size_t op = 0; vector<pair<unique_ptr<Encoder>, size_t>> runs; vector<RasterHandle> keep;
  auto disturb = [&]() {
    switch ( g.draw( 6 ) ) {
    case 0: case 1: { if ( !other || op >= b.ops.size() ) { other.reset( new Encoder( b.make() ) ); op = 0; } log << " other:" << str( b.ops[ op ] ); RasterHandle r = picture( w, h, b.pics[ op ] ); run( *other, r.get(), b.ops[ op ] ); op++; break; }
    case 2: { if ( other ) { log << " drop-other"; other.reset(); } break; }
    case 3: { log << " junk"; MutableRasterHandle m( w, h ); uint8_t v = g.draw( 256 ); m.get().Y().forall( [&]( uint8_t & p ) { p = v; } ); m.get().U().forall( [&]( uint8_t & p ) { p = v; } ); m.get().V().forall( [&]( uint8_t & p ) { p = v; } ); if ( g.draw( 2 ) ) keep.emplace_back( move( m ) ); break; }
    case 4: { log << " decode"; Gen gen( g, w, h, Features::draw( g ) ); Decoder d( w, h ); Bytes f = gen.frame(); d.parse_and_decode_frame( chunk( f ) ); break; }
    default: { if ( !runs.empty() ) { auto & r = runs[ g.draw( runs.size() ) ]; log << " copy-encodes"; Encoder e( *r.first ); size_t k = g.draw( a.ops.size() ); RasterHandle p = picture( w, h, a.pics[ k ] ); Op o = draw_op( g ); run( e, p.get(), o ); } }
    } };
  int steps = 2 + g.draw( 6 ) + 2 * a.ops.size(), checks = 0, copies = 0;
  for ( int s = 0; s < steps; s++ ) {
    if ( g.draw( 2 ) ) { disturb(); continue; }
    if ( runs.empty() || ( runs.size() < 3 && g.chance( 1, 6 ) ) ) { if ( runs.empty() || g.draw( 2 ) ) { log << " new"; runs.emplace_back( unique_ptr<Encoder>( new Encoder( a.make() ) ), 0 ); } else { log << " fork"; auto & r = runs[ g.draw( runs.size() ) ]; size_t at = r.second; unique_ptr<Encoder> e( new Encoder( *r.first ) ); runs.emplace_back( move( e ), at ); copies++; } }
    size_t ri = g.draw( runs.size() ); auto & r = runs[ ri ];
    if ( r.second >= a.ops.size() ) { log << " end" << ri; runs.erase( runs.begin() + ri ); continue; }
    if ( g.chance( 1, 4 ) ) { log << " estimate"; RasterHandle p = picture( w, h, a.pics[ g.draw( a.pics.size() ) ] ); r.first->estimate_frame_size( p.get(), g.draw( 128 ) ); }
    if ( g.chance( 1, 6 ) ) {
      if ( g.draw( 2 ) ) { log << " move"; r.first.reset( new Encoder( move( *r.first ) ) ); }
      else { log << " assign"; unique_ptr<Encoder> into( new Encoder( b.make() ) ); if ( g.draw( 2 ) ) { RasterHandle p = picture( w, h, b.pics[ 0 ] ); run( *into, p.get(), b.ops[ 0 ] ); } *into = move( *r.first ); r.first = move( into ); }   // over an encoder of another kind and history
    }
    log << " " << ri << ":" << r.second; RasterHandle p = picture( w, h, a.pics[ r.second ] ); Bytes got = run( *r.first, p.get(), a.ops[ r.second ] ); checks++;
    if ( got != want[ r.second ] ) { size_t k = 0; while ( k < got.size() && k < want[ r.second ].size() && got[ k ] == want[ r.second ][ k ] ) k++; c.fail( a.ops[ r.second ].mode == 3 ? "other-estimate" : "other-bytes", "step " + to_string( r.second ) + ": " + to_string( got.size() ) + " bytes instead of " + to_string( want[ r.second ].size() ) + ", first difference at " + to_string( k ) + ": " + log.str() ); }
    bool begun = a.start != nullptr; for ( size_t k = 0; k <= r.second; k++ ) begun = begun || a.ops[ k ].mode != 3;      // before its first frame an encoder has no defined pictures
    if ( begun ) c.require( r.first->minihash() == hashes[ r.second ], "other-state", log.str() ); r.second++;
  }
  c.tag( "repeated encodes", checks ); c.tag( "forks", copies ); c.tag( a.q == REALTIME_QUALITY ? "realtime" : "best" ); c.tag( a.two ? "two-pass" : "one-pass" ); if ( a.start ) c.tag( "from a decoder state" );
  if ( checks ) c.nontrivial( dg.h ^ hash<string>()( log.str() ) ); c.sample( log.str() );
}

int main( int argc, char ** argv )
{
  vpxref::api(); mallopt( M_MMAP_THRESHOLD, 1 << 30 ); mallopt( M_TRIM_THRESHOLD, 1 << 30 );
  vector<pbt::Sub> subs { { "small", []( pbt::Ctx & c ) { determinism( c, 4, 5 ); }, 8000, 200000 }, { "large", []( pbt::Ctx & c ) { determinism( c, 10, 4 ); }, 1000, 20000 } };
  return pbt::Runner( "P10", subs ).main( argc, argv );
}
