// P21: the accelerated, the portable and the debug (assertions on) build of the codec give the same results.
#include "pbt.hh"
#include "vp8gen.hh"
#include "picgen.hh"
#include "codecrun.hh"
#include "tool.hh"
using namespace std;
using namespace vp8gen;

static Bytes all_planes( const Pics & p ) { Bytes b; for ( int k = 0; k < 3; k++ ) b.insert( b.end(), p.plane( k ).begin(), p.plane( k ).end() ); return b; }
static void compare( pbt::Ctx & c, const codecrun::Job & j, const string & log )
{
  static const char * which[] = { "scalar", "dbg" }; const int b = c.g.chance( 1, 4 ); string f = c.scratch + "/job"; spit( f, codecrun::write( j ) ); auto a = codecrun::run( j ); ToolRun r = tool( c, { ( "../" + string( which[ b ] ) + "/codecrun" ).c_str(), f } ); c.require( r.ok(), string( which[ b ] ) + "-build-ends", r.err + log ); vector<string> o; { istringstream s( r.out ); string l; while ( getline( s, l ) ) o.push_back( l ); }
  c.require( a.size() == o.size(), "harness:lines", log ); for ( size_t i = 0; i < a.size(); i++ ) if ( o[ i ] != "skip" ) c.require( a[ i ] == o[ i ], which[ b ] + string( "-build-differs-" ) + ( j.ops[ i ].kind == 'D' ? "decoding" : "encoding" ), "operation " + to_string( i ) + ": accelerated '" + a[ i ] + "', other build '" + o[ i ] + "'; " + log );
}
// The format gives 16-bit arithmetic for the inverse transforms without saying how it overflows, and encoders avoid that; damage can produce such coefficients.
template <class M> static bool in_range( const M & mbs, const Quantizer & q )
{
  bool ok = true; auto sum = [&]( const DCTCoefficients & k, pair<uint16_t, uint16_t> f, int most ) { int t = abs( k.at( 0 ) ) * f.first; for ( int i = 1; i < 16; i++ ) t += abs( k.at( i ) ) * f.second; if ( t > most ) ok = false; };
  mbs.forall( [&]( const auto & m ) { sum( m.Y2().coefficients(), q.y2(), 24000 ); m.Y().forall( [&]( const YBlock & b ) { sum( b.coefficients(), q.y(), 10000 ); } ); for ( auto * z : { &m.U(), &m.V() } ) z->forall( [&]( const UVBlock & b ) { sum( b.coefficients(), q.uv(), 10000 ); } ); } ); return ok;
}
static bool in_range( Decoder d, const Bytes & b )
{
  try { auto u = d.decompress_frame( chunk( b ) ); auto check = [&]( const auto & f ) { QuantIndices i = f.header().quant_indices; if ( f.header().update_segmentation.initialized() || d.get_state().segmentation.initialized() ) i.y_ac_qi = 127; return in_range( f.macroblocks(), Quantizer( i ) ); }; return u.key_frame() ? check( d.parse_frame<KeyFrame>( u ) ) : check( d.parse_frame<InterFrame>( u ) ); } catch ( const exception & ) { return true; }
}
static void decoding( pbt::Ctx & c, int maxmb, int frames )
{
  Src & g = c.g; codecrun::Job j; draw_pic_size( g, j.w, j.h, maxmb ); Features f = Features::draw( g ); Gen gen( g, j.w, j.h, f ); int n = 1 + g.draw( frames ); Digest dg; size_t bytes = 0; bool ec = g.chance( 1, 5 ); ostringstream log; log << j.w << "x" << j.h << " " << n << " frames"; unsigned cut = 0;
  for ( int i = 0; i < n; i++ ) { codecrun::Op o; o.kind = 'D'; o.a = ec; o.blob = gen.frame(); if ( ec && i && g.chance( 1, 3 ) && o.blob.size() > 40 ) { o.blob.resize( 30 + g.draw( o.blob.size() - 30 ) ); cut++; } dg.add( o.blob ); bytes += o.blob.size(); j.ops.push_back( o ); }
  if ( cut ) { Decoder d( j.w, j.h ); d.set_error_concealment( true ); for ( size_t i = 0; i < j.ops.size(); i++ ) { if ( !in_range( d, j.ops[ i ].blob ) ) { j.ops.resize( i ); c.tag( "left out: damage made coefficients overflow" ); break; } try { d.parse_and_decode_frame( chunk( j.ops[ i ].blob ) ); } catch ( const exception & ) {} } }
  compare( c, j, log.str() ); c.tag( "frames", n ); if ( cut ) c.tag( "truncated frames", cut ); if ( bytes > 60 ) c.nontrivial( dg.h ); c.sample( log.str() + ", " + to_string( bytes ) + " bytes" );
}
static void encoding( pbt::Ctx & c, int maxmb, int frames )
{
  Src & g = c.g; codecrun::Job j; draw_pic_size( g, j.w, j.h, maxmb ); ostringstream log; Digest dg; log << j.w << "x" << j.h; bool ssim = j.w >= 8 && j.h >= 8;
  if ( g.chance( 1, 4 ) ) { Gen gen( g, j.w, j.h, Features::draw( g ) ); int n = 1 + g.draw( 3 ); for ( int i = 0; i < n; i++ ) { codecrun::Op o; o.kind = 'D'; o.blob = gen.frame(); j.ops.push_back( o ); } log << " after " << n << " frames"; codecrun::Op o; o.kind = 'T'; o.a = g.draw( 2 ); o.b = g.draw( 2 ); j.ops.push_back( o ); }
  else { codecrun::Op o; o.kind = 'N'; o.a = g.draw( 2 ); o.b = g.draw( 2 ); j.ops.push_back( o ); }
  log << ( j.ops.back().a ? " two-pass" : "" ) << ( j.ops.back().b ? " realtime" : " best" ); Pics p( g, j.w, j.h ); int n = 1 + g.draw( frames );
  for ( int i = 0; i < n; i++ ) { p.next(); p.add( dg ); codecrun::Op o; o.kind = "qsme"[ g.weighted( { 6, 2, ssim ? 1u : 0, ssim ? 1u : 0 } ) ]; o.a = o.kind == 's' ? 50 + g.draw( 20000 ) : o.kind == 'm' ? 50 + g.draw( 50 ) : g.draw( 128 ); o.blob = all_planes( p ); log << " " << p.kind << " " << o.kind << o.a; j.ops.push_back( o ); if ( g.chance( 1, 8 ) ) { codecrun::Op x; x.kind = 'x'; j.ops.push_back( x ); } }
  compare( c, j, log.str() ); c.tag( "pictures", n ); c.nontrivial( dg.h ^ hash<string>()( log.str() ) ); c.sample( log.str() );
}
int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs { { "decode", []( pbt::Ctx & c ) { decoding( c, 6, 6 ); }, 6000, 120000 }, { "decode-large", []( pbt::Ctx & c ) { decoding( c, 20, 3 ); }, 600, 12000 }, { "encode", []( pbt::Ctx & c ) { encoding( c, 4, 6 ); }, 6000, 120000 }, { "encode-large", []( pbt::Ctx & c ) { encoding( c, 12, 4 ); }, 1000, 20000 } };
  return pbt::Runner( "P21", subs ).main( argc, argv );
}
