// P22: the command-line tools against the library, libvpx and each other.
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include "picgen.hh"
#include "mutate.hh"
#include "tool.hh"
#include "encoder.hh"
#include "ivf.hh"
#include "ivf_writer.hh"
#include "ivf_reader.hh"
#include "yuv4mpeg.hh"
#include "ssim.hh"
#include "enc_state_serializer.hh"
using namespace std;
using namespace vp8gen;

static void cat( Bytes & o, const vpxref::Planes & p ) { o.insert( o.end(), p.y.begin(), p.y.end() ); o.insert( o.end(), p.u.begin(), p.u.end() ); o.insert( o.end(), p.v.begin(), p.v.end() ); }
// checks a raw video against the pictures expected
static void raw_video( pbt::Ctx & c, const Bytes & f, int w, int h, const vector<vpxref::Planes> & want, const string & log )
{
  size_t e = 0; while ( e < f.size() && f[ e ] != '\n' ) e++; string head( f.begin(), f.begin() + e ); 
  c.require( e < f.size() && head.substr( 0, 10 ) == "YUV4MPEG2 " && head.find( " W" + to_string( w ) + " " ) != string::npos && head.find( " H" + to_string( h ) + " " ) != string::npos, "video-header", "'" + head.substr( 0, 80 ) + "' " + log );
  size_t fs = w * h + 2 * ( ( w + 1 ) / 2 ) * ( ( h + 1 ) / 2 ), p = e + 1, n = 0;
  while ( p < f.size() ) { c.require( f.size() - p >= 6 + fs && !memcmp( &f[ p ], "FRAME\n", 6 ), "video-framing", "picture " + to_string( n ) + " " + log ); p += 6; c.require( n < want.size(), "video-length", "more than " + to_string( n ) + " pictures " + log ); Bytes x; cat( x, want[ n ] ); c.require( x.size() == fs && !memcmp( &f[ p ], x.data(), fs ), "video-picture", "picture " + to_string( n ) + " of " + to_string( want.size() ) + ", " + log ); p += fs; n++; }
  c.require( n == want.size(), "video-length", to_string( n ) + " pictures instead of " + to_string( want.size() ) + " " + log );
}

static void save( const Decoder & d, const string & f ) { EncoderStateSerializer s; d.serialize( s ); s.write( f ); }
static bool known_dir( const string & f ) { return !access( f.c_str(), F_OK ); }

struct Stream { int w, h; vector<Bytes> fr; vector<bool> shown; vector<vpxref::Planes> pic; vector<Decoder> after; Digest dg; Features f; string log; };   // pic: the shown pictures, by libvpx; after: the decoder after each frame
static Stream make( pbt::Ctx & c, int maxmb, int frames, Options opt = Options() )
{
  Stream s; Src & g = c.g; s.f = Features::draw( g ); Gen::draw_size( g, s.f, s.w, s.h, maxmb ); Gen gen( g, s.w, s.h, s.f, opt ); int n = 1 + g.draw( frames ); vpxref::Decoder ref; Decoder d( s.w, s.h );
  for ( int i = 0; i < n; i++ ) { s.fr.push_back( gen.frame() ); s.dg.add( s.fr.back() ); s.shown.push_back( gen.last_shown ); if ( ref.decode( s.fr.back() ) ) c.fail( "harness:libvpx", "" ); vpxref::Planes p; bool sh = ref.shown( p ); if ( gen.last_shown ) { if ( !sh ) c.fail( "harness:not-shown", "" ); s.pic.push_back( p ); } d.parse_and_decode_frame( chunk( s.fr.back() ) ); s.after.push_back( d ); }
  s.log = to_string( s.w ) + "x" + to_string( s.h ) + " " + to_string( n ) + " frames"; return s;
}
[[maybe_unused]] static vector<vpxref::Planes> pics( const Stream & s, size_t from, size_t to ) { vector<vpxref::Planes> r; size_t k = 0; for ( size_t i = 0; i < to; i++ ) { if ( s.shown[ i ] ) { if ( i >= from ) r.push_back( s.pic[ k ] ); k++; } } return r; }
static vector<Bytes> part( const Stream & s, size_t from, size_t to ) { return vector<Bytes>( s.fr.begin() + from, s.fr.begin() + to ); }

// what a saved state brings back: the last picture serves as all three references
static Decoder restored( const Decoder & d ) { EncoderStateSerializer o; d.serialize( o ); char f[] = "restored.state"; save( d, f ); Decoder r = EncoderStateDeserializer::build<Decoder>( f ); unlink( f ); return r; }
static vector<vpxref::Planes> decode( Decoder d, const vector<Bytes> & fr ) { vector<vpxref::Planes> v; for ( auto & f : fr ) { auto r = d.parse_and_decode_frame( chunk( f ) ); if ( r.initialized() ) v.push_back( planes( r.get().get(), true ) ); } return v; }

static void decoders( pbt::Ctx & c )
{
  Src & g = c.g; Stream s = make( c, 4, 7 ); size_t n = s.fr.size(); string log = s.log; unsigned what = g.draw( 4 );
  auto state = [&]( size_t at ) { return at ? s.after[ at - 1 ] : Decoder( s.w, s.h ); };
  vector<size_t> cut { 0 }; for ( size_t i = 1; i < n; i++ ) if ( g.chance( 1, 3 ) ) cut.push_back( i ); cut.push_back( n );
  // a part as a file, with or without the fingerprint it has to be entered with
  auto file = [&]( size_t k, const Decoder & entry ) { uint32_t fp = g.chance( 3, 4 ) ? entry.minihash() : 0; spit( c.scratch + "/p" + to_string( k ) + ".ivf", ivf_file( s.w, s.h, part( s, cut[ k ], cut[ k + 1 ] ), 30, 1, fp ) ); log += " |" + to_string( cut[ k ] ); return fp; };
  size_t k = g.draw( cut.size() - 1 ); Decoder entry = restored( state( cut[ k ] ) );
  switch ( what ) {
  case 0: { // one file from the start, possibly with frames in front of the first key frame
    vector<Bytes> all = s.fr; unsigned lead = 0; if ( g.chance( 1, 3 ) ) { for ( size_t i = 0; i < n && lead < 2; i++ ) if ( s.fr[ i ][ 0 ] & 1 ) { all.insert( all.begin(), s.fr[ i ] ); lead++; } }
    spit( c.scratch + "/i.ivf", ivf_file( s.w, s.h, all ) ); ToolRun r = tool( c, { "vp8decode", "-o", "o.y4m", "i.ivf" } ); log += " vp8decode, " + to_string( lead ) + " in front"; bool tail = !s.shown.back();
    c.require( r.ok() || ( tail && !r.crashed() ), "vp8decode-fails", r.err + log ); if ( s.pic.size() ) raw_video( c, slurp( c.scratch + "/o.y4m" ), s.w, s.h, s.pic, log ); c.tag( "vp8decode" ); break; }
  case 1: { // from a saved state
    save( state( cut[ k ] ), c.scratch + "/s.state" ); file( k, entry ); ToolRun r = tool( c, { "vp8decode", "-s", "s.state", "-o", "o.y4m", "p" + to_string( k ) + ".ivf" } ); log += " vp8decode -s";
    auto want = decode( entry, part( s, cut[ k ], cut[ k + 1 ] ) ); c.require( r.ok() || ( !s.shown[ cut[ k + 1 ] - 1 ] && !r.crashed() ), "vp8decode-fails", r.err + log ); if ( want.size() ) raw_video( c, slurp( c.scratch + "/o.y4m" ), s.w, s.h, want, log ); c.tag( "vp8decode -s" ); break; }
  case 2: { // the parts in sequence, maybe from a saved state
    vector<string> cmd { "xc-decode-bundle" }; bool from = k || g.draw( 2 ); if ( from ) { save( state( cut[ k ] ), c.scratch + "/s.state" ); cmd.push_back( "s.state" ); } string in; Decoder d = entry; vector<vpxref::Planes> want;
    for ( size_t i = k; i + 1 < cut.size(); i++ ) { file( i, d ); in += "p" + to_string( i ) + ".ivf\n"; for ( size_t j = cut[ i ]; j < cut[ i + 1 ]; j++ ) { auto r = d.parse_and_decode_frame( chunk( s.fr[ j ] ) ); if ( r.initialized() ) want.push_back( planes( r.get().get(), true ) ); } }
    ToolRun r = tool( c, cmd, in ); log += " " + show( cmd ); c.require( r.ok(), "decode-bundle-fails", r.err + log ); raw_video( c, Bytes( r.out.begin(), r.out.end() ), s.w, s.h, k ? want : s.pic, log ); c.tag( "xc-decode-bundle" ); break; }
  default: { // a part entered in a state it was not made for
    size_t from = g.draw( n + 1 ); uint32_t fp = file( k, entry ); Decoder start = restored( state( from ) ); bool fits = !fp || start.minihash() == fp; save( state( from ), c.scratch + "/s.state" ); bool bundle = g.draw( 2 ); string f = "p" + to_string( k ) + ".ivf"; log += " entered after frame " + to_string( from );
    ToolRun r = bundle ? tool( c, { "xc-decode-bundle", "s.state" }, f + "\n" ) : tool( c, { "vp8decode", "-s", "s.state", "-o", "o.y4m", f } ); c.require( !r.crashed(), "crash", r.err + log ); if ( !fits ) c.require( !r.ok(), "wrong-state-accepted", log ); c.tag( fits ? "right state" : "wrong state" ); break; }
  }
  c.tag( "frames", n ); if ( n > 1 ) c.nontrivial( s.dg.h ^ hash<string>()( log ) ); c.sample( log );
}

static void states( pbt::Ctx & c )
{
  Src & g = c.g; Stream s = make( c, 4, 6 ); size_t n = s.fr.size(); string log = s.log; spit( c.scratch + "/i.ivf", ivf_file( s.w, s.h, s.fr ) );
  // a dump is the state after the frame asked for
  size_t at[ 2 ]; vector<Decoder> two; for ( int k = 0; k < 2; k++ ) {
    string out = "d" + to_string( k ), num; vector<string> cmd { "xc-dump" }; bool last = g.chance( 1, 4 ); at[ k ] = last ? n - 1 : g.draw( n ); size_t from = g.chance( 1, 3 ) ? g.draw( at[ k ] + 1 ) : 0; Decoder want = s.after[ at[ k ] ];
    if ( from || g.chance( 1, 5 ) ) { Decoder e = restored( from ? s.after[ from - 1 ] : Decoder( s.w, s.h ) ); uint32_t m = e.minihash(); for ( size_t i = from; i <= at[ k ]; i++ ) e.parse_and_decode_frame( chunk( s.fr[ i ] ) ); want = e; save( from ? s.after[ from - 1 ] : Decoder( s.w, s.h ), c.scratch + "/e.state" ); spit( c.scratch + "/j.ivf", ivf_file( s.w, s.h, part( s, from, n ), 30, 1, g.draw( 2 ) ? m : 0 ) ); cmd.push_back( "-S" ); cmd.push_back( "e.state" ); } else spit( c.scratch + "/j.ivf", ivf_file( s.w, s.h, s.fr ) );
    if ( !last ) { cmd.push_back( g.draw( 2 ) ? "-f" : "--frame-number" ); cmd.push_back( to_string( at[ k ] - from ) ); } cmd.push_back( "j.ivf" ); cmd.push_back( out );
    ToolRun r = tool( c, cmd ); c.require( r.ok(), "dump-fails", r.err + show( cmd ) + " " + log ); Bytes b = slurp( c.scratch + "/" + out ); save( want, c.scratch + "/want" ); two.push_back( restored( want ) ); c.require( b == slurp( c.scratch + "/want" ), "dumped-state", show( cmd ) + " frame " + to_string( at[ k ] ) + " " + log ); c.tag( from ? "dump from a state" : "dump" );
  }
  if ( g.chance( 1, 6 ) ) { ToolRun r = tool( c, { "xc-dump", "-f", to_string( n + g.draw( 3 ) ), "i.ivf", "none" } ); c.require( !r.ok() && !r.crashed(), "dump-of-no-frame", log ); c.require( !known_dir( c.scratch + "/none" ), "dump-of-no-frame", "file " + log ); c.tag( "frame past the end" ); }
  const Decoder & A = two[ 0 ], & B = two[ 1 ]; log += " dumps " + to_string( at[ 0 ] ) + "," + to_string( at[ 1 ] ); bool equal = A == B;
  ToolRun r = tool( c, { "xc-diff", "d0", "d1" } ); c.require( !r.crashed(), "crash", log ); c.require( r.ok() == equal && r.out.empty() == equal, "diff-verdict", r.out + log );
  auto says = [&]( const char * what, bool yes ) { c.require( ( r.out.find( what ) != string::npos ) == yes, "diff-report", string( what ) + ": '" + r.out + "' " + log ); };
  if ( !equal ) {
    auto ra = A.get_references(), rb = B.get_references(); auto dif = [&]( const RasterHandle & x, const RasterHandle & y ) { return !diff( planes( x.get(), false ), planes( y.get(), false ) ).empty(); }; bool l = dif( ra.last, rb.last ), go = dif( ra.golden, rb.golden ), al = dif( ra.alternative, rb.alternative );
    says( "Last references are different", l ); says( "Golden references are different", go ); says( "Alternative references are different", al ); says( "References are different.", l || go || al ); says( "Dimensions are different", false );
    auto sa = A.get_state(), sb = B.get_state(); auto & pa = sa.probability_tables; auto & pb = sb.probability_tables;
    says( "Coefficient probabilities", memcmp( &pa.coeff_probs, &pb.coeff_probs, sizeof pa.coeff_probs ) ); says( "Y-mode", memcmp( &pa.y_mode_probs, &pb.y_mode_probs, sizeof pa.y_mode_probs ) ); says( "UV-mode", memcmp( &pa.uv_mode_probs, &pb.uv_mode_probs, sizeof pa.uv_mode_probs ) ); says( "Motion vector", memcmp( &pa.motion_vector_probs, &pb.motion_vector_probs, sizeof pa.motion_vector_probs ) );
    says( "Segmentations are different", sa.segmentation != sb.segmentation ); says( "Filter adjustments are different", sa.filter_adjustments != sb.filter_adjustments );
  }
  // bit and sample counts
  Bytes x = slurp( c.scratch + "/d0" ), y = slurp( c.scratch + "/d1" ); r = tool( c, { "comp-states", "d0", "d1" } ); unsigned bits = 8 * abs( (int)x.size() - (int)y.size() ); for ( size_t i = 0; i < min( x.size(), y.size() ); i++ ) bits += __builtin_popcount( x[ i ] ^ y[ i ] );
  c.require( !r.crashed() && r.ok() == !bits, "comp-states-verdict", log ); ostringstream want; want << bits;
  if ( bits ) { auto p = planes( A.get_references().last.get(), false ), q = planes( B.get_references().last.get(), false ); unsigned d1 = 0, d2 = 0; auto f = [&]( const Bytes & u, const Bytes & v ) { for ( size_t i = 0; i < u.size(); i++ ) if ( u[ i ] != v[ i ] ) { d1++; d2 += abs( u[ i ] - v[ i ] ); } }; f( p.y, q.y ); f( p.u, q.u ); f( p.v, q.v ); double tot = p.w * p.h * 3 / 2; want << ' ' << d1 / tot << ' ' << (double)d2 / d1; }
  string got = r.out; auto nan = [&]( string t ) { size_t k; while ( ( k = t.find( "-nan" ) ) != string::npos ) t.erase( k, 1 ); return t; }; c.require( nan( got ) == nan( want.str() ) + "\n", "comp-states-figures", "'" + got + "' instead of '" + want.str() + "' " + log );
  c.tag( equal ? "equal states" : "different states" ); if ( n > 1 ) c.nontrivial( s.dg.h ^ hash<string>()( log ) ); c.sample( log );
}

static void figures( pbt::Ctx & c )
{
  Src & g = c.g; Stream s = make( c, 4, 6 ); size_t n = s.fr.size(); string log = s.log; Bytes file = ivf_file( s.w, s.h, s.fr ); spit( c.scratch + "/i.ivf", file );
  switch ( g.draw( 4 ) ) {
  case 0: { ToolRun r = tool( c, { "xc-framesize", "i.ivf" } ); ostringstream o; for ( size_t i = 0; i < n; i++ ) { char b[ 40 ]; snprintf( b, 40, "%08zu %zu\n", i, s.fr[ i ].size() ); o << b; } o << "Total " << file.size() << "\n"; c.require( r.ok() && r.out == o.str(), "frame-sizes", r.out + log ); c.tag( "xc-framesize" ); break; }
  case 1: { size_t k = g.draw( n + 1 ); spit( c.scratch + "/a.ivf", ivf_file( s.w, s.h, part( s, 0, k ) ) ); bool other = g.chance( 1, 6 ); spit( c.scratch + "/b.ivf", ivf_file( s.w + ( other && g.draw( 2 ) ), s.h + other, part( s, k, n ) ) ); bool named = g.draw( 4 ); vector<string> cmd { "xc-merge", "a.ivf", "b.ivf" }; if ( named ) cmd.push_back( "m.ivf" ); log += " merged at " + to_string( k );
    ToolRun r = tool( c, cmd ); if ( other ) { c.require( !r.ok(), "merge-of-different-sizes", log ); c.tag( "refused merge" ); break; } c.require( r.ok(), "merge-fails", r.err + log ); IVF m( c.scratch + ( named ? "/m.ivf" : "/output.ivf" ) ); c.require( m.frame_count() == n && m.width() == s.w && m.height() == s.h && m.fourcc() == "VP80", "merged-header", log ); for ( size_t i = 0; i < n; i++ ) { Chunk k2 = m.frame( i ); c.require( Bytes( k2.buffer(), k2.buffer() + k2.size() ) == s.fr[ i ], "merged-frame", to_string( i ) + " " + log ); } c.tag( "xc-merge" ); break; }
  case 2: { // quality of one video against another: another coding of changed pictures, or the raw pictures themselves
    while ( !s.fr.empty() && !s.shown.back() ) { s.fr.pop_back(); s.shown.pop_back(); } if ( s.pic.empty() ) return; spit( c.scratch + "/i.ivf", ivf_file( s.w, s.h, s.fr ) );
    auto y4m = [&]( const string & f, const vector<vpxref::Planes> & v ) { Bytes o; string h = "YUV4MPEG2 W" + to_string( s.w ) + " H" + to_string( s.h ) + " F30:1 Ip A1:1 C420jpeg\n"; o.insert( o.end(), h.begin(), h.end() ); for ( auto & p : v ) { string t = "FRAME\n"; o.insert( o.end(), t.begin(), t.end() ); cat( o, p ); } spit( f, o ); };
    auto other = s.pic; for ( auto & p : other ) { for ( unsigned k = g.draw( 6 ); k--; ) p.y[ g.draw( p.y.size() ) ] ^= 1 + g.draw( 255 ); if ( g.draw( 2 ) ) p.u[ g.draw( p.u.size() ) ] ^= 200; if ( g.draw( 2 ) ) p.v[ g.draw( p.v.size() ) ] ^= 100; } if ( g.chance( 1, 4 ) ) other.resize( 1 + g.draw( other.size() ) ); y4m( c.scratch + "/o.y4m", other );
    bool all = g.draw( 2 ), swap = g.draw( 2 ), both = g.chance( 1, 4 ), deflt = g.draw( 2 ); if ( both ) y4m( c.scratch + "/i.y4m", s.pic ); const string A = both ? "i.y4m" : "i.ivf", B = "o.y4m"; vector<string> cmd { "xc-ssim" }; if ( all ) cmd.push_back( g.draw( 2 ) ? "-a" : "--all-planes" );
    string f1 = swap ? "y4m" : both ? "y4m" : "ivf", f2 = swap ? ( both ? "y4m" : "ivf" ) : "y4m"; if ( !( f1 == "ivf" && deflt ) ) { cmd.push_back( "-1" ); cmd.push_back( f1 ); } if ( !( f2 == "ivf" && deflt ) ) { cmd.push_back( "--video2-format=" + f2 ); } cmd.push_back( swap ? B : A ); cmd.push_back( swap ? A : B );
    ToolRun r = tool( c, cmd ); c.require( r.ok(), "ssim-fails", show( cmd ) + ": " + r.err + log ); unique_ptr<FrameInput> in[ 2 ]; for ( int k = 0; k < 2; k++ ) { string f = c.scratch + "/" + cmd[ cmd.size() - 2 + k ]; if ( ( k ? f2 : f1 ) == "ivf" ) in[ k ].reset( new IVFReader( f ) ); else in[ k ].reset( new YUV4MPEGReader( f ) ); }
    ostringstream o; for ( ;; ) { auto p = in[ 0 ]->get_next_frame(), q = in[ 1 ]->get_next_frame(); if ( !p.initialized() || !q.initialized() ) break; o << ssim( p.get().get().Y(), q.get().get().Y() ); if ( all ) { o << "\t" << ssim( p.get().get().U(), q.get().get().U() ) << "\t" << ssim( p.get().get().V(), q.get().get().V() ); } o << "\n"; }
    c.require( r.out == o.str(), "ssim-figures", show( cmd ) + ": '" + r.out + "' instead of '" + o.str() + "' " + log ); c.tag( "xc-ssim" ); log += " " + show( cmd ); break; }
  default: { // what the dissector prints about each frame
    string opt = "-"; for ( char ch : string( "mpc" ) ) if ( g.draw( 2 ) ) opt += ch; vector<string> cmd { "xc-dissect" }; if ( opt.size() > 1 ) cmd.push_back( opt ); size_t from = g.chance( 1, 3 ) ? g.draw( n ) : 0; spit( c.scratch + "/j.ivf", ivf_file( s.w, s.h, part( s, from, n ) ) ); if ( from ) { save( s.after[ from - 1 ], c.scratch + "/e.state" ); cmd.push_back( "-s" ); cmd.push_back( "e.state" ); } size_t only = n; if ( g.draw( 2 ) ) { only = g.draw( n - from ); cmd.push_back( "-f" ); cmd.push_back( to_string( only ) ); } cmd.push_back( "j.ivf" );
    ToolRun r = tool( c, cmd ); log += " " + show( cmd ); c.require( r.ok(), "dissect-fails", r.err + log ); c.tag( "xc-dissect" );
    bool mb = opt.find( 'm' ) != string::npos, co = mb && opt.find( 'c' ) != string::npos; ostringstream o; size_t zero = 0, nonzero = 0;
    for ( size_t i = from; i < n; i++ ) {
      Decoder d = i ? s.after[ i - 1 ] : Decoder( s.w, s.h ); auto u = d.decompress_frame( chunk( s.fr[ i ] ) ); if ( only != n && i - from != only ) continue;
      o << ">> Frame #" << i - from << " " << ( u.key_frame() ? "(KF)" : "(IF)" ) << "\n   Size: " << s.fr[ i ].size() << " B\n"; if ( !s.shown[ i ] ) o << "(hidden frame)\n"; o << ( u.key_frame() ? "[Keyframe Header]\n" : "[Interframe Header]\n" );
      auto blocks = [&]( auto & m ) { if ( co ) { auto one = [&]( auto & q ) { q.has_nonzero() ? nonzero++ : zero++; }; m.Y().forall( one ); if ( m.Y2().coded() ) one( m.Y2() ); m.U().forall( one ); m.V().forall( one ); } };
      static const char * names[] = { "DC_PRED", "V_PRED", "H_PRED", "TM_PRED", "B_PRED", "NEARESTMV", "NEARMV", "ZEROMV", "NEWMV", "SPLITMV" }, * refs[] = { "CURRENT_FRAME", "LAST_FRAME", "GOLDEN_FRAME", "ALTREF_FRAME" };
      if ( u.key_frame() ) { KeyFrame f = d.parse_frame<KeyFrame>( u ); o << "y_ac_qi = " << (int)f.header().quant_indices.y_ac_qi << "\n"; if ( mb ) f.macroblocks().forall_ij( [&]( const KeyFrameMacroblock & m, unsigned x, unsigned y ) { o << "Macroblock [ " << x << ", " << y << " ]\nPrediction Mode: " << names[ m.y_prediction_mode() ] << "\n"; blocks( m ); } ); }
      else { InterFrame f = d.parse_frame<InterFrame>( u ); o << "y_ac_qi = " << (int)f.header().quant_indices.y_ac_qi << "\n"; if ( mb ) f.macroblocks().forall_ij( [&]( const InterFrameMacroblock & m, unsigned x, unsigned y ) { o << "Macroblock [ " << x << ", " << y << " ]\nPrediction Mode: " << names[ m.y_prediction_mode() ] << "\n"; if ( m.inter_coded() ) o << "Base Motion Vector: ( " << m.base_motion_vector().x() << ", " << m.base_motion_vector().y() << " )\nReference: " << refs[ m.header().reference() ] << "\n"; blocks( m ); } ); }
    }
    ostringstream got; size_t gz = 0, gn = 0; istringstream is( r.out ); string l; bool y = false; auto starts = [&]( const char * t ) { return !l.compare( 0, strlen( t ), t ); };
    while ( getline( is, l ) ) { if ( starts( ">> Frame" ) || starts( "   Size: " ) || starts( "(hidden" ) || starts( "[Keyframe H" ) || starts( "[Interframe H" ) || starts( "y_ac_qi" ) || starts( "Macroblock [" ) || starts( "Base Motion" ) || starts( "Reference: " ) ) got << l << "\n"; if ( y && starts( "Prediction Mode" ) ) { got << l << "\n"; y = false; } if ( l == "<Y>" ) y = true; if ( l == "ALL ZERO" ) gz++; if ( starts( "DCT coeffs:" ) ) gn++; }
    if ( got.str() != o.str() ) { istringstream A( got.str() ), B( o.str() ); string la, lb; do { la = lb = "(nothing)"; getline( A, la ); getline( B, lb ); } while ( la == lb && A && B ); c.fail( "dissection", "'" + la + "' instead of '" + lb + "' " + log ); } c.require( !co || ( gz == zero && gn == nonzero ), "dissected-blocks", log );
    break; }
  }
  c.tag( "frames", n ); if ( n > 1 ) c.nontrivial( s.dg.h ^ hash<string>()( log ) ); c.sample( log );
}

// every macroblock keeps its modes and vectors and loses its residue
static void zero_out( pbt::Ctx & c )
{
  Stream s = make( c, 4, 5 ); size_t n = s.fr.size(); string log = s.log; spit( c.scratch + "/i.ivf", ivf_file( s.w, s.h, s.fr, 24, 1001 ) ); ToolRun r = tool( c, { "xc-zero-out-residues", "i.ivf", "o.ivf" } ); c.require( r.ok(), "refused", r.err + log );
  IVF o( c.scratch + "/o.ivf" ); c.require( o.frame_count() == n && o.width() == s.w && o.height() == s.h && o.frame_rate() == 24 && o.time_scale() == 1001 && o.fourcc() == "VP80", "file-header", log ); vpxref::Decoder ref; size_t mbs = 0;
  for ( size_t i = 0; i < n; i++ ) {
    string at = "frame " + to_string( i ) + " of " + log; Chunk k = o.frame( i ); Bytes b( k.buffer(), k.buffer() + k.size() ); c.require( !ref.decode( b ), "libvpx-refuses", at ); Decoder d = i ? s.after[ i - 1 ] : Decoder( s.w, s.h ), e = d; auto u = d.decompress_frame( chunk( s.fr[ i ] ) ), v = e.decompress_frame( chunk( b ) ); c.require( u.key_frame() == v.key_frame() && u.show_frame() == v.show_frame(), "frame-kind", at );
    if ( u.key_frame() ) { KeyFrame x = d.parse_frame<KeyFrame>( u ), y = e.parse_frame<KeyFrame>( v ); c.require( x == y, "key-frame-changed", at ); d.decode_frame( x ); e.decode_frame( y ); c.require( d == e, "key-frame-changed", at ); continue; }
    InterFrame x = d.parse_frame<InterFrame>( u ), y = e.parse_frame<InterFrame>( v ); c.require( d.get_state() == e.get_state(), "state-changed", at ); auto & hx = x.header(); auto & hy = y.header();
    c.require( hx.quant_indices == hy.quant_indices && hx.refresh_last == hy.refresh_last && hx.refresh_golden_frame == hy.refresh_golden_frame && hx.refresh_alternate_frame == hy.refresh_alternate_frame && hx.refresh_entropy_probs == hy.refresh_entropy_probs && hx.loop_filter_level == hy.loop_filter_level && hx.sharpness_level == hy.sharpness_level && hx.copy_buffer_to_golden == hy.copy_buffer_to_golden && hx.copy_buffer_to_alternate == hy.copy_buffer_to_alternate && hx.sign_bias_golden == hy.sign_bias_golden && hx.sign_bias_alternate == hy.sign_bias_alternate, "header-changed", at );
    x.macroblocks().forall_ij( [&]( const InterFrameMacroblock & m, unsigned cx, unsigned cy ) { auto & t = y.macroblocks().at( cx, cy ); mbs++; string mb = " macroblock " + to_string( cx ) + "," + to_string( cy ) + " " + at; c.require( m.inter_coded() == t.inter_coded() && m.y_prediction_mode() == t.y_prediction_mode() && m.uv_prediction_mode() == t.uv_prediction_mode(), "mode-changed", mb ); c.require( !t.has_nonzero(), "residue-left", mb );
      c.require( m.segment_id() == t.segment_id() && m.header().reference() == t.header().reference(), "header-changed", mb );
      m.Y().forall_ij( [&]( const YBlock & q, unsigned bx, unsigned by ) { c.require( q.prediction_mode() == t.Y().at( bx, by ).prediction_mode() && ( !m.inter_coded() || q.motion_vector() == t.Y().at( bx, by ).motion_vector() ), "mode-changed", mb ); for ( int z = 0; z < 16; z++ ) c.require( !t.Y().at( bx, by ).coefficients().at( z ), "residue-left", mb ); } ); } );
  }
  c.tag( "frames", n ); c.tag( "macroblocks", mbs ); if ( mbs ) c.nontrivial( s.dg.h ); c.sample( log );
}

// xc-enc gives what the library's encoder gives with the same settings
static void encoding( pbt::Ctx & c )
{
  Src & g = c.g; int w, h; draw_pic_size( g, w, h, 3 ); if ( w < 8 ) w = 8; if ( h < 8 ) h = 8; Pics p( g, w, h ); int n = 1 + g.draw( 4 ); vector<string> cmd { "xc-enc" }; Bytes raw; Digest dg; ostringstream log; log << w << "x" << h << " " << n << " pictures";
  bool ivf = g.draw( 2 ); string input, stdin_data; vector<RasterHandle> in;
  if ( ivf ) { Encoder e( w, h, false, REALTIME_QUALITY ); vector<Bytes> fr; for ( int i = 0; i < n; i++ ) { p.next(); p.add( dg ); fr.push_back( e.encode_with_quantizer( p.raster().get(), g.draw( 100 ) ) ); } spit( c.scratch + "/i.ivf", ivf_file( w, h, fr ) ); input = "i.ivf"; if ( g.draw( 2 ) ) { cmd.push_back( "-i" ); cmd.push_back( "ivf" ); } IVFReader r( c.scratch + "/i.ivf" ); for ( ;; ) { auto o = r.get_next_frame(); if ( !o.initialized() ) break; in.push_back( o.get() ); } }
  else { string t = "YUV4MPEG2 W" + to_string( w ) + " H" + to_string( h ) + " F24:1 Ip A1:1 C420\n"; raw.insert( raw.end(), t.begin(), t.end() ); for ( int i = 0; i < n; i++ ) { p.next(); p.add( dg ); RasterHandle r = p.raster(); string f = "FRAME\n"; raw.insert( raw.end(), f.begin(), f.end() ); cat( raw, planes( r.get(), true ) ); } spit( c.scratch + "/i.y4m", raw ); cmd.push_back( "-i" ); cmd.push_back( "y4m" ); if ( g.draw( 2 ) ) { input = "-"; stdin_data.assign( raw.begin(), raw.end() ); } else input = "i.y4m"; YUV4MPEGReader r( c.scratch + "/i.y4m" ); for ( ;; ) { auto o = r.get_next_frame(); if ( !o.initialized() ) break; in.push_back( o.get() ); } }
  if ( (int)in.size() != n ) c.fail( "harness:input", log.str() );
  bool two = g.chance( 1, 3 ), rt = g.draw( 2 ); if ( two ) cmd.push_back( g.draw( 2 ) ? "-2" : "--two-pass" ); if ( rt ) { cmd.push_back( "-q" ); cmd.push_back( "rt" ); } else if ( g.chance( 1, 3 ) ) { cmd.push_back( "-q" ); cmd.push_back( "best" ); }
  Decoder start( w, h ); bool from = g.chance( 1, 3 ); if ( from ) { Gen gen( g, w, h, Features::draw( g ) ); for ( int i = 1 + g.draw( 3 ); i--; ) start.parse_and_decode_frame( chunk( gen.frame() ) ); save( start, c.scratch + "/s.state" ); start = restored( start ); cmd.push_back( "-I" ); cmd.push_back( "s.state" ); }
  int mode = g.draw( 4 ); vector<size_t> sizes; double target = 0.99; int q = 0; if ( mode == 1 ) { target = ( 50 + g.draw( 50 ) ) / 100.0; ostringstream t; t << target; cmd.push_back( "-s" ); cmd.push_back( t.str() ); } if ( mode == 2 ) { q = g.draw( 128 ); cmd.push_back( "-y" ); cmd.push_back( to_string( q ) ); }
  if ( mode == 3 ) { ostringstream t; for ( int i = 0; i < n; i++ ) { sizes.push_back( 30 + g.draw( 8000 ) ); t << sizes.back() << "\n"; } cmd.push_back( "-F" ); if ( input != "-" && g.draw( 2 ) ) { cmd.push_back( "-" ); stdin_data = t.str(); } else { string x = t.str(); spit( c.scratch + "/sizes", Bytes( x.begin(), x.end() ) ); cmd.push_back( "sizes" ); } }
  string out = "output.ivf"; if ( g.draw( 4 ) ) { out = "o.ivf"; cmd.push_back( "-o" ); cmd.push_back( out ); } cmd.push_back( input ); log << ": " << show( cmd );
  ToolRun r = tool( c, cmd, stdin_data ); c.require( r.ok(), "encoder-fails", r.err + log.str() ); IVF o( c.scratch + "/" + out ); c.require( (int)o.frame_count() == n && o.width() == w && o.height() == h && o.fourcc() == "VP80", "file-header", log.str() ); c.require( o.expected_decoder_minihash() == ( from ? start.minihash() : 0 ), "entry-hash", log.str() );
  EncoderQuality eq = rt ? REALTIME_QUALITY : BEST_QUALITY; unique_ptr<Encoder> e( from ? new Encoder( start, two, eq ) : new Encoder( w, h, two, eq ) );
  for ( int i = 0; i < n; i++ ) { Bytes want; if ( mode == 2 ) { e->estimate_frame_size( in[ i ].get(), q ); want = e->encode_with_quantizer( in[ i ].get(), q ); } else if ( mode == 3 ) want = e->encode_with_target_size( in[ i ].get(), sizes[ i ] ); else want = e->encode_with_minimum_ssim( in[ i ].get(), target ); Chunk k = o.frame( i ); c.require( Bytes( k.buffer(), k.buffer() + k.size() ) == want, "encoded-frame", "frame " + to_string( i ) + " " + log.str() ); }
  c.tag( mode == 2 ? "quantizer" : mode == 3 ? "sizes" : "ssim" ); if ( from ) c.tag( "from a state" ); c.nontrivial( dg.h ^ hash<string>()( log.str() ) ); c.sample( log.str() );
}

// xc-enc -r gives what the library's re-encoder gives, and the state it saves is the state its file leads to
static void reencoding( pbt::Ctx & c )
{
  Src & g = c.g; int w, h; draw_pic_size( g, w, h, 3 ); Pics p( g, w, h ); int n = 1 + g.draw( 4 ); ostringstream log; log << w << "x" << h << " " << n; Digest dg; bool two = g.chance( 1, 3 ), rt = g.draw( 2 ); EncoderQuality eq = rt ? REALTIME_QUALITY : BEST_QUALITY;
  Decoder start( w, h ); { Encoder e( w, h, two, eq ); Pics q( g, w, h ); for ( int i = 1 + g.draw( 2 ); i--; ) { q.next(); start.parse_and_decode_frame( chunk( e.encode_with_quantizer( q.raster().get(), g.draw( 128 ) ) ) ); } } save( start, c.scratch + "/s.state" ); start = restored( start );
  Encoder pe( w, h, two, eq ); Decoder pd( w, h ); vector<string> cmd { "xc-enc", "-r", "-i", "y4m", "-I", "s.state", "-p", "p.ivf", "-o", "o.ivf" }; uint32_t fp = 0;
  if ( g.chance( 1, 3 ) ) { p.next(); pd.parse_and_decode_frame( chunk( pe.encode_with_quantizer( p.raster().get(), g.draw( 128 ) ) ) ); save( pd, c.scratch + "/p.state" ); pd = restored( pd ); pe = Encoder( pd, two, eq ); cmd.push_back( "-S" ); cmd.push_back( "p.state" ); if ( g.draw( 2 ) ) fp = pd.minihash(); }
  vector<RasterHandle> in; vector<Bytes> fr; vector<pair<Optional<KeyFrame>, Optional<InterFrame>>> preds; Bytes raw; string t = "YUV4MPEG2 W" + to_string( w ) + " H" + to_string( h ) + " F24:1 Ip A1:1 C420\n"; raw.insert( raw.end(), t.begin(), t.end() );
  for ( int i = 0; i < n; i++ ) { p.next(); p.add( dg ); RasterHandle r = p.raster(); cat( ( raw.insert( raw.end(), { 'F', 'R', 'A', 'M', 'E', '\n' } ), raw ), planes( r.get(), true ) ); fr.push_back( pe.encode_with_quantizer( r.get(), g.draw( 128 ) ) ); auto u = pd.decompress_frame( chunk( fr.back() ) ); if ( u.key_frame() ) { KeyFrame k = pd.parse_frame<KeyFrame>( u ); pd.decode_frame( k ); preds.emplace_back( move( k ), Optional<InterFrame>() ); } else { InterFrame k = pd.parse_frame<InterFrame>( u ); pd.decode_frame( k ); preds.emplace_back( Optional<KeyFrame>(), move( k ) ); } }
  spit( c.scratch + "/i.y4m", raw ); spit( c.scratch + "/p.ivf", ivf_file( w, h, fr, 1, 1, fp ) ); { YUV4MPEGReader r( c.scratch + "/i.y4m" ); for ( ;; ) { auto o = r.get_next_frame(); if ( !o.initialized() ) break; in.push_back( o.get() ); } }
  bool extra = n > 1 && preds[ 0 ].first.initialized() && preds[ 1 ].second.initialized() && g.chance( 1, 3 ), saved = g.chance( 3, 4 ); double weight = 1; if ( two ) cmd.push_back( "-2" ); if ( rt ) { cmd.push_back( "-q" ); cmd.push_back( "rt" ); } if ( extra ) cmd.push_back( g.draw( 2 ) ? "-e" : "--extra-frame-chunk" ); if ( g.draw( 2 ) ) { weight = g.draw( 5 ) / 4.0; ostringstream x; x << weight; cmd.push_back( "-w" ); cmd.push_back( x.str() ); } if ( saved ) { cmd.push_back( "-O" ); cmd.push_back( "o.state" ); } if ( g.draw( 2 ) ) cmd.push_back( "-W" ); cmd.push_back( "i.y4m" ); log << ": " << show( cmd );
  ToolRun r = tool( c, cmd ); c.require( r.ok(), "encoder-fails", r.err + log.str() );
  Encoder e( start, two, eq ); { IVFWriter wr( c.scratch + "/w.ivf", "VP80", w, h, 1, 1 ); wr.set_expected_decoder_entry_hash( start.minihash() ); e.reencode( in, preds, weight, extra, wr ); } c.require( slurp( c.scratch + "/o.ivf" ) == slurp( c.scratch + "/w.ivf" ), "reencoded-file", log.str() );
  // the saved state is where decoding the file ends
  if ( saved ) { ToolRun d = tool( c, { "xc-dump", "-S", "s.state", "o.ivf", "x.state" } ); c.require( d.ok(), "dump-fails", d.err + log.str() ); c.require( slurp( c.scratch + "/x.state" ) == slurp( c.scratch + "/o.state" ), "saved-state", log.str() ); d = tool( c, { "xc-diff", "x.state", "o.state" } ); c.require( d.ok() && d.out.empty(), "saved-state", d.out + log.str() ); c.tag( "state saved" ); }
  c.tag( "frames", n ); c.nontrivial( dg.h ^ hash<string>()( log.str() ) ); c.sample( log.str() );
}

int main( int argc, char ** argv )
{
  vpxref::api();
  vector<pbt::Sub> subs { { "decoders", decoders, 3000, 60000 }, { "states", states, 1500, 30000 }, { "figures", figures, 2500, 50000 }, { "zero-out", zero_out, 1500, 30000 }, { "encode", encoding, 1500, 30000 }, { "reencode", reencoding, 800, 20000 } };
  return pbt::Runner( "P22", subs ).main( argc, argv );
}
