// P12: re-encoding a chunk against another state, and terminating a chunk.
#include "pbt.hh"
#include "vp8gen.hh"
#include "alf.hh"
#include "picgen.hh"
#include "mutate.hh"
#include "tool.hh"
#include "encoder.hh"
#include "ivf.hh"
#include "ivf_writer.hh"
#include "enc_state_serializer.hh"
using namespace std;
using namespace vp8gen;
typedef pair<Optional<KeyFrame>, Optional<InterFrame>> Pred;

static void all_last( pbt::Ctx & c, const Decoder & d, const string & where )
{
  References r = d.get_references(); vpxref::Planes l = planes( r.last.get(), false );
  c.require( diff( planes( r.golden.get(), false ), l ).empty() && diff( planes( r.alternative.get(), false ), l ).empty(), "not-terminated", where );
}

static void reencode( pbt::Ctx & c, int maxmb )
{
  Src & g = c.g; int w, h; draw_pic_size( g, w, h, maxmb ); int mw = ( w + 15 ) / 16 * 16, mh = ( h + 15 ) / 16 * 16; ostringstream log; log << w << "x" << h;
  bool two = g.draw( 2 ); EncoderQuality q = g.draw( 2 ) ? REALTIME_QUALITY : BEST_QUALITY; Digest dg;
  // where the chunk is to start from
  Decoder dec( w, h ); vpxref::Decoder ref;
  if ( g.draw( 2 ) ) { Encoder e( w, h, two, q ); Pics p( g, w, h ); int n = 1 + g.draw( 3 ); log << " start: encoder x" << n; for ( int i = 0; i < n; i++ ) { p.next(); p.add( dg ); Bytes b = e.encode_with_quantizer( p.raster().get(), g.draw( 128 ) ); dec.parse_and_decode_frame( chunk( b ) ); ref.decode( b ); } }
  else { Gen gen( g, w, h, Features::draw( g ) ); int n = 1 + g.draw( 3 ); log << " start: stream x" << n; for ( int i = 0; i < n; i++ ) { Bytes b = gen.frame(); dg.add( b ); dec.parse_and_decode_frame( chunk( b ) ); ref.decode( b ); } }
  Decoder start = dec;
  // the chunk's own coding, from a state of its own
  vector<RasterHandle> pics; vector<Bytes> chunk_frames; vector<Pred> preds; int n = 1 + g.draw( 5 ); Pics p( g, w, h ); bool inter_start = false; vector<Bytes> lead; bool by_encoder = g.draw( 2 );
  unique_ptr<Encoder> pe; unique_ptr<Gen> gen; Features f = Features::draw( g ); f.hidden = false; Decoder pd( w, h );
  if ( by_encoder ) { pe.reset( new Encoder( w, h, two, q ) ); log << ", chunk by encoder"; } else { gen.reset( new Gen( g, w, h, f ) ); log << ", chunk generated"; }
  if ( g.chance( 1, 4 ) ) { inter_start = true; log << " starting with an inter frame"; p.next(); Bytes b = by_encoder ? pe->encode_with_quantizer( p.raster().get(), g.draw( 128 ) ) : gen->frame(); pd.parse_and_decode_frame( chunk( b ) ); lead.push_back( b ); }
  for ( int i = 0; i < n; i++ ) {
    p.next(); p.add( dg ); pics.push_back( p.raster() ); Bytes b;
    if ( by_encoder ) { if ( i && g.chance( 1, 10 ) ) pe.reset( new Encoder( w, h, two, q ) ); b = pe->encode_with_quantizer( pics.back().get(), g.draw( 128 ) ); } else b = gen->frame();
    dg.add( b ); chunk_frames.push_back( b ); auto u = pd.decompress_frame( chunk( chunk_frames.back() ) ); log << ( u.key_frame() ? " K" : " P" );
    if ( u.key_frame() ) { KeyFrame k = pd.parse_frame<KeyFrame>( u ); if ( i && k.header().update_segmentation.initialized() ) c.tag( "key frame with segments" ); pd.decode_frame( k ); preds.emplace_back( move( k ), Optional<InterFrame>() ); } else { InterFrame k = pd.parse_frame<InterFrame>( u ); if ( k.header().update_segmentation.initialized() ) c.tag( "inter frame with segments" ); pd.decode_frame( k ); preds.emplace_back( Optional<KeyFrame>(), move( k ) ); }
  }
  if ( getenv( "VP_DUMP" ) ) { mkdir( getenv( "VP_DUMP" ), 0777 ); spit( string( getenv( "VP_DUMP" ) ) + "/chunk.ivf", ivf_file( w, h, [&] { vector<Bytes> v = lead; v.insert( v.end(), chunk_frames.begin(), chunk_frames.end() ); return v; }(), 25, 2 ) ); }
  bool extra = n > 1 && preds[ 0 ].first.initialized() && preds[ 1 ].second.initialized() && g.chance( 1, 3 ); double weight = g.draw( 5 ) / 4.0; if ( extra ) log << " extra-frame"; log << " weight " << weight;
  string path = c.scratch + "/o.ivf"; Encoder enc( start, two, q ); 
  try { IVFWriter wr( path, "VP80", w, h, 1, 1 ); wr.set_expected_decoder_entry_hash( start.minihash() ); enc.reencode( pics, preds, weight, extra, wr ); } catch ( const Unsupported & e ) { if ( preds[ extra ].first.initialized() && preds[ extra ].first.get().header().update_segmentation.initialized() ) { c.tag( "refused" ); return; } throw; } catch ( const exception & e ) { c.fail( "refused", string( e.what() ) + " " + log.str() ); }
  IVF ivf( path ); c.require( (int)ivf.frame_count() == n - extra, "frame-count", log.str() ); c.require( start.minihash_match( ivf.expected_decoder_minihash() ), "entry-hash", log.str() );
  for ( unsigned i = 0; i < ivf.frame_count(); i++ ) {
    string at = "frame " + to_string( i ) + ": " + log.str(); Chunk k = ivf.frame( i ); Bytes b( k.buffer(), k.buffer() + k.size() ); Optional<RasterHandle> o;
    if ( getenv( "VP_DUMP" ) ) { spit( string( getenv( "VP_DUMP" ) ) + "/f" + to_string( i ), b ); }
    if ( i == 0 ) c.require( b[ 0 ] & 1, "starts-with-key-frame", at );
    Decoder before = dec; UncompressedChunk s0 = dec.decompress_frame( chunk( b ) );
    try { o = dec.parse_and_decode_frame( chunk( b ) ); } catch ( const exception & e ) { c.fail( "undecodable", string( e.what() ) + " " + at ); }
    c.require( !ref.decode( b ), "libvpx-refuses", at ); vpxref::Planes x; bool s = ref.shown( x ); c.require( o.initialized(), "hidden", at ); if ( s ) { string d = diff( planes( o.get().get(), true ), x ); c.require( d.empty(), "libvpx-picture", d + " " + at ); }
    References r = dec.get_references(); const RasterHandle * hs[] = { &r.last, &r.golden, &r.alternative }; for ( int t = 0; t < 3; t++ ) { vpxref::Planes y; ref.reference( 1 << t, mw, mh, y ); string d = diff( planes( hs[ t ]->get(), false ), y ); c.require( d.empty(), "libvpx-reference", d + " " + at ); }
    if ( by_encoder && !s0.key_frame() && w * h >= 256 ) { // the picture asked for, as closely as the frame's quantizer lets it (a coefficient error below one step is at most half a step per sample, on average)
      Decoder t = before; InterFrame k = t.parse_frame<InterFrame>( s0 ); Quantizer qz( k.header().quant_indices );
      if ( k.header().loop_filter_level <= 8 ) {
        vpxref::Planes A = planes( o.get().get(), true ), B = planes( pics[ i + extra ].get(), true ); auto far = [&]( const vector<uint8_t> & x, const vector<uint8_t> & y, int step ) { double e = 0; for ( size_t z = 0; z < x.size(); z++ ) e += abs( x[ z ] - y[ z ] ); return e / x.size() > 3 + 0.75 * step; };
        c.require( !far( A.y, B.y, qz.y_ac ), "not-the-picture-asked-for", at ); if ( w > 15 && h > 15 ) c.require( !far( A.u, B.u, qz.uv_ac ) && !far( A.v, B.v, qz.uv_ac ), "not-the-picture-asked-for", "chroma " + at ); c.tag( "compared with the picture asked for" );
      }
    }
  }
  Decoder ed = enc.export_decoder(); string d = diff( planes( ed.get_references().last.get(), false ), planes( dec.get_references().last.get(), false ) ); c.require( d.empty(), "final-picture", d + " " + log.str() ); c.require( ed.get_state() == dec.get_state(), "final-state", log.str() ); c.require( ed == dec && enc.minihash() == dec.minihash(), "final-decoder", log.str() );
  all_last( c, dec, log.str() );
  c.tag( by_encoder ? "chunk by the encoder" : "generated chunk" ); if ( extra ) c.tag( "extra frame" ); if ( inter_start ) c.tag( "starts with an inter frame" ); c.tag( "frames", n ); c.nontrivial( dg.h ); c.sample( log.str() );
}

// splitting a chunk at any point, and re-encoding piece by piece, gives what the re-encoder reports for each piece
static void terminate_chunk( pbt::Ctx & c )
{
  Src & g = c.g; Features f = Features::draw( g ); int w, h; Gen::draw_size( g, f, w, h, 3 ); Gen gen( g, w, h, f ); int n = 1 + g.draw( 5 ); vector<Bytes> fr; Digest dg; for ( int i = 0; i < n; i++ ) { fr.push_back( gen.frame() ); dg.add( fr.back() ); }
  string log = to_string( w ) + "x" + to_string( h ) + " " + to_string( n ) + " frames"; spit( c.scratch + "/i.ivf", ivf_file( w, h, fr, 25, 2 ) );
  vector<string> cmd { "xc-terminate-chunk", "i.ivf", "o.ivf" }; bool st = g.draw( 2 ); if ( st ) cmd.push_back( "o.state" );
  ToolRun r = tool( c, cmd ); c.require( r.ok(), "refused", r.err + log ); IVF ivf( c.scratch + "/o.ivf" ); c.require( (int)ivf.frame_count() == n && ivf.width() == w && ivf.height() == h && ivf.fourcc() == "VP80" && ivf.frame_rate() == 25 && ivf.time_scale() == 2, "file-header", log );
  Decoder a( w, h ), b( w, h ); vpxref::Decoder ref;
  for ( int i = 0; i < n; i++ ) {
    string at = "frame " + to_string( i ) + " of " + log; Chunk k = ivf.frame( i ); Bytes x( k.buffer(), k.buffer() + k.size() ); RasterHandle pa = a.get_frame_output( chunk( fr[ i ] ) ).second; 
    pair<bool, RasterHandle> pb { false, pa }; try { pb = b.get_frame_output( chunk( x ) ); } catch ( const exception & e ) { c.fail( "undecodable", string( e.what() ) + at ); }
    string d = diff( planes( pb.second.get(), false ), planes( pa.get(), false ) ); c.require( d.empty(), "picture", d + " " + at ); if ( i + 1 < n ) c.require( a == b, "state", at ); else c.require( a.get_state() == b.get_state(), "state", at );
    c.require( !ref.decode( x ), "libvpx-refuses", at ); vpxref::Planes y; if ( ref.shown( y ) && pb.first ) { d = diff( y, planes( pb.second.get(), true ) ); c.require( d.empty(), "libvpx-picture", d + " " + at ); }
    if ( i + 1 == n ) { all_last( c, b, at ); d = diff( planes( b.get_references().last.get(), false ), planes( pa.get(), false ) ); c.require( d.empty(), "last-picture", d + " " + at ); }
  }
  if ( st ) { Decoder s = EncoderStateDeserializer::build<Decoder>( c.scratch + "/o.state" ); c.require( s.get_state() == b.get_state(), "saved-state", log + ( s.get_state().probability_tables == b.get_state().probability_tables ? "" : "; probabilities" ) + ( s.get_state().segmentation == b.get_state().segmentation ? "" : "; segmentation" ) + ( s.get_state().filter_adjustments == b.get_state().filter_adjustments ? "" : "; filter deltas" ) ); string d = diff( planes( s.get_references().last.get(), false ), planes( b.get_references().last.get(), false ) ); c.require( d.empty(), "saved-picture", d + log ); c.require( s == b, "saved-decoder", log ); }
  c.tag( st ? "with state" : "without state" ); c.nontrivial( dg.h ); c.sample( log );
}

int main( int argc, char ** argv )
{
  vpxref::api();
  vector<pbt::Sub> subs { { "reencode", []( pbt::Ctx & c ) { reencode( c, 4 ); }, 12000, 200000 }, { "reencode-large", []( pbt::Ctx & c ) { reencode( c, 9 ); }, 1500, 20000 }, { "terminate", terminate_chunk, 3000, 60000 } };
  return pbt::Runner( "P12", subs ).main( argc, argv );
}
