// A list of codec operations that can be written to a file and run in any build.
#pragma once
#include "alf.hh"
#include "src.hh"
#include "encoder.hh"
#include "shim/picsum.hh"
#include <memory>
#include <cstring>

namespace codecrun {
struct Op { char kind; int32_t a = 0, b = 0; Bytes blob; };       // D frame (a: error concealment) | N new encoder (a two-pass, b quality) | T encoder taking over the decoder | q s m e: picture with argument a | x export
struct Job { int32_t w = 0, h = 0; std::vector<Op> ops; };
inline void put( Bytes & o, uint32_t v ) { for ( int i = 0; i < 4; i++ ) o.push_back( v >> ( 8 * i ) ); }
inline Bytes write( const Job & j ) { Bytes o; put( o, j.w ); put( o, j.h ); put( o, j.ops.size() ); for ( auto & x : j.ops ) { o.push_back( x.kind ); put( o, x.a ); put( o, x.b ); put( o, x.blob.size() ); o.insert( o.end(), x.blob.begin(), x.blob.end() ); } return o; }
inline Job read( const Bytes & b ) { size_t p = 0; auto get = [&] { uint32_t v; memcpy( &v, &b.at( p + 3 ) - 3, 4 ); p += 4; return v; }; Job j; j.w = get(); j.h = get(); uint32_t n = get(); for ( uint32_t i = 0; i < n; i++ ) { Op o; o.kind = b.at( p++ ); o.a = get(); o.b = get(); uint32_t l = get(); o.blob.assign( b.begin() + p, b.begin() + p + l ); p += l; j.ops.push_back( o ); } return j; }
inline RasterHandle picture( int w, int h, const Bytes & p ) { MutableRasterHandle m( w, h ); size_t at = 0; for ( int k = 0; k < 3; k++ ) { TwoD<uint8_t> & t = k == 0 ? m.get().Y() : k == 1 ? m.get().U() : m.get().V(); for ( unsigned y = 0; y < t.height(); y++ ) for ( unsigned x = 0; x < t.width(); x++ ) t.at( x, y ) = p.at( at++ ); } return RasterHandle( std::move( m ) ); }
// one line per operation
inline std::vector<std::string> run( const Job & j )
{
  std::vector<std::string> out; Decoder d( j.w, j.h ); std::unique_ptr<Encoder> e; char buf[ 128 ]; bool two = false; EncoderQuality q = BEST_QUALITY;
  for ( auto & o : j.ops ) {
    try {
      switch ( o.kind ) {
      case 'D': { d.set_error_concealment( o.a ); Bytes b( o.blob ); b.shrink_to_fit(); auto r = d.parse_and_decode_frame( chunk( b ) ); auto f = d.get_references(); snprintf( buf, sizeof buf, "D %d %016llx %016llx %016llx %016llx %08x", (int)r.initialized(), (unsigned long long)( r.initialized() ? picsum( r.get().get() ) : 0 ), (unsigned long long)f.last.hash(), (unsigned long long)f.golden.hash(), (unsigned long long)f.alternative.hash(), d.minihash() ); break; }
#ifdef CODECRUN_DECODE_ONLY
      default: snprintf( buf, sizeof buf, "skip" );
#else
      case 'N': case 'T': two = o.a; q = o.b ? REALTIME_QUALITY : BEST_QUALITY; if ( o.kind == 'N' ) e.reset( new Encoder( j.w, j.h, two, q ) ); else e.reset( new Encoder( d, two, q ) ); snprintf( buf, sizeof buf, "%c %08x", o.kind, e->minihash() ); break;
      case 'x': d = e->export_decoder(); snprintf( buf, sizeof buf, "x %08x", d.minihash() ); break;
      default: {
        RasterHandle p = picture( j.w, j.h, o.blob ); Bytes b;
        if ( o.kind == 'q' ) b = e->encode_with_quantizer( p.get(), o.a ); else if ( o.kind == 's' ) b = e->encode_with_target_size( p.get(), o.a ); else if ( o.kind == 'm' ) b = e->encode_with_minimum_ssim( p.get(), o.a / 100.0 ); else put( b, e->estimate_frame_size( p.get(), o.a ) );
        Digest dg; dg.add( b.data(), b.size() ); snprintf( buf, sizeof buf, "%c %zu bytes %016llx state %08x ssim %.9f", o.kind, b.size(), (unsigned long long)dg.h, e->minihash(), e->stats().ssim.get_or( -1 ) ); }
#endif
      }
    } catch ( const std::exception & x ) { snprintf( buf, sizeof buf, "%c exception", o.kind ); }
    out.push_back( buf );
  }
  return out;
}
}
