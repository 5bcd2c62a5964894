// Reference VP8 decoder: the system libvpx, loaded at run time (no headers installed).
#pragma once
#include <dlfcn.h>
#include <cstdint>
#include <vector>
#include <string>
#include <stdexcept>
#include <cstring>

namespace vpxref {
struct Image { int fmt, cs, range; unsigned w, h, bit_depth, d_w, d_h, r_w, r_h, xcs, ycs; unsigned char * planes[ 4 ]; int stride[ 4 ]; int bps; void * user; unsigned char * img_data; int owner, self; void * fb; };
struct Ctx { const char * name; void * iface; int err; const char * detail; long flags; void * cfg; void * priv; };
struct Cfg { unsigned threads, w, h; };
struct RefFrame { int type; Image img; };

struct Api {
  void * ( *dx )(); int ( *init )( Ctx *, void *, const Cfg *, long, int ); int ( *decode )( Ctx *, const uint8_t *, unsigned, void *, long );
  Image * ( *get )( Ctx *, const void ** ); int ( *destroy )( Ctx * ); int ( *control )( Ctx *, int, ... );
  Api()
  {
    void * h = nullptr;
    for ( const char * n : { "libvpx.so.9", "libvpx.so.8", "libvpx.so.7", "libvpx.so" } ) { h = dlopen( n, RTLD_NOW ); if ( h ) break; }
    if ( !h ) throw std::runtime_error( "cannot load libvpx" );
    auto s = [&]( const char * n ) { void * p = dlsym( h, n ); if ( !p ) throw std::runtime_error( n ); return p; };
    dx = (decltype( dx ))s( "vpx_codec_vp8_dx" ); init = (decltype( init ))s( "vpx_codec_dec_init_ver" ); decode = (decltype( decode ))s( "vpx_codec_decode" );
    get = (decltype( get ))s( "vpx_codec_get_frame" ); destroy = (decltype( destroy ))s( "vpx_codec_destroy" ); control = (decltype( control ))s( "vpx_codec_control_" );
  }
};
inline Api & api() { static Api a; return a; }

struct Planes { unsigned w = 0, h = 0; std::vector<uint8_t> y, u, v; };

class Decoder {
  Ctx c {};
public:
  Decoder() { if ( api().init( &c, api().dx(), nullptr, 0, 12 ) ) throw std::runtime_error( "libvpx init" ); }
  ~Decoder() { api().destroy( &c ); }
  Decoder( const Decoder & ) = delete;
  // 0 = accepted
  int decode( const std::vector<uint8_t> & f ) { return api().decode( &c, f.data(), f.size(), nullptr, 0 ); }
  static Planes grab( Image * i, unsigned w, unsigned h )
  {
    Planes p; p.w = w; p.h = h;
    auto cp = [&]( std::vector<uint8_t> & o, int k, unsigned pw, unsigned ph ) { o.resize( pw * ph ); for ( unsigned y = 0; y < ph; y++ ) memcpy( &o[ y * pw ], i->planes[ k ] + (long)y * i->stride[ k ], pw ); };
    cp( p.y, 0, w, h ); cp( p.u, 1, ( w + 1 ) / 2, ( h + 1 ) / 2 ); cp( p.v, 2, ( w + 1 ) / 2, ( h + 1 ) / 2 );
    return p;
  }
  bool shown( Planes & p ) { const void * it = nullptr; Image * i = api().get( &c, &it ); if ( !i ) return false; p = grab( i, i->d_w, i->d_h ); return true; }
  // type: 1 last, 2 golden, 4 altref;  w,h multiples of 16
  bool reference( int type, unsigned w, unsigned h, Planes & p )
  {
    // libvpx also writes the 32-pixel border of the destination
    RefFrame r {}; r.type = type; Image & m = r.img;
    size_t ys = w + 64, cs = w / 2 + 32;
    std::vector<uint8_t> by( ys * ( h + 64 ) + 64 ), bu( cs * ( h / 2 + 32 ) + 64 ), bv( bu.size() );
    m.fmt = 0x102; m.w = m.d_w = w; m.h = m.d_h = h; m.bit_depth = 8; m.xcs = m.ycs = 1; m.bps = 12;
    m.planes[ 0 ] = &by[ 32 * ys + 32 ]; m.planes[ 1 ] = &bu[ 16 * cs + 16 ]; m.planes[ 2 ] = &bv[ 16 * cs + 16 ];
    m.stride[ 0 ] = ys; m.stride[ 1 ] = m.stride[ 2 ] = cs;
    int e = api().control( &c, 2, &r );
    if ( !e ) p = grab( &m, w, h );
    return !e;
  }
};
} // namespace vpxref
