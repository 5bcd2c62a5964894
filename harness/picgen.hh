// Generated source pictures: textures, moving objects, camera motion, noise, cuts and repeats.
#pragma once
#include "src.hh"
#include "vp8_raster.hh"
#include "raster_handle.hh"
#include "vpxref.hh"
#include <string>
#include <vector>

class Pics {
  Src & g; int w, h, aw, ah; bool noisy_pad;
  struct Obj { int x, y, vx, vy, r, style; uint32_t seed; };
  std::vector<Obj> objs; int bg; uint32_t bgseed; int camx = 0, camy = 0, cvx, cvy; int noise; std::vector<uint8_t> p[ 3 ]; bool have = false;
  static uint8_t tex( int style, uint32_t seed, int x, int y )
  {
    uint64_t k = mix64( seed );
    switch ( style ) {
    case 0: return k;                                                                       // flat
    case 1: return ( k & 255 ) + x * ( 1 + ( k >> 8 & 3 ) ) / 2 + y * ( k >> 10 & 3 ) / 2;   // ramp
    case 2: { int s = 1 + ( k >> 8 & 7 ); return ( ( x / s + y / s ) & 1 ) ? ( k >> 16 ) & 255 : ( k >> 24 ) & 255; }   // checks
    case 3: return mix64( seed ^ ( (uint64_t)(uint32_t)x << 32 | (uint32_t)y ) );           // noise
    case 4: { int s = 2 + ( k >> 8 & 7 ); auto at = [&]( int i, int j ) { return (int)( mix64( seed ^ ( (uint64_t)(uint32_t)i << 32 | (uint32_t)j ) ) & 255 ); };   // smooth noise
      auto fl = []( int a, int b ) { return a >= 0 ? a / b : -( ( b - 1 - a ) / b ); }; int i = fl( x, s ), j = fl( y, s ), fx = x - i * s, fy = y - j * s;
      return ( ( at( i, j ) * ( s - fx ) + at( i + 1, j ) * fx ) * ( s - fy ) + ( at( i, j + 1 ) * ( s - fx ) + at( i + 1, j + 1 ) * fx ) * fy ) / ( s * s ); }
    case 5: return ( ( x * 7 + y * 3 ) & 15 ) < ( 2 + (int)( k & 7 ) ) ? 255 : 0;            // hard stripes
    case 7: { int per = 200 + ( k & 2047 ), t = ( ( x * 2 + y * (int)( k >> 12 & 3 ) ) % ( 2 * per ) + 2 * per ) % ( 2 * per ); return 255 * ( t < per ? t : 2 * per - t ) / per; }   // one long wave
    default: return ( x + y ) & 1 ? 255 : 0;
    }
  }
  void scene()
  {
    bg = g.draw( 7 ); bgseed = g.seed(); cvx = cvy = 0; if ( g.draw( 2 ) ) { cvx = g.range( -6, 6 ); cvy = g.range( -6, 6 ); } if ( g.chance( 1, 8 ) ) { cvx = g.range( -40, 40 ); cvy = g.range( -40, 40 ); }
    if ( far ) { bg = g.chance( 3, 4 ) ? 7 : 4; int m = std::max( w, h ); cvx = g.range( -m, m ); cvy = g.range( -m, m ); if ( g.draw( 2 ) ) ( w > h ? cvy : cvx ) = 0; }
    objs.clear(); int n = far ? 0 : g.draw( 4 ); for ( int i = 0; i < n; i++ ) objs.push_back( { (int)g.draw( w ), (int)g.draw( h ), g.range( -5, 5 ), g.range( -5, 5 ), 1 + (int)g.draw( 20 ), (int)g.draw( 7 ), g.seed() } );
    noise = g.chance( 1, 3 ) ? 1 + g.draw( g.chance( 1, 4 ) ? 60 : 6 ) : 0;
  }
public:
  std::string kind;
  bool far;      // the camera moves by up to the whole picture
  Pics( Src & s, int w_, int h_, bool far_ = false ) : g( s ), w( w_ ), h( h_ ), aw( ( w + 15 ) / 16 * 16 ), ah( ( h + 15 ) / 16 * 16 ), far( far_ ) { noisy_pad = g.chance( 1, 6 ); for ( int k = 0; k < 3; k++ ) p[ k ].resize( k ? aw * ah / 4 : aw * ah ); scene(); }
  void next()
  {
    unsigned what = have ? g.weighted( { 10, 1, 1, 1 } ) : 1; have = true;
    if ( what == 1 ) { kind = "cut"; scene(); }
    if ( what == 2 ) { kind = "repeat"; return; }
    if ( what == 3 ) { kind = "touch"; p[ 0 ][ g.draw( h ) * aw + g.draw( w ) ] ^= 1 + g.draw( 255 ); return; }
    if ( what == 0 ) { kind = "motion"; camx += cvx; camy += cvy; for ( auto & o : objs ) { o.x += o.vx; o.y += o.vy; } }
    Prng r( noise ? g.seed() : 0 );
    for ( int k = 0; k < 3; k++ ) {
      int pw = k ? aw / 2 : aw, ph = k ? ah / 2 : ah, dw = k ? ( w + 1 ) / 2 : w, dh = k ? ( h + 1 ) / 2 : h, sc = k ? 2 : 1;
      for ( int y = 0; y < ph; y++ ) for ( int x = 0; x < pw; x++ ) {
        uint8_t & v = p[ k ][ y * pw + x ];
        if ( ( x >= dw || y >= dh ) && !noisy_pad ) { v = p[ k ][ std::min( y, dh - 1 ) * pw + std::min( x, dw - 1 ) ]; continue; }
        int X = x * sc, Y = y * sc; v = tex( bg, bgseed + k, X + camx, Y + camy );
        for ( auto & o : objs ) { int dx = X - o.x, dy = Y - o.y; if ( dx * dx + dy * dy <= o.r * o.r ) v = tex( o.style, o.seed + k, dx, dy ); }
        if ( noise ) { int t = v + (int)r.below( 2 * noise + 1 ) - noise; v = t < 0 ? 0 : t > 255 ? 255 : t; }
      }
    }
  }
  void fill( VP8Raster & r ) const { for ( int k = 0; k < 3; k++ ) { TwoD<uint8_t> & t = k == 0 ? r.Y() : k == 1 ? r.U() : r.V(); for ( unsigned y = 0; y < t.height(); y++ ) for ( unsigned x = 0; x < t.width(); x++ ) t.at( x, y ) = p[ k ][ y * t.width() + x ]; } }
  RasterHandle raster() const { MutableRasterHandle m( w, h ); fill( m.get() ); return RasterHandle( std::move( m ) ); }
  const std::vector<uint8_t> & plane( int k ) const { return p[ k ]; }
  void add( Digest & d ) const { for ( int k = 0; k < 3; k++ ) d.add( p[ k ] ); }
};

inline void draw_pic_size( Src & g, int & w, int & h, int maxmb )
{
  int mw = 1 + g.skewed( 0, maxmb - 1 ), mh = 1 + g.skewed( 0, maxmb - 1 ); w = mw * 16; h = mh * 16;
  if ( g.chance( 1, 2 ) ) { w -= g.draw( 16 ); if ( g.draw( 3 ) ) h -= g.draw( 16 ); }
}
