#pragma once
#include <cstdint>
#include "raster.hh"
inline uint64_t picsum( const BaseRaster & r )
{
  uint64_t h = 0xcbf29ce484222325ull;
  auto pl = [&]( const TwoD<uint8_t> & p, unsigned w, unsigned hh ) { for ( unsigned y = 0; y < hh; y++ ) for ( unsigned x = 0; x < w; x++ ) h = ( h ^ p.at( x, y ) ) * 0x100000001b3ull; };
  unsigned w = r.display_width(), hh = r.display_height(); pl( r.Y(), w, hh ); pl( r.U(), ( w + 1 ) / 2, ( hh + 1 ) / 2 ); pl( r.V(), ( w + 1 ) / 2, ( hh + 1 ) / 2 );
  return h;
}
