#pragma once
#include <cstdint>
// The picture the stand-in camera gives for the letter k.
template <class Put> void campic( char k, Put put, unsigned w, unsigned h )
{
  for ( int p = 0; p < 3; p++ ) { unsigned pw = p ? ( w + 1 ) / 2 : w, ph = p ? ( h + 1 ) / 2 : h; for ( unsigned y = 0; y < ph; y++ ) for ( unsigned x = 0; x < pw; x++ ) put( p, x, y, uint8_t( ( x * 7 + y * 13 + p * 50 + k * 31 ) ^ ( x >> 3 ) * k ) ); }
}
