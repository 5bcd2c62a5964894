// What the portable (no SSE2) build of the encoder lacks: instantiations of the project's own portable distortion functions,
// and prediction from an edge-extended reference, written here from the format's definition.
#include "config.h"
#ifndef HAVE_SSE2
#include "../encoder/variance.cc"
template uint32_t Encoder::sad<16>( const VP8Raster::Block<16> &, const TwoDSubRange<uint8_t, 16, 16> & );
#define BOTH( N ) template uint32_t Encoder::sse<N>( const VP8Raster::Block<N> &, const TwoDSubRange<uint8_t, N, N> & ); template uint32_t Encoder::variance<N>( const VP8Raster::Block<N> &, const TwoDSubRange<uint8_t, N, N> & );
BOTH( 4 ) BOTH( 8 ) BOTH( 16 )
template <> void VP8Raster::Block<16>::inter_predict( const MotionVector & mv, const SafeRaster & ref, TwoDSubRange<uint8_t, 16, 16> & out ) const
{
  static const int F[ 8 ][ 6 ] = { { 0, 0, 128, 0, 0, 0 }, { 0, -6, 123, 12, -1, 0 }, { 2, -11, 108, 36, -8, 1 }, { 0, -9, 93, 50, -6, 0 }, { 3, -16, 77, 77, -16, 3 }, { 0, -6, 50, 93, -9, 0 }, { 1, -8, 36, 108, -11, 2 }, { 0, -1, 12, 123, -6, 0 } };
  const int c0 = int( column_ ) * 16 + ( mv.x() >> 3 ), r0 = int( row_ ) * 16 + ( mv.y() >> 3 ), mx = mv.x() & 7, my = mv.y() & 7; int t[ 21 ][ 16 ]; auto cl = []( int v ) { return v < 0 ? 0 : v > 255 ? 255 : v; };
  for ( int r = 0; r < 21; r++ ) { int rr = r - 2; if ( !my && ( rr < 0 || rr >= 16 ) ) continue; for ( int c = 0; c < 16; c++ ) { int a = 64; if ( !mx ) { t[ r ][ c ] = ref.at( c0 + c, r0 + rr ); continue; } for ( int k = 0; k < 6; k++ ) a += F[ mx ][ k ] * ref.at( c0 + c + k - 2, r0 + rr ); t[ r ][ c ] = cl( a >> 7 ); } }
  for ( int r = 0; r < 16; r++ ) for ( int c = 0; c < 16; c++ ) { int a = 64; if ( !my ) { out.at( c, r ) = t[ r + 2 ][ c ]; continue; } for ( int k = 0; k < 6; k++ ) a += F[ my ][ k ] * t[ r + k ][ c ]; out.at( c, r ) = cl( a >> 7 ); }
}
#endif
