// Helpers over alfalfa's public API shared by the harnesses.
#pragma once
#include "decoder.hh"
#include "frame.hh"
#include "player.hh"
#include "vp8_raster.hh"
#include "chunk.hh"
#include "vpxref.hh"
#include <cstring>

typedef std::vector<uint8_t> Bytes;

inline Chunk chunk( const Bytes & b ) { return Chunk( b.data(), b.size() ); }

// whole macroblock-aligned planes of a raster, or only the display part
inline vpxref::Planes planes( const BaseRaster & r, bool display )
{
  vpxref::Planes p;
  p.w = display ? r.display_width() : r.Y().width();
  p.h = display ? r.display_height() : r.Y().height();
  auto cp = [&]( const TwoD<uint8_t> & pl, unsigned w, unsigned h, std::vector<uint8_t> & o ) {
    o.resize( (size_t)w * h );
    for ( unsigned y = 0; y < h; y++ ) for ( unsigned x = 0; x < w; x++ ) o[ (size_t)y * w + x ] = pl.at( x, y );
  };
  cp( r.Y(), p.w, p.h, p.y );
  cp( r.U(), ( p.w + 1 ) / 2, ( p.h + 1 ) / 2, p.u );
  cp( r.V(), ( p.w + 1 ) / 2, ( p.h + 1 ) / 2, p.v );
  return p;
}

// "" when equal, otherwise where they first differ
inline std::string diff( const vpxref::Planes & a, const vpxref::Planes & b )
{
  if ( a.w != b.w || a.h != b.h ) return "size " + std::to_string( a.w ) + "x" + std::to_string( a.h ) + " vs " + std::to_string( b.w ) + "x" + std::to_string( b.h );
  auto d = [&]( const Bytes & x, const Bytes & y, unsigned w, const char * n ) -> std::string {
    if ( x == y ) return "";
    size_t cnt = 0, first = 0; for ( size_t i = 0; i < x.size(); i++ ) if ( x[ i ] != y[ i ] ) { if ( !cnt ) first = i; cnt++; }
    return std::string( n ) + " plane: " + std::to_string( cnt ) + " samples differ, first at (" + std::to_string( first % w ) + "," + std::to_string( first / w ) + "): " + std::to_string( x[ first ] ) + " vs " + std::to_string( y[ first ] );
  };
  std::string s = d( a.y, b.y, a.w, "Y" ); if ( !s.empty() ) return s;
  s = d( a.u, b.u, ( a.w + 1 ) / 2, "U" ); if ( !s.empty() ) return s;
  return d( a.v, b.v, ( a.w + 1 ) / 2, "V" );
}
