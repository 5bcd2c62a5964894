// Byte-level mutations of valid inputs.
#pragma once
#include "src.hh"
#include <vector>
#include <algorithm>
typedef std::vector<uint8_t> Bytes;

// overwrites, flips, cuts, repeats; `hot` is how many leading bytes deserve extra attention
inline void mutate( Src & g, Bytes & b, size_t hot, const Bytes * other = nullptr )
{
  unsigned n = 1 + ( g.draw( 3 ) ? g.draw( 3 ) : g.draw( 20 ) );
  while ( n-- && !b.empty() ) {
    size_t lim = ( hot && g.draw( 2 ) ) ? std::min( hot, b.size() ) : b.size();
    size_t at = g.draw( lim );
    switch ( g.draw( 10 ) ) {
    case 0: case 1: case 2: b[ at ] ^= 1 << g.draw( 8 ); break;
    case 3: b[ at ] = g.draw( 256 ); break;
    case 4: b[ at ] = g.pick<int>( { 0, 255, 127, 128, 1 } ); break;
    case 5: { static const uint32_t v[] = { 0, 0xffffffffu, 0x7fffffffu, 0x80000000u, 0xffffu, 0x10000u, 1, 0xffffffu }; uint32_t x = g.draw( 2 ) ? v[ g.draw( 8 ) ] : g.draw32(); unsigned k = 1 + g.draw( 4 ); for ( unsigned i = 0; i < k && at + i < b.size(); i++ ) b[ at + i ] = x >> ( 8 * i ); break; }
    case 6: b.resize( at ); break;                                                                       // cut the tail
    case 7: { size_t e = std::min( b.size(), at + 1 + g.draw( 16 ) ); b.erase( b.begin() + at, b.begin() + e ); break; }
    case 8: { size_t e = std::min( b.size(), at + 1 + g.draw( 16 ) ); Bytes t( b.begin() + at, b.begin() + e ); b.insert( b.begin() + at, t.begin(), t.end() ); break; }
    case 9: if ( other && !other->empty() ) { size_t from = g.draw( other->size() ), k = 1 + g.draw( 64 ); for ( size_t i = 0; i < k && from + i < other->size() && at + i < b.size(); i++ ) b[ at + i ] = ( *other )[ from + i ]; }
            else { Prng r( g.seed() ); size_t e = std::min( b.size(), at + 1 + g.draw( 64 ) ); for ( size_t i = at; i < e; i++ ) b[ i ] = r.next(); } break;
    }
  }
}

inline void put_le( Bytes & b, uint64_t v, int n ) { for ( int i = 0; i < n; i++ ) b.push_back( v >> ( 8 * i ) ); }
inline Bytes ivf_file( int w, int h, const std::vector<Bytes> & fr, uint32_t rate = 30, uint32_t scale = 1, uint32_t minihash = 0 )
{
  Bytes b; for ( char c : std::string( "DKIF" ) ) b.push_back( c );
  put_le( b, 0, 2 ); put_le( b, 32, 2 ); for ( char c : std::string( "VP80" ) ) b.push_back( c );
  put_le( b, w, 2 ); put_le( b, h, 2 ); put_le( b, rate, 4 ); put_le( b, scale, 4 ); put_le( b, fr.size(), 4 ); put_le( b, minihash, 4 );
  for ( size_t i = 0; i < fr.size(); i++ ) { put_le( b, fr[ i ].size(), 4 ); put_le( b, i, 8 ); b.insert( b.end(), fr[ i ].begin(), fr[ i ].end() ); }
  return b;
}
