// Source of random choices.  Every choice a generator makes is one draw from a tape, so that
// a failing case can be replayed and shrunk: replaying takes value % n from the recorded tape
// and 0 (by convention the simplest choice) once the tape has run out.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>

static inline uint64_t mix64( uint64_t z )
{
  z += 0x9E3779B97F4A7C15ull;
  z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
  z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
  return z ^ ( z >> 31 );
}

struct Prng {           // bulk noise expanded from one drawn seed
  uint64_t s;
  explicit Prng( uint64_t seed ) : s( mix64( seed ) ) {}
  uint64_t next() { s += 0x9E3779B97F4A7C15ull; return mix64( s ); }
  uint64_t below( uint64_t n ) { return n ? ( next() >> 11 ) % n : 0; }
  bool chance( unsigned num, unsigned den ) { return below( den ) < num; }
};

struct TapeMem {        // lives in shared memory so that it survives a crash of the child
  static constexpr size_t CAP = 1 << 18;
  uint32_t len;
  uint32_t overflow;
  uint32_t v[ CAP ];
};

class Src {
  TapeMem * rec_;
  const uint32_t * rep_ = nullptr;
  size_t rep_len_ = 0, pos_ = 0;
  Prng rng_;
  bool replay_;
public:
  Src( TapeMem * rec, uint64_t seed ) : rec_( rec ), rng_( seed ), replay_( false ) { rec_->len = 0; rec_->overflow = 0; }
  Src( TapeMem * rec, const uint32_t * rep, size_t n ) : rec_( rec ), rep_( rep ), rep_len_( n ), rng_( 0 ), replay_( true ) { rec_->len = 0; rec_->overflow = 0; }

  // uniform in [0,n)
  uint32_t draw( uint32_t n )
  {
    uint32_t x;
    if ( n == 0 ) { n = 1; }
    if ( replay_ ) { x = pos_ < rep_len_ ? rep_[ pos_ ] % n : 0; pos_++; }
    else { x = rng_.next() % n; }
    if ( rec_->len < TapeMem::CAP ) { rec_->v[ rec_->len++ ] = x; } else { rec_->overflow = 1; }
    return x;
  }
  uint32_t draw32() { uint32_t hi = draw( 1u << 16 ); return ( hi << 16 ) | draw( 1u << 16 ); }
  int range( int lo, int hi ) { return lo + (int)draw( (uint32_t)( hi - lo + 1 ) ); }
  bool chance( unsigned num, unsigned den ) { return draw( den ) >= den - num; }   // 0 -> false
  uint32_t seed() { return draw( 1u << 30 ); }
  template <class T> T pick( std::initializer_list<T> l ) { return *( l.begin() + draw( l.size() ) ); }
  // weighted index; first entry is the simplest
  unsigned weighted( std::initializer_list<unsigned> w )
  {
    unsigned t = 0; for ( auto x : w ) t += x;
    unsigned r = draw( t ), i = 0;
    for ( auto x : w ) { if ( r < x ) return i; r -= x; i++; }
    return 0;
  }
  // skewed size: small values likely, up to hi
  int skewed( int lo, int hi )
  {
    switch ( draw( 4 ) ) {
    case 0: return range( lo, lo + ( hi - lo ) / 8 );
    case 1: return range( lo, lo + ( hi - lo ) / 3 );
    default: return range( lo, hi );
    }
  }
};

struct Digest {
  uint64_t h = 0xcbf29ce484222325ull;
  void add( const void * p, size_t n ) { const uint8_t * b = (const uint8_t *)p; for ( size_t i = 0; i < n; i++ ) { h = ( h ^ b[ i ] ) * 0x100000001b3ull; } }
  void u( uint64_t v ) { add( &v, 8 ); }
  void add( const std::vector<uint8_t> & v ) { u( v.size() ); add( v.data(), v.size() ); }
  void add( const std::string & v ) { u( v.size() ); add( v.data(), v.size() ); }
};
