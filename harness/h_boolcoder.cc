// P05: the boolean entropy coder against an exact-arithmetic reference.
#include "pbt.hh"
#include "bool_encoder.hh"
#include "bool_decoder.hh"
using namespace std;
typedef vector<uint8_t> Bytes;
struct Dec { bool bit; uint8_t p; };

// reference writer: the interval's lower end as one long binary number, addition with full carry
struct RefEnc {
  Bytes num; size_t bits = 0; uint32_t range = 255;      // value = num as a binary fraction; `bits` renormalisation shifts so far
  // an addend of `split` whose least significant bit has weight 2^-(bits+8)
  void add( uint32_t v ) { size_t end = bits + 8; num.resize( max( num.size(), ( end + 7 ) / 8 + 1 ), 0 ); unsigned sh = ( 8 - end % 8 ) % 8; uint32_t x = v << sh; size_t at = ( end + 7 ) / 8; for ( ; x; at-- ) { if ( at == 0 ) throw runtime_error( "overflow" ); uint32_t s = num[ at - 1 ] + ( x & 255 ); num[ at - 1 ] = s; x = ( x >> 8 ) + ( s >> 8 ); } }
  void put( bool b, uint8_t p ) { uint32_t split = 1 + ( ( ( range - 1 ) * p ) >> 8 ); if ( b ) { add( split ); range -= split; } else range = split; while ( range < 128 ) { range <<= 1; bits++; } }
};
// reference reader: value compared as an exact number, zeros behind the end
struct RefDec {
  const Bytes & in; size_t pos = 0; uint64_t value = 0; unsigned have = 0; uint32_t range = 255;
  RefDec( const Bytes & b ) : in( b ) {}
  uint32_t top() { while ( have < 8 ) { value = ( value << 8 ) | ( pos < in.size() ? in[ pos ] : 0 ); pos++; have += 8; } return value >> ( have - 8 ); }
  bool get( uint8_t p )
  {
    uint32_t split = 1 + ( ( ( range - 1 ) * p ) >> 8 ); bool b = top() >= split;
    if ( b ) { value -= (uint64_t)split << ( have - 8 ); range -= split; } else range = split;
    while ( range < 128 ) { range <<= 1; have--; if ( have < 8 ) top(); }
    return b;
  }
};

static uint8_t prob( Src &, Prng & r, int style ) { switch ( style ) { case 0: return 128; case 1: return 1 + r.below( 255 ); case 2: return r.chance( 1, 2 ) ? 1 + r.below( 3 ) : 255 - r.below( 3 ); case 3: return r.chance( 9, 10 ) ? 254 + r.below( 2 ) : 1 + r.below( 255 ); default: return r.chance( 1, 3 ) ? 128 : 1 + r.below( 255 ); } }

// decisions whose encoding runs through long stretches of 0xff, then carries
static vector<Dec> draw( Src & g, set<string> & tags )
{
  vector<Dec> v; Prng r( g.seed() ); unsigned segs = 1 + g.draw( 4 );
  for ( unsigned s = 0; s < segs; s++ ) {
    int style = g.draw( 5 ); unsigned n = g.draw( 4 ) == 0 ? g.draw( 4000 ) : g.draw( 200 );
    switch ( g.draw( 4 ) ) {
    case 0: for ( unsigned i = 0; i < n; i++ ) v.push_back( { r.chance( 1, 2 ), prob( g, r, style ) } ); tags.insert( "uniform bits" ); break;
    case 1: for ( unsigned i = 0; i < n; i++ ) { uint8_t p = prob( g, r, style ); v.push_back( { r.below( 256 ) >= p, p } ); } tags.insert( "likely bits" ); break;
    case 2: { bool b = g.draw( 2 ); for ( unsigned i = 0; i < n; i++ ) v.push_back( { b, prob( g, r, style ) } ); tags.insert( "constant bits" ); break; }
    default: { // start over: everything so far, then follow a run of 0xff bytes and end with decisions pushing the interval up
      RefEnc e; for ( auto & d : v ) e.put( d.bit, d.p ); Bytes t = e.num; t.resize( max<size_t>( t.size(), e.bits / 8 + 3 ), 0 ); size_t run = 1 + g.draw( 60 );
      size_t base = e.bits / 8 + 2 + g.draw( 3 ); t.resize( base, 255 ); for ( size_t i = 0; i < run; i++ ) t.push_back( 255 );
      vector<Dec> w; RefDec d( t ); for ( auto & x : v ) { bool b = d.get( x.p ); if ( b != x.bit ) break; w.push_back( x ); }
      if ( w.size() != v.size() ) break;
      size_t target = base * 8 + run * 8 - 8 - g.draw( 12 ); RefEnc f = e;
      for ( unsigned k = 0; k < 6000 && f.bits < target; k++ ) { uint8_t p = prob( g, r, style ); bool b = d.get( p ); f.put( b, p ); v.push_back( { b, p } ); }
      unsigned up = g.draw( 4 ); for ( unsigned k = 0; k < up; k++ ) v.push_back( { true, uint8_t( 255 - g.draw( 40 ) ) } );
      tags.insert( "0xff run" ); } }
  }
  return v;
}

static void write_read( pbt::Ctx & c )
{
  set<string> tags; vector<Dec> v = draw( c.g, tags ); BoolEncoder e; RefEnc r;
  for ( auto & d : v ) { e.put( d.bit, d.p ); r.put( d.bit, d.p ); }
  vector<uint8_t> out = e.finish(); string where = to_string( v.size() ) + " decisions, " + to_string( out.size() ) + " bytes";
  // the output is the lower end of the interval (padded): the same bytes as the exact sum, zero extended
  Bytes want = r.num; size_t n = max( out.size(), want.size() ); Bytes a( out ), b( want ); a.resize( n, 0 ); b.resize( n, 0 );
  size_t bad = 0; while ( bad < n && a[ bad ] == b[ bad ] ) bad++;
  c.require( bad == n, "bytes", "byte " + to_string( bad ) + " is " + to_string( bad < n ? a[ bad ] : 0 ) + ", the VP8 coder gives " + to_string( bad < n ? b[ bad ] : 0 ) + "; " + where );
  c.require( out.size() * 8 >= r.bits + 8 && out.size() <= r.bits / 8 + 6, "length", where );
  Bytes ex( out ); ex.shrink_to_fit(); BoolDecoder d( Chunk( ex.data(), ex.size() ) );
  for ( size_t i = 0; i < v.size(); i++ ) c.require( d.get( v[ i ].p ) == v[ i ].bit, "read-back", "decision " + to_string( i ) + "; " + where );
  // an encoder that was finished starts afresh
  if ( c.g.chance( 1, 4 ) ) { for ( auto & x : v ) e.put( x.bit, x.p ); c.require( e.finish() == out, "reuse", where ); }
  size_t ff = 0, best = 0; for ( auto x : out ) { ff = x == 255 || x == 0 ? ff + 1 : 0; best = max( best, ff ); }
  for ( auto & t : tags ) c.tag( t ); if ( best > 3 ) c.tag( "long run of 0x00/0xff in output" ); c.tag( "decisions", v.size() );
  Digest dg; dg.add( out ); if ( v.size() > 8 ) c.nontrivial( dg.h ^ v.size() ); c.sample( where );
}

static void read_any( pbt::Ctx & c )
{
  Src & g = c.g; Prng r( g.seed() ); Bytes in( g.draw( 3 ) ? g.draw( 40 ) : g.draw( 2000 ) ); int fill = g.draw( 4 );
  for ( auto & x : in ) x = fill == 0 ? 255 : fill == 1 ? 0 : r.next(); if ( fill < 2 && in.size() && g.draw( 2 ) ) in[ g.draw( in.size() ) ] = g.draw( 256 );
  if ( in.size() && in[ 0 ] == 255 ) in[ 0 ] = 254;      // no writer starts with 0xff: the interval begins as [0,255/256)
  in.shrink_to_fit(); int style = g.draw( 5 ); unsigned extra = g.draw( 300 ); bool complete = g.draw( 2 );
  BoolDecoder d( Chunk( in.data(), in.size() ), complete ); RefDec ref( in ); unsigned n = 0; size_t ones = 0;
  for ( unsigned past = 0; past < extra && n < 60000; n++ ) {
    uint8_t p = prob( g, r, style ); bool x = d.get( p ), y = ref.get( p ); ones += y;
    c.require( x == y, "read", "decision " + to_string( n ) + " of " + to_string( in.size() ) + " bytes" );
    if ( ref.pos > in.size() ) past++;
    if ( complete ) c.require( d.valid(), "valid-flag", "complete data never becomes invalid" );
    else { if ( ref.pos > in.size() + 2 ) c.require( !d.valid(), "valid-flag", "data has ended" ); if ( ref.pos + 2 < in.size() ) c.require( d.valid(), "valid-flag", "data has not ended" ); }
  }
  c.tag( complete ? "complete" : "partial" ); c.tag( "decisions", n ); Digest dg; dg.add( in ); if ( n > 8 ) c.nontrivial( dg.h + n ); c.sample( to_string( in.size() ) + " bytes read for " + to_string( n ) + " decisions, " + to_string( ones ) + " ones" );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs { { "write-read", write_read, 120000, 3000000, 50 }, { "read", read_any, 60000, 1500000, 50 } };
  return pbt::Runner( "P05", subs ).main( argc, argv );
}
