// P16: wire codec of packets and acknowledgements against an independent model of the layout.
#include "memcap.hh"
#include "pbt.hh"
#include "packet.hh"
using namespace std;

static string le( uint64_t v, int n ) { string s; for ( int i = 0; i < n; i++ ) s += char( v >> ( 8 * i ) ); return s; }
static uint64_t rd( const string & s, size_t at, int n ) { uint64_t v = 0; for ( int i = 0; i < n; i++ ) v |= (uint64_t)(uint8_t)s[ at + i ] << ( 8 * i ); return v; }
static uint32_t draw_u32( Src & g ) { switch ( g.draw( 4 ) ) { case 0: return g.draw( 4 ); case 1: return 0xffffffffu - g.draw( 3 ); case 2: return 1u << g.draw( 32 ); default: return g.draw32(); } }
static uint16_t draw_u16( Src & g ) { switch ( g.draw( 4 ) ) { case 0: return g.draw( 4 ); case 1: return 0xffff - g.draw( 3 ); case 2: return 1u << g.draw( 16 ); default: return g.draw( 65536 ); } }
static string bytes( Src & g, size_t n ) { string s( n, 0 ); Prng r( g.seed() ); for ( auto & x : s ) x = r.next(); return s; }
static string hex( const string & s, size_t cap = 64 ) { string o; char b[ 4 ]; for ( size_t i = 0; i < s.size() && i < cap; i++ ) { snprintf( b, 4, "%02x", (uint8_t)s[ i ] ); o += b; } return o + ( s.size() > cap ? "..." : "" ) + " (" + to_string( s.size() ) + " bytes)"; }

// memory a parse of n bytes may take
static size_t allowance( size_t n ) { return 64 * n + 65536; }

// parses w as a data packet and compares with what the layout says
static void judge_packet( pbt::Ctx & c, const string & w )
{
  bool good = w.size() > 22 && rd( w, 14, 2 ) < rd( w, 16, 2 );
  c.tag( good ? "packet accepted" : "packet refused" );
  memcap::arm( allowance( w.size() ) );
  bool ok = true;
  try {
    Packet p { Chunk( w ) };
    memcap::disarm();
    c.require( good, "packet:bad-accepted", hex( w ) );
    c.require( p.valid() && p.connection_id() == rd( w, 0, 2 ) && p.source_state() == rd( w, 2, 4 ) && p.target_state() == rd( w, 6, 4 ) && p.frame_no() == rd( w, 10, 4 ) &&
               p.fragment_no() == rd( w, 14, 2 ) && p.fragments_in_this_frame() == rd( w, 16, 2 ) && p.time_since_last() == rd( w, 18, 4 ) && p.payload() == w.substr( 22 ), "packet:fields", hex( w ) );
    c.require( p.to_string() == w, "packet:roundtrip", hex( w ) );
  } catch ( const exception & e ) { ok = false; memcap::disarm(); if ( memcap::tripped ) c.fail( "packet:memory", hex( w ) ); c.require( !good, "packet:good-refused", hex( w ) + " " + e.what() ); }
}

static void judge_ack( pbt::Ctx & c, const string & w )
{
  bool good = w.size() >= 20 && 20 + 4 * rd( w, 16, 4 ) <= w.size();
  c.tag( good ? "ack accepted" : "ack refused" );
  memcap::arm( allowance( w.size() ) );
  try {
    AckPacket a { Chunk( w ) };
    memcap::disarm();
    c.require( good, "ack:bad-accepted", hex( w ) );
    deque<uint32_t> st; for ( size_t i = 0; i < rd( w, 16, 4 ); i++ ) st.push_back( rd( w, 20 + 4 * i, 4 ) );
    c.require( a.connection_id() == rd( w, 0, 2 ) && a.frame_no() == rd( w, 2, 4 ) && a.fragment_no() == rd( w, 6, 2 ) && a.avg_delay() == rd( w, 8, 4 ) && a.current_state() == rd( w, 12, 4 ) &&
               a.complete_states() == st, "ack:fields", hex( w ) );
    c.require( a.to_string() == w.substr( 0, 20 + 4 * st.size() ), "ack:roundtrip", hex( w ) );
  } catch ( const exception & e ) { memcap::disarm(); if ( memcap::tripped ) c.fail( "ack:memory", hex( w ) ); c.require( !good, "ack:good-refused", hex( w ) + " " + e.what() ); }
}

static string valid_packet( Src & g )
{
  uint16_t n = max<uint16_t>( 1, draw_u16( g ) ), f = g.chance( 1, 4 ) ? n - 1 : g.draw( n );
  size_t len = 1 + ( g.draw( 4 ) ? g.draw( 40 ) : g.draw( 1400 ) );
  return le( draw_u16( g ), 2 ) + le( draw_u32( g ), 4 ) + le( draw_u32( g ), 4 ) + le( draw_u32( g ), 4 ) + le( f, 2 ) + le( n, 2 ) + le( draw_u32( g ), 4 ) + bytes( g, len );
}
static string valid_ack( Src & g )
{
  unsigned n = g.draw( 4 ) ? g.draw( 12 ) : g.draw( 16000 );
  string s = le( draw_u16( g ), 2 ) + le( draw_u32( g ), 4 ) + le( draw_u16( g ), 2 ) + le( draw_u32( g ), 4 ) + le( draw_u32( g ), 4 ) + le( n, 4 );
  if ( n <= 12 ) for ( unsigned i = 0; i < n; i++ ) s += le( draw_u32( g ), 4 ); else s += bytes( g, 4 * n );
  return s;
}

static void construct( pbt::Ctx & c )
{
  Src & g = c.g;
  // acknowledgement built from fields
  deque<uint32_t> st; unsigned n = g.draw( 5 ) ? g.draw( 10 ) : g.draw( 3000 ); Prng r( g.seed() );
  for ( unsigned i = 0; i < n; i++ ) st.push_back( r.chance( 1, 4 ) ? r.below( 3 ) : r.next() );
  { uint16_t a = draw_u16( g ); uint32_t b = draw_u32( g ); uint64_t d = (uint64_t)draw_u32( g ) << 32 | draw_u32( g ); c.require( Packet::put_header_field( a ) == le( a, 2 ) && Packet::put_header_field( b ) == le( b, 4 ) && Packet::put_header_field( d ) == le( d, 8 ), "field:layout", hex( Packet::put_header_field( d ) ) + " expected " + hex( le( d, 8 ) ) ); }
  uint16_t conn = draw_u16( g ), frag = draw_u16( g ); uint32_t no = draw_u32( g ), delay = draw_u32( g ), cur = draw_u32( g );
  AckPacket a( conn, no, frag, delay, cur, st );
  string want = le( conn, 2 ) + le( no, 4 ) + le( frag, 2 ) + le( delay, 4 ) + le( cur, 4 ) + le( n, 4 ); for ( auto x : st ) want += le( x, 4 );
  c.require( a.connection_id() == conn && a.frame_no() == no && a.fragment_no() == frag && a.avg_delay() == delay && a.current_state() == cur && a.complete_states() == st, "ack:getters", hex( want ) );
  string w = a.to_string();
  c.require( w == want, "ack:layout", hex( w ) + " expected " + hex( want ) );
  judge_ack( c, w );
  Digest dg; dg.add( w ); if ( n ) c.nontrivial( dg.h );
  c.sample( "acknowledgement with " + to_string( n ) + " states: " + hex( w, 24 ) );
}

static void parse( pbt::Ctx & c )
{
  Src & g = c.g;
  bool ack = g.draw( 2 );
  string w = ack ? valid_ack( g ) : valid_packet( g );
  unsigned m = g.draw( 6 );
  switch ( m ) {
  case 0: break;
  case 1: w.resize( g.draw( min<size_t>( w.size(), 40 ) ) ); break;                    // cut short
  case 2: w.resize( g.draw( w.size() ) ); break;
  case 3: for ( unsigned k = 1 + g.draw( 3 ); k--; ) w[ g.draw( w.size() ) ] ^= 1 << g.draw( 8 ); break;
  case 4: { string v = le( draw_u32( g ), 4 ); size_t at = g.draw( min<size_t>( w.size() - 4, 24 ) ); w.replace( at, 4, v ); break; }
  case 5: w += bytes( g, 1 + g.draw( 20 ) ); break;                                    // trailing bytes
  }
  if ( ack && g.chance( 1, 4 ) && w.size() >= 20 ) { uint64_t have = ( w.size() - 20 ) / 4; w.replace( 16, 4, le( have + g.draw( 3 ), 4 ) ); }   // count at the edge
  if ( ack ) judge_ack( c, w ); else judge_packet( c, w );
  Digest dg; dg.add( w ); dg.u( ack ); c.nontrivial( dg.h );
  c.sample( string( ack ? "ack " : "packet " ) + "mutation " + to_string( m ) + ": " + hex( w, 24 ) );
}

static void noise( pbt::Ctx & c )
{
  Src & g = c.g;
  string w = bytes( g, g.draw( 3 ) ? g.draw( 48 ) : g.draw( 3000 ) );
  if ( g.draw( 2 ) ) for ( auto & x : w ) if ( g.draw( 3 ) ) x = 0; 
  judge_packet( c, w ); judge_ack( c, w );
  Digest dg; dg.add( w ); if ( w.size() > 4 ) c.nontrivial( dg.h );
  c.sample( "noise " + hex( w, 24 ) );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs {
    { "construct", construct, 60000, 1500000, 200 },
    { "parse", parse, 200000, 5000000, 200 },
    { "noise", noise, 60000, 1500000, 200 },
  };
  return pbt::Runner( "P16", subs ).main( argc, argv );
}
