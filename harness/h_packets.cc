// P15: fragmentation and reassembly against a set model.
#include "pbt.hh"
#include "packet.hh"
#include "socket.hh"
#include <set>
using namespace std;

static constexpr size_t MAXP = 1400;

static vector<uint8_t> draw_frame( Src & g, size_t maxfrag )
{
  size_t n = 1;
  switch ( g.draw( 5 ) ) {
  case 0: n = 1 + g.draw( 40 ); break;
  case 1: n = MAXP * ( 1 + g.draw( 4 ) ) + g.draw( 5 ) - 2; break;                 // around a boundary
  case 2: n = 1 + g.draw( MAXP * 6 ); break;
  case 3: n = MAXP * ( 1 + g.draw( maxfrag ) ) + g.draw( 3 ) - 1; break;
  case 4: n = 1 + g.draw( MAXP * maxfrag ); break;
  }
  vector<uint8_t> v( n ); Prng r( g.seed() );
  unsigned kind = g.draw( 3 );
  for ( size_t i = 0; i < n; i++ ) v[ i ] = kind == 0 ? r.next() : kind == 1 ? 0 : ( i / MAXP ) * 37 + 1;
  return v;
}

struct Hdr { uint16_t conn; uint32_t src, tgt, no, tm; };
static uint32_t draw_u32( Src & g ) { switch ( g.draw( 4 ) ) { case 0: return g.draw( 4 ); case 1: return 0xffffffffu - g.draw( 3 ); case 2: return 1u << g.draw( 32 ); default: return g.draw32(); } }
static uint16_t draw_u16( Src & g ) { switch ( g.draw( 4 ) ) { case 0: return g.draw( 4 ); case 1: return 0xffff - g.draw( 3 ); case 2: return 1u << g.draw( 16 ); default: return g.draw( 65536 ); } }
static string le( uint64_t v, int n ) { string s; for ( int i = 0; i < n; i++ ) s += char( v >> ( 8 * i ) ); return s; }

template <class F> static bool throws( F f ) { try { f(); } catch ( const exception & ) { return true; } return false; }

static void split( pbt::Ctx & c, size_t maxfrag, bool shuffle, size_t exact = 0 )
{
  Src & g = c.g;
  vector<uint8_t> frame = draw_frame( g, maxfrag );
  if ( exact ) { size_t old = frame.size(); frame.resize( exact * MAXP - g.draw( 2 ) * g.draw( MAXP ) ); Prng r( g.seed() ); for ( size_t i = old; i < frame.size(); i++ ) frame[ i ] = r.next(); }
  string fs( frame.begin(), frame.end() );
  Hdr h { draw_u16( g ), draw_u32( g ), draw_u32( g ), draw_u32( g ), draw_u32( g ) };
  const size_t nfrag = ( frame.size() + MAXP - 1 ) / MAXP;
  ostringstream d; d << "frame of " << frame.size() << " bytes in " << nfrag << " fragments";
  FragmentedFrame out { h.conn, h.src, h.tgt, h.no, h.tm, frame };
  c.require( out.complete(), "outgoing-not-complete", d.str() );
  c.require( out.fragments_in_this_frame() == nfrag, "fragment-count", d.str() );
  c.require( out.connection_id() == h.conn && out.source_state() == h.src && out.target_state() == h.tgt && out.frame_no() == h.no, "outgoing-fields", d.str() );
  c.require( out.frame() == fs && out.partial_frame() == fs, "outgoing-frame", d.str() );
  const vector<Packet> & pk = out.packets();
  c.require( pk.size() == nfrag, "packet-count", d.str() );
  vector<string> wire;
  for ( size_t i = 0; i < nfrag; i++ ) {
    const Packet & p = pk[ i ];
    c.require( p.payload().size() <= MAXP, "payload-too-big", d.str() );
    c.require( p.payload() == fs.substr( i * MAXP, MAXP ), "payload-content", d.str() + " fragment " + to_string( i ) );
    c.require( p.connection_id() == h.conn && p.source_state() == h.src && p.target_state() == h.tgt && p.frame_no() == h.no && p.fragment_no() == i &&
               p.fragments_in_this_frame() == nfrag && p.time_since_last() == ( i ? 0 : h.tm ), "packet-fields", d.str() + " fragment " + to_string( i ) );
    string w = p.to_string();
    string want = le( h.conn, 2 ) + le( h.src, 4 ) + le( h.tgt, 4 ) + le( h.no, 4 ) + le( i, 2 ) + le( nfrag, 2 ) + le( i ? 0 : h.tm, 4 ) + fs.substr( i * MAXP, MAXP );
    c.require( w == want, "wire-bytes", d.str() + " fragment " + to_string( i ) );
    wire.push_back( w );
  }

  // arrival schedule: permutation, then losses, duplicates and foreign packets
  vector<size_t> order( nfrag ); for ( size_t i = 0; i < nfrag; i++ ) order[ i ] = i;
  Prng r( g.seed() );
  unsigned sched = shuffle ? g.draw( 4 ) : 0;
  if ( sched == 1 ) for ( size_t i = nfrag; i > 1; i-- ) swap( order[ i - 1 ], order[ r.below( i ) ] );
  if ( sched == 2 ) reverse( order.begin(), order.end() );
  if ( sched == 3 ) for ( size_t i = 0; i + 1 < nfrag; i++ ) if ( r.chance( 1, 3 ) ) swap( order[ i ], order[ i + 1 ] );
  unsigned dup = g.draw( 3 ), foreign = g.draw( 3 ); bool lose = g.chance( 1, 3 );
  vector<pair<int, size_t>> ev;      // kind 0: ours, 1..: foreign
  for ( size_t k = 0; k < nfrag; k++ ) {
    if ( lose && r.chance( 1, 4 ) && nfrag > 1 ) continue;
    ev.push_back( { 0, order[ k ] } );
    if ( dup && r.chance( dup, 4 ) ) ev.push_back( { 0, order[ r.below( k + 1 ) ] } );
    if ( foreign && r.chance( foreign, 4 ) ) ev.push_back( { 1 + (int)r.below( 5 ), r.below( nfrag ) } );
  }
  if ( ev.empty() ) return;
  // the first packet of a frame creates the record
  size_t first = 0; while ( first < ev.size() && ev[ first ].first ) first++;
  if ( first == ev.size() ) return;
  Packet p0 { Chunk( wire[ ev[ first ].second ] ) };
  uint16_t other_conn = h.conn + 1 + g.draw( 65535 );
  c.require( throws( [&] { FragmentedFrame x( other_conn, p0 ); } ), "foreign-connection-accepted", d.str() );
  unique_ptr<FragmentedFrame> in( new FragmentedFrame( h.conn, p0 ) );
  set<size_t> got { ev[ first ].second };
  size_t lead = 0, refused = 0; bool was_all = false; const bool big = nfrag > 64;
  auto check = [&]( size_t step ) {
    while ( got.count( lead ) ) lead++;
    bool all = got.size() == nfrag;
    string where = d.str() + " after arrival " + to_string( step ) + ", " + to_string( got.size() ) + " distinct fragments";
    c.require( in->complete() == all, all ? "complete-missed" : "complete-too-early", where );
    c.require( in->connection_id() == h.conn && in->source_state() == h.src && in->target_state() == h.tgt && in->frame_no() == h.no && in->fragments_in_this_frame() == nfrag, "incoming-fields", where );
    if ( big && step % ( ev.size() / 12 + 1 ) && !( all && !was_all ) && step + 1 != ev.size() ) return;
    was_all = all;
    c.require( in->partial_frame() == fs.substr( 0, lead * MAXP ), "partial-frame", where );
    if ( all ) { c.require( in->frame() == fs, "reassembled-frame", where ); c.require( in->packets().size() == nfrag, "reassembled-packets", where ); }
    else { c.require( throws( [&] { in->frame(); } ), "frame-of-incomplete", where ); c.require( throws( [&] { in->packets(); } ), "packets-of-incomplete", where ); }
  };
  check( first );
  for ( size_t k = first + 1; k < ev.size(); k++ ) {
    string w = wire[ ev[ k ].second ];
    switch ( ev[ k ].first ) {
    case 1: w[ r.below( 2 ) ] ^= 1 << r.below( 8 ); break;          // connection
    case 2: w[ 2 + r.below( 4 ) ] ^= 1 << r.below( 8 ); break;      // source state
    case 3: w[ 6 + r.below( 4 ) ] ^= 1 << r.below( 8 ); break;      // target state
    case 4: w[ 10 + r.below( 4 ) ] ^= 1 << r.below( 8 ); break;     // frame number
    case 5: { size_t n = nfrag; while ( n == nfrag ) n = ev[ k ].second + 1 + r.below( 3 ); w[ 16 ] = n; w[ 17 ] = n >> 8; break; }   // fragment count
    }
    Packet p { Chunk( w ) };
    c.require( p.to_string() == w, "packet-roundtrip", d.str() );
    if ( ev[ k ].first ) { c.require( throws( [&] { in->add_packet( p ); } ), "foreign-accepted", d.str() + " kind " + to_string( ev[ k ].first ) ); refused++; }
    else { in->add_packet( p ); got.insert( ev[ k ].second ); }
    if ( !big && r.chance( 1, 8 ) ) { unique_ptr<FragmentedFrame> m( new FragmentedFrame( move( *in ) ) ); in.swap( m ); }
    check( k );
  }
  c.tag( "fragments", nfrag ); c.tag( "arrivals", ev.size() ); c.tag( "refused", refused );
  if ( got.size() == nfrag ) c.tag( "completed" ); else c.tag( "left incomplete" );
  Digest dg; dg.add( frame ); for ( auto & e : ev ) { dg.u( e.first ); dg.u( e.second ); }
  if ( nfrag > 1 && ev.size() > 2 ) c.nontrivial( dg.h );
  d << ", schedule " << sched << ", " << ev.size() << " arrivals, " << refused << " foreign"; c.sample( d.str() );
}

// the same through a real socket pair on loopback
static void socket_case( pbt::Ctx & c )
{
  Src & g = c.g;
  UDPSocket rx; rx.bind( Address( "::1", uint16_t( 0 ) ) ); rx.set_timestamps();
  UDPSocket tx; tx.connect( rx.local_address() );
  vector<uint8_t> frame = draw_frame( g, 12 ); string fs( frame.begin(), frame.end() );
  Hdr h { draw_u16( g ), draw_u32( g ), draw_u32( g ), draw_u32( g ), draw_u32( g ) };
  FragmentedFrame out { h.conn, h.src, h.tgt, h.no, h.tm, frame };
  out.send( tx );
  unique_ptr<FragmentedFrame> in;
  for ( size_t i = 0; i < out.packets().size(); i++ ) {
    auto dgm = rx.recv();
    c.require( dgm.payload == out.packets()[ i ].to_string(), "datagram", "fragment " + to_string( i ) );
    c.require( dgm.timestamp_us != (uint64_t)-1, "no-timestamp" );
    c.require( dgm.source_address.port() == tx.local_address().port(), "source-address" );
    Packet p { Chunk( dgm.payload ) };
    if ( in ) in->add_packet( p ); else in.reset( new FragmentedFrame( h.conn, p ) );
  }
  c.require( in->complete() && in->frame() == fs, "socket-frame" );
  Digest dg; dg.add( frame ); c.nontrivial( dg.h ); c.tag( "datagrams", out.packets().size() );
  c.sample( "frame of " + to_string( frame.size() ) + " bytes over loopback" );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs {
    { "reassembly", []( pbt::Ctx & c ) { split( c, 12, true ); }, 60000, 2000000, 100 },
    { "many-fragments", []( pbt::Ctx & c ) { split( c, 700, true ); }, 400, 10000, 4 },
    { "huge", []( pbt::Ctx & c ) {
        // the full range of fragment counts, around the powers of two
        unsigned k = c.g.draw( 8 ); size_t n = k == 0 ? 65535 - c.g.draw( 3 ) : k == 1 ? 32767 + c.g.draw( 3 ) : k < 6 ? ( 128u << c.g.draw( 8 ) ) + c.g.draw( 3 ) - 1 : 1 + c.g.draw( 20000 );
        split( c, 12, true, n ); }, 24, 300, 1, 60 },
    { "loopback", socket_case, 300, 4000, 20 },
  };
  return pbt::Runner( "P15", subs ).main( argc, argv );
}
