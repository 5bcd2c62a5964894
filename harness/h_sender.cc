// P19: the Salsify sender under generated acknowledgement histories.
#include "salsify.hh"
#include "alf.hh"
#include "packet.hh"
#include "picgen.hh"
#include <deque>
#include <map>
using namespace std;

static const int64_t MS = 1000000, SEC = 1000 * MS;

struct Session {
  pbt::Ctx & c; Src & g; int w, h, mode; ostringstream log; Udp net; unique_ptr<Program> tx; unique_ptr<Pics> pics; uint16_t conn; uint32_t initial; Digest dg;
  map<uint32_t, Decoder> states; vector<uint32_t> targets; vector<unsigned> frags; vector<uint64_t> before;    // per frame seen
  // the frame arriving
  unique_ptr<FragmentedFrame> cur; unsigned cur_next = 0;
  // what the sender has been told
  bool acked = false; uint64_t last_seq = 0; uint32_t reported = 0; deque<uint32_t> listed; size_t known_from = 0;    // index of the newest produced state reported
  int64_t cautious_min = 0, cautious_max = 0;
  struct Start { int64_t t; bool must_list, may_list; deque<uint32_t> listed; size_t produced; }; deque<Start> starts; bool encoding = false; unsigned produced = 0, skipped_row = 0, skips = 0, cautious = 0, normal = 0; bool drain_mode;
  Session( pbt::Ctx & c_, int maxsize, int minsize ) : c( c_ ), g( c_.g )
  {
    w = minsize + g.draw( maxsize - minsize + 1 ); h = minsize + g.draw( maxsize - minsize + 1 ); mode = g.draw( 3 ); conn = g.draw( 2 ) ? g.draw( 65536 ) : 1337; drain_mode = g.draw( 2 ); pics.reset( new Pics( g, w, h ) );
    const char * mn[] = { "s2", "s1", "conventional" }; log << w << "x" << h << " " << mn[ mode ] << ( drain_mode ? " drained" : "" ) << ":"; vector<string> a { "salsify-sender", "-m", mn[ mode ] }; if ( mode == 2 ) { a.push_back( "-u" ); a.push_back( to_string( g.pick<int>( { 1, 10, 0 } ) ) ); } a.push_back( "127.0.0.1" ); a.push_back( to_string( net.port ) ); a.push_back( to_string( conn ) );
    tx.reset( new Program( c, a, w, h ) ); tx->context = [this] { return log.str(); }; tx->full = [this] { net.drain(); }; Decoder d( w, h ); initial = d.minihash(); states.emplace( initial, d ); c.tag( mn[ mode ] );
  }
  int64_t now() { return tx->shm->now_ns; }
  void advance( int64_t ns ) { tx->shm->now_ns += ns; tx->step( 'T', "time passed" ); }
  void unix_event()
  {
    uint32_t cc = tx->shm->camera_calls; if ( !encoding ) { pics->next(); pics->add( dg ); for ( int k = 0; k < 3; k++ ) { auto & p = pics->plane( k ); memcpy( tx->shm->pic[ k ], p.data(), p.size() ); } tx->shm->have_picture = 1; }
    // what may be chosen if this event starts an encode
    Start s; s.t = now(); s.listed = listed; s.produced = produced; s.must_list = s.may_list = false; bool cau = false, may = false; int64_t cmin = cautious_min, cmax = cautious_max;
    if ( s.t < cautious_min ) cau = true;
    else {
      bool known = !acked || reported == initial, never = false; size_t i = targets.size(); while ( i > 0 && targets[ i - 1 ] != reported ) i--; if ( !known ) { never = i == 0; known = i > 0 && i - 1 >= known_from; }
      if ( never ) { cau = true; cmin = s.t >= cautious_max ? s.t + 5 * SEC : s.t; cmax = s.t + 5 * SEC; }
      else { may = !known || s.t < cautious_max; if ( !known ) cmax = s.t + 5 * SEC; }       // a state it may have forgotten: it may be cautious
    }
    s.must_list = cau; s.may_list = may;
    tx->step( 'U', encoding ? "encoding ended" : "a picture arrived" );
    if ( tx->shm->camera_calls != cc ) { c.require( !encoding && tx->shm->camera_calls == cc + 1, "harness:phase", log.str() ); encoding = true; cautious_min = cmin; cautious_max = cmax; starts.push_back( s ); log << " [" << ( s.must_list ? "c" : s.may_list ? "?" : "" ); }
    else { c.require( encoding, "harness:phase", log.str() ); encoding = false; log << "]"; produced++; if ( drain_mode ) drain(); }
  }
  // let everything queued go out; in drain mode, see whether the frame was skipped
  void drain()
  {
    size_t n0 = targets.size(); tx->step( 'T', "time passed" ); if ( drain_mode && !tx->at.dgram_out && !cur ) { { c.require( mode != 2, "conventional-mode-skips", log.str() ); skips++; skipped_row++; produced--; starts.pop_back(); log << "-"; c.require( skipped_row <= 3, "too-many-skips", log.str() ); } return; }
    while ( tx->at.dgram_out || cur || ( !drain_mode && targets.size() < produced ) ) { if ( tx->at.dgram_out ) out(); else { int64_t t0 = now(); bool ok = false; while ( now() - t0 < 10 * SEC ) { advance( 500000 ); if ( tx->at.dgram_out ) { ok = true; break; } } c.require( ok, "packets-kept", "the rest of a frame never leaves;" + log.str() ); } }
    if ( drain_mode ) { c.require( targets.size() == n0 + 1, "one-frame-per-encode", log.str() ); skipped_row = 0; }
  }
  void out() { tx->step( 'O', "ready to send" ); string s; int n = 0; while ( net.recv( s ) ) { packet( s ); n++; } c.require( n > 0, "nothing-sent", log.str() ); }
  void packet( const string & wire )
  {
    Packet p { Chunk( wire ) }; uint32_t f = targets.size(); c.require( p.connection_id() == conn, "connection-id", log.str() ); c.require( p.frame_no() == f, "frame-number", to_string( p.frame_no() ) + " after " + to_string( f ) + " frames;" + log.str() );
    c.require( p.fragment_no() == cur_next, "fragment-order", log.str() ); cur_next++; log << ".";
    if ( !cur ) { cur.reset( new FragmentedFrame( conn, p ) ); before.push_back( f ? before.back() + frags.back() : 0 ); frags.push_back( p.fragments_in_this_frame() ); if ( frags.back() > 40 ) c.tag( "frames of more than 40 packets" ); } else cur->add_packet( p );
    if ( !cur->complete() ) return;
    c.require( !starts.empty(), "frame-from-nowhere", log.str() ); Start s = starts.front(); starts.pop_front(); uint32_t src = p.source_state(), tgt = p.target_state();
    auto it = states.find( src ); c.require( it != states.end(), "unknown-source", log.str() ); string fr = cur->frame(); Decoder d( it->second );
    try { d.parse_and_decode_frame( Chunk( fr ) ); } catch ( const exception & e ) { c.fail( "undecodable", string( e.what() ) + log.str() ); }
    c.require( d.minihash() == tgt, "target-state", "frame " + to_string( f ) + " does not lead from its source to the state announced;" + log.str() );
    bool is_listed = src == initial || count( s.listed.begin(), s.listed.end(), src ), is_last = s.produced ? src == last_of( s ) : src == initial;
    if ( s.must_list ) { cautious++; c.require( is_listed, "incautious", "frame " + to_string( f ) + " starts from a state the receiver does not list;" + log.str() ); }
    else if ( !s.may_list ) { normal++; c.require( is_last, "wrong-source", "frame " + to_string( f ) + " does not start from the state the frame before it leads to;" + log.str() ); }
    else c.require( is_last || is_listed, "wrong-source", "frame " + to_string( f ) + ";" + log.str() );
    states.emplace( tgt, d ); targets.push_back( tgt ); cur.reset(); cur_next = 0; log << ( src == initial ? "K" : is_last ? "P" : "L" );
  }
  uint32_t last_of( const Start & s ) { return targets.at( s.produced - 1 ); }
  void ack()
  {
    size_t seen = frags.size(); string how; uint16_t id = conn; uint32_t f, st, delay = drain_mode ? g.pick<uint32_t>( { 0, 20, 1000, 5000, 20000, 120000, 4000000 } ) : g.draw( 20 ); uint16_t fr; deque<uint32_t> list;
    unsigned kind = g.weighted( { 6, 4, 3, 1, 1, 2 } ); if ( !seen || targets.empty() ) kind = seen ? 1 : 4;
    size_t full = targets.size();
    f = seen ? seen - 1 : 0; if ( kind == 2 || g.chance( 1, 4 ) ) f = seen ? g.draw( seen ) : 0; fr = seen ? g.draw( frags[ f ] ) : 0; size_t upto = min<size_t>( full, f + 1 );
    auto window = [&]( size_t end ) { size_t a = end - min<size_t>( end, g.draw( 5 ) ); for ( size_t i = a; i < end; i++ ) if ( targets[ i ] != initial && ( g.draw( 4 ) || i + 1 == end ) ) list.push_back( targets[ i ] ); };
    st = initial;
    switch ( kind ) {
    case 0: how = "current"; st = targets.at( upto - 1 ); if ( upto > 1 && g.chance( 1, 3 ) ) st = targets[ upto - 2 ]; window( upto ); break;
    case 1: how = "unknown state"; st = g.draw32(); if ( g.draw( 4 ) ) window( upto ); break;
    case 2: how = "stale"; st = upto ? targets[ g.draw( upto ) ] : initial; window( upto ); break;
    case 3: how = "another connection"; id = conn + 1 + g.draw( 65535 ); st = g.draw32(); window( upto ); break;
    case 4: how = "of a frame never sent"; f = produced + ( encoding ? 1 : 0 ) + g.draw( 3 ); if ( g.chance( 1, 3 ) ) f = g.draw32() | 1u << 20; fr = g.draw( 3 ); st = g.draw( 2 ) ? g.draw32() : initial; window( upto ); break;
    default: how = "odd list"; st = g.draw( 2 ) ? g.draw32() : targets[ g.draw( upto ) ]; { int n = g.draw( 5 ); for ( int i = 0; i < n; i++ ) list.push_back( g.draw( 3 ) ? targets[ g.draw( full ) ] : g.draw32() ); } break;
    }
    if ( g.chance( 1, 12 ) && kind != 4 ) { st = initial; how += " initial"; }
    bool accept = id == conn && f < produced && f < seen; uint64_t seq = accept ? before[ f ] + fr : 0; if ( accept && acked && seq < last_seq ) accept = false;
    log << " (ack " << f << "/" << fr << " " << how << " lists " << list.size() << ( accept ? ")" : " ignored)" ); c.tag( "ack: " + how );
    net.send( tx->at.port, AckPacket( id, f, fr, delay, st, list ).to_string() ); tx->step( 'N', "an acknowledgement arrived" );
    if ( accept ) { acked = true; last_seq = seq; reported = st; listed = list; for ( size_t i = targets.size(); i > 0; i-- ) if ( targets[ i - 1 ] == st ) { known_from = max( known_from, i - 1 ); break; } }
  }
};

static void session( pbt::Ctx & c, int maxsize, int maxsteps, int minsize = 16 )
{
  Session s( c, maxsize, minsize ); Src & g = c.g; int n = 6 + g.draw( maxsteps - 5 ), wa = 1 + g.draw( 6 ), wt = g.draw( 4 );
  for ( int i = 0; i < n; i++ ) {
    double t = 8 + wa + wt + ( s.tx->at.dgram_out ? 8 : 0 ), r = g.draw( 1000 ) / 1000.0 * t;
    if ( r < 8 ) s.unix_event(); else if ( r < 8 + wa ) s.ack();
    else if ( r < 8 + wa + wt ) { int64_t d = g.pick<int64_t>( { MS, 33 * MS, 300 * MS, 2 * SEC, 4999 * MS, 5 * SEC, 6 * SEC } ); s.log << " +" << d / MS << "ms"; s.advance( d ); }
    else s.out();
  }
  if ( s.encoding ) s.unix_event();
  if ( !s.drain_mode ) s.drain();
  c.require( s.starts.empty() && s.targets.size() == s.produced, "frames-missing", to_string( s.targets.size() ) + " of " + to_string( s.produced ) + ";" + s.log.str() );
  c.tag( "frames", s.targets.size() ); c.tag( "skipped", s.skips ); c.tag( "cautious frames", s.cautious ); c.tag( "normal frames", s.normal );
  if ( s.targets.size() > 2 && s.acked ) c.nontrivial( s.dg.h ^ hash<string>()( s.log.str() ) ); c.sample( s.log.str() );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs { { "small", []( pbt::Ctx & c ) { session( c, 32, 60 ); }, 2500, 60000 }, { "large", []( pbt::Ctx & c ) { session( c, 96, 50 ); }, 500, 12000 }, { "long", []( pbt::Ctx & c ) { session( c, 24, 240 ); }, 300, 8000 }, { "marathon", []( pbt::Ctx & c ) { session( c, 18, 2000 ); }, 24, 400 }, { "big", []( pbt::Ctx & c ) { session( c, 640, 20, 300 ); }, 40, 800 } };
  return pbt::Runner( "P19", subs ).main( argc, argv );
}
