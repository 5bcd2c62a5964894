// P28: sizes and timing of what the Salsify sender sends, and the delays the receiver reports, against a model on a virtual clock.
#include "rxmodel.hh"
#include "picgen.hh"
#include "encoder.hh"
#include <deque>
#include <map>
#include <cmath>
using namespace std;

static const int64_t US = 1000, MS = 1000000, SEC = 1000 * MS;

static int step_quantizer( int q, int by ) { return max( 3, min( 127, q + by ) ); }

struct Tx {
  pbt::Ctx & c; Src & g; int w, h, mode; ostringstream log; Udp net; unique_ptr<Program> tx; unique_ptr<Pics> pics; uint16_t conn; uint32_t initial, last; Digest dg; int64_t interval = 0;
  map<uint32_t, vector<Encoder>> states;                      // what an encoder in that state may be (it can be reached in several ways)
  struct Out { string bytes; uint32_t src, tgt; int64_t queued; uint32_t pause; }; deque<Out> due_frames;   // predicted, not yet seen whole
  struct Pkt { int64_t when; }; deque<Pkt> pacer; int64_t last_when = 0, last_queued;
  vector<uint32_t> targets; vector<unsigned> frags; uint64_t total = 0; vector<uint64_t> before; size_t seen_frames = 0; vector<unsigned> seen_frags; string cur; unsigned cur_next = 0;
  bool acked = false; uint64_t last_seq = 0; uint32_t delay = 0xffffffff; size_t known = 0; int last_q = 64; bool encoding = false; unsigned skipped = 0, skips = 0, forced = 0, fine = 0, coarse = 0, limited = 0; unique_ptr<RasterHandle> picture;
  int64_t next_update = 0; double ewma = 0; int cc_q = 32;
  Tx( pbt::Ctx & c_, int maxsize, int minsize, bool conventional ) : c( c_ ), g( c_.g )
  {
    w = minsize + g.draw( maxsize - minsize + 1 ); h = minsize + g.draw( maxsize - minsize + 1 ); mode = conventional ? 2 : g.draw( 2 ); conn = g.draw( 65536 ); pics.reset( new Pics( g, w, h ) ); int rate = 1;
    const char * mn[] = { "s2", "s1", "conventional" }; vector<string> a { "salsify-sender", "-m", mn[ mode ] }; if ( mode == 2 ) { rate = g.pick<int>( { 1, 10, 3 } ); a.push_back( "-u" ); a.push_back( to_string( rate ) ); } interval = SEC / rate; a.push_back( "127.0.0.1" ); a.push_back( to_string( net.port ) ); a.push_back( to_string( conn ) ); log << w << "x" << h << " " << mn[ mode ] << ":";
    tx.reset( new Program( c, a, w, h ) ); tx->context = [this] { return log.str(); }; tx->full = [this] { net.drain(); }; Encoder e( w, h, false, REALTIME_QUALITY ); initial = last = e.minihash(); states[ initial ].push_back( move( e ) ); last_queued = now(); next_update = now() + interval; c.tag( mn[ mode ] );
  }
  int64_t now() { return tx->shm->now_ns; }
  void advance( int64_t ns ) { tx->shm->now_ns += ns; tx->step( 'T', "time passed" ); expect_interest(); }
  // the program asks to send exactly when a packet is due, to the millisecond
  void expect_interest()
  {
    bool due = !pacer.empty() && pacer.front().when <= now(), near = !pacer.empty() && pacer.front().when - now() < MS;
    if ( due ) c.require( tx->at.dgram_out, "packet-held-back", "a packet is due and the program does not send;" + log.str() ); if ( !near ) c.require( !tx->at.dgram_out, "packet-early", "nothing is due and the program wants to send;" + log.str() );
    if ( !near && !pacer.empty() ) c.require( tx->at.timeout >= 0 && tx->at.timeout <= ( pacer.front().when - now() ) / MS + 1, "sleeps-too-long", "for " + to_string( tx->at.timeout ) + " ms;" + log.str() );
  }
  void out() { tx->step( 'O', "ready to send" ); string s; int n = 0; while ( net.recv( s ) ) { packet( s ); n++; } c.require( n > 0, "nothing-sent", log.str() ); expect_interest(); }
  void packet( const string & wire )
  {
    Packet p { Chunk( wire ) }; log << "."; c.require( !due_frames.empty(), "unexpected-frame", "a frame is sent that should have been skipped, or twice: number " + to_string( p.frame_no() ) + ";" + log.str() ); Out & f = due_frames.front();
    c.require( p.connection_id() == conn && p.frame_no() == seen_frames && p.fragment_no() == cur_next && p.source_state() == f.src && p.target_state() == f.tgt, "wrong-packet", "frame " + to_string( p.frame_no() ) + " fragment " + to_string( p.fragment_no() ) + ";" + log.str() );
    c.require( !pacer.empty(), "harness:pacer", log.str() ); c.require( pacer.front().when - now() < MS, "packet-early", "by " + to_string( ( pacer.front().when - now() ) / 1000 ) + " us;" + log.str() ); pacer.pop_front();
    if ( !cur_next ) seen_frags.push_back( p.fragments_in_this_frame() );
    uint32_t want = p.fragment_no() ? 0 : f.pause; c.require( p.time_since_last() == want, "pause-stated", to_string( p.time_since_last() ) + " us instead of " + to_string( want ) + ";" + log.str() );
    cur += p.payload(); cur_next++; if ( cur_next < p.fragments_in_this_frame() ) return;
    c.require( cur == f.bytes, "frame-sent", "not the encoding of the picture with the quantizer expected;" + log.str() ); cur.clear(); cur_next = 0; seen_frames++; due_frames.pop_front(); log << "|";
  }
  void finish_pacing( bool exact )
  {
    while ( !pacer.empty() ) { if ( tx->at.dgram_out ) out(); else advance( exact ? 250 * US : 5 * MS ); }
  }
  void picture_event( bool fresh = true )
  {
    c.require( !encoding, "harness:phase", "" ); if ( fresh ) pics->next(); pics->add( dg ); for ( int k = 0; k < 3; k++ ) { auto & p = pics->plane( k ); memcpy( tx->shm->pic[ k ], p.data(), p.size() ); } tx->shm->have_picture = 1; picture.reset( new RasterHandle( pics->raster() ) ); uint32_t cc = tx->shm->camera_calls;
    if ( mode == 2 ) { double r = floor( 1400e6 / max<uint32_t>( 1, delay ) ); update_due = now() >= next_update; if ( update_due ) { rate_up = r > 1.1 * ewma + 1, rate_down = r < 0.9 * ewma - 1; ewma = floor( 0.8 * r + 0.2 * ewma ); next_update = now() + interval; } }
    tx->step( 'U', "a picture arrived" ); c.require( tx->shm->camera_calls == cc + 1, "harness:phase", log.str() ); encoding = true; log << " [" << pics->kind; expect_interest();
  }
  bool update_due = false, rate_up = false, rate_down = false;
  uint64_t capacity() const { if ( delay == 0xffffffff ) return ~0ull; int64_t n = 100000 / max<uint32_t>( 1, delay ), flight = total - last_seq; return n > flight ? 1400ull * ( n - flight ) : 0; }
  void encoded_event()
  {
    c.require( encoding, "harness:phase", "" ); encoding = false; uint64_t cap = capacity(); vector<Encoder> from; for ( auto & e : states.at( last ) ) from.emplace_back( e ); if ( cap != ~0ull ) limited++;
    struct Choice { int q; string bytes; Encoder e; }; vector<Choice> may; bool may_skip = false;
    auto make = [&]( Encoder & e, int q ) { Encoder x( e ); Bytes b = x.encode_with_quantizer( picture->get(), q ); return Choice { q, string( b.begin(), b.end() ), move( x ) }; };
    if ( mode == 2 ) { /* the frame tells its quantizer */ }
    else for ( auto & e : from ) {
      Choice a = make( e, step_quantizer( last_q, -17 ) ), b = make( e, step_quantizer( last_q, 23 ) ); bool fa = a.bytes.size() <= cap, fb = b.bytes.size() <= cap; size_t as = a.bytes.size(), bs = b.bytes.size(); log << " " << as << "/" << bs << " of "; if ( cap == ~0ull ) log << "any"; else log << cap;
      if ( fa && fb ) { if ( as >= bs ) may.push_back( move( a ) ); if ( bs >= as ) may.push_back( move( b ) ); } else if ( fa ) may.push_back( move( a ) ); else if ( fb ) may.push_back( move( b ) ); else if ( skipped < 3 ) may_skip = true; else { forced++; may.push_back( move( b ) ); }
    }
    int64_t t = now(); uint32_t src = last; tx->step( 'U', "encoding ended" ); bool certain = may.size() + may_skip == 1;
    if ( !certain ) {                      // see what comes
      while ( !pacer.empty() ) { if ( tx->at.dgram_out ) { tx->step( 'O', "ready to send" ); string s; bool stop = false; while ( !stop && net.recv( s ) ) { if ( pacer.empty() ) { net.early.push_front( s ); stop = true; } else packet( s ); } } else { tx->shm->now_ns += MS; tx->step( 'T', "time passed" ); } }
      string s; bool have = net.recv( s ); for ( int i = 0; i < 5 && !have && !tx->at.dgram_out; i++ ) { tx->shm->now_ns += MS; tx->step( 'T', "time passed" ); } if ( !have && tx->at.dgram_out ) { tx->step( 'O', "ready to send" ); have = net.recv( s ); } 
      if ( !have ) { c.require( may_skip, "picture-not-sent", log.str() ); may.clear(); }
      else {
        deque<string> got { s }; Packet p { Chunk( s ) }; unsigned n = p.fragments_in_this_frame(); int guard = 0; while ( got.size() < n ) { if ( net.recv( s ) ) got.push_back( s ); else if ( tx->at.dgram_out ) tx->step( 'O', "ready to send" ); else { c.require( ++guard < 200000, "packets-kept", log.str() ); tx->shm->now_ns += MS; tx->step( 'T', "time passed" ); } }
        string whole; for ( auto & x : got ) whole += Packet( Chunk( x ) ).payload();
        if ( mode == 2 ) { for ( int q = 3; q <= 127 && may.empty(); q++ ) { if ( !update_due && q != cc_q ) continue; for ( auto & e : from ) { Choice k = make( e, q ); if ( k.bytes == whole ) { may.push_back( move( k ) ); break; } } }
          c.require( !may.empty(), update_due ? "frame-sent" : "quantizer-changed", "conventional mode;" + log.str() ); int q = may[ 0 ].q; log << ( update_due ? rate_up ? " up" : rate_down ? " down" : " same" : "" ); if ( update_due && rate_up ) c.require( q <= cc_q, "quantizer-direction", "from " + to_string( cc_q ) + " to " + to_string( q ) + " though the rate rose;" + log.str() ); if ( update_due && rate_down ) c.require( q >= cc_q, "quantizer-direction", "from " + to_string( cc_q ) + " to " + to_string( q ) + " though the rate fell;" + log.str() ); if ( q != cc_q ) c.tag( "quantizer changed" ); cc_q = q; update_due = false; }
        size_t i = 0; while ( i < may.size() && may[ i ].bytes != whole ) i++; c.require( i < may.size(), "frame-sent", "neither encoding expected;" + log.str() ); if ( i ) swap( may[ 0 ], may[ i ] ); may.erase( may.begin() + 1, may.end() ); uint32_t gap = p.time_since_last(), want = ( t - last_queued ) / 1000; c.require( gap == want, "pause-stated", to_string( gap ) + " instead of " + to_string( want ) + ";" + log.str() ); c.require( p.source_state() == src && p.target_state() == may[ 0 ].e.minihash() && p.frame_no() == seen_frames, "wrong-packet", log.str() );
        seen_frames++; seen_frags.push_back( n ); log << "(" << n << ")";
      }
    }
    if ( may.empty() ) { skips++; skipped++; log << " skip]"; c.require( skipped <= 3, "harness:skips", log.str() ); expect_interest(); return; }
    Choice & k = may[ 0 ]; skipped = 0; log << " q" << k.q << "]"; if ( mode != 2 ) { if ( k.q < last_q || k.q == 3 ) fine++; else coarse++; } last_q = k.q; unsigned n = ( k.bytes.size() + 1399 ) / 1400; uint32_t tgt = k.e.minihash();
    if ( certain ) { due_frames.push_back( { k.bytes, src, tgt, t, (uint32_t)( ( t - last_queued ) / 1000 ) } ); int64_t gap = max<int64_t>( 500, min<int64_t>( 2000, delay / 5 ) ) * US; for ( unsigned i = 0; i < n; i++ ) { last_when = pacer.empty() ? t : last_when + gap; pacer.push_back( { last_when } ); } }
    last_queued = t; before.push_back( total ); total += n; frags.push_back( n ); targets.push_back( tgt ); last = tgt; states[ tgt ].push_back( move( k.e ) ); if ( states[ tgt ].size() > 3 ) states[ tgt ].erase( states[ tgt ].begin() + 1 ); if ( n > 1 ) c.tag( "frames of several packets" ); expect_interest();
  }
  void ack()
  {
    size_t seen = seen_frags.size(); if ( !seen ) return; uint32_t f = seen - 1; if ( g.chance( 1, 3 ) ) f = g.draw( seen ); unsigned fr = g.draw( 2 ) ? seen_frags[ f ] - 1 : g.draw( seen_frags[ f ] ); uint64_t seq = before[ f ] + fr; bool accept = !acked || seq >= last_seq;
    uint32_t d = g.pick<uint32_t>( { 0, 1, 20, 1000, 5000, 9000, 11000, 20000, 33000, 50000, 100000, 100001, 4000000 } ); if ( g.draw( 2 ) ) { // near what the last frames took
      uint64_t want = max<uint64_t>( 1, frags.back() + g.draw( 4 ) + total - seq ); d = 100000 / want; } if ( g.chance( 1, 10 ) ) d = g.draw( 200000 );
    uint32_t st = initial; deque<uint32_t> list; size_t full = min<size_t>( seen_frames, f + 1 ), lo = known; if ( full > lo && g.draw( 8 ) ) { size_t i = lo + g.draw( full - lo ); st = targets[ i ]; if ( accept ) known = max( known, i ); list.push_back( st ); }
    uint16_t id = conn; if ( g.chance( 1, 12 ) ) { id = conn + 1 + g.draw( 65535 ); accept = false; } if ( g.chance( 1, 12 ) ) { f = targets.size() + g.pick<unsigned>( { 0, 1, (unsigned)total + 1 + g.draw( 100 ) } ); accept = false; }
    log << " (ack " << f << "/" << fr << " delay " << d << ( accept ? ")" : " ignored)" ); net.send( tx->at.port, AckPacket( id, f, fr, d, st, list ).to_string() ); tx->step( 'N', "an acknowledgement arrived" ); if ( accept ) { acked = true; last_seq = seq; delay = d; c.tag( "acks taken" ); } expect_interest();
  }
};

static void sender( pbt::Ctx & c, int maxsize, int maxsteps, int minsize, bool conventional )
{
  Tx s( c, maxsize, minsize, conventional ); Src & g = c.g; int n = 6 + g.draw( maxsteps - 5 ); unsigned wa = 1 + g.draw( 6 ), wt = g.draw( 4 ), wf = g.draw( 3 ); bool exact = g.draw( 2 );
  for ( int i = 0; i < n; i++ ) {
    switch ( g.weighted( { 8, wa, wt, wf, s.tx->at.dgram_out ? 8u : 0u } ) ) {
    case 0: if ( s.encoding ) s.encoded_event(); else s.picture_event(); break;
    case 1: s.ack(); break;
    case 2: { int64_t d = g.pick<int64_t>( { 250 * US, MS, 7 * MS, 33 * MS, 300 * MS, SEC } ); s.log << " +" << d / US << "us"; s.advance( d ); break; }
    case 3: s.finish_pacing( exact ); break;
    default: s.out();
    }
  }
  if ( s.encoding ) s.encoded_event(); s.finish_pacing( exact ); s.advance( 5 * MS );
  c.require( s.due_frames.empty() && s.seen_frames == s.targets.size() && !s.tx->at.dgram_out, "frames-missing", to_string( s.seen_frames ) + " of " + to_string( s.targets.size() ) + ";" + s.log.str() );
  c.tag( "frames", s.targets.size() ); c.tag( "skipped", s.skips ); c.tag( "sent after three skips", s.forced ); c.tag( "finer frames", s.fine ); c.tag( "coarser frames", s.coarse ); c.tag( "decisions under a capacity", s.limited );
  if ( s.targets.size() > 2 && s.acked ) c.nontrivial( s.dg.h ^ hash<string>()( s.log.str() ) ); c.sample( s.log.str() );
}

// frames at the very edge of the capacity
static void brim( pbt::Ctx & c )
{
  Tx s( c, 64, 48, false ); Src & g = c.g; int n = g.draw( 3 ); for ( int i = 0; i <= n; i++ ) { s.picture_event(); s.encoded_event(); s.finish_pacing( false ); }
  bool which = g.draw( 2 ); int q = step_quantizer( s.last_q, which ? 23 : -17 ); Prng r( g.seed() ); auto size = [&] { Encoder x( s.states.at( s.last )[ 0 ] ); return x.encode_with_quantizer( s.pics->raster().get(), q ).size(); };
  s.pics->next(); size_t z = 0; long target = 0; bool hit = false; int off = g.range( -1, 1 );
  for ( int i = 0; i < 400 && !hit; i++ ) {
    z = size(); if ( !target ) target = 1400 * max<long>( 1, ( z + 700 ) / 1400 ) + off; hit = (long)z == target; if ( hit ) break; long d = target - (long)z; int k = 1 + min<long>( 400, labs( d ) / 2 ); auto & y = const_cast<vector<uint8_t> &>( s.pics->plane( 0 ) ); int aw = ( s.w + 15 ) / 16 * 16;
    for ( int j = 0; j < k; j++ ) { int X = r.below( s.w ), Y = r.below( s.h ); if ( d > 0 ) y[ Y * aw + X ] = r.below( 256 ); else y[ Y * aw + X ] = y[ Y * aw + ( X ? X - 1 : 1 ) ]; }
  }
  if ( !hit ) return; long cap = target - off; uint64_t flight = 1; size_t f = s.seen_frags.size() - 1; unsigned fr = s.seen_frags[ f ] - 1; uint32_t packets = flight + cap / 1400; s.picture_event( false );
  uint32_t d = 100000 / packets; while ( d && 100000 / d != packets ) d--; if ( !d ) return; s.log << " (brim " << target << ")"; s.net.send( s.tx->at.port, AckPacket( s.conn, f, fr, d, s.last, { s.last } ).to_string() ); s.tx->step( 'N', "an acknowledgement arrived" ); s.acked = true; s.last_seq = s.before[ f ] + fr; s.delay = d; c.require( s.capacity() == (uint64_t)cap, "harness:capacity", s.log.str() );
  s.encoded_event(); s.finish_pacing( false ); s.advance( 5 * MS ); c.require( s.due_frames.empty() && s.seen_frames == s.targets.size() && !s.tx->at.dgram_out, "frames-missing", s.log.str() ); c.tag( off == 0 ? "candidate of exactly the capacity" : off < 0 ? "one byte below the capacity" : "one byte above the capacity" ); c.nontrivial( s.dg.h ); c.sample( s.log.str() );
}

// the receiver's reports
static void receiver( pbt::Ctx & c, int maxframes )
{
  Src & g = c.g; int w = 16 + g.draw( 40 ), h = 16 + g.draw( 40 ); ostringstream log; log << w << "x" << h << ":"; Udp net; RxModel model( w, h ); Program rx( c, { "salsify-receiver", "0", to_string( w ), to_string( h ) }, w, h ); rx.context = [&] { return log.str(); }; rx.full = [&] { net.drain(); };
  Pics p( g, w, h ); Encoder e( w, h, false, REALTIME_QUALITY ); Encoder first( e ); deque<string> flight; int frames = 2 + g.draw( maxframes - 1 ), loss = g.pick<int>( { 0, 0, 10, 40 } ), window = 1 + g.draw( 4 ), style = g.draw( 4 ); bool started = false; double avg = 0; int64_t prev = 0; unsigned acks = 0, graced = 0; Digest dg;
  uint32_t src = e.minihash(); bool paused = g.chance( 1, 4 );       // pauses stated in other packets too
  auto deliver = [&]( const string & wire ) {
    int64_t gap = 0; switch ( style ) { case 0: gap = g.draw( 40000 ); break; case 1: gap = g.pick<int64_t>( { 0, 1, 500, 2000, 33000, 1000000 } ); break; case 2: gap = 1000 + g.draw( 100 ); break; default: gap = g.chance( 1, 10 ) ? g.draw( 3000000 ) : g.draw( 3000 ); }
    rx.shm->now_ns += gap * US + g.draw( 1000 ); Packet q { Chunk( wire ) }; int64_t t = rx.shm->now_ns / 1000; log << " +" << gap << ":" << q.frame_no() << "/" << q.fragment_no(); if ( q.time_since_last() ) log << "(" << q.time_since_last() << ")"; net.send( rx.at.port, wire ); rx.step( 'N', "a packet arrived" ); string a; bool got = net.recv( a ); unique_ptr<AckPacket> rep( got ? new AckPacket( Chunk( a ) ) : nullptr ); bool want = model.packet( q, rep.get() ); c.require( got == want, "acknowledged", log.str() ); if ( !want ) return;
    int64_t pause = (int32_t)q.time_since_last(); if ( !started ) { started = true; avg = 0; } else { double d = max<int64_t>( 0, t - prev - pause ); avg = 0.1 * d + 0.9 * avg; if ( pause ) graced++; } prev = t; acks++; log << "=" << rep->avg_delay(); dg.u( rep->avg_delay() );
    c.require( fabs( rep->avg_delay() - avg ) < 1.5, "average-delay", "reports " + to_string( rep->avg_delay() ) + " us, the gaps average to " + to_string( avg ) + ";" + log.str() );
  };
  for ( int i = 0; i < frames; i++ ) {
    p.next(); bool key = g.chance( 1, 6 ); if ( key ) e = Encoder( first ); src = e.minihash(); Bytes b = e.encode_with_quantizer( p.raster().get(), g.pick<int>( { 127, 4, 30, 60 } ) ); dg.add( b ); FragmentedFrame ff( 1337, src, e.minihash(), i, g.draw( 3 ) ? g.draw( 60000 ) : g.draw( 4000000 ), b ); for ( auto x : ff.packets() ) { if ( paused && g.draw( 2 ) ) x.set_time_to_next( g.draw( 5000 ) ); flight.push_back( x.to_string() ); }
    while ( flight.size() > (size_t)window - 1 ) { size_t k = g.draw( min<size_t>( window, flight.size() ) ); string s = flight[ k ]; if ( !g.chance( 1, 12 ) ) flight.erase( flight.begin() + k ); if ( g.chance( loss, 100 ) ) continue; deliver( s ); }
  }
  c.tag( "acknowledgements", acks ); c.tag( "gaps with a stated pause", graced ); if ( acks > 3 ) c.nontrivial( dg.h ); c.sample( log.str() );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs { { "sender", []( pbt::Ctx & c ) { sender( c, 64, 60, 16, false ); }, 700, 20000 }, { "capacity", []( pbt::Ctx & c ) { sender( c, 200, 60, 100, false ); }, 250, 6000 }, { "brim", []( pbt::Ctx & c ) { brim( c ); }, 60, 2000 }, { "conventional", []( pbt::Ctx & c ) { sender( c, 40, 60, 16, true ); }, 150, 4000 }, { "receiver", []( pbt::Ctx & c ) { receiver( c, 20 ); }, 900, 20000 } };
  return pbt::Runner( "P28", subs ).main( argc, argv );
}
