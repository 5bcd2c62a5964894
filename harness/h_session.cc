// P23: the real Salsify sender and receiver, with the network between them decided by the harness.
#include "rxmodel.hh"
#include "picgen.hh"
using namespace std;
static const int64_t MS = 1000000;

static void session( pbt::Ctx & c, int maxsize, int chaos_max, int minsize = 16 )
{
  Src & g = c.g; int w = minsize + g.draw( maxsize - minsize + 1 ), h = minsize + g.draw( maxsize - minsize + 1 ), mode = g.draw( 3 ); const char * mn[] = { "s2", "s1", "conventional" }; ostringstream log; log << w << "x" << h << " " << mn[ mode ];
  Udp txnet, rxnet; Program rx( c, { "salsify-receiver", "0", to_string( w ), to_string( h ) }, w, h ), tx( c, { "salsify-sender", "-m", mn[ mode ], "127.0.0.1", to_string( txnet.port ), "1337" }, w, h ); rx.context = tx.context = [&] { return log.str(); }; tx.full = [&] { txnet.drain(); }; rx.full = [&] { rxnet.drain(); };
  RxModel model( w, h ); Pics pics( g, w, h ); vector<vector<uint8_t>> still; bool repeat = g.draw( 3 ) == 2; Digest dg;
  int chaos = g.draw( chaos_max + 1 ), loss = g.pick<int>( { 0, 10, 30, 60 } ), ackloss = g.pick<int>( { 0, 10, 50, 90 } ), win = 1 + g.draw( 6 ), awin = 1 + g.draw( 4 ), dup = g.pick<int>( { 0, 0, 15 } ), gap = g.pick<int>( { 33, 5, 200, 900 } ); log << ": " << chaos << " frames with loss " << loss << "% ackloss " << ackloss << "% window " << win << "/" << awin << " dup " << dup << "% gap " << gap << "ms:";
  deque<string> data, acks; bool quiet = false; unsigned frames = 0, exact_quiet = 0; map<uint32_t, bool> exact, astray; set<uint32_t> sent; size_t shown0 = 0; (void)shown0;
  auto to_tx = [&]( const string & a ) { log << " a" << AckPacket( Chunk( a ) ).frame_no() << "/" << AckPacket( Chunk( a ) ).fragment_no(); txnet.send( tx.at.port, a ); tx.step( 'N', "an acknowledgement arrived" ); };
  auto to_rx = [&]( const string & wire ) {
    Packet p { Chunk( wire ) }; log << " " << p.frame_no() << "/" << p.fragment_no(); if ( getenv( "VP_STATES" ) ) log << "{" << hex << p.source_state() << ">" << p.target_state() << dec << "}"; rxnet.send( rx.at.port, wire ); rx.step( 'N', "a packet arrived" ); string a; bool got = rxnet.recv( a ); unique_ptr<AckPacket> rep( got ? new AckPacket( Chunk( a ) ) : nullptr );
    bool want = model.packet( p, rep.get() ); c.require( want == got, want ? "no-ack" : "acks-an-old-packet", log.str() ); if ( !got ) return;
    string j = model.judge( *rep, p, 1337 ); c.require( j.empty(), "untruthful", j + ";" + log.str() );
    if ( model.frame_done ) { exact[ p.frame_no() ] = rep->current_state() == p.target_state(); astray[ p.frame_no() ] = !exact[ p.frame_no() ] && sent.count( rep->current_state() ); log << ( exact[ p.frame_no() ] ? "=" : "!" ); if ( getenv( "VP_STATES" ) ) log << "{" << hex << rep->current_state() << dec << "}"; if ( model.held ) c.require( exact[ p.frame_no() ], "held-state-not-used", log.str() ); }
    if ( !quiet ) { if ( g.chance( ackloss, 100 ) ) log << "(ack lost)"; else { acks.push_back( a ); if ( dup && g.chance( dup, 100 ) ) acks.push_back( a ); } } else acks.push_back( a );
  };
  auto pump = [&]( bool all ) {
    while ( !data.empty() || !acks.empty() ) {
      if ( !quiet && !all && g.draw( 4 ) == 3 ) return;         // the rest stays in flight
      if ( !data.empty() && ( acks.empty() || quiet || g.draw( 2 ) ) ) { size_t k = quiet ? 0 : g.draw( min<size_t>( win, data.size() ) ); string s = data[ k ]; if ( !quiet && dup && g.chance( dup, 100 ) ) c.tag( "duplicated" ); else data.erase( data.begin() + k ); if ( !quiet && g.chance( loss, 100 ) ) { c.tag( "lost" ); continue; } to_rx( s ); }
      else { size_t k = quiet ? 0 : g.draw( min<size_t>( awin, acks.size() ) ); string s = acks[ k ]; acks.erase( acks.begin() + k ); to_tx( s ); }
    }
  };
  auto collect = [&] { string s; while ( txnet.recv( s ) ) { Packet p { Chunk( s ) }; sent.insert( p.target_state() ); frames = max( frames, p.frame_no() + 1 ); data.push_back( s ); } };
  auto frame = [&]() {
    if ( !( repeat && g.draw( 2 ) ) ) pics.next(); pics.add( dg ); for ( int k = 0; k < 3; k++ ) { auto & p = pics.plane( k ); memcpy( tx.shm->pic[ k ], p.data(), p.size() ); } tx.shm->have_picture = 1;
    log << " ["; tx.step( 'U', "a picture arrived" ); if ( !quiet && g.draw( 3 ) == 2 ) pump( false ); tx.step( 'U', "encoding ended" ); log << "]";
    // send everything queued, the acknowledgements coming back meanwhile
    unsigned expect = frames; for ( int i = 0; i < 4000; i++ ) { tx.step( 'T', "time passed" ); if ( tx.at.dgram_out ) { tx.step( 'O', "ready to send" ); collect(); if ( !quiet && g.draw( 6 ) == 5 ) pump( false ); continue; } tx.shm->now_ns += 500000; if ( i > 40 && !tx.at.dgram_out && tx.at.timeout >= 5 ) break; }
    (void)expect; tx.shm->now_ns += gap * MS; tx.step( 'T', "time passed" );
  };
  for ( int i = 0; i < chaos; i++ ) { frame(); pump( false ); if ( g.draw( 24 ) == 23 ) { tx.shm->now_ns += 6000 * MS; tx.step( 'T', "time passed" ); log << " +6s"; } }
  // what is still in the network either arrives or is lost, then nothing is lost any more
  if ( g.draw( 2 ) ) { log << " (network emptied)"; data.clear(); acks.clear(); } else pump( true );
  quiet = true; gap = g.pick<int>( { 700, 33, 2500 } ); log << " QUIET"; unsigned first = frames;
  for ( int i = 0; i < 14; i++ ) { frame(); pump( true ); }
  c.require( frames >= first + ( mode == 2 ? 14 : 3 ), "sender-stalls", to_string( frames - first ) + " frames in the last 14 pictures;" + log.str() );
  uint32_t stale = 0; for ( uint32_t f = first; f < frames; f++ ) { c.require( exact.count( f ), "incomplete-without-loss", "frame " + to_string( f ) + ";" + log.str() ); if ( f > first && !exact[ f ] ) { if ( !astray[ f - 1 ] ) c.fail( "not-recovered", "frame " + to_string( f ) + ", the first without loss was " + to_string( first ) + ";" + log.str() ); stale = f; } exact_quiet++; }
  for ( int i = 0; i < 4000 && rx.shm->draws < model.shown.size(); i++ ) usleep( 500 );
  c.require( rx.shm->draws == model.shown.size(), "pictures-shown", to_string( rx.shm->draws ) + " instead of " + to_string( model.shown.size() ) + ";" + log.str() ); for ( size_t i = 0; i < model.shown.size() && i < 8192; i++ ) c.require( rx.shm->draw_hash[ i ] == model.shown[ i ], "picture-shown", "number " + to_string( i ) + ";" + log.str() );
  c.tag( mn[ mode ] ); c.tag( "complete frames", model.exact ); c.tag( "frames on a wrong state", model.blind ); c.tag( "partial frames", model.partials ); c.tag( "frames without loss", exact_quiet );
  if ( model.blind + model.partials ) c.tag( "sessions with damage" ); if ( model.exact > 3 && ( loss || ackloss || win > 1 ) ) c.nontrivial( dg.h ^ hash<string>()( log.str() ) ); c.sample( log.str() );
  // the receiver reports a state the sender once sent (frames that change nothing were decoded on it, or led back to it): the sender takes that for a good sign
  if ( stale ) c.fail( "stays-on-an-older-state", "frame " + to_string( stale ) + ";" + log.str() );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs { { "small", []( pbt::Ctx & c ) { session( c, 32, 20 ); }, 1500, 40000 }, { "fragments", []( pbt::Ctx & c ) { session( c, 96, 12 ); }, 500, 12000 }, { "long", []( pbt::Ctx & c ) { session( c, 24, 90 ); }, 200, 6000 }, { "marathon", []( pbt::Ctx & c ) { session( c, 18, 500 ); }, 16, 200 }, { "big", []( pbt::Ctx & c ) { session( c, 640, 4, 300 ); }, 24, 200 } };
  return pbt::Runner( "P23", subs ).main( argc, argv );
}
