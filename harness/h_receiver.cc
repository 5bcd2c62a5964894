// P18: the Salsify receiver under a lossy, duplicating, reordering network; an honest sender made of real encoders.
#include "rxmodel.hh"
#include "picgen.hh"
#include "encoder.hh"
using namespace std;

struct Sender {        // remembers everything, refers only to what the receiver must still have
  map<uint32_t, Encoder> states; uint32_t initial, last; deque<uint32_t> listed; bool acked = false; uint32_t ack_frame = 0, ack_frag = 0; vector<pair<uint32_t, uint32_t>> choices; uint32_t frame_no = 0;
  Sender( int w, int h ) { Encoder e( w, h, false, REALTIME_QUALITY ); initial = last = e.minihash(); states.emplace( initial, move( e ) ); }
  void ack( const AckPacket & a ) { if ( acked && make_pair( a.frame_no(), (uint32_t)a.fragment_no() ) < make_pair( ack_frame, ack_frag ) ) return; acked = true; ack_frame = a.frame_no(); ack_frag = a.fragment_no(); listed = a.complete_states(); }
  deque<uint32_t> usable()
  {
    deque<uint32_t> l = listed; if ( !acked ) l.clear();
    for ( auto & c : choices ) if ( c.first >= ack_frame && c.second != initial ) { auto it = find( l.begin(), l.end(), c.second ); l.erase( l.begin(), it ); }
    return l;
  }
};

// the packets of a frame, of at most s bytes of it each
static vector<string> split( uint32_t src, uint32_t tgt, uint32_t no, uint32_t since, const Bytes & b, size_t s )
{
  vector<string> v; size_t n = ( b.size() + s - 1 ) / s;
  for ( size_t i = 0; i < n; i++ ) {
    string h; auto put = [&]( uint32_t x, int k ) { for ( int j = 0; j < k; j++ ) h += char( x >> 8 * j ); };
    put( 1337, 2 ); put( src, 4 ); put( tgt, 4 ); put( no, 4 ); put( i, 2 ); put( n, 2 ); put( since, 4 ); h.append( (const char *)b.data() + i * s, min( s, b.size() - i * s ) ); v.push_back( h );
  }
  return v;
}

static void session( pbt::Ctx & c, int maxsize, int maxframes, int minsize = 16 )
{
  Src & g = c.g; int w = minsize + g.draw( maxsize - minsize + 1 ), h = minsize + g.draw( maxsize - minsize + 1 ); ostringstream log; log << w << "x" << h; Udp net; RxModel model( w, h ); Sender snd( w, h );
  Program rx( c, { "salsify-receiver", "0", to_string( w ), to_string( h ) }, w, h ); rx.context = [&] { return log.str(); }; rx.full = [&] { net.drain(); };
  vector<RasterHandle> pics; { Pics p( g, w, h ); int n = 1 + g.draw( 4 ); for ( int i = 0; i < n; i++ ) { p.next(); pics.push_back( p.raster() ); } }
  int q0 = g.pick<int>( { 127, 4, 20, 60 } ), q1 = g.pick<int>( { 127, 4, 20, 60 } ); c.require( snd.initial == model.initial, "initial-state", log.str() );
  deque<string> flight; int frames = 2 + g.draw( maxframes - 1 ), window = 1 + g.draw( 8 ), loss = g.pick<int>( { 0, 0, 5, 20, 50 } ), dup = g.pick<int>( { 0, 0, 10, 40 } ), ackloss = g.pick<int>( { 0, 0, 30, 80 } ), lag = g.pick<int>( { 0, 0, 0, 3, 12 } ); int wsel[ 3 ] = { 1 + (int)g.draw( 3 ), 1 + (int)g.draw( 6 ), 1 + (int)g.draw( 6 ) };
  log << " loss " << loss << "% dup " << dup << "% ackloss " << ackloss << "% window " << window << " lag " << lag << ":"; Digest dg; unsigned exact_listed = 0, frags = 0; map<uint32_t, uint64_t> recon; map<uint32_t, string> from; unsigned draws = 0; (void)draws;
  int parts = minsize == 16 && g.draw( 3 ) == 2 ? 1 + g.draw( 9 ) : 0;
  map<uint32_t, bool> promised;       // frame number -> its source is one the receiver listed (or the initial one)
  auto deliver = [&]( const string & wire ) {
    Packet p { Chunk( wire ) }; log << " " << p.frame_no() << "/" << p.fragment_no(); net.send( rx.at.port, wire ); rx.step( 'N', "a packet arrived" ); string a; bool got = net.recv( a ); unique_ptr<AckPacket> rep( got ? new AckPacket( Chunk( a ) ) : nullptr ); bool want = model.packet( p, rep.get() );
    if ( !want ) { c.require( !got, "acks-an-old-packet", log.str() ); return; }
    c.require( got, "no-ack", log.str() ); AckPacket & ack = *rep; string j = model.judge( ack, p, 1337 ); c.require( j.empty(), "untruthful", j + "; frame " + from[ p.frame_no() ] + ";" + log.str() ); string b; c.require( !net.recv( b ), "two-acks", log.str() );
    if ( model.frame_done ) {
      log << ( model.current == p.target_state() ? "=" : "!" );
      if ( promised[ p.frame_no() ] ) { exact_listed++; c.require( ack.current_state() == p.target_state(), "listed-state-not-usable", from[ p.frame_no() ] + ";" + log.str() ); }
      if ( model.held ) { c.require( ack.current_state() == p.target_state(), "held-state-not-used", log.str() ); c.require( !model.shown.empty() && model.shown.back() == recon[ p.target_state() ], "harness:picture", log.str() ); }
    }
    if ( !g.chance( ackloss, 100 ) ) snd.ack( ack );
  };
  auto pump = [&]( size_t leave ) { while ( flight.size() > leave ) { size_t k = g.draw( min<size_t>( window, flight.size() ) ); string s = flight[ k ]; if ( dup && g.chance( dup, 100 ) ) c.tag( "duplicated" ); else flight.erase( flight.begin() + k ); if ( g.chance( loss, 100 ) ) { c.tag( "lost" ); continue; } deliver( s ); } };
  for ( int i = 0; i < frames; i++ ) {
    deque<uint32_t> u = snd.usable(); double t = wsel[ 0 ] + wsel[ 1 ] + ( u.empty() ? 0 : wsel[ 2 ] ); double r = g.draw( 1000 ) / 1000.0 * t; uint32_t src = snd.last; bool prom = false; const char * how = "latest";
    if ( r >= wsel[ 1 ] && r < wsel[ 1 ] + wsel[ 0 ] ) { src = snd.initial; prom = true; how = "initial"; }
    else if ( r >= wsel[ 1 ] + wsel[ 0 ] ) { src = u[ g.draw( 2 ) ? u.size() - 1 - g.draw( u.size() ) : u.size() - 1 ]; prom = true; how = "listed"; }
    if ( src == snd.initial ) prom = true;
    Encoder e( snd.states.at( src ) ); int pi = g.draw( pics.size() ), q = g.draw( 3 ) ? q0 : q1; Bytes b = e.encode_with_quantizer( pics[ pi ].get(), q ); uint32_t tgt = e.minihash(); dg.add( b ); log << " [" << i << ":" << how << " picture " << pi << "]"; c.tag( string( "source: " ) + how );
    { uint64_t s = picsum( e.export_decoder().get_references().last.get() ); recon[ tgt ] = s; from[ i ] = string( how ) + " source"; } promised[ i ] = prom; if ( snd.states.count( tgt ) ) c.tag( "state reached again" );
    snd.states.emplace( tgt, move( e ) ); snd.choices.push_back( { (uint32_t)i, src } ); snd.last = tgt; snd.frame_no++;
    uint32_t since = g.draw( 60000 ); vector<string> ps; if ( parts ) { ps = split( src, tgt, i, since, b, max<size_t>( 40, b.size() / ( 1 + g.draw( parts ) ) ) ); c.tag( "frames in small packets" ); } else { FragmentedFrame ff( 1337, src, tgt, i, since, b ); for ( auto & p : ff.packets() ) ps.push_back( p.to_string() ); }
    frags += ps.size(); if ( ps.size() > 255 ) c.tag( "frames of more than 255 packets" ); for ( auto & p : ps ) flight.push_back( p );
    if ( loss && ps.size() > 1 && g.chance( loss, 200 ) ) { size_t k = 1 + g.draw( ps.size() - 1 ); flight.resize( flight.size() - k ); c.tag( "tail lost" ); log << "(" << k << " lost)"; }
    pump( lag ? g.draw( lag + 1 ) : 0 );
  }
  pump( 0 );
  for ( int i = 0; i < 4000 && rx.shm->draws < model.shown.size(); i++ ) usleep( 500 );
  c.require( rx.shm->draws == model.shown.size(), "pictures-shown", to_string( rx.shm->draws ) + " instead of " + to_string( model.shown.size() ) + ";" + log.str() ); for ( size_t i = 0; i < model.shown.size() && i < 8192; i++ ) c.require( rx.shm->draw_hash[ i ] == model.shown[ i ], "picture-shown", "number " + to_string( i ) + ";" + log.str() );
  c.tag( "complete frames", model.exact ); c.tag( "frames on a wrong state", model.blind ); c.tag( "partial frames", model.partials ); c.tag( "frames from listed states", exact_listed ); c.tag( "packets", frags );
  if ( model.exact > 1 ) c.nontrivial( dg.h ^ hash<string>()( log.str() ) ); c.sample( log.str() );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs { { "small", []( pbt::Ctx & c ) { session( c, 32, 14 ); }, 7500, 150000 }, { "fragments", []( pbt::Ctx & c ) { session( c, 96, 10 ); }, 4000, 80000 }, { "long", []( pbt::Ctx & c ) { session( c, 24, 60 ); }, 1200, 25000 }, { "marathon", []( pbt::Ctx & c ) { session( c, 18, 700 ); }, 32, 400 }, { "big", []( pbt::Ctx & c ) { session( c, 640, 4, 400 ); }, 80, 400 } };
  return pbt::Runner( "P18", subs ).main( argc, argv );
}
