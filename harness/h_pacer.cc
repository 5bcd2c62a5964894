// P17: the pacer against a queue model, on a virtual clock.
#include "pbt.hh"
#include <sys/syscall.h>
#include "pacer.hh"
using namespace std;

static bool virt = false; static int64_t vnow_ns = 0;
extern "C" int clock_gettime( clockid_t id, struct timespec * t ) noexcept
{
  if ( !virt ) return syscall( SYS_clock_gettime, id, t );
  t->tv_sec = vnow_ns / 1000000000; t->tv_nsec = vnow_ns % 1000000000; return 0;
}
extern "C" int gettimeofday( struct timeval * t, void * ) noexcept
{
  if ( !virt ) { struct timespec s; syscall( SYS_clock_gettime, CLOCK_REALTIME, &s ); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
  t->tv_sec = vnow_ns / 1000000000; t->tv_usec = vnow_ns / 1000 % 1000000; return 0;
}

struct Item { int64_t due; string what; };

static void history( pbt::Ctx & c )
{
  Src & g = c.g;
  virt = true; vnow_ns = 1600000000ll * 1000000000 + g.draw( 1000000000 );
  { auto a = chrono::system_clock::now(); vnow_ns += 1000000; auto b = chrono::system_clock::now(); if ( b - a != chrono::milliseconds( 1 ) ) { virt = false; c.fail( "harness:no-virtual-clock", "" ); } }
  struct Off { ~Off() { virt = false; } } off;
  Pacer p; deque<Item> m; unsigned serial = 0, pops = 0, waits = 0, burst_empty = 0;
  int n = 5 + g.draw( 80 ); unsigned delay_kind = g.draw( 4 );
  ostringstream d;
  for ( int i = 0; i < n; i++ ) {
    switch ( g.weighted( { 4, 3, 3 } ) ) {
    case 0: {                                          // a frame's packets
      unsigned k = 1 + ( g.draw( 3 ) ? g.draw( 3 ) : g.draw( 30 ) );
      for ( unsigned j = 0; j < k; j++ ) {
        int delay = delay_kind == 0 ? 500 + (int)g.draw( 1501 ) : delay_kind == 1 ? (int)g.draw( 3 ) : delay_kind == 2 ? 1000 * (int)g.draw( 6 ) : (int)g.draw( 3000000 );
        string what = g.draw( 8 ) ? "p" + to_string( serial ) : string( g.draw( 3 ) * 700, 'x' );     // equal contents too
        serial++;
        if ( m.empty() ) { burst_empty++; m.push_back( { vnow_ns, what } ); } else m.push_back( { m.back().due + 1000ll * delay, what } );
        p.push( what, delay );
        if ( i < 4 ) d << " push+" << delay;
      }
      break; }
    case 1: {                                          // send whatever is due, as the sender does
      unsigned guard = 0;
      while ( p.ms_until_due() == 0 && guard++ < 10000 ) {
        c.require( !m.empty() && !p.empty(), "due-when-empty", d.str() );
        c.require( m.front().due - vnow_ns < 1000000, "released-early", "packet " + to_string( pops ) + " released " + to_string( m.front().due - vnow_ns ) + " ns early;" + d.str() );
        c.require( p.front() == m.front().what, "order", "packet " + to_string( pops ) + d.str() );
        p.pop(); m.pop_front(); pops++;
        if ( g.chance( 1, 6 ) ) vnow_ns += g.draw( 400000 );
      }
      break; }
    case 2: {                                          // time passes
      uint64_t by = g.draw( 4 ) ? g.draw( 3000000 ) : g.draw( 2000000000u ); vnow_ns += by; waits++;
      if ( g.chance( 1, 3 ) && !p.empty() && p.ms_until_due() > 0 ) { vnow_ns += 1000000ll * p.ms_until_due(); }
      break; }
    }
    c.require( p.size() == m.size() && p.empty() == m.empty(), "size", to_string( p.size() ) + " vs " + to_string( m.size() ) + d.str() );
    int r = p.ms_until_due();
    if ( m.empty() ) { c.require( r > 0, "empty-but-due", d.str() ); continue; }
    int64_t left = m.front().due - vnow_ns;
    int64_t want = left <= 0 ? 0 : left / 1000000;
    c.require( p.front() == m.front().what, "front", d.str() );
    c.require( r >= want - 1 && r <= want + 1 && ( left > 0 || r == 0 ) && ( left < 1000000 || r > 0 ), "wait-time",
               "reported " + to_string( r ) + " ms, due in " + to_string( left ) + " ns;" + d.str() );
  }
  // drain
  unsigned guard = 0;
  while ( !m.empty() && guard++ < 100000 ) {
    c.require( !p.empty(), "lost", d.str() );
    vnow_ns = max( vnow_ns, m.front().due );
    c.require( p.ms_until_due() == 0, "overdue", "packet not released at its due time;" + d.str() );
    c.require( p.front() == m.front().what, "order", d.str() );
    p.pop(); m.pop_front(); pops++;
  }
  c.require( p.empty() && pops == serial, "extra", d.str() );
  c.tag( "pushed", serial ); c.tag( "pushed into empty", burst_empty ); c.tag( "waits", waits );
  Digest dg; dg.u( serial ); dg.u( vnow_ns ); if ( serial > 3 && waits ) c.nontrivial( dg.h );
  c.sample( to_string( n ) + " steps, " + to_string( serial ) + " packets:" + d.str() );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs { { "history", history, 60000, 2000000, 100 } };
  return pbt::Runner( "P17", subs ).main( argc, argv );
}
