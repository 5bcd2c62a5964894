// P25: UDP sockets, addresses, file descriptors and the poller.
#include "pbt.hh"
#include "iofault.hh"
#include "socket.hh"
#include "socketpair.hh"
#include "poller.hh"
#include <thread>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <arpa/inet.h>
#include <deque>
#include <list>
#include <ctime>
using namespace std;
using namespace PollerShortNames;
typedef string S;

static S bytes( Src & g, size_t n ) { Prng r( g.seed() ); S s( n, 0 ); for ( auto & c : s ) c = r.next(); return s; }
static uint64_t real_us() { timespec t; clock_gettime( CLOCK_REALTIME, &t ); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }

static void datagrams( pbt::Ctx & c )
{
  Src & g = c.g; int n = 2 + g.draw( 3 ); struct End { unique_ptr<UDPSocket> s; S addr; bool stamps = false; int peer = -1; deque<pair<S, S>> in; size_t held = 0; uint64_t t0 = 0; unsigned reads = 0, writes = 0; }; vector<End> e( n ); Digest dg;
  for ( auto & x : e ) { x.s.reset( new UDPSocket ); if ( g.draw( 2 ) ) { x.s->set_timestamps(); x.stamps = true; } x.s->bind( Address( "127.0.0.1", 0 ) ); Address l = x.s->local_address(); c.require( l.ip() == "127.0.0.1" && l.port() != 0, "local-address", l.to_string() ); x.addr = l.to_string(); c.require( x.addr == "127.0.0.1:" + to_string( l.port() ), "address-text", x.addr ); }
  if ( g.chance( 1, 4 ) ) { // a port that allows sharing can be shared, another cannot (two sockets that allow it may be given the same free port, so the sockets above do not)
    auto binds = []( uint16_t port, bool share ) -> unique_ptr<UDPSocket> { unique_ptr<UDPSocket> s( new UDPSocket ); if ( share ) s->set_reuseaddr(); try { s->bind( Address( "127.0.0.1", port ) ); return s; } catch ( const exception & ) { return nullptr; } };
    uint16_t port = e[ 0 ].s->local_address().port(); c.require( !binds( port, false ) && !binds( port, true ), "port-taken-twice", e[ 0 ].addr ); auto s1 = binds( 0, true ); port = s1->local_address().port(); auto s2 = binds( port, true ); c.require( s2 && s2->local_address().port() == port, "port-not-shared", to_string( port ) ); c.require( !binds( port, false ), "port-taken-twice", to_string( port ) ); c.tag( "shared port" );
  }
  S log; int ops = 3 + g.draw( 60 ), got = 0; uint64_t t_first = real_us();
  for ( int i = 0; i < ops; i++ ) {
    int a = g.draw( n ); End & x = e[ a ];
    switch ( g.weighted( { 5, 5, 1, 1, 1 } ) ) {
    case 0: {
      int b = x.peer >= 0 ? x.peer : (int)g.draw( n ); if ( b == a ) b = ( b + 1 ) % n; if ( x.peer >= 0 && b != x.peer ) break; End & y = e[ b ]; if ( y.peer >= 0 && y.peer != a ) break;   // a connected socket takes nothing from others
      size_t len = g.pick<size_t>( { 1, 100, 1432, 8, 1400 } ); if ( g.draw( 2 ) ) len = g.draw( 1500 ); if ( g.chance( 1, 15 ) ) len = 20000 + g.draw( 45508 ); if ( y.in.size() >= 12 || y.held + len > 66000 ) break;
      S p = bytes( g, len ); log += " " + to_string( a ) + ">" + to_string( b ) + ":" + to_string( len ); dg.add( p );
      try { if ( x.peer >= 0 ) x.s->send( p ); else x.s->sendto( e[ b ].s->local_address(), p ); } catch ( const exception & ex ) { c.fail( "send-failed", S( ex.what() ) + log ); }
      x.writes++; y.in.emplace_back( x.addr, p ); y.held += len; break;
    }
    case 1: {
      if ( x.in.empty() ) break; pollfd pf { x.s->fd_num(), POLLIN, 0 }; if ( ::poll( &pf, 1, 3000 ) != 1 ) c.fail( "datagram-lost", log ); UDPSocket::received_datagram d { Address(), 0, "" }; try { d = x.s->recv(); } catch ( const exception & ex ) { c.fail( "recv-failed", S( ex.what() ) + log ); }
      x.reads++; got++; log += " r" + to_string( a ); uint64_t t = real_us(); auto w = x.in.front(); x.in.pop_front(); x.held -= w.second.size(); c.require( d.payload == w.second, "payload", to_string( d.payload.size() ) + " bytes instead of " + to_string( w.second.size() ) + log ); c.require( d.source_address.to_string() == w.first, "source", d.source_address.to_string() + " instead of " + w.first + log );
      if ( x.stamps ) c.require( d.timestamp_us + 1000000 >= t_first && d.timestamp_us <= t + 1000000, "timestamp", to_string( d.timestamp_us ) + " now " + to_string( t ) + log ); else c.require( d.timestamp_us == (uint64_t)-1, "timestamp-not-asked-for", to_string( d.timestamp_us ) + log ); break;
    }
    case 2: { int b = g.draw( n ); if ( b == a || x.peer >= 0 || !x.in.empty() || g.draw( 3 ) ) break; x.s->connect( e[ b ].s->local_address() ); x.peer = b; c.require( x.s->peer_address().to_string() == e[ b ].addr, "peer-address", log ); c.require( x.s->peer_address() == e[ b ].s->local_address(), "peer-address", log ); log += " c" + to_string( a ) + "-" + to_string( b ); c.tag( "connected" ); break; }
    case 3: { bool ok = true; int b = ( a + 1 ) % n; if ( x.peer >= 0 ) b = x.peer; try { S p( 65508 + g.draw( 200000 ), 'x' ); if ( x.peer >= 0 ) x.s->send( p ); else x.s->sendto( e[ b ].s->local_address(), p ); } catch ( const exception & ) { ok = false; } c.require( !ok, "oversized-accepted", log ); c.tag( "oversized refused" ); break; }
    case 4: c.require( x.s->read_count() == x.reads && x.s->write_count() == x.writes, "counts", to_string( x.s->read_count() ) + "/" + to_string( x.reads ) + " " + to_string( x.s->write_count() ) + "/" + to_string( x.writes ) + log ); break;
    }
  }
  c.tag( "datagrams received", got ); if ( got > 1 ) c.nontrivial( dg.h ); c.sample( to_string( n ) + " sockets:" + log.substr( 0, 120 ) );
}

static void addresses( pbt::Ctx & c )
{
  Src & g = c.g; Prng r( g.seed() ); vector<pair<S, unsigned>> v; vector<Address> as; int n = 2 + g.draw( 5 ); Digest dg;
  for ( int i = 0; i < n; i++ ) {
    S canon, text; unsigned port = g.draw( 2 ) ? g.draw( 65536 ) : g.pick<unsigned>( { 0, 1, 1337, 65535, 80 } );
    if ( g.draw( 2 ) ) { uint8_t a[ 4 ]; for ( auto & b : a ) b = g.draw( 3 ) ? r.next() : g.pick<int>( { 0, 1, 127, 255 } ); char t[ 64 ]; inet_ntop( AF_INET, a, t, sizeof t ); canon = text = t; if ( g.draw( 4 ) == 0 ) text = "::ffff:" + text; }
    else { uint8_t a[ 16 ]; for ( auto & b : a ) b = r.next(); int z = g.draw( 14 ), k = g.draw( 16 - z ); for ( int j = z; j < z + k; j++ ) a[ j ] = 0; if ( a[ 0 ] == 0 ) a[ 0 ] = 0x20; if ( a[ 0 ] == 0xfe ) a[ 0 ] = 0x26; if ( a[ 0 ] == 0xff ) a[ 0 ] = 0x2a; char t[ 64 ]; inet_ntop( AF_INET6, a, t, sizeof t ); canon = text = t; if ( g.draw( 2 ) ) for ( auto & ch : text ) ch = toupper( ch ); }
    if ( i && g.chance( 1, 4 ) ) { canon = text = v.back().first; } if ( i && g.chance( 1, 4 ) ) port = v.back().second;
    try {
      Address a( text, port ); auto p = a.ip_port(); c.require( p.first == canon && p.second == port && a.ip() == canon && a.port() == port, "address", p.first + " port " + to_string( p.second ) + " instead of " + canon + " port " + to_string( port ) ); c.require( a.to_string() == canon + ":" + to_string( port ), "address-text", a.to_string() );
      Address b( a.to_sockaddr(), a.size() ); c.require( b == a && a == b && b.to_string() == a.to_string(), "copied-address", canon ); if ( g.draw( 2 ) ) { Address d( canon, to_string( port ) ); c.require( d == a, "resolved-address", canon ); }
      if ( g.draw( 2 ) ) { Address x; x = a; c.require( x == a && x.ip_port() == p, "assigned-address", canon ); }
      as.push_back( a );
    } catch ( const pbt::Failure & ) { throw; } catch ( const exception & ex ) { c.fail( "address-refused", S( ex.what() ) + " " + text ); }
    v.emplace_back( canon, port ); dg.add( canon ); dg.u( port );
  }
  for ( int i = 0; i < n; i++ ) for ( int j = 0; j < n; j++ ) c.require( ( as[ i ] == as[ j ] ) == ( v[ i ] == v[ j ] ), "address-equality", v[ i ].first + " " + to_string( v[ i ].second ) + " and " + v[ j ].first + " " + to_string( v[ j ].second ) );
  if ( g.draw( 2 ) ) { S bad = g.pick<S>( { "1.2.3.4.5", "256.1.1.1", "::g", "1:2:3", "localhost", ":::", "1.2.3.4:80", "12345::", "not an address" } ); bool ok = true; try { Address a( bad, uint16_t( 5 ) ); } catch ( const exception & ) { ok = false; } c.require( !ok, "nonsense-accepted", bad ); }
  c.nontrivial( dg.h ); c.sample( v[ 0 ].first + " port " + to_string( v[ 0 ].second ) );
}

// byte streams through descriptors with short transfers, against a string
static void descriptors( pbt::Ctx & c )
{
  Src & g = c.g; int sv[ 2 ]; if ( g.draw( 2 ) ) { if ( pipe( sv ) ) c.fail( "harness", "pipe" ); } else if ( socketpair( AF_UNIX, SOCK_STREAM, 0, sv ) ) c.fail( "harness", "socketpair" );
  iofault::rng = Prng( g.seed() ); iofault::on = g.draw( 2 ); iofault::lowest_fd = min( sv[ 0 ], sv[ 1 ] ); struct Off { ~Off() { iofault::on = false; } } off; if ( iofault::on ) c.tag( "short transfers" );
  FileDescriptor r( sv[ 0 ] ); unique_ptr<FileDescriptor> w( new FileDescriptor( sv[ 1 ] ) ); S model, log; Digest dg; int ops = 2 + g.draw( 30 ); unsigned rc = 0, wc = 0; bool closed = false; size_t total = 0;
  for ( int i = 0; i < ops && !r.eof(); i++ ) switch ( g.weighted( { 3, 2, 3, 2, 1, 1 } ) ) {
    case 0: case 1: { if ( closed ) break; size_t n = 1 + g.draw( g.draw( 3 ) ? 60 : 8000 ); if ( model.size() + n > 30000 ) break; S s = bytes( g, n ); for ( auto & ch : s ) if ( r.fd_num() && g.chance( 0, 2 ) ) ch = '\n'; if ( n < 200 ) for ( auto & ch : s ) if ( (uint8_t)ch < 30 ) ch = '\n'; dg.add( s ); total += n;
      if ( g.draw( 3 ) ) { c.require( w->write( s ) == s.end(), "write-incomplete", log ); wc = w->write_count(); } else if ( g.draw( 2 ) ) { w->write( Chunk( s ) ); c.require( w->write_count() > wc, "counts", log ); wc = w->write_count(); } else { auto it = w->write( s, false ); size_t k = it - s.cbegin(); c.require( k >= 1 && k <= n, "write-count", log ); s.resize( k ); } model += s; log += " w" + to_string( s.size() ); break; }
    case 2: { if ( model.empty() && !closed ) break; size_t lim = 1 + g.draw( 9000 ); rc = r.read_count(); S s = r.read( lim ); c.require( r.read_count() == rc + 1, "counts", log ); log += " r" + to_string( s.size() ); c.require( s.size() <= lim && s == model.substr( 0, s.size() ), "read", log ); c.require( s.empty() == model.empty() && r.eof() == model.empty(), "end-of-file", log ); model.erase( 0, s.size() ); break; }
    case 3: { size_t n = g.draw( 5000 ); if ( n > model.size() && !closed ) n = g.draw( model.size() + 1 ); bool enough = n <= model.size(); log += " x" + to_string( n ); S s; bool ok = true; try { s = r.read_exactly( n ); } catch ( const exception & ) { ok = false; } c.require( ok == enough, enough ? "read-exactly-failed" : "read-exactly-short", log ); if ( ok ) { c.require( s == model.substr( 0, n ), "read-exactly", log ); model.erase( 0, n ); } else { c.require( r.eof(), "end-of-file", log ); model.clear(); } break; }
    case 4: { size_t k = model.find( '\n' ); if ( k == S::npos && !closed ) break; S want = model.substr( 0, k ), s = r.getline(); log += " l" + to_string( s.size() ); c.require( s == want, "line", log ); model.erase( 0, k == S::npos ? k : k + 1 ); c.require( r.eof() == ( k == S::npos ), "end-of-file", log ); break; }
    case 5: { if ( closed || g.draw( 3 ) ) break; if ( g.draw( 2 ) ) { FileDescriptor moved( move( *w ) ); c.require( moved.fd_num() == sv[ 1 ] && moved.write_count() >= wc, "moved", log ); S s = "m"; moved.write( s ); model += s; total++; } w.reset(); closed = true; log += " close"; break; }
  }
  if ( r.eof() ) { bool ok = true; try { r.read(); } catch ( const exception & ) { ok = false; } c.require( !ok, "read-after-end", log ); c.tag( "to the end" ); }
  if ( total > 20 ) c.nontrivial( dg.h ); c.sample( log.substr( 0, 160 ) );
}

static bool writable( int fd ) { pollfd f { fd, POLLOUT, 0 }; return ::poll( &f, 1, 0 ) == 1 && ( f.revents & POLLOUT ); }   // how much a full socket takes is the kernel's business

// the poller against a model of what is ready
static void poller( pbt::Ctx & c )
{
  Src & g = c.g; struct Pair { unique_ptr<FileDescriptor> a; int b; size_t in = 0; bool end = false, gone = false, eof = false; }; vector<Pair> p( 1 + g.draw( 5 ) ); struct Act { int p; bool out; bool wants = true, active = true; int called = 0; int script = 0; }; vector<Act> acts; S log; Poller poll; vector<int> order; int status = 0;
  struct Fds { vector<Pair> & p; ~Fds() { for ( auto & x : p ) if ( !x.gone ) close( x.b ); } } fds { p };
  for ( auto & x : p ) { int sv[ 2 ]; if ( socketpair( AF_UNIX, SOCK_STREAM, 0, sv ) ) c.fail( "harness", "socketpair" ); int z = 4096; setsockopt( sv[ 0 ], SOL_SOCKET, SO_SNDBUF, &z, sizeof z ); x.a.reset( new FileDescriptor( sv[ 0 ] ) ); x.b = sv[ 1 ]; }
  for ( int i = 0; i < (int)p.size(); i++ ) { unsigned k = g.draw( 3 ); if ( k != 1 ) acts.push_back( { i, false } ); if ( k != 0 ) acts.push_back( { i, true } ); }
  for ( size_t i = acts.size(); i > 1; i-- ) swap( acts[ i - 1 ], acts[ g.draw( i ) ] );
  size_t added = 0; bool asked = false;
  auto add = [&]() { size_t i = added++; bool always = g.chance( 1, 4 ); log += " +" + S( acts[ i ].out ? "o" : "i" ) + to_string( acts[ i ].p ) + ( always ? "!" : "" ); auto cb = [&, i]() -> Result {
      Act & a = acts[ i ]; Pair & x = p[ a.p ]; order.push_back( i ); a.called++; if ( a.script == 3 ) return ResultType::Continue;
      if ( a.script == 2 ) return { ResultType::Exit, (unsigned)status };
      if ( a.out ) x.a->write( S( "y" ) ); else { S s = x.a->read( 1 + i ); x.in -= s.size(); if ( s.empty() ) x.eof = true; }
      return a.script == 1 ? ResultType::Cancel : ResultType::Continue; };
    if ( always ) poll.add_action( Poller::Action( *p[ acts[ i ].p ].a, acts[ i ].out ? Direction::Out : Direction::In, cb ) ); else poll.add_action( Poller::Action( *p[ acts[ i ].p ].a, acts[ i ].out ? Direction::Out : Direction::In, cb, [&, i]() { asked = true; return acts[ i ].wants; } ) );
    return always; };
  vector<bool> always; size_t first = 1 + g.draw( acts.size() ); while ( added < first ) always.push_back( add() );
  int rounds = 1 + g.draw( 25 ); uint64_t h = 0; int calls = 0;
  for ( int round = 0; round < rounds; round++ ) {
    if ( added < acts.size() && g.draw( 2 ) ) always.push_back( add() );
    int k = g.draw( 4 ); for ( int j = 0; j < k; j++ ) { int i = g.draw( p.size() ); Pair & x = p[ i ]; if ( x.gone ) continue; switch ( g.weighted( { 6, 2, 1, 1, 1 } ) ) {
      case 0: if ( !x.end ) { S s( 1 + g.draw( 6 ), 'd' ); if ( ::write( x.b, s.data(), s.size() ) != (ssize_t)s.size() ) c.fail( "harness", "write" ); x.in += s.size(); log += " d" + to_string( i ); } break;
      case 1: { char z[ 4096 ]; while ( recv( x.b, z, sizeof z, MSG_DONTWAIT ) > 0 ); log += " e" + to_string( i ); break; }
      case 2: { S z( 4096, 'f' ); while ( send( x.a->fd_num(), z.data(), z.size(), MSG_DONTWAIT ) > 0 ); log += " f" + to_string( i ); } break;
      case 3: if ( !x.end && g.draw( 2 ) ) { shutdown( x.b, SHUT_WR ); x.end = true; log += " s" + to_string( i ); } break;
      case 4: if ( g.draw( 4 ) == 0 ) { close( x.b ); x.gone = x.end = true; log += " c" + to_string( i ); c.tag( "hangup" ); } break; } }
    for ( size_t i = 0; i < added; i++ ) { Act & a = acts[ i ]; a.wants = g.draw( 4 ) != 0; a.script = g.chance( 1, 10 ) ? 1 : g.chance( 1, 25 ) ? 2 : g.chance( 1, 40 ) ? 3 : 0; } status = g.draw( 200 );
    // what should happen
    vector<bool> polled( added ), ready( added ); bool any = false, some = false; for ( size_t i = 0; i < added; i++ ) { Act & a = acts[ i ]; Pair & x = p[ a.p ]; polled[ i ] = a.active && ( always[ i ] || a.wants ) && !( !a.out && x.eof ); any |= polled[ i ]; bool can = a.out ? writable( x.a->fd_num() ) : x.in > 0 || x.end; ready[ i ] = polled[ i ] && can; some |= ready[ i ] || x.gone; }
    vector<int> want; Poller::Result::Type res = Poller::Result::Type::Success; unsigned code = 0; bool throws = false;
    if ( !any ) res = Poller::Result::Type::Exit; else if ( !some ) res = Poller::Result::Type::Timeout; else for ( size_t i = 0; i < added; i++ ) { Act & a = acts[ i ]; if ( p[ a.p ].gone ) { res = Poller::Result::Type::Exit; code = EXIT_FAILURE; break; } if ( !ready[ i ] ) continue; want.push_back( i ); if ( a.script == 2 ) { res = Poller::Result::Type::Exit; code = status; break; } if ( a.script == 3 ) { throws = true; break; } }
    order.clear(); S at = "round " + to_string( round ) + log; try { auto r = poll.poll( 0 ); c.require( !throws, "no-progress-accepted", at ); c.require( r.result == res, "result", to_string( (int)r.result ) + " instead of " + to_string( (int)res ) + " " + at ); if ( res == Poller::Result::Type::Exit ) c.require( r.exit_status == code, "exit-status", to_string( r.exit_status ) + " instead of " + to_string( code ) + " " + at ); } catch ( const pbt::Failure & ) { throw; } catch ( const exception & ex ) { c.require( throws, "poll-failed", S( ex.what() ) + " " + at ); }
    auto show = []( const vector<int> & v ) { S s; for ( int x : v ) s += " " + to_string( x ); return s; }; c.require( order == want, "callbacks", show( order ) + " instead of" + show( want ) + " " + at ); calls += order.size(); h = mix64( h + order.size() * 7 + (int)res );
    for ( int i : order ) if ( acts[ i ].script == 1 ) { acts[ i ].active = false; c.tag( "cancelled" ); } log += " |"; if ( throws ) { c.tag( "no progress refused" ); break; } if ( res == Poller::Result::Type::Timeout ) c.tag( "timeout" ); if ( res == Poller::Result::Type::Exit ) c.tag( "exit" );
    if ( code && res == Poller::Result::Type::Exit && g.draw( 2 ) ) break; bool hup = false; for ( auto & x : p ) hup |= x.gone; if ( hup ) break;
  }
  c.tag( "callbacks", calls ); if ( calls > 1 ) { Digest dg; dg.add( log ); c.nontrivial( dg.h ); } c.sample( log.substr( 0, 200 ) );
}

// whole files of any size (also beyond the buffer of one read), and descriptors being closed exactly once
static void files( pbt::Ctx & c )
{
  Src & g = c.g; int fd = memfd_create( "p25", 0 ); if ( fd < 0 ) c.fail( "harness", "memfd_create" ); iofault::rng = Prng( g.seed() ); iofault::on = g.draw( 2 ); iofault::lowest_fd = fd; struct Off { ~Off() { iofault::on = false; } } off;
  auto open_fd = []( int n ) { return fcntl( n, F_GETFD ) >= 0; }; S model, log; int parts = 1 + g.draw( 5 ); Digest dg; bool large = g.chance( 1, 12 );
  int keep = dup( fd ); struct Keep { int fd; ~Keep() { close( fd ); } } k2 { keep }; { unique_ptr<FileDescriptor> w( new FileDescriptor( fd ) );
    for ( int i = 0; i < parts; i++ ) { size_t n = g.pick<size_t>( { 1, 20, 700, 4096, 9000 } ) + g.draw( 50 ); if ( large && g.draw( 2 ) ) n = ( 1 << 20 ) * ( 1 + g.draw( 2 ) ) + g.draw( 5 ) - 2; S s = bytes( g, n ); for ( size_t j = 0; j < s.size(); j += 40 ) if ( s[ j ] & 1 ) s[ j ] = '\n';
      if ( g.draw( 2 ) ) w->write( Chunk( s ) ); else w->write( s ); model += s; log += " w" + to_string( n ); c.require( w->size() == model.size(), "file-size", to_string( w->size() ) + log ); }
    if ( g.draw( 2 ) ) { FileDescriptor m( move( *w ) ); w.reset(); c.require( open_fd( fd ) && m.fd_num() == fd, "closed-by-source-of-move", log ); c.require( m.size() == model.size(), "file-size", log ); } else w.reset();
    c.require( !open_fd( fd ), "left-open", log ); }
  dg.add( model ); lseek( keep, g.draw( 2 ) ? 0 : g.draw( model.size() ), SEEK_SET ); FILE * f = fdopen( dup( keep ), "r" ); { FileDescriptor r( f );   // starts at the beginning wherever the file was
    size_t at = 0; int ops = g.draw( 8 );
    for ( int i = 0; i < ops && at < model.size(); i++ ) switch ( g.draw( 3 ) ) {
      case 0: { S s = r.read(); log += " r" + to_string( s.size() ); c.require( s.size() && s.size() <= BUFFER_SIZE && s == model.substr( at, s.size() ), "read", log ); at += s.size(); break; }
      case 1: { size_t n = g.draw( 2 ) ? g.draw( model.size() - at + 1 ) : model.size() - at; S s = r.read_exactly( n ); log += " x" + to_string( n ); c.require( s == model.substr( at, n ), "read-exactly", log ); at += n; break; }
      case 2: { size_t k = model.find( '\n', at ); if ( k == S::npos ) break; S s = r.getline(); log += " l" + to_string( s.size() ); c.require( s == model.substr( at, k - at ), "line", log ); at = k + 1; break; } }
    S rest = r.read_exactly( model.size() - at ); c.require( rest == model.substr( at ), "read-exactly", log ); c.require( !r.eof() && r.read() == "" && r.eof(), "end-of-file", log ); int n = r.fd_num(); FileDescriptor m( move( r ) ); c.require( m.eof() && m.fd_num() == n && m.read_count() > 0, "moved", log ); if ( model.size() > BUFFER_SIZE ) c.tag( "beyond one buffer" ); }
  c.nontrivial( dg.h ); c.sample( log.substr( 0, 120 ) );
}

// polls that wait: for the time asked for when nothing happens, and no longer than it takes for something to happen
static void waits( pbt::Ctx & c )
{
  Src & g = c.g; int n = 1 + g.draw( 3 ); struct End { unique_ptr<FileDescriptor> a; int b; }; vector<End> e( n ); struct Fds { vector<End> & e; ~Fds() { for ( auto & x : e ) close( x.b ); } } fds { e }; for ( auto & x : e ) { int sv[ 2 ]; if ( socketpair( AF_UNIX, SOCK_STREAM, 0, sv ) ) c.fail( "harness", "socketpair" ); x.a.reset( new FileDescriptor( sv[ 0 ] ) ); x.b = sv[ 1 ]; }
  Poller poll; vector<int> called; for ( int i = 0; i < n; i++ ) poll.add_action( Poller::Action( *e[ i ].a, Direction::In, [&, i]() -> Result { called.push_back( i ); e[ i ].a->read( 10 ); return ResultType::Continue; } ) );
  auto us = []() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec * 1000000ll + t.tv_nsec / 1000; }; S log;
  if ( g.draw( 2 ) ) { int ms = 1 + g.draw( 25 ); long long t = us(); auto r = poll.poll( ms ); t = us() - t; log = "timeout " + to_string( ms ); c.require( r.result == Poller::Result::Type::Timeout && called.empty(), "result", log ); c.require( t >= ms * 1000ll - 1000, "timeout-early", to_string( t ) + " us, " + log ); c.tag( "timed out" ); }
  else { int w = g.draw( n ), d = 1 + g.draw( 15 ); int ms = g.draw( 2 ) ? -1 : 20000; log = "written after " + to_string( d ) + " ms, timeout " + to_string( ms ); int fd = e[ w ].b; std::thread th( [fd, d]() { usleep( d * 1000 ); if ( ::send( fd, "z", 1, 0 ) ) {} } ); struct Join { std::thread & t; ~Join() { t.join(); } } j { th }; long long t = us(); auto r = poll.poll( ms ); t = us() - t; c.require( r.result == Poller::Result::Type::Success && called == vector<int> { w }, "result", log ); c.require( t < 15000000, "late", log ); c.tag( "woken" ); }
  Digest dg; dg.add( log + to_string( n ) ); c.nontrivial( dg.h ); c.sample( log );
}

int main( int argc, char ** argv )
{
  signal( SIGPIPE, SIG_IGN );
  vector<pbt::Sub> subs { { "datagrams", datagrams, 4000, 80000, 10 }, { "addresses", addresses, 8000, 100000, 20 }, { "descriptors", descriptors, 6000, 100000, 10 }, { "poller", poller, 12000, 300000, 20 }, { "files", files, 1500, 30000, 10 }, { "waits", waits, 200, 4000, 2 } };
  return pbt::Runner( "P25", subs ).main( argc, argv );
}
