// Linked into a Salsify program under test: its wall clock and the order in which its main loop sees events are
// decided by the harness (control socket on descriptor 3, shared memory on descriptor 4).
#include "shm.hh"
#include <poll.h>
#include <unistd.h>
#include <cstring>
#include <cerrno>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <time.h>

Shm * vp_shm() { static Shm * s = (Shm *)mmap( nullptr, sizeof( Shm ), PROT_READ | PROT_WRITE, MAP_SHARED, 4, 0 ); return s; }
static bool sys_poll( pollfd * p, int n, int ms ) { timespec t { ms / 1000, ( ms % 1000 ) * 1000000l }; return syscall( SYS_ppoll, p, n, &t, nullptr, 0 ) > 0; }

extern "C" int clock_gettime( clockid_t id, timespec * t )
{
  if ( id != CLOCK_REALTIME ) return syscall( SYS_clock_gettime, id, t );
  int64_t n = vp_shm()->now_ns; t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0;
}
// the system drops what exceeds the harness's receive buffer: let it read now and then
static int burst;
static ssize_t sys_send( int fd, const void * b, size_t n, int flags ) { return syscall( SYS_sendto, fd, b, n, flags, nullptr, 0 ); }
static ssize_t left( int fd, ssize_t r )
{
  int e = errno, d = 0; socklen_t l = sizeof d; if ( getsockopt( fd, SOL_SOCKET, SO_DOMAIN, &d, &l ) || ( d != AF_INET && d != AF_INET6 ) ) { errno = e; return r; }
  if ( ++burst % 24 == 0 ) { PollMsg m; memset( &m, 0, sizeof m ); m.full = 1; char c; if ( sys_send( 3, &m, sizeof m, MSG_NOSIGNAL ) != sizeof m || recv( 3, &c, 1, 0 ) != 1 ) _exit( 0 ); }
  errno = e; return r;
}
extern "C" ssize_t send( int fd, const void * b, size_t n, int flags ) { return left( fd, sys_send( fd, b, n, flags ) ); }
extern "C" ssize_t sendto( int fd, const void * b, size_t n, int flags, const sockaddr * a, socklen_t l ) { return left( fd, syscall( SYS_sendto, fd, b, n, flags, a, l ) ); }
extern "C" ssize_t sendmsg( int fd, const msghdr * m, int flags ) { return left( fd, syscall( SYS_sendmsg, fd, m, flags ) ); }

// datagrams arrive at the time the harness's clock shows
extern "C" ssize_t recvmsg( int fd, msghdr * m, int flags )
{
  ssize_t r = syscall( SYS_recvmsg, fd, m, flags ); if ( r < 0 ) return r; int64_t n = vp_shm()->now_ns;
  for ( cmsghdr * c = CMSG_FIRSTHDR( m ); c; c = CMSG_NXTHDR( m, c ) ) {
    if ( c->cmsg_level != SOL_SOCKET ) continue;
    if ( c->cmsg_type == SCM_TIMESTAMPNS ) { timespec t; t.tv_sec = n / 1000000000; t.tv_nsec = n % 1000000000; memcpy( CMSG_DATA( c ), &t, sizeof t ); }
    if ( c->cmsg_type == SCM_TIMESTAMP ) { timeval t; t.tv_sec = n / 1000000000; t.tv_usec = n % 1000000000 / 1000; memcpy( CMSG_DATA( c ), &t, sizeof t ); }
  }
  return r;
}

extern "C" int poll( pollfd * f, nfds_t n, int timeout )
{
  PollMsg m; memset( &m, 0, sizeof m ); m.timeout = timeout; bool dg[ 64 ];
  for ( nfds_t i = 0; i < n && i < 64; i++ ) {
    f[ i ].revents = 0; int d = 0; socklen_t l = sizeof d; getsockopt( f[ i ].fd, SOL_SOCKET, SO_DOMAIN, &d, &l ); dg[ i ] = d == AF_INET || d == AF_INET6;
    if ( dg[ i ] ) { if ( f[ i ].events & POLLIN ) m.dgram_in = 1; if ( f[ i ].events & POLLOUT ) m.dgram_out = 1; sockaddr_in6 a; socklen_t al = sizeof a; if ( !getsockname( f[ i ].fd, (sockaddr *)&a, &al ) ) m.port = ntohs( d == AF_INET ? ( (sockaddr_in *)&a )->sin_port : a.sin6_port ); }
    else if ( f[ i ].events & POLLIN ) m.unix_in = 1;
  }
  burst = 0; if ( sys_send( 3, &m, sizeof m, MSG_NOSIGNAL ) != sizeof m ) _exit( 0 );
  char cmd; if ( recv( 3, &cmd, 1, 0 ) != 1 ) _exit( 0 );
  if ( cmd == 'T' ) return 0;
  for ( int round = 0; round < 600; round++ ) for ( nfds_t i = 0; i < n && i < 64; i++ ) {
    short want = cmd == 'O' ? POLLOUT : POLLIN; if ( !( f[ i ].events & want ) || dg[ i ] != ( cmd != 'U' ) ) continue;
    pollfd p { f[ i ].fd, want, 0 }; if ( sys_poll( &p, 1, cmd == 'U' ? 5 : 50 ) ) { f[ i ].revents = p.revents; return 1; }
  }
  return 0;
}
