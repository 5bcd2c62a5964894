// Driving a Salsify program (built next to the harness) event by event.
#pragma once
#include "pbt.hh"
#include "tool.hh"
#include "shim/shm.hh"
#include <sys/socket.h>
#include <sys/prctl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <deque>
#include <functional>

struct Udp {            // the harness's end of the connection
  int fd; uint16_t port;
  Udp() { fd = socket( AF_INET, SOCK_DGRAM, 0 ); sockaddr_in a {}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl( INADDR_LOOPBACK ); bind( fd, (sockaddr *)&a, sizeof a ); socklen_t l = sizeof a; getsockname( fd, (sockaddr *)&a, &l ); port = ntohs( a.sin_port ); }
  ~Udp() { close( fd ); }
  void send( uint16_t to, const std::string & s ) { sockaddr_in a {}; a.sin_family = AF_INET; a.sin_port = htons( to ); a.sin_addr.s_addr = htonl( INADDR_LOOPBACK ); if ( sendto( fd, s.data(), s.size(), 0, (sockaddr *)&a, sizeof a ) != (ssize_t)s.size() ) throw std::runtime_error( "harness: sendto" ); }
  std::deque<std::string> early;
  bool take( std::string & s ) { static char b[ 65536 ]; ssize_t n = ::recv( fd, b, sizeof b, MSG_DONTWAIT ); if ( n < 0 ) return false; s.assign( b, n ); return true; }
  void drain() { std::string s; while ( take( s ) ) early.push_back( s ); }
  bool recv( std::string & s ) { if ( early.empty() ) return take( s ); s = early.front(); early.pop_front(); return true; }
};

struct Program {
  pbt::Ctx & c; std::string name, err; pid_t pid = -1; int ctl = -1; Shm * shm = nullptr; PollMsg at {};
  Program( pbt::Ctx & c_, const std::vector<std::string> & args, int w, int h ) : c( c_ ), name( args[ 0 ] )
  {
    int sp[ 2 ]; if ( socketpair( AF_UNIX, SOCK_SEQPACKET, 0, sp ) ) c.fail( "harness:socketpair", "" ); int m = syscall( SYS_memfd_create, "vp", 0 ); if ( ftruncate( m, sizeof( Shm ) ) ) c.fail( "harness:memfd", "" );
    shm = (Shm *)mmap( nullptr, sizeof( Shm ), PROT_READ | PROT_WRITE, MAP_SHARED, m, 0 ); shm->w = w; shm->h = h; shm->now_ns = 1700000000ll * 1000000000; static int k = 0; err = c.scratch + "/" + name + std::to_string( k++ ) + ".err"; std::string exe = self_dir() + "/" + name;
    pid = fork();
    if ( !pid ) {
      prctl( PR_SET_PDEATHSIG, SIGKILL ); int fe = open( err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ); int a = fcntl( sp[ 1 ], F_DUPFD, 100 ), b = fcntl( m, F_DUPFD, 100 ); dup2( fe, 1 ); dup2( fe, 2 ); dup2( a, 3 ); dup2( b, 4 ); for ( int i = 5; i < 200; i++ ) close( i );
      rlimit r { 60, 60 }; setrlimit( RLIMIT_CPU, &r ); rlimit s { 1u << 26, 1u << 26 }; setrlimit( RLIMIT_FSIZE, &s ); signal( SIGPROF, SIG_DFL ); itimerval tv {}; setitimer( ITIMER_PROF, &tv, nullptr );
      std::vector<char *> v; for ( auto & x : args ) v.push_back( const_cast<char *>( x.c_str() ) ); v.push_back( nullptr ); setenv( "MALLOC_PERTURB_", "255", 1 ); setenv( "GLIBC_TUNABLES", "glibc.malloc.perturb=255", 1 ); execv( exe.c_str(), v.data() ); _exit( 127 );
    }
    close( sp[ 1 ] ); close( m ); ctl = sp[ 0 ]; timeval t { 40, 0 }; setsockopt( ctl, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t ); wait_poll( "starting" );
  }
  ~Program() { if ( pid > 0 ) { kill( pid, SIGKILL ); int s; while ( waitpid( pid, &s, 0 ) < 0 && errno == EINTR ) {} } if ( ctl >= 0 ) close( ctl ); if ( shm ) munmap( shm, sizeof( Shm ) ); unlink( err.c_str() ); }
  std::function<void()> full;
  std::function<std::string()> context = [] { return std::string(); };
  std::string errtail() { Bytes b = slurp( err ); std::string s( b.begin(), b.end() ); return s.size() > 500 ? s.substr( s.size() - 500 ) : s; }
  void wait_poll( const char * what )
  {
    ssize_t n; while ( ( n = recv( ctl, &at, sizeof at, 0 ) ) < 0 && errno == EINTR ) {}
    if ( n == sizeof at && at.full ) { if ( full ) full(); char d = 'D'; if ( ::send( ctl, &d, 1, MSG_NOSIGNAL ) != 1 ) { /* seen below */ } return wait_poll( what ); }
    if ( n == sizeof at ) return;
    if ( n < 0 ) c.fail( name + "-hangs", std::string( what ) + " " + context() );
    int st = 0; while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {} pid = -1;
    if ( WIFEXITED( st ) && WEXITSTATUS( st ) == 127 ) c.fail( "harness:cannot-run", name );
    c.fail( name + ( WIFSIGNALED( st ) ? "-killed" : "-ended" ), std::string( what ) + ": " + ( WIFSIGNALED( st ) ? "signal " + std::to_string( WTERMSIG( st ) ) : "exit " + std::to_string( WEXITSTATUS( st ) ) ) + "; " + context() + "; it said: " + errtail() );
  }
  void step( char cmd, const char * what ) { if ( ::send( ctl, &cmd, 1, MSG_NOSIGNAL ) != 1 ) { /* seen by wait_poll */ } wait_poll( what ); }
};
