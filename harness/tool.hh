// Run one of alfalfa's command-line programs, built next to the harness, in the case's scratch directory.
#pragma once
#include <string>
#include <vector>
#include <fstream>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include "pbt.hh"
typedef std::vector<uint8_t> Bytes;

struct ToolRun { int status = -1; std::string out, err; bool ok() const { return WIFEXITED( status ) && WEXITSTATUS( status ) == 0; } bool crashed() const { return WIFSIGNALED( status ); } };
inline std::string self_dir() { char b[ 4096 ]; ssize_t n = readlink( "/proc/self/exe", b, sizeof( b ) - 1 ); b[ n > 0 ? n : 0 ] = 0; std::string s = b; return s.substr( 0, s.rfind( '/' ) ); }
inline Bytes slurp( const std::string & path ) { std::ifstream f( path, std::ios::binary ); return Bytes( ( std::istreambuf_iterator<char>( f ) ), std::istreambuf_iterator<char>() ); }
inline void spit( const std::string & path, const Bytes & b ) { std::ofstream f( path, std::ios::binary | std::ios::trunc ); f.write( (const char *)b.data(), b.size() ); }
inline ToolRun tool( pbt::Ctx & c, const std::vector<std::string> & args, const std::string & in = "" )
{
  static int n = 0; std::string base = c.scratch + "/t" + std::to_string( n++ ), o = base + ".out", e = base + ".err", exe = self_dir() + "/" + args[ 0 ];
  { std::ofstream f( base + ".in", std::ios::binary ); f << in; }
  pid_t p = fork();
  if ( !p ) {
    int fi = open( ( base + ".in" ).c_str(), O_RDONLY ), fo = open( o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ), fe = open( e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ); dup2( fi, 0 ); dup2( fo, 1 ); dup2( fe, 2 ); for ( int k = 3; k < 64; k++ ) close( k );
    rlimit r { 30, 30 }; setrlimit( RLIMIT_CPU, &r ); rlimit s { 1u << 30, 1u << 30 }; setrlimit( RLIMIT_FSIZE, &s ); if ( chdir( c.scratch.c_str() ) ) _exit( 126 );
    std::vector<char *> v; for ( auto & a : args ) v.push_back( const_cast<char *>( a.c_str() ) ); v.push_back( nullptr ); signal( SIGPROF, SIG_DFL ); setenv( "GLIBC_TUNABLES", "glibc.malloc.perturb=255", 1 ); execv( exe.c_str(), v.data() ); _exit( 127 );
  }
  ToolRun r; while ( waitpid( p, &r.status, 0 ) < 0 && errno == EINTR ) {}
  Bytes a = slurp( o ), b = slurp( e ); r.out.assign( a.begin(), a.end() ); r.err.assign( b.begin(), b.end() ); unlink( o.c_str() ); unlink( e.c_str() ); unlink( ( base + ".in" ).c_str() );
  if ( WIFEXITED( r.status ) && ( WEXITSTATUS( r.status ) == 127 || WEXITSTATUS( r.status ) == 126 ) ) c.fail( "harness:cannot-run", exe );
  return r;
}
inline std::string show( const std::vector<std::string> & a ) { std::string s; for ( auto & x : a ) s += ( s.empty() ? "" : " " ) + x; return s; }
