// Faults on the file descriptors of the code under test: short reads and writes, and a crash in the middle of a write.
// Defining read and write here replaces the C library's for the whole program; only descriptors marked are affected.
#pragma once
#include <unistd.h>
#include <errno.h>
#include <sys/syscall.h>
#include "src.hh"

struct CrashNow {};
namespace iofault {
static bool on = false;            // short transfers
static int crash_after = -1;       // writes left until the crash; negative: never
static bool no_space = false;      // the crash is ENOSPC instead of the end of the process
static int lowest_fd = 3;
static Prng rng( 1 );
static size_t shorten( size_t n ) { if ( n <= 1 ) return n; switch ( rng.below( 4 ) ) { case 0: return 1; case 1: return 1 + rng.below( n ); default: return n; } }
}
extern "C" ssize_t read( int fd, void * p, size_t n ) { if ( iofault::on && fd >= iofault::lowest_fd ) n = iofault::shorten( n ); return syscall( SYS_read, fd, p, n ); }
extern "C" ssize_t write( int fd, const void * p, size_t n )
{
  if ( fd >= iofault::lowest_fd ) {
    if ( iofault::crash_after == 0 ) {
      size_t k = iofault::rng.below( n + 1 ); if ( k ) syscall( SYS_write, fd, p, k );
      if ( iofault::no_space ) { errno = ENOSPC; return -1; }
      _exit( 77 );
    }
    if ( iofault::crash_after > 0 ) iofault::crash_after--;
    if ( iofault::on ) n = iofault::shorten( n );
  }
  return syscall( SYS_write, fd, p, n );
}
