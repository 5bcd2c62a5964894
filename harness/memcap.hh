// Counts bytes allocated through operator new so that a check can bound memory use.
// Include in exactly one source file of a program.
#pragma once
#include <atomic>
#include <cstdlib>
#include <new>
#include <malloc.h>

namespace memcap {
inline std::atomic<size_t> live { 0 }, peak { 0 };
inline std::atomic<size_t> limit { (size_t)-1 };
inline std::atomic<bool> tripped { false };
// from now on, refuse to go more than n bytes above what is live now
inline void arm( size_t n ) { tripped = false; peak = live.load(); limit = live.load() + n; }
inline void disarm() { limit = (size_t)-1; }
}

void * operator new( size_t n )
{
  if ( memcap::live.load() + n > memcap::limit.load() ) { memcap::tripped = true; throw std::bad_alloc(); }
  void * p = malloc( n ? n : 1 );
  if ( !p ) throw std::bad_alloc();
  size_t l = memcap::live += malloc_usable_size( p );
  if ( l > memcap::peak.load() ) memcap::peak = l;
  return p;
}
void operator delete( void * p ) noexcept { if ( p ) { memcap::live -= malloc_usable_size( p ); free( p ); } }
void operator delete( void * p, size_t ) noexcept { operator delete( p ); }
