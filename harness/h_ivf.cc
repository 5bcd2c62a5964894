// P13: IVF files return what was appended, at every moment.
#include "pbt.hh"
#include "iofault.hh"
#include "tool.hh"
#include "ivf.hh"
#include "ivf_writer.hh"
#include <fcntl.h>
using namespace std;

struct Model { string fourcc; unsigned w, h; uint32_t rate, scale, hash = 0; vector<Bytes> frames; };

static Bytes draw_frame( Src & g )
{
  unsigned n = 0; switch ( g.weighted( { 5, 2, 2, 1 } ) ) { case 0: n = g.draw( 200 ); break; case 1: n = g.pick<unsigned>( { 0, 1, 11, 12, 13, 31, 32, 33, 255, 256, 257 } ); break; case 2: n = g.draw( 9000 ); break; case 3: n = g.pick<unsigned>( { 4096, 65535, 65536, 65537, 131072, 300000 } ); break; }
  Bytes b( n ); Prng p( g.seed() ); int kind = g.draw( 3 ); for ( auto & x : b ) x = kind == 0 ? p.next() : kind == 1 ? 0 : 0xff; return b;
}

// what a reader must see, from an independent reading of the bytes and from alfalfa's reader
static void compare( pbt::Ctx & c, const string & path, const Model & m, const string & when, bool tail_allowed = false )
{
  auto le = []( const Bytes & b, size_t at, int n ) { uint64_t v = 0; for ( int i = n - 1; i >= 0; i-- ) v = v << 8 | b.at( at + i ); return v; };
  Bytes raw = slurp( path ); c.require( raw.size() >= 32, "no-header", when ); string sig( raw.begin(), raw.begin() + 4 ), cc( raw.begin() + 8, raw.begin() + 12 );
  c.require( sig == "DKIF" && le( raw, 4, 2 ) == 0 && le( raw, 6, 2 ) == 32 && cc == m.fourcc && le( raw, 12, 2 ) == m.w && le( raw, 14, 2 ) == m.h && le( raw, 16, 4 ) == m.rate && le( raw, 20, 4 ) == m.scale && le( raw, 24, 4 ) == m.frames.size() && le( raw, 28, 4 ) == m.hash, "header-bytes", when );
  size_t at = 32; for ( size_t i = 0; i < m.frames.size(); i++ ) { c.require( at + 12 <= raw.size() && le( raw, at, 4 ) == m.frames[ i ].size() && at + 12 + m.frames[ i ].size() <= raw.size() && equal( m.frames[ i ].begin(), m.frames[ i ].end(), raw.begin() + at + 12 ), "frame-bytes", "frame " + to_string( i ) + " " + when ); at += 12 + m.frames[ i ].size(); }
  if ( !tail_allowed ) c.require( at == raw.size(), "trailing-bytes", when );
  unique_ptr<IVF> f; try { f.reset( new IVF( path ) ); } catch ( const exception & e ) { c.fail( "unreadable", string( e.what() ) + " " + when ); }
  c.require( f->fourcc() == m.fourcc, "fourcc", when ); c.require( f->width() == m.w && f->height() == m.h, "size", when ); c.require( f->frame_rate() == m.rate && f->time_scale() == m.scale, "time-base", when );
  c.require( f->expected_decoder_minihash() == m.hash, "fingerprint", when ); c.require( f->frame_count() == m.frames.size(), "frame-count", to_string( f->frame_count() ) + " instead of " + to_string( m.frames.size() ) + " " + when ); c.require( f->size() == raw.size(), "file-size", when );
  for ( size_t k = 0; k < m.frames.size(); k++ ) { size_t i = k % 2 ? m.frames.size() - 1 - k / 2 : k / 2; Chunk x = f->frame( i ); c.require( x.size() == m.frames[ i ].size() && equal( x.buffer(), x.buffer() + x.size(), m.frames[ i ].begin() ), "frame", "frame " + to_string( i ) + " " + when ); }
  bool refused = false; try { f->frame( m.frames.size() ); } catch ( const exception & ) { refused = true; } c.require( refused, "frame-beyond-end", when );
}

static Model draw_model( Src & g )
{
  Model m; m.fourcc = g.draw( 3 ) ? "VP80" : string( { char( 'A' + g.draw( 26 ) ), char( g.draw( 256 ) ), char( '0' + g.draw( 10 ) ), char( g.draw( 256 ) ) } );
  auto dim = [&]() { return g.draw( 2 ) ? 1 + g.draw( 2000 ) : g.pick<unsigned>( { 1, 255, 256, 32767, 32768, 65535 } ); }; m.w = dim(); m.h = dim();
  auto t = [&]() { return g.draw( 2 ) ? 1 + g.draw( 100 ) : g.draw32(); }; m.rate = t(); m.scale = t(); return m;
}

static unique_ptr<IVFWriter> open_writer( Src & g, const string & path, const Model & m, bool & over_old )
{
  over_old = g.chance( 1, 4 ); if ( over_old ) spit( path, Bytes( g.draw( 400 ), 0xaa ) );
  if ( g.draw( 2 ) ) return unique_ptr<IVFWriter>( new IVFWriter( path, m.fourcc, m.w, m.h, m.rate, m.scale ) );
  FileDescriptor fd( open( path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600 ) ); return unique_ptr<IVFWriter>( new IVFWriter( move( fd ), m.fourcc, m.w, m.h, m.rate, m.scale ) );
}

static void history( pbt::Ctx & c )
{
  Src & g = c.g; string path = c.scratch + "/a.ivf"; Model m = draw_model( g ); bool old; Digest dg; ostringstream log; log << m.w << "x" << m.h << " " << m.rate << "/" << m.scale << ":";
  iofault::rng = Prng( g.seed() ); iofault::on = g.draw( 2 ); if ( iofault::on ) { c.tag( "short transfers" ); log << " (short transfers)"; } struct Off { ~Off() { iofault::on = false; } } off;
  auto w = open_writer( g, path, m, old ); c.require( w->width() == m.w && w->height() == m.h, "writer-size" ); compare( c, path, m, "when empty" );
  int n = 1 + g.draw( g.chance( 1, 8 ) ? 300 : 25 ); bool each = g.draw( 2 );
  for ( int i = 0; i < n; i++ ) {
    if ( g.chance( 1, 8 ) ) { m.hash = g.draw32(); w->set_expected_decoder_entry_hash( m.hash ); log << " hash"; c.tag( "fingerprint set" ); }
    else { Bytes b = draw_frame( g ); dg.add( b ); size_t at = 32; for ( auto & f : m.frames ) at += 12 + f.size(); size_t r = w->append_frame( Chunk( b.data(), b.size() ) ); c.require( r == at + 12, "offset", to_string( r ) + " instead of " + to_string( at + 12 ) + log.str() ); m.frames.push_back( b ); if ( m.frames.size() < 12 ) log << " " << b.size(); c.tag( "frames" ); }
    if ( each || g.chance( 1, 5 ) ) { c.tag( "read while open" ); compare( c, path, m, "after step " + to_string( i ) + " of " + log.str() ); }
  }
  w.reset(); compare( c, path, m, "after closing: " + log.str() ); if ( m.frames.size() > 1 ) c.nontrivial( dg.h ^ m.frames.size() ); c.sample( log.str() );
}

// the process ends, or the disk is full, in the middle of any write: every frame appended before is still there
static void crash( pbt::Ctx & c )
{
  Src & g = c.g; string path = c.scratch + "/a.ivf"; Model m = draw_model( g ); vector<Bytes> fr; int n = 1 + g.draw( 8 ); Digest dg; for ( int i = 0; i < n; i++ ) { fr.push_back( draw_frame( g ) ); dg.add( fr.back() ); }
  bool full = g.draw( 2 ), shorts = g.draw( 2 ); uint64_t seed = g.seed(); int at = g.draw( 2 * n + 4 ); int hash_at = g.draw( n + 1 ); uint32_t hash = g.draw32();
  int * done = (int *)mmap( nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ); done[ 0 ] = -1; done[ 1 ] = 0;
  pid_t p = fork();
  if ( !p ) {
    iofault::rng = Prng( seed ); IVFWriter w( path, m.fourcc, m.w, m.h, m.rate, m.scale ); done[ 0 ] = 0; iofault::on = shorts; iofault::no_space = full; iofault::crash_after = at;
    try { for ( int i = 0; i < n; i++ ) { if ( i == hash_at ) { w.set_expected_decoder_entry_hash( hash ); done[ 1 ] = 1; } w.append_frame( Chunk( fr[ i ].data(), fr[ i ].size() ) ); done[ 0 ]++; } } catch ( const exception & ) { _exit( 78 ); }
    _exit( 79 );
  }
  int st = 0; while ( waitpid( p, &st, 0 ) < 0 && errno == EINTR ) {} int k = done[ 0 ]; if ( done[ 1 ] ) m.hash = hash; munmap( done, 4096 ); string log = to_string( n ) + " frames, " + ( full ? "disk full" : "process ended" ) + " after " + to_string( at ) + " writes, " + to_string( k ) + " frames done";
  c.require( WIFEXITED( st ) && WEXITSTATUS( st ) >= 77 && k >= 0, "writer-crashed", log ); m.frames.assign( fr.begin(), fr.begin() + k ); compare( c, path, m, log, true );
  c.tag( WEXITSTATUS( st ) == 77 ? "process ended" : WEXITSTATUS( st ) == 78 ? "disk full" : "completed" ); c.tag( "frames", k ); if ( WEXITSTATUS( st ) != 79 ) c.nontrivial( dg.h ^ at ); c.sample( log );
}

// frame counts and frame sizes that need more than two (three) bytes of their fields
static void many( pbt::Ctx & c )
{
  Src & g = c.g; string path = c.scratch + "/a.ivf"; Model m = draw_model( g ); bool old; auto w = open_writer( g, path, m, old ); bool big = g.chance( 1, 4 ); Prng p( g.seed() );
  size_t n = big ? 1 + g.draw( 3 ) : 65536 + g.range( -3, 400 ), at = 32;
  for ( size_t i = 0; i < n; i++ ) {
    Bytes b( big ? ( 1u << 24 ) - 2 + g.draw( 600 ) : p.below( 4 ) ); for ( auto & x : b ) x = p.next();
    size_t r = w->append_frame( Chunk( b.data(), b.size() ) ); if ( r != at + 12 ) c.fail( "offset", to_string( r ) + " instead of " + to_string( at + 12 ) ); at += 12 + b.size(); m.frames.push_back( move( b ) );
  }
  if ( g.draw( 2 ) ) { m.hash = g.draw32(); w->set_expected_decoder_entry_hash( m.hash ); }
  if ( g.draw( 2 ) ) w.reset();
  string log = to_string( n ) + " frames, " + to_string( at ) + " bytes"; compare( c, path, m, log ); c.tag( big ? "large frames" : "many frames" ); c.nontrivial( n * 1000003 + at ); c.sample( log );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs { { "history", history, 4000, 100000 }, { "crash", crash, 6000, 150000 }, { "many", many, 32, 800 } }; subs[ 0 ].batch = subs[ 1 ].batch = 20; subs[ 2 ].batch = 1;
  return pbt::Runner( "P13", subs ).main( argc, argv );
}
