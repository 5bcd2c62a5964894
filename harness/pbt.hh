// Small property-based testing runner: generated cases run in forked children (a crash or a
// sanitizer report is a failure like any other), failures are confirmed, shrunk on their choice
// tape and written as a replay file.
#pragma once
#include "src.hh"
#include <functional>
#include <memory>
#include <set>
#include <algorithm>
#include <map>
#include <unordered_set>
#include <sstream>
#include <fstream>
#include <iostream>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <ctime>
#include <stdexcept>
#include <typeinfo>
#include <sys/mman.h>
#include <sys/wait.h>
#include <malloc.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <cxxabi.h>

namespace pbt {

struct Failure { std::string sig, msg; };

struct Stats {
  uint64_t evals = 0;
  std::map<std::string, uint64_t> tags;
  std::vector<uint64_t> digests;
  std::vector<std::string> samples;
};

struct Ctx {
  Src & g;
  Stats & st;
  std::string scratch;            // private directory of this worker, emptied between runs
  std::vector<std::string> notes;
  bool verbose = false;
  void tag( const std::string & t, uint64_t n = 1 ) { st.tags[ t ] += n; }
  void nontrivial( uint64_t digest ) { st.digests.push_back( digest ); }
  void sample( const std::string & s ) { if ( verbose ) { std::cout << "case: " << s << "\n"; } if ( st.samples.size() < 2 ) { st.samples.push_back( s ); } }
  [[noreturn]] void fail( const std::string & sig, const std::string & msg ) { throw Failure { sig, msg }; }
  void require( bool ok, const std::string & sig, const std::string & msg = "" ) { if ( !ok ) { fail( sig, msg ); } }
};

struct Sub {
  std::string name;
  std::function<void( Ctx & )> fn;
  unsigned quick, thorough;       // number of generated cases per tier
  unsigned batch = 1;            // cases per forked child (1: every case in a fresh process)
  unsigned cpu_limit = 30;        // seconds of CPU one case may use
  unsigned weight = 1;
  unsigned jobs = 0;              // 0: default
};

static inline std::string jstr( const std::string & s )
{
  std::string o = "\"";
  for ( unsigned char c : s ) {
    if ( c == '"' || c == '\\' ) { o += '\\'; o += c; }
    else if ( c == '\n' ) { o += "\\n"; }
    else if ( c < 32 || c > 126 ) { char b[ 8 ]; snprintf( b, 8, "\\u%04x", c ); o += b; }
    else { o += c; }
  }
  return o + "\"";
}

static inline double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Slot {
  volatile uint64_t cur;          // index of the running case
  volatile uint64_t done;         // cases finished in this child
  volatile int failed;
  char sig[ 256 ];
  char msg[ 4096 ];
  TapeMem tape;
};

struct Outcome { bool failed = false; std::string sig, msg; std::vector<uint32_t> tape; };

class Runner {
  std::string prop_;
  std::vector<Sub> subs_;
  std::string tmp_;
  uint64_t seed_ = 1;
  unsigned jobs_ = 8;
  std::vector<Slot *> slots_;
  std::unordered_set<std::string> known_;
  bool verbose_ = false;

  struct Child { pid_t pid = -1; const Sub * sub = nullptr; uint64_t a = 0, b = 0; double t0 = 0; uint64_t seen = 0; };

  static void rmrf( const std::string & d )
  {
    DIR * D = opendir( d.c_str() );
    if ( D ) {
      while ( dirent * e = readdir( D ) ) {
        std::string n = e->d_name;
        if ( n == "." || n == ".." ) continue;
        std::string p = d + "/" + n; struct stat s;
        if ( !lstat( p.c_str(), &s ) && S_ISDIR( s.st_mode ) ) rmrf( p ); else unlink( p.c_str() );
      }
      closedir( D );
    }
    rmdir( d.c_str() );
  }

  std::string slot_dir( unsigned s ) { return tmp_ + "/s" + std::to_string( s ); }

  uint64_t case_seed( const Sub & sub, uint64_t idx )
  {
    Digest d; d.add( prop_ ); d.add( sub.name ); d.u( seed_ ); d.u( idx );
    return mix64( d.h );
  }

  static std::string demangle( const char * n ) { int st; char * p = abi::__cxa_demangle( n, 0, 0, &st ); std::string r = p ? p : n; free( p ); return r; }

  // runs in the child; returns 0 when the case passed
  int run_case( const Sub & sub, Slot * sl, Src & g, Stats & st, const std::string & scratch )
  {
    itimerval tv {}; tv.it_value.tv_sec = sub.cpu_limit; setitimer( ITIMER_PROF, &tv, nullptr );
    std::string sig, msg;
    try {
      Ctx c { g, st, scratch, {}, verbose_ };
      st.evals++; mallopt( M_PERTURB, 0x5a );      // memory nobody set holds no zeros

      sub.fn( c );
      return 0;
    }
    catch ( const Failure & f ) { sig = f.sig; msg = f.msg; }
    catch ( const std::exception & e ) { sig = "uncaught:" + demangle( typeid( e ).name() ); msg = e.what(); }
    catch ( ... ) { sig = "uncaught:unknown"; }
    strncpy( sl->sig, sig.c_str(), 255 ); strncpy( sl->msg, msg.c_str(), 4095 );
    sl->failed = 1;
    return 1;
  }

  static void write_stats( const Stats & st, const std::string & path )
  {
    std::ofstream o( path + ".tmp" );
    o << st.evals << "\n" << st.tags.size() << "\n";
    for ( auto & t : st.tags ) o << t.second << " " << t.first << "\n";
    o << st.digests.size() << "\n";
    for ( auto d : st.digests ) o << d << "\n";
    o << st.samples.size() << "\n";
    for ( auto & s : st.samples ) { o << s.size() << "\n" << s << "\n"; }
    o.close();
    rename( ( path + ".tmp" ).c_str(), path.c_str() );
  }
  static bool read_stats( Stats & st, const std::string & path )
  {
    std::ifstream i( path ); if ( !i ) return false;
    uint64_t ev, n; i >> ev >> n; st.evals += ev; 
    for ( uint64_t k = 0; k < n; k++ ) { uint64_t c; std::string t; i >> c; i.get(); getline( i, t ); st.tags[ t ] += c; }
    i >> n; for ( uint64_t k = 0; k < n; k++ ) { uint64_t d; i >> d; st.digests.push_back( d ); }
    i >> n; for ( uint64_t k = 0; k < n; k++ ) { size_t l; i >> l; i.get(); std::string s( l, 0 ); i.read( &s[ 0 ], l ); st.samples.push_back( s ); }
    unlink( path.c_str() );
    return true;
  }

  void prepare_child( unsigned s )
  {
    setpgid( 0, 0 );
    rlimit rl { 0, 0 }; setrlimit( RLIMIT_CORE, &rl );
    std::string d = slot_dir( s ); rmrf( d ); mkdir( d.c_str(), 0700 );
    int fd = open( ( tmp_ + "/err" + std::to_string( s ) ).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600 );
    dup2( fd, 2 ); if ( !verbose_ ) { dup2( fd, 1 ); }
    close( fd );
    int nul = open( "/dev/null", O_RDONLY ); dup2( nul, 0 ); close( nul );
    if ( chdir( d.c_str() ) ) {}
  }

  pid_t spawn_batch( const Sub & sub, unsigned s, uint64_t a, uint64_t b )
  {
    Slot * sl = slots_[ s ];
    sl->cur = a; sl->done = 0; sl->failed = 0; sl->sig[ 0 ] = sl->msg[ 0 ] = 0; sl->tape.len = 0;
    fflush( stdout ); fflush( stderr );
    pid_t p = fork();
    if ( p ) return p;
    prepare_child( s );
    Stats st; int rc = 0;
    for ( uint64_t i = a; i < b; i++ ) {
      sl->cur = i;
      Src g( &sl->tape, case_seed( sub, i ) );
      rc = run_case( sub, sl, g, st, slot_dir( s ) );
      sl->done = sl->done + 1;
      if ( rc ) break;
    }
    if ( sl->tape.overflow ) { st.tags[ "(tape overflow)" ]++; }
    write_stats( st, tmp_ + "/st" + std::to_string( s ) );
    fflush( stdout );
    _exit( rc );
  }

  pid_t spawn_tape( const Sub & sub, unsigned s, const std::vector<uint32_t> & tape )
  {
    Slot * sl = slots_[ s ];
    sl->cur = 0; sl->done = 0; sl->failed = 0; sl->sig[ 0 ] = sl->msg[ 0 ] = 0; sl->tape.len = 0;
    fflush( stdout ); fflush( stderr );
    pid_t p = fork();
    if ( p ) return p;
    prepare_child( s );
    Stats st;
    Src g( &sl->tape, tape.data(), tape.size() );
    int rc = run_case( sub, sl, g, st, slot_dir( s ) );
    fflush( stdout );
    _exit( rc );
  }

  std::string err_tail( unsigned s )
  {
    std::ifstream i( tmp_ + "/err" + std::to_string( s ) );
    std::stringstream ss; ss << i.rdbuf(); std::string t = ss.str();
    size_t p = t.find( "ERROR: AddressSanitizer" ); if ( p == std::string::npos ) p = t.find( "WARNING: ThreadSanitizer" );
    if ( p == std::string::npos ) p = t.find( "runtime error" );
    if ( p != std::string::npos ) return t.substr( p, 1800 );
    return t.size() > 600 ? t.substr( t.size() - 600 ) : t;
  }
  static std::string san_kind( const std::string & t )
  {
    size_t p = t.find( "AddressSanitizer: " ); size_t k = 18;
    if ( p == std::string::npos ) { p = t.find( "ThreadSanitizer: " ); k = 17; }
    if ( p == std::string::npos ) return "";
    size_t e = p + k; while ( e < t.size() && ( isalpha( t[ e ] ) || t[ e ] == '-' ) ) e++;
    return t.substr( p + k, e - p - k );
  }

  // turns a child's ending into an outcome
  Outcome outcome( unsigned s, int status )
  {
    Outcome o; Slot * sl = slots_[ s ];
    o.tape.assign( sl->tape.v, sl->tape.v + sl->tape.len );
    if ( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 ) return o;
    o.failed = true;
    if ( sl->failed ) { o.sig = sl->sig; o.msg = sl->msg; return o; }
    std::string e = err_tail( s );
    if ( WIFSIGNALED( status ) ) {
      int sg = WTERMSIG( status );
      if ( sg == SIGPROF || sg == SIGKILL ) o.sig = "hang"; else o.sig = "crash:signal" + std::to_string( sg );
    } else { o.sig = "crash:" + ( san_kind( e ).empty() ? "exit" + std::to_string( WEXITSTATUS( status ) ) : san_kind( e ) ); }
    o.msg = e;
    return o;
  }

  static void kill_group( pid_t p ) { kill( -p, SIGKILL ); kill( p, SIGKILL ); }

  // run several tapes concurrently
  std::vector<Outcome> run_tapes( const Sub & sub, const std::vector<std::vector<uint32_t>> & tapes )
  {
    std::vector<Outcome> res( tapes.size() );
    for ( size_t base = 0; base < tapes.size(); base += jobs_ ) {
      size_t n = std::min<size_t>( jobs_, tapes.size() - base );
      std::vector<pid_t> pids( n );
      for ( size_t i = 0; i < n; i++ ) pids[ i ] = spawn_tape( sub, i, tapes[ base + i ] );
      double t0 = now(); size_t left = n; std::vector<bool> fin( n, false );
      while ( left ) {
        for ( size_t i = 0; i < n; i++ ) {
          if ( fin[ i ] ) continue;
          int st; if ( waitpid( pids[ i ], &st, WNOHANG ) == pids[ i ] ) { res[ base + i ] = outcome( i, st ); kill( -pids[ i ], SIGKILL ); fin[ i ] = true; left--; }
          else if ( now() - t0 > 4 * sub.cpu_limit + 30 ) { kill_group( pids[ i ] ); }
        }
        usleep( 300 );
      }
    }
    return res;
  }

  std::vector<uint32_t> shrink( const Sub & sub, std::vector<uint32_t> best, const std::string & sig, double budget, uint64_t & tries )
  {
    double end = now() + budget;
    auto attempt = [&]( std::vector<std::vector<uint32_t>> cands ) -> bool {
      for ( size_t i = 0; i < cands.size(); i += jobs_ ) {
        if ( now() > end ) return false;
        std::vector<std::vector<uint32_t>> w( cands.begin() + i, cands.begin() + std::min( cands.size(), i + (size_t)jobs_ ) );
        auto r = run_tapes( sub, w ); tries += w.size();
        for ( size_t k = 0; k < r.size(); k++ ) if ( r[ k ].failed && r[ k ].sig == sig ) {
          auto t = w[ k ]; if ( r[ k ].tape.size() < t.size() ) t.resize( r[ k ].tape.size() );
          while ( !t.empty() && t.back() == 0 ) t.pop_back();
          if ( t.size() < best.size() || ( t.size() == best.size() && t < best ) ) { best = t; return true; }
        }
      }
      return false;
    };
    while ( !best.empty() && best.back() == 0 ) best.pop_back();
    bool progress = true;
    while ( progress && now() < end ) {
      progress = false;
      // truncate
      for ( bool again = true; again && now() < end; ) {
        std::vector<std::vector<uint32_t>> c;
        for ( double fr : { 0.1, 0.25, 0.5, 0.7, 0.8, 0.9, 0.95, 0.98 } ) { auto t = best; t.resize( (size_t)( best.size() * fr ) ); if ( t.size() < best.size() ) c.push_back( t ); }
        again = attempt( c ); progress |= again;
      }
      // delete / zero blocks
      for ( size_t k = best.size() / 2; k >= 1 && now() < end; k /= 2 ) {
        for ( int mode = 0; mode < 2; mode++ ) {
          size_t at = 0;
          while ( at < best.size() && now() < end ) {
            std::vector<std::vector<uint32_t>> c; size_t p = at;
            for ( unsigned j = 0; j < jobs_ && p < best.size(); j++, p += k ) {
              auto t = best; size_t e = std::min( p + k, t.size() );
              if ( mode == 0 ) t.erase( t.begin() + p, t.begin() + e );
              else { bool nz = false; for ( size_t q = p; q < e; q++ ) { nz |= t[ q ] != 0; t[ q ] = 0; } if ( !nz ) continue; }
              c.push_back( t );
            }
            if ( attempt( c ) ) { progress = true; } else { at = p; }
          }
        }
      }
      // smaller values
      for ( size_t i = 0; i < best.size() && i < 400 && now() < end; i++ ) {
        if ( best[ i ] <= 1 ) continue;
        std::vector<std::vector<uint32_t>> c;
        for ( uint32_t v : { 1u, best[ i ] / 16, best[ i ] / 4, best[ i ] / 2, best[ i ] - 1 } ) { auto t = best; t[ i ] = v; c.push_back( t ); }
        if ( attempt( c ) ) { progress = true; }
      }
    }
    return best;
  }

public:
  Runner( const std::string & prop, std::vector<Sub> subs ) : prop_( prop ), subs_( subs ) {}

  int main( int argc, char ** argv )
  {
    std::map<std::string, std::string> o; std::vector<std::string> pos;
    for ( int i = 1; i < argc; i++ ) {
      std::string a = argv[ i ];
      if ( a.substr( 0, 2 ) == "--" && i + 1 < argc ) { o[ a.substr( 2 ) ] = argv[ ++i ]; } else pos.push_back( a );
    }
    auto get = [&]( const char * k, const char * d ) { return o.count( k ) ? o[ k ] : std::string( d ); };
    seed_ = strtoull( get( "seed", "1" ).c_str(), 0, 10 );
    std::string tier = get( "tier", "quick" );
    double scale = atof( get( "scale", "1" ).c_str() );
    double budget = atof( get( "budget", "600" ).c_str() );
    jobs_ = atoi( get( "jobs", "8" ).c_str() );
    verbose_ = o.count( "verbose" );
    { std::stringstream ss( get( "known", "" ) ); std::string k; while ( getline( ss, k, ';' ) ) if ( !k.empty() ) known_.insert( k ); }
    std::string tmpl = get( "tmp", "/tmp" ) + "/pbt.XXXXXX"; std::vector<char> tb( tmpl.begin(), tmpl.end() ); tb.push_back( 0 );
    if ( !mkdtemp( tb.data() ) ) { perror( "mkdtemp" ); return 2; }
    tmp_ = tb.data();
    struct Cleanup { std::string d; ~Cleanup() { Runner::rmrf( d ); } } cleanup { tmp_ };
    for ( unsigned i = 0; i < std::max( jobs_, 8u ); i++ ) {
      Slot * s = (Slot *)mmap( nullptr, sizeof( Slot ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
      slots_.push_back( s );
    }

    if ( pos.size() >= 2 && pos[ 0 ] == "replay" ) {
      std::ifstream i( pos[ 1 ] ); std::string line, name, kind; std::vector<uint32_t> t; uint64_t a = 0, b = 0; bool batch = false;
      while ( getline( i, line ) ) {
        std::stringstream ss( line ); ss >> kind;
        if ( kind == "sub" ) ss >> name;
        if ( kind == "tape" ) { uint32_t v; while ( ss >> v ) t.push_back( v ); }
        if ( kind == "batch" ) { ss >> a >> b >> seed_; batch = true; }
      }
      for ( auto & s : subs_ ) if ( s.name == name ) {
        verbose_ = true;
        pid_t p = batch ? spawn_batch( s, 0, a, b ) : spawn_tape( s, 0, t ); int st; waitpid( p, &st, 0 );
        auto out = outcome( 0, st );
        if ( out.failed ) { std::cout << "FAILED sub=" << name << " signature=" << out.sig << "\n" << out.msg << "\n"; return 1; }
        std::cout << "passed\n"; return 0;
      }
      std::cerr << "unknown sub-check " << name << "\n"; return 2;
    }
    if ( pos.size() >= 3 && pos[ 0 ] == "one" ) {
      for ( auto & s : subs_ ) if ( s.name == pos[ 1 ] ) {
        verbose_ = true;
        pid_t p = spawn_batch( s, 0, atoll( pos[ 2 ].c_str() ), atoll( pos[ 2 ].c_str() ) + 1 ); int st; waitpid( p, &st, 0 );
        auto out = outcome( 0, st );
        if ( out.failed ) { std::cout << "FAILED signature=" << out.sig << "\n" << out.msg << "\n"; return 1; }
        std::cout << "passed, tape " << out.tape.size() << "\n"; return 0;
      }
      return 2;
    }

    std::string only = get( "only", "" );
    std::string rdir = get( "replay-dir", "." );
    double t_start = now();
    std::stringstream json; json << "{\"subs\":[";
    bool violated = false, first_sub = true; std::stringstream viol; unsigned unconfirmed = 0; std::stringstream unconf;
    unsigned total_w = 0; for ( auto & s : subs_ ) total_w += s.weight;
    std::map<std::string, uint64_t> known_hits;
    for ( auto & sub : subs_ ) {
      if ( !only.empty() && sub.name != only ) continue;
      Stats st; uint64_t total = (uint64_t)( ( tier == "thorough" ? sub.thorough : sub.quick ) * scale + 0.5 );
      double sub_end = now() + budget * sub.weight / total_w;
      uint64_t next = 0; std::vector<Child> ch( sub.jobs ? std::min( sub.jobs, jobs_ ) : jobs_ ); bool cut = false; unsigned running = 0;
      struct Bad { Outcome o; uint64_t a, idx; };
      std::vector<Bad> bad;
      double t0 = now();
      while ( true ) {
        for ( unsigned s = 0; s < ch.size(); s++ ) {
          Child & c = ch[ s ];
          if ( c.pid < 0 ) {
            if ( !bad.empty() || next >= total ) continue;
            if ( now() > sub_end ) { cut = true; continue; }
            c.a = next; c.b = std::min<uint64_t>( next + sub.batch, total ); next = c.b; c.t0 = now(); c.seen = 0;
            c.pid = spawn_batch( sub, s, c.a, c.b ); running++;
            continue;
          }
          int status; pid_t r = waitpid( c.pid, &status, WNOHANG );
          if ( r == c.pid ) {
            kill( -c.pid, SIGKILL );      // anything the case left running
            running--; read_stats( st, tmp_ + "/st" + std::to_string( s ) );
            uint64_t idx = slots_[ s ]->cur; uint64_t b = c.b; c.pid = -1;
            Outcome oc = outcome( s, status );
            if ( oc.failed ) {
              if ( !slots_[ s ]->failed ) { st.evals += slots_[ s ]->done + 1; }   // a crash loses the batch's statistics
              if ( known_.count( sub.name + "/" + oc.sig ) || known_.count( oc.sig ) ) {
                known_hits[ oc.sig ]++;
                if ( idx + 1 < b ) { c.a = idx + 1; c.b = b; c.t0 = now(); c.seen = 0; c.pid = spawn_batch( sub, s, c.a, c.b ); running++; }
              } else { bad.push_back( { oc, c.a, idx } ); }
            }
          } else {
            uint64_t d = slots_[ s ]->done;
            if ( d != c.seen ) { c.seen = d; c.t0 = now(); }
            else if ( now() - c.t0 > 4 * sub.cpu_limit + 60 ) { kill_group( c.pid ); }
          }
        }
        if ( running == 0 && ( next >= total || cut || !bad.empty() ) ) {
          if ( bad.empty() ) break;
          // confirm
          std::sort( bad.begin(), bad.end(), []( const Bad & x, const Bad & y ) { return x.idx < y.idx; } );
          for ( auto & x : bad ) {
            unsigned reps = x.o.sig == "hang" ? 1 : 3;
            auto r = run_tapes( sub, std::vector<std::vector<uint32_t>>( reps, x.o.tape ) );
            bool all = true; for ( auto & y : r ) all &= y.failed && y.sig == x.o.sig;
            std::string base = rdir + "/" + prop_ + "-" + sub.name + "-seed" + std::to_string( seed_ );
            if ( all ) {
              uint64_t tries = 0;
              auto t = shrink( sub, x.o.tape, x.o.sig, x.o.sig == "hang" ? 0 : atof( get( "shrink", "40" ).c_str() ), tries );
              auto fin = run_tapes( sub, { t } )[ 0 ];
              if ( !fin.failed ) { t = x.o.tape; fin = x.o; }
              std::string path = base + ".replay";
              std::ofstream f( path ); f << "property " << prop_ << "\nsub " << sub.name << "\nsignature " << fin.sig << "\n";
              f << "seed " << seed_ << " case " << x.idx << " shrunk from " << x.o.tape.size() << " to " << t.size() << " choices in " << tries << " tries\n";
              f << "tape"; for ( auto v : t ) f << " " << v; f << "\n";
              std::stringstream ms( fin.msg ); std::string l; while ( getline( ms, l ) ) f << "# " << l << "\n";
              f.close();
              viol << ( violated ? "," : "" ) << "{\"sub\":" << jstr( sub.name ) << ",\"sig\":" << jstr( fin.sig ) << ",\"msg\":" << jstr( fin.msg ) << ",\"replay\":" << jstr( path ) << "}";
              violated = true; break;
            }
            // does the whole batch reproduce it (state carried between cases of one process)?
            bool rep = true; Outcome bo;
            for ( int k = 0; k < 3 && rep; k++ ) {
              pid_t p = spawn_batch( sub, 0, x.a, x.idx + 1 ); int sst; waitpid( p, &sst, 0 ); unlink( ( tmp_ + "/st0" ).c_str() );
              bo = outcome( 0, sst ); rep = bo.failed && bo.sig == x.o.sig;
            }
            if ( rep && sub.batch > 1 ) {
              std::string path = base + ".replay"; std::ofstream f( path );
              f << "property " << prop_ << "\nsub " << sub.name << "\nsignature " << bo.sig << "\nbatch " << x.a << " " << x.idx + 1 << " " << seed_ << "\n";
              std::stringstream ms( bo.msg ); std::string l; while ( getline( ms, l ) ) f << "# " << l << "\n";
              viol << ( violated ? "," : "" ) << "{\"sub\":" << jstr( sub.name ) << ",\"sig\":" << jstr( bo.sig ) << ",\"msg\":" << jstr( bo.msg ) << ",\"replay\":" << jstr( path ) << "}";
              violated = true; break;
            }
            unconf << ( unconfirmed ? "," : "" ) << "{\"sub\":" << jstr( sub.name ) << ",\"case\":" << x.idx << ",\"sig\":" << jstr( x.o.sig ) << ",\"msg\":" << jstr( x.o.msg.substr( 0, 300 ) ) << "}";
            unconfirmed++;
          }
          bad.clear();
          if ( violated || unconfirmed > 8 ) break;
        }
        usleep( 500 );
      }
      std::unordered_set<uint64_t> ds( st.digests.begin(), st.digests.end() );
      json << ( first_sub ? "" : "," ) << "{\"name\":" << jstr( sub.name ) << ",\"planned\":" << total << ",\"evaluations\":" << st.evals << ",\"distinct_nontrivial\":" << ds.size()
           << ",\"wall_s\":" << ( now() - t0 ) << ",\"cut_short\":" << ( cut ? "true" : "false" ) << ",\"tags\":{";
      bool ft = true; for ( auto & t : st.tags ) { json << ( ft ? "" : "," ) << jstr( t.first ) << ":" << t.second; ft = false; }
      json << "},\"samples\":["; size_t step = std::max<size_t>( 1, st.samples.size() / 3 ); ft = true;
      for ( size_t i = 0, k = 0; i < st.samples.size() && k < 3; i += step, k++ ) { json << ( ft ? "" : "," ) << jstr( st.samples[ i ] ); ft = false; }
      json << "]}"; first_sub = false;
      if ( violated ) break;
    }
    json << "],\"violations\":[" << viol.str() << "],\"unconfirmed\":[" << unconf.str() << "],\"known_hits\":{";
    { bool ft = true; for ( auto & k : known_hits ) { json << ( ft ? "" : "," ) << jstr( k.first ) << ":" << k.second; ft = false; } }
    json << "},\"wall_s\":" << now() - t_start << "}\n";
    if ( o.count( "out" ) ) { std::ofstream f( o[ "out" ] ); f << json.str(); } else { std::cout << json.str(); }
    return violated ? 1 : 0;
  }
};

} // namespace pbt
