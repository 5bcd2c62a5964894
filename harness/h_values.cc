// P26: byte buffers, optional values, two-dimensional arrays, mapped files and numbers against plain models.
#include "pbt.hh"
#include "chunk.hh"
#include "optional.hh"
#include "finally.hh"
#include "2d.hh"
#include "safe_array.hh"
#include "raster.hh"
#include "file.hh"
#include "exception.hh"
#include "paranoid.hh"
#include <map>
#include <set>
#include <memory>
#include <fstream>
using namespace std;
typedef vector<uint8_t> Bytes;
struct Dig { uint64_t h = 0xcbf29ce484222325ull; void add( uint64_t v ) { h = ( h ^ v ) * 0x100000001b3ull; } };
static Bytes bytes( Src & g, size_t n ) { Bytes b( n ); Prng r( g.seed() ); unsigned k = g.draw( 3 ); for ( auto & x : b ) x = k == 0 ? r.next() : k == 1 ? 0xff - r.below( 2 ) : 0x80 >> r.below( 8 ); return b; }

// ---- chunks
static uint64_t draw_len( Src & g, uint64_t size )
{
  switch ( g.weighted( { 6, 3, 2, 1 } ) ) { case 0: return g.draw( size + 1 ); case 1: return size + g.draw( 4 ); case 2: return size ? size - 1 : 0; default: return g.pick<uint64_t>( { ~0ull, ~0ull - size, ~0ull - size + 1, 1ull << 63, ( 1ull << 32 ) + size, 1ull << 32, ~0ull - g.draw( 40 ) } ); }
}
static string num( uint64_t v ) { return to_string( v ); }
template <class F> static bool refused( F f ) { try { f(); } catch ( const exception & ) { return true; } return false; }
static void chunks( pbt::Ctx & c )
{
  Src & g = c.g; size_t n = g.weighted( { 3, 1 } ) ? g.draw( 600 ) : g.draw( 24 ); Bytes b = bytes( g, n ); unique_ptr<uint8_t[]> exact( new uint8_t[ n ] ); if ( n ) memcpy( exact.get(), b.data(), n );
  Chunk whole( exact.get(), n ); vector<pair<Chunk, size_t>> parts { { whole, 0 } }; Dig dg; for ( auto x : b ) dg.add( x ); int ops = 1 + g.draw( 20 ); string log = num( n ) + " bytes"; unsigned inside = 0;
  c.require( whole.size() == n && whole.to_string() == string( b.begin(), b.end() ), "whole", log ); { Chunk s( b ); c.require( s.size() == n && s.to_string() == whole.to_string(), "of-vector", log ); string t( b.begin(), b.end() ); Chunk u( t ); c.require( u.size() == n && u.to_string() == t, "of-string", log ); }
  for ( int i = 0; i < ops; i++ ) {
    pair<Chunk, size_t> p = parts[ g.draw( parts.size() ) ]; const Chunk & k = p.first; const uint8_t * at = b.data() + p.second; uint64_t size = k.size(); string where = "part at " + num( p.second ) + " of " + num( size ) + " bytes, " + log;
    auto le = [&]( int w ) { uint64_t v = 0; for ( int j = 0; j < w; j++ ) v |= (uint64_t)at[ j ] << ( 8 * j ); return v; };
    switch ( g.draw( 8 ) ) {
    case 0: case 1: case 2: {
      uint64_t off = draw_len( g, size ), len = draw_len( g, size ); bool one = g.draw( 2 ); if ( one ) len = size - off; bool fits = off <= size && len <= size - off; dg.add( off ); dg.add( len );
      try { Chunk r = one ? k( off ) : k( off, len ); c.require( fits, "outside-accepted", "offset " + num( off ) + " length " + num( len ) + " " + where ); c.require( r.size() == len && r.buffer() == k.buffer() + off, "part", "offset " + num( off ) + " length " + num( len ) + " " + where ); parts.emplace_back( r, p.second + off ); inside++; }
      catch ( const exception & ) { c.require( !fits, "inside-refused", "offset " + num( off ) + " length " + num( len ) + " " + where ); c.tag( "refused" ); }
      break; }
    case 3: if ( size < 1 ) c.require( refused( [&] { k.octet(); } ), "octet-outside", where ); else c.require( k.octet() == at[ 0 ], "octet", where ); break;
    case 4: if ( size < 2 ) c.require( refused( [&] { k.le16(); } ), "le16-outside", where ); else c.require( k.le16() == le( 2 ), "le16", where ); break;
    case 5: if ( size < 4 ) c.require( refused( [&] { k.le32(); } ), "le32-outside", where ); else c.require( k.le32() == le( 4 ), "le32", where ); break;
    case 6: if ( size < 8 ) c.require( refused( [&] { k.le64(); } ), "le64-outside", where ); else c.require( k.le64() == le( 8 ), "le64", where ); break;
    case 7: {
      uint64_t off = g.draw( 64 ), len = 1 + g.draw( 63 ); uint64_t need = ( off + len + 7 ) / 8; string q = "bits " + num( off ) + "+" + num( len ) + " " + where; dg.add( off * 100 + len ); if ( need > 8 ) { c.require( refused( [&] { k.bits( off, len ); } ), "bits-too-many", q ); break; }
      if ( need > size ) { c.require( refused( [&] { k.bits( off, len ); } ), "bits-outside", q ); break; }
      uint64_t v = 0; for ( uint64_t j = 0; j < len; j++ ) v |= (uint64_t)( at[ ( off + j ) / 8 ] >> ( ( off + j ) % 8 ) & 1 ) << j; uint64_t got = 0; try { got = k.bits( off, len ); } catch ( const exception & e ) { c.fail( "bits-refused", q ); } c.require( got == v, "bits", q + ": " + num( got ) + " instead of " + num( v ) ); break; }
    }
  }
  c.tag( "parts", inside ); if ( inside ) c.nontrivial( dg.h ); c.sample( log + ", " + num( ops ) + " operations" );
}

// ---- optional values: every object is built once, destroyed once, and the value is the one put there
static set<const void *> alive; static string mishap;
struct Obj {
  int v; unique_ptr<int> own;
  explicit Obj( int x = 0 ) : v( x ), own( new int( x ) ) { born(); } Obj( int a, int b ) : v( a * 1000 + b ), own( new int( v ) ) { born(); }
  Obj( const Obj & o ) : v( o.v ), own( new int( o.v ) ) { o.check(); born(); } Obj( Obj && o ) noexcept : v( o.v ), own( move( o.own ) ) { o.check(); born(); o.v = -1; }
  Obj & operator=( const Obj & o ) { check(); o.check(); v = o.v; own.reset( new int( v ) ); return *this; } Obj & operator=( Obj && o ) noexcept { check(); o.check(); v = o.v; own = move( o.own ); if ( &o != this ) o.v = -1; return *this; }
  ~Obj() { if ( !alive.erase( this ) ) mishap = "destroyed twice, or never built"; v = -2; }
  void born() { if ( !alive.insert( this ).second ) mishap = "built over a live object"; } void check() const { if ( !alive.count( this ) ) mishap = "used after its end"; }
  bool operator==( const Obj & o ) const { check(); o.check(); return v == o.v; }
};
static void optionals( pbt::Ctx & c )
{
  Src & g = c.g; alive.clear(); mishap = ""; const int N = 4; typedef Optional<Obj> O; Dig dg; string log; int ops = 1 + g.draw( 40 );
  struct M { bool known = true, set = false; int v = 0; };      // an object moved from holds an unspecified value
  {
    vector<unique_ptr<O>> o; vector<M> m( N ); for ( int i = 0; i < N; i++ ) o.emplace_back( new O );
    for ( int s = 0; s < ops; s++ ) {
      int a = g.draw( N ), b = g.draw( N ), v = 1 + g.draw( 900 ); unsigned op = g.draw( 14 ); dg.add( op * 10000 + a * 1000 + b * 100 ); dg.add( v ); log += " " + to_string( op ) + "(" + to_string( a ) + "," + to_string( b ) + ")";
      switch ( op ) {
      case 0: o[ a ].reset( new O ); m[ a ] = M(); break;
      case 1: o[ a ].reset( new O( Obj( v ) ) ); m[ a ] = { true, true, v }; break;
      case 2: { bool p = g.draw( 2 ); o[ a ].reset( new O( p, v, 7 ) ); m[ a ] = p ? M { true, true, v * 1000 + 7 } : M(); break; }
      case 3: if ( a != b ) { o[ a ].reset( new O( *o[ b ] ) ); m[ a ] = m[ b ]; } break;
      case 4: if ( a != b ) { M t = m[ b ]; o[ a ].reset( new O( move( *o[ b ] ) ) ); m[ a ] = t; m[ b ].known = !m[ b ].set; } break;
      case 5: *o[ a ] = *o[ b ]; m[ a ] = m[ b ]; break;
      case 6: if ( a != b ) { M t = m[ b ]; *o[ a ] = move( *o[ b ] ); m[ a ] = t; m[ b ].known = !m[ b ].set; } break;
      case 7: { O & self = *o[ a ]; *o[ a ] = move( self ); m[ a ].known = m[ a ].known && !m[ a ].set; break; }
      case 8: o[ a ]->clear(); m[ a ] = M(); break;
      case 9: o[ a ]->reset( v ); m[ a ] = { true, true, v }; break;
      case 10: o[ a ]->clear(); o[ a ]->initialize( v, 3 ); m[ a ] = { true, true, v * 1000 + 3 }; break;
      case 11: if ( o[ a ]->initialized() ) { o[ a ]->get() = Obj( v ); m[ a ] = { true, true, v }; } break;
      case 12: { Obj d( v ); if ( m[ a ].known ) c.require( o[ a ]->get_or( d ).v == ( m[ a ].set ? m[ a ].v : v ), "get-or", log ); break; }
      case 13: if ( m[ a ].known && m[ b ].known ) { bool e = m[ a ].set == m[ b ].set && ( !m[ a ].set || m[ a ].v == m[ b ].v ); c.require( ( *o[ a ] == *o[ b ] ) == e && ( *o[ a ] != *o[ b ] ) == !e, "equality", log ); } break;
      }
      size_t n = 0; for ( int i = 0; i < N; i++ ) { bool in = o[ i ]->initialized(); n += in; if ( m[ i ].known ) { c.require( in == m[ i ].set, "presence", "value " + to_string( i ) + ":" + log ); if ( in ) { const O & k = *o[ i ]; k.get().check(); c.require( k.get().v == m[ i ].v && k.get().own && *k.get().own == m[ i ].v, "value", "value " + to_string( i ) + ":" + log ); } } }
      c.require( mishap.empty(), "lifetime", mishap + ":" + log ); c.require( alive.size() == n, "objects-alive", to_string( alive.size() ) + " instead of " + to_string( n ) + ":" + log );
    }
  }
  c.require( mishap.empty() && alive.empty(), "lifetime", "at the end: " + mishap + ":" + log ); { Optional<int> x = make_optional( true, 5 ), y = make_optional( false, 5 ); c.require( x.initialized() && x.get() == 5 && !y.initialized(), "make-optional", "" ); }
  c.tag( "operations", ops ); if ( ops > 2 ) c.nontrivial( dg.h ); c.sample( to_string( ops ) + " operations" );
}

// ---- two-dimensional arrays
struct Cell { unsigned column, row; int l, al, a, ar; int extra; Cell( const TwoD<Cell>::Context & c, int e ) : column( c.column ), row( c.row ), l( id( c.left ) ), al( id( c.above_left ) ), a( id( c.above ) ), ar( id( c.above_right ) ), extra( e ) {} static int id( const Optional<const Cell *> & p ) { return p.initialized() ? (int)( p.get()->row * 1000 + p.get()->column ) : -1; } };
template <unsigned W, unsigned H> static void window( pbt::Ctx & c, TwoD<uint8_t> & t, vector<vector<uint8_t>> & m, const string & log )
{
  Src & g = c.g; unsigned w = t.width(), h = t.height(); if ( w < W || h < H ) return; unsigned x = g.draw( w - W + 1 ), y = g.draw( h - H + 1 ), x2 = g.draw( w - W + 1 ), y2 = g.draw( h - H + 1 ); string at = to_string( W ) + "x" + to_string( H ) + " window at " + to_string( x ) + "," + to_string( y ) + " " + log;
  TwoDSubRange<uint8_t, W, H> s( t, x, y ), s2 = t.template slice<W, H>( x2, y2 ); c.require( s.width() == W && s.height() == H && s.stride() == w, "window-size", at ); auto same = [&]( unsigned xa, unsigned ya, unsigned xb, unsigned yb ) { for ( unsigned j = 0; j < H; j++ ) for ( unsigned i = 0; i < W; i++ ) if ( m[ ya + j ][ xa + i ] != m[ yb + j ][ xb + i ] ) return false; return true; };
  for ( unsigned j = 0; j < H; j++ ) for ( unsigned i = 0; i < W; i++ ) c.require( s.at( i, j ) == m[ y + j ][ x + i ], "window", at );
  unsigned sum = 9; for ( unsigned j = 0; j < H; j++ ) for ( unsigned i = 0; i < W; i++ ) sum += m[ y + j ][ x + i ]; c.require( s.sum( 9u ) == sum, "sum", at ); c.require( ( s == s2 ) == same( x, y, x2, y2 ) && ( s != s2 ) == !same( x, y, x2, y2 ), "window-equality", at );
  unsigned k = g.draw( H ), q = g.draw( W ); auto r = s.row( k ); auto cl = s.column( q ); for ( unsigned i = 0; i < W; i++ ) c.require( r.at( i, 0 ) == m[ y + k ][ x + i ] && s.bottom().at( i, 0 ) == m[ y + H - 1 ][ x + i ], "row", at ); for ( unsigned j = 0; j < H; j++ ) c.require( cl.at( 0, j ) == m[ y + j ][ x + q ] && s.right().at( 0, j ) == m[ y + j ][ x + W - 1 ], "column", at );
  switch ( g.draw( 4 ) ) {
  case 0: { uint8_t v = g.draw( 256 ); s.fill( v ); for ( unsigned j = 0; j < H; j++ ) for ( unsigned i = 0; i < W; i++ ) m[ y + j ][ x + i ] = v; break; }
  case 1: if ( x + W <= x2 || x2 + W <= x || y + H <= y2 || y2 + H <= y ) { s.copy_from( s2 ); for ( unsigned j = 0; j < H; j++ ) for ( unsigned i = 0; i < W; i++ ) m[ y + j ][ x + i ] = m[ y2 + j ][ x2 + i ]; } break;
  case 2: s.set( s2 ); for ( unsigned j = 0; j < H; j++ ) for ( unsigned i = 0; i < W; i++ ) c.require( s.at( i, j ) == m[ y2 + j ][ x2 + i ], "window-moved", at ); break;
  case 3: { unsigned n = 0; bool ok = true; s.forall_ij( [&]( uint8_t & z, unsigned cc, unsigned rr ) { ok = ok && n == rr * W + cc && z == m[ y + rr ][ x + cc ]; z = z * 3 + n; n++; } ); c.require( ok && n == W * H, "order", at ); for ( unsigned j = 0; j < H; j++ ) for ( unsigned i = 0; i < W; i++ ) m[ y + j ][ x + i ] = m[ y + j ][ x + i ] * 3 + j * W + i; break; }
  }
}
static void arrays( pbt::Ctx & c )
{
  Src & g = c.g; unsigned w = 1 + g.draw( 40 ), h = 1 + g.draw( 40 ); string log = to_string( w ) + "x" + to_string( h ); Dig dg; dg.add( w * 100 + h );
  uint8_t first = g.draw( 256 ); TwoD<uint8_t> t( w, h, first ), u( w, h ); vector<vector<uint8_t>> m( h, vector<uint8_t>( w, first ) ); c.require( t.width() == w && t.height() == h, "size", log );
  int ops = 1 + g.draw( 15 );
  for ( int s = 0; s < ops; s++ ) {
    unsigned op = g.draw( 8 ); dg.add( op );
    switch ( op ) {
    case 0: { unsigned x = g.draw( w ), y = g.draw( h ); uint8_t v = g.draw( 256 ); t.at( x, y ) = v; m[ y ][ x ] = v; break; }
    case 1: { uint8_t v = g.draw( 256 ); t.fill( v ); for ( auto & r : m ) for ( auto & x : r ) x = v; break; }
    case 2: { Prng r( g.seed() ); unsigned n = 0; bool ok = true; t.forall_ij( [&]( uint8_t & z, unsigned x, unsigned y ) { ok = ok && n == y * w + x; n++; z = r.next(); m[ y ][ x ] = z; } ); c.require( ok && n == w * h, "order", log ); break; }
    case 3: { u.copy_from( t ); c.require( u == t && !( u != t ), "copy", log ); unsigned x = g.draw( w ), y = g.draw( h ); u.at( x, y ) ^= 1 << g.draw( 8 ); c.require( u != t && !( u == t ), "equality", log ); break; }
    case 4: { TwoD<uint8_t> k( move( t ) ); t = TwoD<uint8_t>( w, h, 1 ); t = move( k ); break; }
    case 5: { TwoD<uint8_t> k( w + g.draw( 2 ), h + g.draw( 2 ), 7 ); if ( k.width() != w || k.height() != h ) c.require( k != t, "equal-of-other-size", log ); break; }
    case 6: window<4, 4>( c, t, m, log ); window<16, 16>( c, t, m, log ); break;
    case 7: window<8, 8>( c, t, m, log ); window<5, 3>( c, t, m, log ); break;
    }
    auto it = t.begin(); for ( unsigned y = 0; y < h; y++ ) for ( unsigned x = 0; x < w; x++, ++it ) c.require( t.at( x, y ) == m[ y ][ x ] && it != t.end() && *it == m[ y ][ x ], "contents", "after operation " + to_string( op ) + " at " + to_string( x ) + "," + to_string( y ) + " " + log ); c.require( it == t.end(), "end", log );
  }
  // every cell is told its place and its neighbours
  TwoD<Cell> cells( w, h, 77 ); cells.forall_ij( [&]( const Cell & k, unsigned x, unsigned y ) { auto id = [&]( int xx, int yy ) { return xx < 0 || yy < 0 || xx >= (int)w ? -1 : yy * 1000 + xx; };
    c.require( k.column == x && k.row == y && k.extra == 77 && k.l == id( (int)x - 1, y ) && k.al == id( (int)x - 1, (int)y - 1 ) && k.a == id( x, (int)y - 1 ) && k.ar == id( x + 1, (int)y - 1 ), "neighbours", "at " + to_string( x ) + "," + to_string( y ) + " " + log ); } );
  c.tag( "operations", ops ); c.nontrivial( dg.h ); c.sample( log + " " + to_string( ops ) + " operations" );
}

// ---- pictures as planes: the rectangle shown, row by row
static void rasters( pbt::Ctx & c )
{
  Src & g = c.g; int w = 1 + g.draw( 70 ), h = 1 + g.draw( 70 ), W = ( w + 15 ) / 16 * 16, H = ( h + 15 ) / 16 * 16; string log = to_string( w ) + "x" + to_string( h ); Dig dg; dg.add( w * 1000 + h ); BaseRaster a( w, h, W, H ), b( w, h, W, H ); Prng r( g.seed() );
  auto noise = [&]( TwoD<uint8_t> & p ) { p.forall( [&]( uint8_t & x ) { x = r.next(); dg.add( x ); } ); }; noise( a.Y() ); noise( a.U() ); noise( a.V() );
  c.require( a.display_width() == w && a.display_height() == h && a.width() == W && a.height() == H && a.chroma_display_width() == ( w + 1 ) / 2 && a.chroma_display_height() == ( h + 1 ) / 2 && (int)a.U().width() == W / 2 && (int)a.V().height() == H / 2, "size", log );
  string want; auto put = [&]( const TwoD<uint8_t> & p, int pw, int ph ) { for ( int y = 0; y < ph; y++ ) for ( int x = 0; x < pw; x++ ) want += (char)p.at( x, y ); }; put( a.Y(), w, h ); put( a.U(), ( w + 1 ) / 2, ( h + 1 ) / 2 ); put( a.V(), ( w + 1 ) / 2, ( h + 1 ) / 2 );
  string got; for ( auto & k : a.display_rectangle_as_planar() ) got += k.to_string(); c.require( got == want, "planar", log ); { string path = c.scratch + "/d"; FILE * f = fopen( path.c_str(), "w" ); a.dump( f ); fclose( f ); ifstream i( path, ios::binary ); string s( ( istreambuf_iterator<char>( i ) ), istreambuf_iterator<char>() ); c.require( s == want, "dump", log ); }
  b.copy_from( a ); c.require( a == b && !( a != b ), "copy", log ); TwoD<uint8_t> * pl[] = { &b.Y(), &b.U(), &b.V() }; auto & p = *pl[ g.draw( 3 ) ]; p.at( g.draw( p.width() ), g.draw( p.height() ) ) ^= 1 << g.draw( 8 ); c.require( a != b && !( a == b ), "equality", log );
  c.require( refused( [&] { BaseRaster k( W + 1, h, W, H ); } ) && refused( [&] { BaseRaster k( w, H + 1, W, H ); } ), "too-small-accepted", log ); c.nontrivial( dg.h ); c.sample( log );
}

// ---- mapped files, and numbers from the command line
static void files( pbt::Ctx & c )
{
  Src & g = c.g; size_t n = g.weighted( { 1, 3 } ) ? 1 + g.draw( 3000 ) : g.pick<size_t>( { 1, 4095, 4096, 4097, 8192, 70000 } ) + g.draw( 2 ); Bytes b = bytes( g, n ); string path = c.scratch + "/f"; { ofstream f( path, ios::binary ); f.write( (const char *)b.data(), n ); } Dig dg; for ( auto x : b ) dg.add( x ); string log = num( n ) + " bytes", want( b.begin(), b.end() );
  unsigned how = g.draw( 3 ); File a( path ); c.require( a.size() == n && a.chunk().to_string() == want, "contents", log ); unlink( path.c_str() );
  File m( move( a ) ); c.require( m.size() == n && m.chunk().to_string() == want, "moved", log ); if ( how ) { File m2( move( m ) ); c.require( m2.chunk().to_string() == want, "moved", log ); size_t off = g.draw( n + 1 ), len = g.draw( n - off + 1 ); c.require( m2( off, len ).to_string() == want.substr( off, len ), "part", log ); c.require( refused( [&] { m2( off, n - off + 1 ); } ), "outside-accepted", log ); }
  c.require( refused( [&] { File x( c.scratch + "/none" ); } ), "missing-accepted", log ); c.nontrivial( dg.h ); c.sample( log );
}
static void numbers( pbt::Ctx & c )
{
  Src & g = c.g; Dig dg; string last;
  for ( int i = 0; i < 20; i++ ) {
    string s; uint64_t v = 0; bool good = false;
    switch ( g.draw( 4 ) ) {
    case 0: v = g.pick<uint64_t>( { 0, 1, 9, 10, 1280, 65535, 65536, 4294967295ull, 4294967296ull, 4294967297ull, ~0ull, g.draw32() } ); s = to_string( v ); good = v <= 4294967295ull; break;
    case 1: v = g.draw( 1000 ); s = g.pick<string>( { "+", "-", " ", "0", "\t", "0x" } ) + to_string( v ); break;
    case 2: v = g.draw( 1000 ); s = to_string( v ) + g.pick<string>( { " ", "a", ".", ".0", "-", "\n", "e3", "," } ); break;
    case 3: s = g.pick<string>( { "", "abc", "-", "-1", "99999999999999999999999", "1 2", "0x10", "٣" } ); break;
    }
    for ( char x : s ) dg.add( (uint8_t)x ); last = s; bool ok = true; unsigned int r = 0; try { r = paranoid::stoul( s ); } catch ( const exception & ) { ok = false; } c.require( ok == good, good ? "number-refused" : "number-accepted", "'" + s + "'" ); if ( ok ) c.require( r == v, "number", "'" + s + "' read as " + to_string( r ) );
  }
  c.nontrivial( dg.h ); c.sample( "'" + last + "' among 20" );
}

// cleanups run when their scope is left, however it is left, once each, the latest first
static void cleanups( pbt::Ctx & c )
{
  Src & g = c.g; vector<int> done; string log; int n = 1 + g.draw( 6 ); struct Item { int id; bool off; }; vector<Item> items; vector<int> want; bool leave = g.draw( 2 ), early = g.draw( 2 ); int at = g.draw( n );
  for ( int i = 0; i < n; i++ ) items.push_back( { i, g.chance( 1, 4 ) } );
  function<void( int )> rec = [&]( int i ) { if ( i == n ) return; auto act = finally( [&done, i]() { done.push_back( i ); } ); if ( items[ i ].off ) act.disable(); log += items[ i ].off ? " off" : " on"; if ( i == at && leave ) throw i; if ( i == at && early ) return; rec( i + 1 ); };
  bool caught = false; try { rec( 0 ); } catch ( int x ) { caught = x == at; } int last = ( leave || early ) ? at : n - 1; for ( int i = last; i >= 0; i-- ) if ( !items[ i ].off ) want.push_back( i );
  c.require( caught == leave, "cleanup-exception", log ); c.require( done == want, "cleanup", to_string( done.size() ) + " instead of " + to_string( want.size() ) + log ); if ( leave ) c.tag( "left by exception" ); Digest dg; dg.add( log ); dg.u( leave * 2 + early ); c.nontrivial( dg.h ); c.sample( log );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs { { "chunk", chunks, 30000, 2000000, 500 }, { "optional", optionals, 20000, 1000000, 500 }, { "array", arrays, 6000, 400000, 100 }, { "raster", rasters, 4000, 200000, 100 }, { "file", files, 3000, 100000, 100 }, { "number", numbers, 4000, 200000, 500 }, { "cleanup", cleanups, 2000, 40000, 500 } };
  return pbt::Runner( "P26", subs ).main( argc, argv );
}
