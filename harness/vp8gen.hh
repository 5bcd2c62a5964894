// Independent VP8 bitstream writer (RFC 6386) driven by a Src: generates valid, in-profile
// (version 0, normal loop filter, fixed size) streams frame by frame, keeping its own model of
// the persistent entropy state and of every macroblock context.
#pragma once
#include "src.hh"
#include "vp8tables.hh"
#include <cstring>
#include <array>
#include <algorithm>
#include <set>

namespace vp8gen {

struct BoolEnc {
  std::vector<uint8_t> out;
  uint32_t range = 255, bottom = 0;
  int bit_count = 24;
  void add_one() { size_t i = out.size(); while ( i > 0 && out[ i - 1 ] == 255 ) { out[ --i ] = 0; } if ( i > 0 ) { out[ i - 1 ]++; } }
  void put( bool v, uint8_t prob )
  {
    uint32_t split = 1 + ( ( ( range - 1 ) * prob ) >> 8 );
    if ( v ) { bottom += split; if ( bottom < split ) { add_one(); } range -= split; } else { range = split; }
    while ( range < 128 ) {
      range <<= 1;
      if ( bottom & ( 1u << 31 ) ) { add_one(); }
      bottom <<= 1;
      if ( !--bit_count ) { out.push_back( bottom >> 24 ); bottom &= ( 1u << 24 ) - 1; bit_count = 8; }
    }
  }
  void lit( uint32_t v, int n ) { while ( n-- ) { put( ( v >> n ) & 1, 128 ); } }
  void flag( bool v ) { put( v, 128 ); }
  void sgn( int v, int n ) { lit( v < 0 ? -v : v, n ); flag( v < 0 ); }
  void flagged( bool f, int v, int n ) { flag( f ); if ( f ) { sgn( v, n ); } }
  void tree( const int8_t * t, const uint8_t * p, int leaf )
  {
    std::vector<std::pair<int, bool>> path;
    find( t, 0, leaf, path );
    for ( auto & x : path ) { put( x.second, p[ x.first >> 1 ] ); }
  }
  static bool find( const int8_t * t, int i, int leaf, std::vector<std::pair<int, bool>> & path )
  {
    for ( int b = 0; b < 2; b++ ) {
      int n = t[ i + b ];
      path.push_back( { i, b } );
      if ( n <= 0 ) { if ( -n == leaf ) { return true; } }
      else if ( find( t, n, leaf, path ) ) { return true; }
      path.pop_back();
    }
    return false;
  }
  std::vector<uint8_t> finish()
  {
    int c = bit_count; uint32_t v = bottom;
    if ( c < 32 && ( v & ( 1u << ( 32 - c ) ) ) ) { add_one(); }
    v <<= c & 7; c >>= 3;
    while ( --c >= 0 ) { v <<= 8; }
    c = 4;
    while ( --c >= 0 ) { out.push_back( v >> 24 ); v <<= 8; }
    return out;
  }
};

enum { DC_PRED, V_PRED, H_PRED, TM_PRED, B_PRED, NEARESTMV, NEARMV, ZEROMV, NEWMV, SPLITMV };
enum { LEFT4 = 10, ABOVE4, ZERO4, NEW4 };
static const int8_t kf_ymode_tree[] = { -B_PRED, 2, 4, 6, -DC_PRED, -V_PRED, -H_PRED, -TM_PRED };
static const int8_t ymode_tree[] = { -DC_PRED, 2, 4, 6, -V_PRED, -H_PRED, -TM_PRED, -B_PRED };
static const int8_t uvmode_tree[] = { -DC_PRED, 2, -V_PRED, 4, -H_PRED, -TM_PRED };
static const int8_t bmode_tree[] = { -0, 2, -1, 4, -2, 6, 8, 12, -3, 10, -5, -6, -4, 14, -7, 16, -8, -9 };
static const int8_t small_mv_tree[] = { 2, 8, 4, 6, -0, -1, -2, -3, 10, 12, -4, -5, -6, -7 };
static const int8_t mvref_tree[] = { -ZEROMV, 2, -NEARESTMV, 4, -NEARMV, 6, -NEWMV, -SPLITMV };
static const int8_t submv_tree[] = { -LEFT4, 2, -ABOVE4, 4, -ZERO4, -NEW4 };
static const int8_t split_tree[] = { -3, 2, -2, 4, -0, -1 };
static const int8_t segment_tree[] = { 2, 4, -0, -1, -2, -3 };
static const uint8_t kf_ymode_p[] = { 145, 156, 163, 128 }, kf_uv_p[] = { 142, 114, 183 };
static const uint8_t bmode_p[] = { 120, 90, 79, 133, 87, 85, 80, 111, 151 };
static const uint8_t mode_ctx[ 6 ][ 4 ] = { { 7, 1, 1, 143 }, { 14, 18, 14, 107 }, { 135, 64, 57, 68 }, { 60, 56, 128, 65 }, { 159, 134, 128, 34 }, { 234, 188, 128, 28 } };
static const uint8_t split_p[] = { 110, 111, 150 };
static const uint8_t submv_p[ 5 ][ 3 ] = { { 147, 136, 18 }, { 106, 145, 1 }, { 179, 121, 1 }, { 223, 1, 34 }, { 208, 1, 1 } };
static const uint8_t band[] = { 0, 1, 2, 3, 6, 4, 5, 6, 6, 6, 6, 6, 6, 6, 6, 7 };
static const uint8_t zz[] = { 0, 1, 4, 8, 5, 2, 3, 6, 9, 12, 13, 10, 7, 11, 14, 15 };
static const int implied_b[] = { 0, 2, 3, 1 };   // DC->B_DC, V->B_VE, H->B_HE, TM->B_TM

struct MV { int r = 0, c = 0; bool operator==( const MV & o ) const { return r == o.r && c == o.c; } bool zero() const { return !r && !c; } };

struct MB {
  int seg = 0, skip = 0, inter = 0, ref = 0, ymode = DC_PRED, uvmode = DC_PRED;
  int b[ 16 ] = {};
  MV mv[ 16 ];
  MV base() const { return mv[ 15 ]; }
};

// Which features a stream may use ("swarm" testing: each stream draws its own subset).
struct Features {
  bool seg, seg_persist, lfdelta, cprob, mvprob, modeprob, norefresh_entropy, multipart, golden, signbias, hidden, noskip, farmv, split, intra_in_inter, bpred, dense, norefresh_last, tinyq, altkey, oddsize, lf_partial, seg_nomap, seg_keep;
  static Features draw( Src & g )
  {
    Features f;
    auto c = [&]( int n ) { return g.chance( n, 100 ); };
    f.seg = c( 40 ); f.seg_persist = c( 60 ); f.lfdelta = c( 40 ); f.cprob = c( 50 ); f.mvprob = c( 40 ); f.modeprob = c( 40 );
    f.norefresh_entropy = c( 35 ); f.multipart = c( 45 ); f.golden = c( 55 ); f.signbias = c( 35 ); f.hidden = c( 25 );
    f.noskip = c( 30 ); f.farmv = c( 35 ); f.split = c( 60 ); f.intra_in_inter = c( 60 ); f.bpred = c( 65 ); f.dense = c( 30 );
    f.norefresh_last = c( 25 ); f.tinyq = c( 30 ); f.altkey = c( 20 ); f.oddsize = c( 50 );
    f.lf_partial = c( 50 ); f.seg_nomap = c( 30 ); f.seg_keep = c( 40 );
    return f;
  }
};

struct Probs {
  uint8_t coef[ 4 ][ 8 ][ 3 ][ 11 ];
  uint8_t ymode[ 4 ], uvmode[ 3 ], mv[ 2 ][ 19 ];
  void reset_all()
  {
    memcpy( coef, vp8t::default_coeff_probs, sizeof coef );
    memcpy( ymode, vp8t::default_ymode, 4 ); memcpy( uvmode, vp8t::default_uvmode, 3 ); memcpy( mv, vp8t::default_mv_probs, sizeof mv );
  }
};

struct Options {
  bool allow_hidden = true;
  bool need_skip = false;        // always send a skip probability
  bool seg_default_map = true, lf_partial = true;
  bool no_filter = false;        // loop filter level 0 throughout
  bool drift = false;            // vectors of each frame prefer one direction, so that chains of them get long
  bool heavy = false;            // long residuals: partitions of many tens of kilobytes
  bool toggle = false;           // switch segmentation and filter deltas off and on often
};

class Gen {
public:
  Src & g;
  int w, h, mbw, mbh;
  Features f;
  Options opt;
  // persistent stream state
  Probs saved;
  bool have_key = false;
  bool seg_on = false;               // segmentation active after the last frame
  bool seg_seen = false;             // segmentation was enabled at some point since the key frame
  bool seg_map_set = false;          // a map has been sent since segmentation was (re)enabled
  bool seg_abs = false; int seg_q[ 4 ] = {}, seg_lf[ 4 ] = {};
  std::vector<int> segmap;
  bool lfd_on = false, lfd_seen = false;
  bool sb_golden = false, sb_alt = false;
  std::set<std::string> tags;
  unsigned frames = 0;
  unsigned inter_mbs = 0, intra_mbs = 0, split_mbs = 0, coef_blocks = 0;
  bool last_shown = true;

  // current frame
  Probs cur;
  BoolEnc hd;
  std::vector<BoolEnc> parts;
  std::vector<MB> mbs;
  bool key = false;
  int prob_skip = -1;
  int prob_intra = 128, prob_last = 128, prob_gf = 128;
  int yac = 0, dq[ 5 ] = {};       // deltas: ydc, y2dc, y2ac, uvdc, uvac
  std::vector<std::array<uint8_t, 9>> above_nz; std::array<uint8_t, 9> left_nz;

  Gen( Src & src, int width, int height, Features feat, Options o = Options() )
    : g( src ), w( width ), h( height ), mbw( ( width + 15 ) / 16 ), mbh( ( height + 15 ) / 16 ), f( feat ), opt( o ), segmap( mbw * mbh, 0 ) {}

  static void draw_size( Src & g, const Features & f, int & w, int & h, int maxmb = 6 )
  {
    int mw = g.skewed( 1, maxmb ), mh = g.skewed( 1, maxmb );
    w = mw * 16; h = mh * 16;
    if ( f.oddsize ) { w -= g.draw( 16 ); h -= g.draw( 16 ); }
    if ( w < 1 ) w = 1; if ( h < 1 ) h = 1;
  }


  std::vector<uint8_t> frame( bool force_key = false )
  {
    key = force_key || !have_key || ( f.altkey && g.chance( 1, 8 ) );
    bool show = !( opt.allow_hidden && f.hidden && g.chance( 1, 4 ) );
    last_shown = show;
    tags.insert( key ? "key" : "inter" ); if ( !show ) tags.insert( "hidden" );
    hd = BoolEnc(); parts.clear();
    if ( key ) { saved.reset_all(); hd.lit( 0, 2 ); sb_golden = sb_alt = false; }
    // --- segmentation
    bool seg = f.seg && ( ( seg_on && !key && f.seg_persist ) || g.chance( 2, 3 ) );
    if ( seg_on && !seg ) { tags.insert( "seg-off" ); }
    bool map_upd = false; uint8_t segp[ 3 ] = { 255, 255, 255 };
    hd.flag( seg );
    if ( key ) { seg_map_set = false; seg_seen = false; std::fill( segmap.begin(), segmap.end(), 0 ); seg_abs = false; memset( seg_q, 0, sizeof seg_q ); memset( seg_lf, 0, sizeof seg_lf ); }
    bool fresh = seg && ( key || !seg_on );
    if ( seg ) {
      tags.insert( "segmentation" );
      bool reen = fresh && !key && seg_seen;             // segmentation re-enabled after a pause
      bool nomap_ok = f.seg_nomap && ( opt.seg_default_map || !fresh ), nodata_ok = f.seg_keep;
      map_upd = ( !seg_map_set && !nomap_ok ) || ( fresh && !nomap_ok ) || g.chance( 1, 3 );
      bool data = ( fresh && !nodata_ok ) || g.chance( 1, 2 );
      if ( fresh && !map_upd ) tags.insert( reen ? "seg-reenable-nomap" : "seg-default-map" );
      if ( fresh && !data ) tags.insert( reen ? "seg-reenable-nodata" : "seg-default-data" );
      seg_seen = true;
      if ( !map_upd ) tags.insert( "seg-map-persist" );
      if ( !data ) tags.insert( "seg-data-persist" );
      hd.flag( map_upd ); hd.flag( data );
      if ( data ) {
        seg_abs = g.chance( 1, 2 ); hd.flag( seg_abs );
        for ( int i = 0; i < 4; i++ ) {
          bool fl = g.chance( 3, 4 ); int v = 0;
          if ( fl ) { v = g.range( 0, 127 ); if ( g.chance( 1, 2 ) ) v = -v; }
          hd.flagged( fl, v, 7 ); seg_q[ i ] = v;
          if ( v < 0 ) tags.insert( "seg-q-neg" );
        }
        for ( int i = 0; i < 4; i++ ) {
          bool fl = g.chance( 3, 4 ); int v = 0;
          if ( fl ) { v = g.range( 0, 63 ); if ( g.chance( 1, 2 ) ) v = -v; }
          hd.flagged( fl, v, 6 ); seg_lf[ i ] = v;
          if ( v < 0 ) tags.insert( "seg-lf-neg" );
        }
      }
      if ( map_upd ) {
        for ( int i = 0; i < 3; i++ ) { bool fl = g.chance( 2, 3 ); segp[ i ] = fl ? 1 + g.draw( 254 ) : 255; hd.flag( fl ); if ( fl ) hd.lit( segp[ i ], 8 ); }
        seg_map_set = true;
      }
    }
    seg_on = seg;
    // --- loop filter
    hd.flag( 0 );
    int lvl = g.weighted( { 2, 1, 3 } ); lvl = lvl == 0 ? 0 : lvl == 1 ? 63 : g.range( 1, 63 );
    if ( opt.no_filter ) lvl = 0;
    int sharp = g.chance( 1, 2 ) ? g.range( 0, 7 ) : 0;
    if ( lvl ) tags.insert( "loopfilter" ); if ( lvl && sharp ) tags.insert( "sharpness" );
    hd.lit( lvl, 6 ); hd.lit( sharp, 3 );
    if ( key ) lfd_seen = false;
    bool lfd = f.lfdelta && ( ( lfd_on && !key && !opt.toggle ) || g.chance( 3, 4 ) );
    hd.flag( lfd );
    if ( lfd ) {
      tags.insert( "lf-delta" );
      bool upd = g.chance( key || ( !lfd_on && !lfd_seen ) ? 3 : 2, 4 );
      hd.flag( upd );
      if ( !upd ) tags.insert( "lf-delta-persist" );
      if ( !lfd_on && lfd_seen ) tags.insert( "lf-reenable" );
      lfd_seen = true;
      if ( upd ) {
        for ( int i = 0; i < 8; i++ ) { bool fl = !( f.lf_partial && opt.lf_partial && g.chance( 1, 3 ) ); int v = g.range( 0, 63 ); if ( g.chance( 1, 2 ) ) v = -v; if ( !fl ) tags.insert( "lf-partial" ); hd.flagged( fl, v, 6 ); }
      }
    }
    lfd_on = lfd;
    // --- partitions, quantizers
    int lp = f.multipart ? g.draw( 4 ) : 0;
    if ( lp ) tags.insert( "partitions" + std::to_string( 1 << lp ) );
    hd.lit( lp, 2 ); parts.resize( 1 << lp );
    yac = f.tinyq ? g.pick( { 0, 1, 2, 4, 127, 126, 120 } ) : g.range( 0, 127 );
    hd.lit( yac, 7 );
    for ( int i = 0; i < 5; i++ ) { bool fl = g.chance( 1, 4 ); dq[ i ] = 0; if ( fl ) { dq[ i ] = g.range( -15, 15 ); tags.insert( "q-delta" ); } hd.flagged( fl, dq[ i ], 4 ); }
    // --- references
    bool refresh_entropy;
    if ( key ) {
      refresh_entropy = !( f.norefresh_entropy && g.chance( 1, 2 ) ); hd.flag( refresh_entropy );
    } else {
      bool rg = f.golden && g.chance( 1, 3 ), ra = f.golden && g.chance( 1, 3 );
      hd.flag( rg ); hd.flag( ra );
      int cg = 0, ca = 0;
      if ( !rg ) { cg = f.golden ? g.draw( 3 ) : 0; hd.lit( cg, 2 ); }
      if ( !ra ) { ca = f.golden ? g.draw( 3 ) : 0; hd.lit( ca, 2 ); }
      if ( rg ) tags.insert( "refresh-golden" ); if ( ra ) tags.insert( "refresh-alt" ); if ( cg ) tags.insert( "copy-golden" ); if ( ca ) tags.insert( "copy-alt" );
      sb_golden = f.signbias && g.chance( 1, 2 ); sb_alt = f.signbias && g.chance( 1, 2 );
      if ( sb_golden || sb_alt ) tags.insert( "sign-bias" );
      hd.flag( sb_golden ); hd.flag( sb_alt );
      refresh_entropy = !( f.norefresh_entropy && g.chance( 1, 2 ) ); hd.flag( refresh_entropy );
      bool rl = !( f.norefresh_last && g.chance( 1, 3 ) ); hd.flag( rl );
      if ( !rl ) tags.insert( "no-refresh-last" );
    }
    if ( !refresh_entropy ) tags.insert( "no-refresh-entropy" );
    // --- probabilities
    cur = saved;
    bool upd_c = f.cprob && g.chance( 2, 3 );
    Prng pr( upd_c ? g.seed() : 0 );
    unsigned dens = upd_c ? 1 + g.draw( 40 ) : 0;
    for ( int i = 0; i < 4; i++ ) for ( int j = 0; j < 8; j++ ) for ( int k = 0; k < 3; k++ ) for ( int l = 0; l < 11; l++ ) {
      bool u = upd_c && pr.chance( dens, 100 );
      hd.put( u, vp8t::coeff_update_probs[ i ][ j ][ k ][ l ] );
      if ( u ) { uint8_t v = pr.below( 256 ); hd.lit( v, 8 ); cur.coef[ i ][ j ][ k ][ l ] = v; }
    }
    if ( upd_c ) tags.insert( "coef-prob-update" );
    bool noskip = !opt.need_skip && f.noskip && g.chance( 1, 2 );
    hd.flag( !noskip ); prob_skip = -1;
    if ( !noskip ) { prob_skip = prob8(); hd.lit( prob_skip, 8 ); } else tags.insert( "no-skip-prob" );
    if ( !key ) {
      prob_intra = prob8(); prob_last = prob8(); prob_gf = prob8();
      hd.lit( prob_intra, 8 ); hd.lit( prob_last, 8 ); hd.lit( prob_gf, 8 );
      bool uy = f.modeprob && g.chance( 1, 2 ); hd.flag( uy );
      if ( uy ) { tags.insert( "mode-prob-update" ); for ( int i = 0; i < 4; i++ ) { cur.ymode[ i ] = prob8(); hd.lit( cur.ymode[ i ], 8 ); } }
      bool uc = f.modeprob && g.chance( 1, 2 ); hd.flag( uc );
      if ( uc ) { for ( int i = 0; i < 3; i++ ) { cur.uvmode[ i ] = prob8(); hd.lit( cur.uvmode[ i ], 8 ); } }
      bool um = f.mvprob && g.chance( 1, 2 );
      Prng mp( um ? g.seed() : 0 );
      if ( um ) tags.insert( "mv-prob-update" );
      for ( int i = 0; i < 2; i++ ) for ( int j = 0; j < 19; j++ ) {
        bool u = um && mp.chance( 1, 3 );
        hd.put( u, vp8t::mv_update_probs[ i ][ j ] );
        if ( u ) { int x = mp.below( 128 ); hd.lit( x, 7 ); cur.mv[ i ][ j ] = x ? x << 1 : 1; }
      }
    }
    if ( refresh_entropy ) saved = cur;
    if ( opt.drift ) for ( int & d : drift ) d = (int)g.draw( 3 ) - 1;
    // --- macroblocks
    mbs.assign( mbw * mbh, MB() );
    above_nz.assign( mbw, std::array<uint8_t, 9>{} ); mb_start.clear();
    for ( int r = 0; r < mbh; r++ ) {
      left_nz.fill( 0 );
      for ( int c = 0; c < mbw; c++ ) { mb_start.push_back( hd.out.size() ); macroblock( r, c, seg, map_upd, segp ); }
    }
    have_key = true; frames++;
    // --- assemble
    auto first = hd.finish();
    std::vector<uint8_t> out;
    uint32_t tag = ( key ? 0 : 1 ) | ( 0 << 1 ) | ( show ? 1u << 4 : 0 ) | ( (uint32_t)first.size() << 5 );
    out.push_back( tag ); out.push_back( tag >> 8 ); out.push_back( tag >> 16 );
    if ( key ) {
      out.push_back( 0x9d ); out.push_back( 0x01 ); out.push_back( 0x2a );
      out.push_back( w ); out.push_back( w >> 8 ); out.push_back( h ); out.push_back( h >> 8 );
    }
    first_partition_offset = out.size(); first_partition_size = first.size();
    out.insert( out.end(), first.begin(), first.end() );
    std::vector<std::vector<uint8_t>> pd;
    part_len.clear();
    for ( auto & p : parts ) { pd.push_back( p.finish() ); part_len.push_back( pd.back().size() ); if ( pd.size() < parts.size() && part_len.back() > 65535 ) tags.insert( "partition-over-64K" ); }
    if ( first_partition_size > 65535 ) tags.insert( "first-partition-over-64K" );
    for ( size_t i = 0; i + 1 < pd.size(); i++ ) { out.push_back( pd[ i ].size() ); out.push_back( pd[ i ].size() >> 8 ); out.push_back( pd[ i ].size() >> 16 ); }
    for ( auto & p : pd ) out.insert( out.end(), p.begin(), p.end() );
    return out;
  }
  size_t first_partition_offset = 0, first_partition_size = 0;
  std::vector<size_t> mb_start;       // bytes of the first partition already out when each macroblock's header began
  std::vector<size_t> part_len;       // lengths of the residual partitions

private:
  const MB * at( int r, int c ) const { return ( r < 0 || c < 0 ) ? nullptr : &mbs[ r * mbw + c ]; }
  bool bias( int ref ) const { return ref == 2 ? sb_golden : ref == 3 ? sb_alt : false; }

  void macroblock( int r, int c, bool seg, bool map_upd, const uint8_t * segp )
  {
    MB & m = mbs[ r * mbw + c ];
    if ( map_upd ) {
      m.seg = g.draw( 4 );
      // probability 255 nodes still allow both branches (split stays < range)
      hd.tree( segment_tree, segp, m.seg ); segmap[ r * mbw + c ] = m.seg;
    } else { m.seg = seg ? segmap[ r * mbw + c ] : 0; }
    unsigned res = g.weighted( { 3, 4, 2, 1 } );     // 0 none, 1 sparse, 2 medium, 3 dense
    if ( f.dense && res ) res = std::min( 3u, res + 1 );
    if ( opt.heavy && g.draw( 8 ) ) res = 4;
    uint32_t cseed = res ? g.seed() : 0;
    m.skip = 0;
    if ( prob_skip >= 0 ) { m.skip = res == 0; hd.put( m.skip, prob_skip ); if ( m.skip ) tags.insert( "skip" ); }
    if ( key ) intra_key( m, r, c );
    else {
      bool inter = !( f.intra_in_inter && g.chance( 1, 4 ) );
      hd.put( inter, prob_intra );
      m.inter = inter;
      if ( inter ) { inter_mb( m, r, c ); inter_mbs++; }
      else { intra_inter( m ); intra_mbs++; }
    }
    BoolEnc & tp = parts[ r % parts.size() ];
    bool y2 = m.ymode != B_PRED && m.ymode != SPLITMV;
    if ( m.skip ) {
      // contexts: everything zero except that Y2 context persists when the MB has no Y2
      auto & a = above_nz[ c ];
      for ( int i = 0; i < 8; i++ ) { a[ i ] = 0; left_nz[ i ] = 0; }
      if ( y2 ) { a[ 8 ] = 0; left_nz[ 8 ] = 0; }
      return;
    }
    residual( m, r, c, tp, y2, res, cseed );
  }

  int clampq( int q ) const { return std::max( 0, std::min( 127, q ) ); }

  void residual( const MB & m, int, int c, BoolEnc & bp, bool y2, unsigned res, uint32_t cseed )
  {
    Prng pr( cseed );
    int base = yac;
    if ( seg_on ) { base = seg_abs ? seg_q[ m.seg ] : yac + seg_q[ m.seg ]; base = clampq( base ); }
    int ydc = vp8t::dc_q[ clampq( base + dq[ 0 ] ) ], yacq = vp8t::ac_q[ base ];
    int y2dc = vp8t::dc_q[ clampq( base + dq[ 1 ] ) ] * 2, y2ac = std::max( 8, vp8t::ac_q[ clampq( base + dq[ 2 ] ) ] * 155 / 100 );
    int uvdc = std::min<int>( 132, vp8t::dc_q[ clampq( base + dq[ 3 ] ) ] ), uvac = vp8t::ac_q[ clampq( base + dq[ 4 ] ) ];
    auto & a = above_nz[ c ]; auto & l = left_nz;
    if ( y2 ) { bool nz = block( bp, 1, 0, a[ 8 ] + l[ 8 ], y2dc, y2ac, 24000, pr, res ); a[ 8 ] = l[ 8 ] = nz; }
    for ( int i = 0; i < 16; i++ ) {
      int x = i & 3, y = i >> 2;
      bool nz = block( bp, y2 ? 0 : 3, y2 ? 1 : 0, a[ x ] + l[ y ], ydc, yacq, 10000, pr, res ); a[ x ] = l[ y ] = nz;
    }
    for ( int p = 0; p < 2; p++ ) for ( int i = 0; i < 4; i++ ) {
      int x = 4 + p * 2 + ( i & 1 ), y = 4 + p * 2 + ( i >> 1 );
      bool nz = block( bp, 2, 0, a[ x ] + l[ y ], uvdc, uvac, 10000, pr, res ); a[ x ] = l[ y ] = nz;
    }
  }

  // returns whether the block has a coded coefficient
  bool block( BoolEnc & bp, int type, int start, int ctx, int dcq, int acq, int bound, Prng & pr, unsigned res )
  {
    int coef[ 16 ] = {}; int last = start - 1;
    unsigned density = res == 0 ? 0 : res == 1 ? 12 : res == 2 ? 40 : res == 3 ? 80 : 100;
    if ( res && pr.chance( density + 10, 100 ) ) {
      int n = res == 1 ? 1 + pr.below( 2 ) : res == 2 ? 1 + pr.below( 6 ) : res == 3 ? 1 + pr.below( 16 ) : 40;
      int budget = bound;
      for ( int t = 0; t < n; t++ ) {
        int i = start + ( pr.chance( 1, 3 ) ? 0 : pr.below( 16 - start ) );
        if ( coef[ i ] ) continue;
        int q = i == 0 ? dcq : acq;
        int mx = std::min( 2048 + 66, budget / q ); if ( mx < 1 ) continue;
        int v;
        switch ( pr.below( res == 4 ? 3 : 8 ) ) {
        case 0: v = 1 + pr.below( mx ); break;
        case 1: v = 1 + pr.below( std::min( mx, 80 ) ); break;
        case 2: case 3: v = 1 + pr.below( std::min( mx, 12 ) ); break;
        default: v = 1 + pr.below( std::min( mx, 2 ) ); break;
        }
        budget -= v * q;
        coef[ i ] = pr.chance( 1, 2 ) ? -v : v;
        last = std::max( last, i );
      }
    }
    bool prev_zero = false;
    for ( int i = start; i < 16; i++ ) {
      const uint8_t * p = cur.coef[ type ][ band[ i ] ][ ctx ];
      if ( i > last ) { if ( !prev_zero ) { bp.put( 0, p[ 0 ] ); } break; }   // prev_zero never holds here
      if ( !prev_zero ) bp.put( 1, p[ 0 ] );
      int v = coef[ i ], av = v < 0 ? -v : v;
      if ( !av ) { bp.put( 0, p[ 1 ] ); prev_zero = true; ctx = 0; continue; }
      prev_zero = false; bp.put( 1, p[ 1 ] );
      if ( av == 1 ) { bp.put( 0, p[ 2 ] ); ctx = 1; }
      else {
        ctx = 2; bp.put( 1, p[ 2 ] );
        auto extra = [&]( int x, std::initializer_list<int> ps ) { int n = ps.size(); for ( int pp : ps ) { n--; bp.put( ( x >> n ) & 1, pp ); } };
        if ( av <= 4 ) {
          bp.put( 0, p[ 3 ] );
          if ( av == 2 ) bp.put( 0, p[ 4 ] ); else { bp.put( 1, p[ 4 ] ); bp.put( av == 4, p[ 5 ] ); }
        } else {
          bp.put( 1, p[ 3 ] );
          if ( av <= 10 ) {
            bp.put( 0, p[ 6 ] );
            if ( av <= 6 ) { bp.put( 0, p[ 7 ] ); extra( av - 5, { 159 } ); }
            else { bp.put( 1, p[ 7 ] ); extra( av - 7, { 165, 145 } ); }
          } else {
            bp.put( 1, p[ 6 ] );
            if ( av <= 34 ) {
              bp.put( 0, p[ 8 ] );
              if ( av <= 18 ) { bp.put( 0, p[ 9 ] ); extra( av - 11, { 173, 148, 140 } ); }
              else { bp.put( 1, p[ 9 ] ); extra( av - 19, { 176, 155, 140, 135 } ); }
            } else {
              bp.put( 1, p[ 8 ] );
              if ( av <= 66 ) { bp.put( 0, p[ 10 ] ); extra( av - 35, { 180, 157, 141, 134, 130 } ); }
              else { bp.put( 1, p[ 10 ] ); tags.insert( "cat6" ); extra( av - 67, { 254, 254, 243, 230, 196, 177, 153, 140, 133, 130, 129 } ); }
            }
          }
        }
      }
      bp.put( v < 0, 128 );
    }
    if ( last >= start ) coef_blocks++;
    return last >= start;
  }

  void intra_key( MB & m, int r, int c )
  {
    static const int order[] = { DC_PRED, V_PRED, H_PRED, TM_PRED };
    m.ymode = f.bpred && g.chance( 1, 3 ) ? B_PRED : order[ g.draw( 4 ) ];
    hd.tree( kf_ymode_tree, kf_ymode_p, m.ymode );
    if ( m.ymode == B_PRED ) {
      tags.insert( "bpred-key" );
      for ( int i = 0; i < 16; i++ ) {
        int a = i >= 4 ? m.b[ i - 4 ] : at( r - 1, c ) ? at( r - 1, c )->b[ 12 + i ] : 0;
        int l = ( i & 3 ) ? m.b[ i - 1 ] : at( r, c - 1 ) ? at( r, c - 1 )->b[ i + 3 ] : 0;
        m.b[ i ] = g.draw( 10 );
        hd.tree( bmode_tree, vp8t::kf_bmode[ a ][ l ], m.b[ i ] );
      }
    } else for ( int i = 0; i < 16; i++ ) m.b[ i ] = implied_b[ m.ymode ];
    m.uvmode = g.draw( 4 ); hd.tree( uvmode_tree, kf_uv_p, m.uvmode );
  }

  void intra_inter( MB & m )
  {
    m.ymode = f.bpred && g.chance( 1, 3 ) ? (int)B_PRED : (int)g.draw( 4 );
    tags.insert( "intra-in-inter" );
    hd.tree( ymode_tree, cur.ymode, m.ymode );
    if ( m.ymode == B_PRED ) { tags.insert( "bpred-inter" ); for ( int i = 0; i < 16; i++ ) { m.b[ i ] = g.draw( 10 ); hd.tree( bmode_tree, bmode_p, m.b[ i ] ); } }
    m.uvmode = g.draw( 4 ); hd.tree( uvmode_tree, cur.uvmode, m.uvmode );
  }

  void put_mv_comp( int v, const uint8_t * p )     // v in quarter pixels
  {
    int x = v < 0 ? -v : v;
    if ( x < 8 ) { hd.put( 0, p[ 0 ] ); hd.tree( small_mv_tree, p + 2, x ); }
    else {
      hd.put( 1, p[ 0 ] );
      for ( int i = 0; i < 3; i++ ) hd.put( ( x >> i ) & 1, p[ 9 + i ] );
      for ( int i = 9; i > 3; i-- ) hd.put( ( x >> i ) & 1, p[ 9 + i ] );
      if ( x & 0xFFF0 ) hd.put( ( x >> 3 ) & 1, p[ 9 + 3 ] );
    }
    if ( x ) hd.put( v < 0, p[ 1 ] );
  }
  int prob8() { int p = 1 + g.draw( 255 ); return p == 1 && g.chance( 1, 2 ) ? 0 : g.chance( 1, 60 ) ? 0 : p; }   // an 8-bit probability may be 0
  int drift[ 2 ] = { 0, 0 };
  int draw_comp( int axis )
  {
    int mag;
    if ( opt.drift && drift[ axis ] ) return drift[ axis ] * ( 1023 - (int)g.skewed( 0, 1023 ) );
    switch ( g.draw( f.farmv ? 6 : 4 ) ) {
    case 0: mag = 0; break;
    case 1: mag = g.draw( 8 ); break;
    case 2: mag = g.draw( 20 ); break;
    case 3: mag = g.draw( 70 ); break;
    case 4: mag = g.draw( 400 ); break;
    default: mag = g.draw( 1024 ); break;
    }
    return mag && g.chance( 1, 2 ) ? -mag : mag;
  }
  MV new_mv( const MV & best )
  {
    int dr = draw_comp( 0 ), dc = draw_comp( 1 );
    put_mv_comp( dr, cur.mv[ 0 ] ); put_mv_comp( dc, cur.mv[ 1 ] );
    MV v; v.r = best.r + dr * 2; v.c = best.c + dc * 2;
    if ( abs( v.r ) > 8191 || abs( v.c ) > 8191 ) tags.insert( "mv-beyond-1024-pixels" ); if ( abs( v.r ) > 19 * 8 || abs( v.c ) > 19 * 8 ) tags.insert( "far-mv" );
    return v;
  }
  MV clampmv( MV v, int r, int c ) const
  {
    int tl = -( c * 16 * 8 ) - 128, tr = ( ( mbw - 1 - c ) * 16 * 8 ) + 128, tt = -( r * 16 * 8 ) - 128, tb = ( ( mbh - 1 - r ) * 16 * 8 ) + 128;
    v.c = std::max( tl, std::min( tr, v.c ) ); v.r = std::max( tt, std::min( tb, v.r ) ); return v;
  }

  void inter_mb( MB & m, int r, int c )
  {
    m.ref = f.golden ? 1 + g.draw( 3 ) : 1;
    hd.put( m.ref != 1, prob_last ); if ( m.ref != 1 ) hd.put( m.ref == 3, prob_gf );
    tags.insert( m.ref == 1 ? "ref-last" : m.ref == 2 ? "ref-golden" : "ref-alt" );
    // near mv census
    MV near[ 4 ]; int cnt[ 4 ] = {}; int idx = 0; int split = 0;
    const MB * nb[ 3 ] = { at( r - 1, c ), at( r, c - 1 ), ( r && c ) ? at( r - 1, c - 1 ) : nullptr };
    for ( int k = 0; k < 3; k++ ) {
      int wgt = k == 2 ? 1 : 2;
      const MB * n = nb[ k ];
      if ( !n || !n->inter ) continue;
      MV v = n->base();
      if ( !v.zero() ) {
        if ( bias( n->ref ) != bias( m.ref ) ) { v.r = -v.r; v.c = -v.c; }
        if ( idx && v == near[ idx ] ) cnt[ idx ] += wgt;
        else { near[ ++idx ] = v; cnt[ idx ] += wgt; }
      } else cnt[ 0 ] += wgt;
      if ( n->ymode == SPLITMV ) split += wgt;
    }
    if ( cnt[ 3 ] && near[ idx ] == near[ 1 ] ) cnt[ 1 ] += 1;
    cnt[ 3 ] = split;
    if ( cnt[ 2 ] > cnt[ 1 ] ) { std::swap( cnt[ 1 ], cnt[ 2 ] ); std::swap( near[ 1 ], near[ 2 ] ); }
    if ( cnt[ 1 ] >= cnt[ 0 ] ) near[ 0 ] = near[ 1 ];
    MV best = clampmv( near[ 0 ], r, c );
    uint8_t p[ 4 ]; for ( int i = 0; i < 4; i++ ) p[ i ] = mode_ctx[ cnt[ i ] ][ i ];
    static const int modes[] = { ZEROMV, NEARESTMV, NEARMV, NEWMV, SPLITMV };
    m.ymode = opt.drift && g.chance( 2, 3 ) ? (int)NEWMV : modes[ g.draw( f.split ? 5 : 4 ) ];
    bool big_header = opt.heavy && f.farmv && f.split; if ( big_header && g.draw( 8 ) ) m.ymode = SPLITMV;
    hd.tree( mvref_tree, p, m.ymode );
    MV v;
    switch ( m.ymode ) {
    case ZEROMV: break;
    case NEARESTMV: v = clampmv( near[ 1 ], r, c ); break;
    case NEARMV: v = clampmv( near[ 2 ], r, c ); break;
    case NEWMV: v = new_mv( best ); break;
    }
    for ( auto & x : m.mv ) x = v;
    if ( m.ymode == SPLITMV ) {
      tags.insert( "split" ); split_mbs++;
      int part = big_header ? 3 : (int)g.draw( 4 );
      hd.tree( split_tree, split_p, part );
      static const int nparts[] = { 2, 2, 4, 16 };
      for ( int k = 0; k < nparts[ part ]; k++ ) {
        int first = -1; std::vector<int> blocks;
        for ( int i = 0; i < 16; i++ ) {
          int x = i & 3, y = i >> 2;
          int id = part == 0 ? y / 2 : part == 1 ? x / 2 : part == 2 ? ( y / 2 ) * 2 + x / 2 : i;
          if ( id == k ) { blocks.push_back( i ); if ( first < 0 ) first = i; }
        }
        auto neigh = [&]( const MB * n, int b ) { return n && n->inter ? n->mv[ b ] : MV(); };
        MV l = ( first & 3 ) ? m.mv[ first - 1 ] : neigh( at( r, c - 1 ), first + 3 );
        MV a = first >= 4 ? m.mv[ first - 4 ] : neigh( at( r - 1, c ), first + 12 );
        int ctx = l == a ? ( a.zero() ? 4 : 3 ) : a.zero() ? 2 : l.zero() ? 1 : 0;
        int mode = big_header && g.draw( 8 ) ? (int)NEW4 : LEFT4 + (int)g.draw( 4 );
        hd.tree( submv_tree, submv_p[ ctx ], mode );
        MV bv = mode == LEFT4 ? l : mode == ABOVE4 ? a : mode == ZERO4 ? MV() : new_mv( best );
        for ( int b : blocks ) m.mv[ b ] = bv;
      }
    }
  }
};

} // namespace vp8gen
