// Pictures with 4:2:2 chroma, and libjpeg used by the harnesses themselves to make JPEG files of them.
#pragma once
#include "pbt.hh"
#include <cstdio>
#include <jpeglib.h>
#include <stdexcept>
typedef std::vector<uint8_t> Bytes;
using std::string; using std::runtime_error;

struct P422 { int w, h; Bytes y, u, v; };   // chroma (w+1)/2 wide, h high

static P422 picture( Src & g, int w, int h )
{
  P422 p { w, h, Bytes( w * h ), Bytes( ( w + 1 ) / 2 * h ), Bytes( ( w + 1 ) / 2 * h ) }; Prng r( g.seed() ); int kind = g.draw( 3 ), a = g.draw( 8 ), b = g.draw( 8 );
  auto f = [&]( Bytes & x, int pw, int k ) { for ( size_t i = 0; i < x.size(); i++ ) { int cx = i % pw, cy = i / pw; x[ i ] = kind == 0 ? r.next() : kind == 1 ? cx * a + cy * b + 60 * k : ( cx / 4 + cy / 4 + k ) % 2 ? 200 - 5 * a : 40 + ( r.next() & b ); } };
  f( p.y, w, 0 ); f( p.u, ( w + 1 ) / 2, 1 ); f( p.v, ( w + 1 ) / 2, 2 ); return p;
}

// ---- libjpeg used by the harness itself
struct JErr { jpeg_error_mgr m; static void out( j_common_ptr c ) { char s[ JMSG_LENGTH_MAX ]; c->err->format_message( c, s ); throw runtime_error( string( "libjpeg: " ) + s ); } };
struct JOpt { int quality = 75, restart = 0, hs = 2, vs = 1; bool progressive = false, optimize = false, gray = false, rgb = false, islow = true; size_t comment = 0; };
static Bytes jpeg( const P422 & p, const JOpt & o )
{
  jpeg_compress_struct c; JErr e; c.err = jpeg_std_error( &e.m ); e.m.error_exit = JErr::out; jpeg_create_compress( &c ); unsigned char * out = nullptr; unsigned long n = 0; jpeg_mem_dest( &c, &out, &n );
  c.image_width = p.w; c.image_height = p.h; c.input_components = o.gray ? 1 : 3; c.in_color_space = o.gray ? JCS_GRAYSCALE : o.rgb ? JCS_RGB : JCS_YCbCr; jpeg_set_defaults( &c ); if ( o.rgb ) jpeg_set_colorspace( &c, JCS_RGB ); jpeg_set_quality( &c, o.quality, TRUE );
  c.restart_interval = o.restart; c.optimize_coding = o.optimize; if ( o.progressive ) jpeg_simple_progression( &c ); c.dct_method = JDCT_ISLOW;
  if ( !o.gray && !o.rgb ) { c.comp_info[ 0 ].h_samp_factor = o.hs; c.comp_info[ 0 ].v_samp_factor = o.vs; for ( int i = 1; i < 3; i++ ) c.comp_info[ i ].h_samp_factor = c.comp_info[ i ].v_samp_factor = 1; }
  jpeg_start_compress( &c, TRUE ); if ( o.comment ) { Bytes z( o.comment, 0x42 ); jpeg_write_marker( &c, JPEG_COM, z.data(), z.size() ); }
  Bytes row( p.w * 3 ); int cw = ( p.w + 1 ) / 2; for ( int y = 0; y < p.h; y++ ) { for ( int x = 0; x < p.w; x++ ) { if ( o.gray ) row[ x ] = p.y[ y * p.w + x ]; else { row[ 3 * x ] = p.y[ y * p.w + x ]; row[ 3 * x + 1 ] = p.u[ y * cw + x / 2 ]; row[ 3 * x + 2 ] = p.v[ y * cw + x / 2 ]; } } JSAMPROW rp = row.data(); jpeg_write_scanlines( &c, &rp, 1 ); }
  jpeg_finish_compress( &c ); Bytes b( out, out + n ); jpeg_destroy_compress( &c ); free( out ); return b;
}
