// P24: pictures from a camera device (played by this program) and JPEG pictures.
#include "pbt.hh"
#include "memcap.hh"
#include "alf.hh"
#include "camera.hh"
#include "jpeg.hh"
#include "jpegen.hh"
#include <fcntl.h>
#include <cstdarg>
#include <deque>
#include <sys/syscall.h>
#include <sys/ioctl.h>
using namespace std;

// ---- the device: four buffers in a file, filled in the order they were queued
namespace dev {
  static int fd = -1, w, h; static uint32_t fmt; static size_t len; static bool streaming; static deque<unsigned> queued; static string trouble; static function<size_t( uint8_t * )> fill; static uint8_t * mem;
  static int refuse;      // 0 no, 1 cannot capture, 2 another size, 3 another format, 4 fewer buffers, 5 ioctl fails
  static void odd( const string & s ) { if ( trouble.empty() ) trouble = s; }
}
extern "C" int ioctl( int fd, unsigned long rq, ... ) noexcept
{
  va_list ap; va_start( ap, rq ); void * a = va_arg( ap, void * ); va_end( ap );
  switch ( rq ) {
  case VIDIOC_QUERYCAP: { auto c = (v4l2_capability *)a; memset( c, 0, sizeof *c ); c->capabilities = V4L2_CAP_STREAMING | ( dev::refuse == 1 ? 0 : V4L2_CAP_VIDEO_CAPTURE ); return 0; }
  case VIDIOC_S_FMT: { auto f = (v4l2_format *)a; dev::fd = fd; dev::w = f->fmt.pix.width; dev::h = f->fmt.pix.height; dev::fmt = f->fmt.pix.pixelformat; if ( dev::refuse == 2 ) f->fmt.pix.width += 16; if ( dev::refuse == 3 ) f->fmt.pix.pixelformat ^= 1; if ( dev::refuse == 6 ) f->fmt.pix.height -= 1; if ( dev::refuse == 5 ) { errno = EBUSY; return -1; } return 0; }
  case VIDIOC_REQBUFS: { auto r = (v4l2_requestbuffers *)a; if ( r->count != 4 ) dev::odd( "asked for " + to_string( r->count ) + " buffers" ); if ( dev::refuse == 4 ) r->count = 2; return 0; }
  case VIDIOC_QUERYBUF: { auto b = (v4l2_buffer *)a; if ( b->index >= 4 ) { errno = EINVAL; return -1; } b->length = dev::len; b->m.offset = b->index * dev::len; return 0; }
  case VIDIOC_QBUF: { auto b = (v4l2_buffer *)a; if ( b->index >= 4 ) { errno = EINVAL; return -1; } for ( auto q : dev::queued ) if ( q == b->index ) { dev::odd( "a buffer was given back twice" ); errno = EINVAL; return -1; } dev::queued.push_back( b->index ); memset( dev::mem + b->index * dev::len, 0xA7, dev::len ); return 0; }   // given back: its content is gone
  case VIDIOC_DQBUF: {
    auto b = (v4l2_buffer *)a; if ( !dev::streaming ) { dev::odd( "dequeue before stream on" ); errno = EINVAL; return -1; }
    if ( dev::queued.empty() ) { dev::odd( "no buffer left with the device" ); errno = EIO; return -1; }
    b->index = dev::queued.front(); dev::queued.pop_front(); b->bytesused = dev::fill( dev::mem + b->index * dev::len ); return 0;
  }
  case VIDIOC_STREAMON: dev::streaming = true; return 0;
  case VIDIOC_STREAMOFF: dev::streaming = false; return 0;
  }
  return syscall( SYS_ioctl, fd, rq, a );
}

static P422 unjpeg( const Bytes & b )
{
  jpeg_decompress_struct d; JErr e; d.err = jpeg_std_error( &e.m ); e.m.error_exit = JErr::out; jpeg_create_decompress( &d ); jpeg_mem_src( &d, (unsigned char *)b.data(), b.size() ); jpeg_read_header( &d, TRUE ); d.raw_data_out = TRUE; jpeg_start_decompress( &d );
  int w = d.image_width, h = d.image_height, pw = ( w + 15 ) / 16 * 16, ph = ( h + 7 ) / 8 * 8, cw = ( w + 1 ) / 2; Bytes Y( pw * ph ), U( pw / 2 * ph ), V( pw / 2 * ph );
  while ( d.output_scanline < d.output_height ) { JSAMPROW ry[ 8 ], ru[ 8 ], rv[ 8 ]; JSAMPARRAY im[ 3 ] { ry, ru, rv }; for ( int i = 0; i < 8; i++ ) { size_t l = d.output_scanline + i; ry[ i ] = &Y[ l * pw ]; ru[ i ] = &U[ l * pw / 2 ]; rv[ i ] = &V[ l * pw / 2 ]; } if ( !jpeg_read_raw_data( &d, im, 8 ) ) throw runtime_error( "no rows" ); }
  jpeg_finish_decompress( &d ); jpeg_destroy_decompress( &d ); P422 p { w, h, Bytes( w * h ), Bytes( cw * h ), Bytes( cw * h ) };
  for ( int y = 0; y < h; y++ ) { memcpy( &p.y[ y * w ], &Y[ y * pw ], w ); memcpy( &p.u[ y * cw ], &U[ y * pw / 2 ], cw ); memcpy( &p.v[ y * cw ], &V[ y * pw / 2 ], cw ); } return p;
}
static vpxref::Planes halve( const P422 & p )   // every other chroma row
{
  vpxref::Planes o; o.w = p.w; o.h = p.h; o.y = p.y; int cw = ( p.w + 1 ) / 2; for ( int y = 0; y < p.h; y += 2 ) { o.u.insert( o.u.end(), &p.u[ y * cw ], &p.u[ y * cw ] + cw ); o.v.insert( o.v.end(), &p.v[ y * cw ], &p.v[ y * cw ] + cw ); } return o;
}
static JOpt draw_opt( Src & g ) { JOpt o; o.quality = 1 + g.draw( 100 ); o.restart = g.draw( 3 ) ? 0 : 1 + g.draw( 20 ); o.progressive = g.chance( 1, 6 ); o.optimize = g.draw( 2 ); o.comment = g.chance( 1, 4 ) ? 1 + g.draw( 300 ) : 0; return o; }
static void draw_size( Src & g, int & w, int & h, bool even ) { if ( g.draw( 2 ) ) { w = 16 * ( 1 + g.draw( 8 ) ); h = 8 * ( 1 + g.draw( 12 ) ); } else { w = 1 + g.draw( 130 ); h = 1 + g.draw( 90 ); } if ( even ) { w = max( 2, w & ~1 ); h = max( 2, h & ~1 ); } }

static void camera( pbt::Ctx & c )
{
  Src & g = c.g; uint32_t fmt = g.pick<uint32_t>( { V4L2_PIX_FMT_YUYV, V4L2_PIX_FMT_NV12, V4L2_PIX_FMT_YUV420, V4L2_PIX_FMT_MJPEG } ); int w, h; draw_size( g, w, h, fmt != V4L2_PIX_FMT_MJPEG ); if ( fmt == V4L2_PIX_FMT_YUYV && g.chance( 1, 4 ) ) h |= 1;
  const char * nm = fmt == V4L2_PIX_FMT_YUYV ? "YUYV" : fmt == V4L2_PIX_FMT_NV12 ? "NV12" : fmt == V4L2_PIX_FMT_YUV420 ? "YU12" : "MJPG"; string log = string( nm ) + " " + to_string( w ) + "x" + to_string( h ); c.require( PIXEL_FORMAT_STRS.count( nm ) && PIXEL_FORMAT_STRS.at( nm ) == fmt, "format-names", log );
  dev::refuse = g.chance( 1, 12 ) ? 1 + g.draw( 6 ) : 0; bool unknown = g.chance( 1, 40 ); dev::trouble.clear(); dev::queued.clear(); dev::streaming = false; dev::len = ( (size_t)w * h * 3 + 70000 + 4095 ) / 4096 * 4096;
  string path = c.scratch + "/dev"; int f = open( path.c_str(), O_RDWR | O_CREAT, 0600 ); if ( f < 0 || ftruncate( f, 4 * dev::len ) ) c.fail( "harness", "device file" ); dev::mem = (uint8_t *)mmap( nullptr, 4 * dev::len, PROT_READ | PROT_WRITE, MAP_SHARED, f, 0 ); struct Un { int f; ~Un() { munmap( dev::mem, 4 * dev::len ); close( f ); } } un { f };
  unique_ptr<Camera> cam; try { cam.reset( new Camera( w, h, unknown ? V4L2_PIX_FMT_GREY : fmt, path ) ); } catch ( const exception & e ) { c.require( dev::refuse || unknown, "camera-refused", string( e.what() ) + " " + log ); c.tag( "unusable device refused" ); return; }
  c.require( !dev::refuse && !unknown, "unusable-device-accepted", to_string( dev::refuse ) + " " + log ); c.require( dev::w == w && dev::h == h && dev::fmt == fmt && cam->display_width() == w && cam->display_height() == h, "request", log );
  int n = 1 + g.draw( 12 ); vector<pair<RasterHandle, vpxref::Planes>> kept; Digest dg; vpxref::Planes want; JOpt o = draw_opt( g );
  dev::fill = [&]( uint8_t * m ) -> size_t {
    P422 p = picture( g, w, h ); int cw = ( w + 1 ) / 2; dg.add( p.y ); dg.add( p.u );
    switch ( fmt ) {
    case V4L2_PIX_FMT_YUYV: for ( int y = 0; y < h; y++ ) for ( int x = 0; x < w; x++ ) { m[ 2 * ( y * w + x ) ] = p.y[ y * w + x ]; m[ 2 * ( y * w + x ) + 1 ] = ( x & 1 ? p.v : p.u )[ y * cw + x / 2 ]; } want = halve( p ); return 2 * w * h;
    case V4L2_PIX_FMT_NV12: want = halve( p ); memcpy( m, p.y.data(), w * h ); for ( size_t i = 0; i < want.u.size(); i++ ) { m[ w * h + 2 * i ] = want.u[ i ]; m[ w * h + 2 * i + 1 ] = want.v[ i ]; } return w * h * 3 / 2;
    case V4L2_PIX_FMT_YUV420: want = halve( p ); memcpy( m, p.y.data(), w * h ); memcpy( m + w * h, want.u.data(), want.u.size() ); memcpy( m + w * h + want.u.size(), want.v.data(), want.v.size() ); return w * h * 3 / 2;
    default: { Bytes j = jpeg( p, o ); want = halve( unjpeg( j ) ); if ( j.size() > dev::len ) { dev::odd( "harness: picture too large" ); return 0; } memcpy( m, j.data(), j.size() ); return j.size(); }
    }
  };
  for ( int i = 0; i < n; i++ ) {
    string at = "picture " + to_string( i ) + " " + log; Optional<RasterHandle> r; try { r = cam->get_next_frame(); } catch ( const exception & e ) { c.fail( "capture", string( e.what() ) + " " + dev::trouble + " " + at ); }
    c.require( dev::trouble.empty(), "buffers", dev::trouble + " " + at ); c.require( r.initialized(), "no-picture", at ); c.require( dev::queued.size() == 4, "buffer-kept", at ); if ( fmt == V4L2_PIX_FMT_MJPEG && i == 0 ) continue;   // some cameras start with rubbish; the first picture is unspecified
    string d = diff( planes( r.get().get(), true ), want ); c.require( d.empty(), "samples", d + " " + at ); if ( kept.size() < 4 ) kept.emplace_back( r.get(), want );
  }
  for ( auto & k : kept ) { string d = diff( planes( k.first.get(), true ), k.second ); c.require( d.empty(), "picture-changed-later", d + " " + log ); }
  cam.reset(); c.require( !dev::streaming, "still-streaming", log ); c.tag( nm ); if ( w % 16 ) c.tag( "width not of whole macroblocks" ); if ( n > 1 ) c.nontrivial( dg.h ); c.sample( log + " " + to_string( n ) + " pictures" );
}

static void jpegs( pbt::Ctx & c )
{
  Src & g = c.g; int w, h; draw_size( g, w, h, false ); string log = to_string( w ) + "x" + to_string( h ); JPEGDecompresser d; int n = 1 + g.draw( 4 ); Digest dg;
  for ( int i = 0; i < n; i++ ) {
    JOpt o = draw_opt( g ); P422 p = picture( g, w, h ); Bytes j = jpeg( p, o ); string at = "picture " + to_string( i ) + " " + log + " quality " + to_string( o.quality ) + ( o.progressive ? " progressive" : "" ) + ( o.restart ? " restarts" : "" ); dg.add( j );
    MutableRasterHandle r( w, h ); try { d.begin_decoding( chunk( j ) ); c.require( d.width() == (unsigned)w && d.height() == (unsigned)h, "size", at ); d.decode( r.get() ); } catch ( const exception & e ) { c.fail( "refused", string( e.what() ) + " " + at ); }
    string df = diff( planes( r.get(), true ), halve( unjpeg( j ) ) ); c.require( df.empty(), "samples", df + " " + at ); if ( o.progressive ) c.tag( "progressive" ); if ( o.restart ) c.tag( "restart markers" );
  }
  if ( g.draw( 2 ) ) {   // what it cannot handle is refused
    JOpt o = draw_opt( g ); unsigned k = g.draw( 5 ); int w2 = w, h2 = h; if ( k == 0 ) o.vs = 2; else if ( k == 1 ) o.hs = 1; else if ( k == 2 ) o.gray = true; else if ( k == 3 ) o.rgb = true; else { if ( g.draw( 2 ) ) w2 += 1 + g.draw( 40 ); else h2 += 1 + g.draw( 40 ); }
    Bytes j = jpeg( picture( g, w2, h2 ), o ); bool ok = true; MutableRasterHandle r( w, h ); try { d.begin_decoding( chunk( j ) ); d.decode( r.get() ); } catch ( const exception & ) { ok = false; } c.require( !ok, "accepted", "kind " + to_string( k ) + " " + log ); c.tag( "unsupported refused" );
  }
  c.nontrivial( dg.h ); c.sample( log + " " + to_string( n ) + " pictures" );
}

// damaged data: an error or a picture, but no access outside the buffers (built with AddressSanitizer)
static void damaged( pbt::Ctx & c )
{
  Src & g = c.g; int w, h; draw_size( g, w, h, false ); JPEGDecompresser d; JOpt o = draw_opt( g ); if ( g.chance( 1, 5 ) ) { o.hs = 1 + g.draw( 2 ); o.vs = 1 + g.draw( 2 ); } Bytes j = jpeg( picture( g, w, h ), o ); if ( g.draw( 2 ) ) { MutableRasterHandle r( w, h ); Bytes first = jpeg( picture( g, w, h ), JOpt() ); try { d.begin_decoding( chunk( first ) ); d.decode( r.get() ); } catch ( const exception & e ) { c.fail( "refused", e.what() ); } }
  int k = 1 + g.draw( 6 ); string how; for ( int i = 0; i < k; i++ ) { size_t lim = g.draw( 2 ) ? min<size_t>( j.size(), 700 ) : j.size(); if ( j.empty() ) break; switch ( g.draw( 4 ) ) { case 0: j[ g.draw( lim ) ] = g.draw( 256 ); break; case 1: j[ g.draw( lim ) ] ^= 1 << g.draw( 8 ); break; case 2: j.resize( g.draw( j.size() + 1 ) ); break; case 3: { size_t a = g.draw( lim ), n = g.draw( 20 ); if ( g.draw( 2 ) ) j.erase( j.begin() + a, j.begin() + min( a + n, j.size() ) ); else j.insert( j.begin() + a, n, g.draw( 256 ) ); break; } } }
  Digest dg; dg.add( j ); bool ok = true; MutableRasterHandle r( w, h ); unique_ptr<uint8_t[]> exact( new uint8_t[ j.size() ] ); memcpy( exact.get(), j.data(), j.size() ); int fd = open( "/dev/null", O_WRONLY ), e2 = dup( 2 ); dup2( fd, 2 );
  memcap::arm( 64 << 20 );
  try { d.begin_decoding( Chunk( exact.get(), j.size() ) ); if ( (size_t)d.width() * d.height() <= 4000000 ) d.decode( r.get() ); } catch ( const exception & ) { ok = false; } memcap::disarm(); dup2( e2, 2 ); close( fd ); close( e2 );
  c.tag( ok ? "decoded anyway" : "refused" ); c.nontrivial( dg.h ); c.sample( to_string( w ) + "x" + to_string( h ) + " " + to_string( j.size() ) + " bytes" );
}

int main( int argc, char ** argv )
{
  vector<pbt::Sub> subs { { "camera", camera, 2500, 60000, 1 }, { "jpeg", jpegs, 2500, 60000, 1 }, { "damaged", damaged, 4000, 100000, 1 } };
  return pbt::Runner( "P24", subs ).main( argc, argv );
}
