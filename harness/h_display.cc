// P29: the window shows the picture, in its colours, whatever pictures, repaints and window sizes came before. The display's own GL code and shaders
// run on Mesa's software renderer; only GLFW (the window system) is replaced, by off-screen surfaces that are read back at every buffer swap.
#include "display.hh"
#include "raster_handle.hh"
#include "pbt.hh"
#include "src.hh"
#include <EGL/egl.h>
#include <EGL/eglext.h>
#include <cmath>
using namespace std;
using Bytes = vector<uint8_t>;

// ---- the window system
struct Shot { int w, h; Bytes b; };
struct Sys {
  EGLDisplay dpy = EGL_NO_DISPLAY; EGLContext ctx = EGL_NO_CONTEXT; EGLSurface surf = EGL_NO_SURFACE; EGLConfig cfg {};
  int w = 0, h = 0, force_w = 0, force_h = 0, asked_w = 0, asked_h = 0, maj = 1, min = 0, fwd = 0, profile = GLFW_OPENGL_ANY_PROFILE, inits = 0, terms = 0, made = 0, gone = 0, key = -1; bool full = false, close = false, refuse = false; string title, trouble; vector<Shot> shots;
  void surface() { if ( surf != EGL_NO_SURFACE ) { eglMakeCurrent( dpy, EGL_NO_SURFACE, EGL_NO_SURFACE, EGL_NO_CONTEXT ); eglDestroySurface( dpy, surf ); } EGLint a[] = { EGL_WIDTH, w, EGL_HEIGHT, h, EGL_NONE }; surf = eglCreatePbufferSurface( dpy, cfg, a ); if ( surf == EGL_NO_SURFACE ) trouble = "no off-screen surface"; }
  void current() { if ( !eglMakeCurrent( dpy, surf, surf, ctx ) ) trouble = "no current context"; }
  void resize( int nw, int nh ) { w = nw; h = nh; surface(); current(); }
};
static Sys S;
static GLFWwindow * const WIN = reinterpret_cast<GLFWwindow *>( &S );
static GLFWmonitor * const MON = reinterpret_cast<GLFWmonitor *>( &S.full );
extern "C" {
GLFWerrorfun glfwSetErrorCallback( GLFWerrorfun ) { return nullptr; }
int glfwInit() { S.inits++; S.dpy = eglGetPlatformDisplay( EGL_PLATFORM_SURFACELESS_MESA, EGL_DEFAULT_DISPLAY, nullptr ); if ( !eglInitialize( S.dpy, nullptr, nullptr ) ) S.trouble = "no EGL"; eglBindAPI( EGL_OPENGL_API ); return GLFW_TRUE; }
void glfwTerminate() { S.terms++; if ( S.dpy != EGL_NO_DISPLAY ) eglTerminate( S.dpy ); S.dpy = EGL_NO_DISPLAY; }
void glfwDefaultWindowHints() { S.maj = 1; S.min = 0; S.fwd = 0; S.profile = GLFW_OPENGL_ANY_PROFILE; }
void glfwWindowHint( int h, int v ) { if ( h == GLFW_CONTEXT_VERSION_MAJOR ) S.maj = v; if ( h == GLFW_CONTEXT_VERSION_MINOR ) S.min = v; if ( h == GLFW_OPENGL_FORWARD_COMPAT ) S.fwd = v; if ( h == GLFW_OPENGL_PROFILE ) S.profile = v; }
GLFWmonitor * glfwGetPrimaryMonitor() { return MON; }
GLFWwindow * glfwCreateWindow( int w, int h, const char * t, GLFWmonitor * m, GLFWwindow * )
{
  if ( S.refuse ) return nullptr;
  S.made++; S.asked_w = w; S.asked_h = h; S.full = m != nullptr; S.title = t; S.w = S.force_w ? S.force_w : w; S.h = S.force_h ? S.force_h : h;
  EGLint a[] = { EGL_SURFACE_TYPE, EGL_PBUFFER_BIT, EGL_RENDERABLE_TYPE, EGL_OPENGL_BIT, EGL_RED_SIZE, 8, EGL_GREEN_SIZE, 8, EGL_BLUE_SIZE, 8, EGL_NONE }; EGLint n = 0; if ( !eglChooseConfig( S.dpy, a, &S.cfg, 1, &n ) || !n ) { S.trouble = "no EGL configuration"; return nullptr; }
  EGLint x[] = { EGL_CONTEXT_MAJOR_VERSION, S.maj, EGL_CONTEXT_MINOR_VERSION, S.min, EGL_CONTEXT_OPENGL_FORWARD_COMPATIBLE, S.fwd, EGL_CONTEXT_OPENGL_PROFILE_MASK, S.profile == GLFW_OPENGL_COMPAT_PROFILE ? EGL_CONTEXT_OPENGL_COMPATIBILITY_PROFILE_BIT : EGL_CONTEXT_OPENGL_CORE_PROFILE_BIT, EGL_NONE };
  S.ctx = eglCreateContext( S.dpy, S.cfg, EGL_NO_CONTEXT, x ); if ( S.ctx == EGL_NO_CONTEXT ) { S.trouble = "no context"; return nullptr; } S.surface(); return WIN;
}
void glfwMakeContextCurrent( GLFWwindow * w ) { if ( w ) S.current(); }
GLFWwindow * glfwGetCurrentContext() { return WIN; }
void glfwSwapBuffers( GLFWwindow * )
{
  Shot s { S.w, S.h, Bytes( (size_t)S.w * S.h * 4 ) }; glFinish(); glReadPixels( 0, 0, S.w, S.h, GL_RGBA, GL_UNSIGNED_BYTE, s.b.data() ); S.shots.push_back( move( s ) );
  glDisable( GL_SCISSOR_TEST ); glClearColor( 1, 0, 1, 1 ); glClear( GL_COLOR_BUFFER_BIT );      // after a swap the back buffer holds nothing of the picture
}
void glfwSwapInterval( int ) {}
void glfwHideWindow( GLFWwindow * ) {}
void glfwShowWindow( GLFWwindow * ) {}
void glfwPollEvents() {}
void glfwSetWindowTitle( GLFWwindow *, const char * t ) { S.title = t; }
void glfwDestroyWindow( GLFWwindow * ) { S.gone++; if ( S.terms >= S.inits ) S.trouble = "window destroyed after the window system"; eglMakeCurrent( S.dpy, EGL_NO_SURFACE, EGL_NO_SURFACE, EGL_NO_CONTEXT ); eglDestroySurface( S.dpy, S.surf ); S.surf = EGL_NO_SURFACE; eglDestroyContext( S.dpy, S.ctx ); }
int glfwWindowShouldClose( GLFWwindow * ) { return S.close ? GLFW_TRUE : GLFW_FALSE; }
void glfwSetInputMode( GLFWwindow *, int, int ) {}
int glfwGetKey( GLFWwindow *, int k ) { return k == S.key ? GLFW_PRESS : GLFW_RELEASE; }
void glfwGetFramebufferSize( GLFWwindow *, int * w, int * h ) { if ( w ) *w = S.w; if ( h ) *h = S.h; }
void glfwGetWindowSize( GLFWwindow *, int * w, int * h ) { if ( w ) *w = S.w; if ( h ) *h = S.h; }
}

// ---- pictures

static uint64_t paint( Src & g, BaseRaster & r, string & what )
{
  int kind = g.draw( 6 ); Prng p( g.seed() ); uint64_t dg = 1469598103934665603ull; TwoD<uint8_t> * pl[] = { &r.Y(), &r.U(), &r.V() };
  uint8_t base[ 3 ]; for ( auto & b : base ) b = g.draw( 3 ) ? 16 + p.next() % 220 : p.next(); int ix = p.next() % r.Y().width(), iy = p.next() % r.Y().height(); if ( kind == 3 ) { if ( g.draw( 2 ) ) ix = min<int>( r.display_width() - 1 - ix % 2, ix | ( r.display_width() - 2 ) ) < 0 ? 0 : r.display_width() - 1; if ( g.draw( 2 ) ) iy = r.display_height() - 1; }
  static const char * const N[] = { "noise", "flat", "gradients", "one bright spot", "blocks", "stripes" }; what = N[ kind ];
  for ( int k = 0; k < 3; k++ ) for ( unsigned y = 0; y < pl[ k ]->height(); y++ ) for ( unsigned x = 0; x < pl[ k ]->width(); x++ ) {
    uint8_t v = base[ k ];
    switch ( kind ) { case 0: v = p.next(); break; case 2: v = base[ k ] + x * ( k + 1 ) + y * ( 3 - k ); break; case 3: v = ( k == 0 ? (int)x == ix && (int)y == iy : (int)x == ix / 2 && (int)y == iy / 2 ) ? 235 : 16 + 100 * ( k > 0 ); break; case 4: v = base[ k ] ^ ( ( ( x >> 2 ) * 37 + ( y >> 2 ) * 101 ) & 0xff ); break; case 5: v = ( x & 1 ) ? base[ k ] : 255 - base[ k ]; break; }
    pl[ k ]->at( x, y ) = v; dg = ( dg ^ v ) * 1099511628211ull;
  }
  return dg;
}
// what the window has to show: samples one to one from the top left corner, chroma sited as in MPEG-2 (left, between the lines) and interpolated, BT.601 colours of video range
struct Want {
  int w = 0, h = 0; Bytes p[ 3 ]; int pw[ 3 ], ph[ 3 ];
  void take( const BaseRaster & r ) { const TwoD<uint8_t> * pl[] = { &r.Y(), &r.U(), &r.V() }; for ( int k = 0; k < 3; k++ ) { pw[ k ] = pl[ k ]->width(); ph[ k ] = pl[ k ]->height(); p[ k ].clear(); for ( int y = 0; y < ph[ k ]; y++ ) for ( int x = 0; x < pw[ k ]; x++ ) p[ k ].push_back( pl[ k ]->at( x, y ) ); } }
  double at( int k, int x, int y ) const { return p[ k ][ (size_t)min( max( y, 0 ), ph[ k ] - 1 ) * pw[ k ] + min( max( x, 0 ), pw[ k ] - 1 ) ]; }
  double chroma( int k, int x, int y ) const { double cx = x / 2.0, cy = ( y + 0.5 ) / 2 - 0.5; int x0 = floor( cx ), y0 = floor( cy ); double fx = cx - x0, fy = cy - y0; return ( 1 - fy ) * ( ( 1 - fx ) * at( k, x0, y0 ) + fx * at( k, x0 + 1, y0 ) ) + fy * ( ( 1 - fx ) * at( k, x0, y0 + 1 ) + fx * at( k, x0 + 1, y0 + 1 ) ); }
  void rgb( int x, int y, double o[ 3 ] ) const
  {
    double Y = ( at( 0, x, y ) - 16 ) / 219, B = ( chroma( 1, x, y ) - 128 ) / 224, R = ( chroma( 2, x, y ) - 128 ) / 224; const double kr = 0.299, kb = 0.114, kg = 1 - kr - kb;
    o[ 0 ] = Y + 2 * ( 1 - kr ) * R; o[ 2 ] = Y + 2 * ( 1 - kb ) * B; o[ 1 ] = Y - 2 * ( 1 - kr ) * kr / kg * R - 2 * ( 1 - kb ) * kb / kg * B; for ( int i = 0; i < 3; i++ ) o[ i ] = 255 * min( 1.0, max( 0.0, o[ i ] ) );
  }
};
static double worst = 0;
static void compare( pbt::Ctx & c, const Shot & s, const Want & w, const string & log )
{
  for ( int y = 0; y < s.h; y++ ) for ( int x = 0; x < s.w; x++ ) { double o[ 3 ]; w.rgb( x, y, o ); const uint8_t * g = &s.b[ 4 * ( (size_t)( s.h - 1 - y ) * s.w + x ) ]; for ( int i = 0; i < 3; i++ ) { double e = fabs( o[ i ] - g[ i ] ); worst = max( worst, e ); if ( e > 4.5 ) { ostringstream m; m << "window pixel (" << x << "," << y << ") has " << ( i == 0 ? "red " : i == 1 ? "green " : "blue " ) << (int)g[ i ] << " instead of " << o[ i ] << "; samples " << w.at( 0, x, y ) << " " << w.chroma( 1, x, y ) << " " << w.chroma( 2, x, y ) << "; " << log; c.fail( "colour", m.str() ); } } }
}

static void window( pbt::Ctx & c )
{
  Src & g = c.g; bool big = g.chance( 1, 12 ); int w = 1 + g.draw( big ? 1400 : 150 ), h = 1 + g.draw( big ? 800 : 100 ); bool full = g.draw( 2 ); ostringstream log; log << w << "x" << h;
  auto pad = []( int v ) { return uint16_t( ( v + 15 ) / 16 * 16 ); }; BaseRaster r( w, h, pad( w ), pad( h ) ); S = Sys {}; auto other = [&]( int was ) { int k = g.draw( 4 ); return k == 0 ? was : k == 1 ? 1 + (int)g.draw( 2 * was ) : k == 2 ? was + 1 + (int)g.draw( 40 ) : max( 1, was / 2 ); };
  if ( g.chance( 1, 4 ) ) { S.force_w = other( w ); S.force_h = other( h ); log << ", window made " << S.force_w << "x" << S.force_h; }
  uint64_t dg = w * 7919 + h; Want want; bool drawn = false; int swaps = 0;
  {
    unique_ptr<VideoDisplay> d; try { if ( g.draw( 2 ) || full ) d = make_unique<VideoDisplay>( r, full ); else d = make_unique<VideoDisplay>( r ); } catch ( const pbt::Failure & ) { throw; } catch ( const exception & e ) { c.fail( S.trouble.empty() ? "fails" : "harness", string( e.what() ) + " " + S.trouble + " " + log.str() ); }
    c.require( S.trouble.empty(), "harness", S.trouble ); c.require( S.made == 1 && S.asked_w == w && S.asked_h == h && S.full == full, "window", to_string( S.asked_w ) + "x" + to_string( S.asked_h ) + ( S.full ? " full screen" : "" ) + "; " + log.str() );
    int n = 1 + g.draw( 6 );
    for ( int i = 0; i < n; i++ ) {
      int op = i == 0 ? 0 : g.draw( 8 ); string what;
      if ( op >= 6 || ( i == 0 && g.chance( 1, 4 ) ) ) { int nw = other( S.w ), nh = other( S.h ); int how = g.draw( 6 ); if ( how == 4 ) { nw = S.h; nh = S.w; } else if ( how == 5 && S.w % 2 == 0 ) { nw = S.w / 2; nh = S.h * 2; } nw = min( nw, 2 * w + 64 ); nh = min( nh, 2 * h + 64 ); S.resize( nw, nh ); log << ", resized to " << nw << "x" << nh; c.tag( "window resized" ); dg = dg * 31 + nw * 4099 + nh; op = i == 0 ? 0 : g.draw( 2 ) ? 4 : 0; }
      if ( op == 5 ) {
        int dw = g.draw( 3 ) - 1, dh = g.draw( 3 ) - 1; if ( !dw && !dh ) dw = 1; int ow = max( 16, pad( w ) + 16 * dw ), oh = max( 16, pad( h ) + 16 * dh ); if ( ow == pad( w ) && oh == pad( h ) ) ow += 16; BaseRaster o( ow, oh, ow, oh ); o.Y().fill( 200 ); bool refused = false; try { d->draw( o ); } catch ( const exception & ) { refused = true; }
        log << ", offered " << ow << "x" << oh; c.require( refused, "size-accepted", log.str() ); c.require( (int)S.shots.size() == swaps, "swap", "buffers swapped for a refused picture; " + log.str() ); c.tag( "picture of another size" ); continue;
      }
      try { if ( op == 4 ) { d->repaint(); log << ", repaint"; c.tag( "repainted" ); } else { dg = dg * 131 + paint( g, r, what ); d->draw( r ); want.take( r ); drawn = true; log << ", " << what; } } catch ( const exception & e ) { c.fail( "fails", string( e.what() ) + " " + log.str() ); }
      c.require( S.trouble.empty(), "harness", S.trouble ); swaps++; c.require( (int)S.shots.size() == swaps, "swap", to_string( S.shots.size() ) + " buffer swaps instead of " + to_string( swaps ) + "; " + log.str() );
      if ( drawn ) { compare( c, S.shots.back(), want, log.str() ); c.tag( "pictures compared" ); } S.shots.back().b.clear();
      if ( g.chance( 1, 5 ) ) { S.key = g.pick<int>( { -1, GLFW_KEY_ESCAPE, GLFW_KEY_RIGHT, GLFW_KEY_SPACE } ); S.close = g.draw( 2 ); for ( int k : { GLFW_KEY_ESCAPE, GLFW_KEY_RIGHT, GLFW_KEY_SPACE, GLFW_KEY_A } ) c.require( d->window().key_pressed( k ) == ( k == S.key ), "key", log.str() ); c.require( d->window().should_close() == S.close, "close", log.str() ); auto z = d->window().size(), y = d->window().window_size(); c.require( (int)z.first == S.w && (int)z.second == S.h && z == y, "reported-size", log.str() ); }
    }
  }
  c.require( S.trouble.empty(), "teardown", S.trouble ); c.require( S.gone == 1 && S.inits == 1 && S.terms == 1, "teardown", log.str() ); c.nontrivial( dg ); c.sample( log.str() ); c.tag( full ? "full screen" : "window" ); if ( big ) c.tag( "large" ); if ( getenv( "VP_WORST" ) ) c.tag( "worst " + to_string( int( worst * 2 ) ) );
}

int main( int argc, char ** argv )
{
  for ( auto kv : { "LIBGL_ALWAYS_SOFTWARE=1", "GALLIUM_DRIVER=llvmpipe", "LP_NUM_THREADS=0", "MESA_SHADER_CACHE_DISABLE=true", "EGL_PLATFORM=surfaceless" } ) putenv( const_cast<char *>( kv ) ); unsetenv( "DISPLAY" ); unsetenv( "WAYLAND_DISPLAY" );
  vector<pbt::Sub> subs { { "window", window, 900, 20000 } };
  return pbt::Runner( "P29", subs ).main( argc, argv );
}
