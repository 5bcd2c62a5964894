// Stand-in for the OpenGL display of the viewers: writes down, in $VP_SHOWN, every picture it is told to draw.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include "raster.hh"
#include "exception.hh"
class VideoDisplay
{
  FILE * f_; unsigned width_, height_; int left_;
  void put( unsigned v ) { fwrite( &v, 4, 1, f_ ); }
  void plane( const TwoD<uint8_t> & p, unsigned w, unsigned h ) { for ( unsigned y = 0; y < h; y++ ) for ( unsigned x = 0; x < w; x++ ) fputc( p.at( x, y ), f_ ); }
public:
  VideoDisplay( const BaseRaster & raster, const bool fullscreen = false )
    : f_( fopen( getenv( "VP_SHOWN" ), "ab" ) ), width_( raster.width() ), height_( raster.height() ), left_( getenv( "VP_EXIT_AFTER" ) ? atoi( getenv( "VP_EXIT_AFTER" ) ) : -1 )
  { put( 0x57 ); put( raster.display_width() ); put( raster.display_height() ); put( fullscreen ); fflush( f_ ); }
  ~VideoDisplay() { fclose( f_ ); }
  VideoDisplay( const VideoDisplay & ) = delete;
  VideoDisplay & operator=( const VideoDisplay & ) = delete;
  void draw( const BaseRaster & r )
  {
    if ( r.width() != width_ or r.height() != height_ ) throw Invalid( "inconsistent raster dimensions." );
    unsigned w = r.display_width(), h = r.display_height(); put( 0x44 ); put( w ); put( h );
    plane( r.Y(), w, h ); plane( r.U(), ( w + 1 ) / 2, ( h + 1 ) / 2 ); plane( r.V(), ( w + 1 ) / 2, ( h + 1 ) / 2 ); fflush( f_ );
    if ( left_ > 0 and --left_ == 0 ) _exit( 0 );
  }
  void repaint( void ) {}
  void resize( const std::pair<unsigned int, unsigned int> & ) {}
};
