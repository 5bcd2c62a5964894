// Stand-in for the OpenGL display: records what it is given.
#pragma once
#include "raster.hh"
class VideoDisplay
{
public:
  VideoDisplay( const BaseRaster & raster, const bool fullscreen = false );
  VideoDisplay( const VideoDisplay & ) = delete;
  VideoDisplay & operator=( const VideoDisplay & ) = delete;
  void draw( const BaseRaster & raster );
  void repaint( void ) {}
  void resize( const std::pair<unsigned int, unsigned int> & ) {}
};
