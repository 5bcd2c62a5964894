// Stand-in for the camera of the viewers: gives the pictures (and failures to give one) named by $VP_CAMERA, then ends the program.
#pragma once
#include <linux/videodev2.h>
#include <unordered_map>
#include <string>
#include <fstream>
#include <cstdlib>
#include <unistd.h>
#include "optional.hh"
#include "file_descriptor.hh"
#include "raster_handle.hh"
#include "frame_input.hh"
#include "campic.hh"

static const std::unordered_map<std::string, uint32_t> PIXEL_FORMAT_STRS {
  { "NV12", V4L2_PIX_FMT_NV12 }, { "YUYV", V4L2_PIX_FMT_YUYV }, { "YU12", V4L2_PIX_FMT_YUV420 }, { "MJPG", V4L2_PIX_FMT_MJPEG } };

class Camera : public FrameInput
{
  uint16_t width_, height_; std::string plan_; unsigned at_ = 0;
public:
  Camera( const uint16_t width, const uint16_t height, const uint32_t pixel_format = V4L2_PIX_FMT_YUV420, const std::string device = "/dev/video0" )
    : width_( width ), height_( height ), plan_( getenv( "VP_CAMERA" ) ) { std::ofstream( getenv( "VP_CAMLOG" ) ) << width << " " << height << " " << pixel_format << " " << device; }
  ~Camera() {}
  Optional<RasterHandle> get_next_frame() override
  {
    if ( at_ >= plan_.size() ) _exit( 0 );
    const char k = plan_[ at_++ ]; if ( k == '.' ) return {};
    MutableRasterHandle r { width_, height_ }; campic( k, [&]( int p, unsigned x, unsigned y, uint8_t v ) { ( p == 0 ? r.get().Y() : p == 1 ? r.get().U() : r.get().V() ).at( x, y ) = v; }, width_, height_ );
    return RasterHandle( std::move( r ) );
  }
  uint16_t display_width() override { return width_; }
  uint16_t display_height() override { return height_; }
};
