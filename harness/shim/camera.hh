// Stand-in for the camera: shows the picture the harness put into shared memory.
#pragma once
#include <linux/videodev2.h>
#include <unordered_map>
#include <string>
#include "optional.hh"
#include "file_descriptor.hh"
#include "raster_handle.hh"
#include "frame_input.hh"

static const std::unordered_map<std::string, uint32_t> PIXEL_FORMAT_STRS {
  { "NV12", V4L2_PIX_FMT_NV12 }, { "YUYV", V4L2_PIX_FMT_YUYV }, { "YU12", V4L2_PIX_FMT_YUV420 }, { "MJPG", V4L2_PIX_FMT_MJPEG } };

class Camera : public FrameInput
{
  uint16_t width_, height_;
public:
  Camera( const uint16_t width, const uint16_t height, const uint32_t pixel_format = V4L2_PIX_FMT_YUV420, const std::string device = "/dev/video0" );
  ~Camera() {}
  Optional<RasterHandle> get_next_frame() override;
  uint16_t display_width() override { return width_; }
  uint16_t display_height() override { return height_; }
};
