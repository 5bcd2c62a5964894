#include "camera.hh"
#include "shm.hh"
#include "vp8_raster.hh"
extern Shm * vp_shm();
Camera::Camera( const uint16_t, const uint16_t, const uint32_t, const std::string ) : width_( vp_shm()->w ), height_( vp_shm()->h ) {}
Optional<RasterHandle> Camera::get_next_frame()
{
  Shm * s = vp_shm(); s->camera_calls++; if ( !s->have_picture ) return {};
  MutableRasterHandle m { width_, height_ };
  for ( int k = 0; k < 3; k++ ) { TwoD<uint8_t> & t = k == 0 ? m.get().Y() : k == 1 ? m.get().U() : m.get().V(); for ( unsigned y = 0; y < t.height(); y++ ) for ( unsigned x = 0; x < t.width(); x++ ) t.at( x, y ) = s->pic[ k ][ y * t.width() + x ]; }
  return RasterHandle( std::move( m ) );
}
