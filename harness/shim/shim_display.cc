#include "display.hh"
#include "shm.hh"
#include "picsum.hh"
extern Shm * vp_shm();
VideoDisplay::VideoDisplay( const BaseRaster &, const bool ) {}
void VideoDisplay::draw( const BaseRaster & r ) { Shm * s = vp_shm(); uint32_t n = s->draws; s->draw_hash[ n % 8192 ] = picsum( r ); s->draws = n + 1; }
