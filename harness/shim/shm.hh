// What a Salsify program under test shares with the harness that drives it.
#pragma once
#include <atomic>
#include <cstdint>
struct Shm {
  static constexpr int MAXPIC = 704 * 704;
  std::atomic<int64_t> now_ns;              // the program's wall clock
  std::atomic<uint32_t> draws, camera_calls;
  uint64_t draw_hash[ 8192 ];               // pictures given to the display, in order
  uint32_t w, h, have_picture;              // what the camera sees next
  uint8_t pic[ 3 ][ MAXPIC ];
};
struct PollMsg { int32_t timeout; uint8_t unix_in, dgram_in, dgram_out, full; uint16_t port, pad2; };
// full: not a poll; many datagrams left in a row, and the harness should read them before its buffer overflows (it answers 'D')
// commands: 'U' let the next event on an internal pipe through, 'N' the next datagram, 'O' readiness to send, 'T' a timeout
