// What a receiver that never forgets a state would do with the packets of an honest sender.
#pragma once
#include "salsify.hh"
#include "alf.hh"
#include "packet.hh"
#include "shim/picsum.hh"
#include <map>
#include <deque>

struct RxModel {
  FramePlayer player; uint32_t initial, current, next = 0; std::map<uint32_t, Decoder> states; std::map<uint32_t, std::vector<Optional<std::string>>> parts;
  std::vector<uint32_t> completed;       // targets reached, in order
  size_t needed = 0;                     // states completed from here on may still be referred to
  std::vector<uint64_t> shown; uint64_t last_exact = 0; unsigned partials = 0, exact = 0, blind = 0; bool frame_done = false, held = false;
  RxModel( int w, int h ) : player( w, h ) { player.set_error_concealment( true ); initial = current = player.current_decoder().minihash(); states.emplace( initial, player.current_decoder() ); }
  void decode( const std::string & f ) { if ( f.empty() ) return; auto r = player.decode( Chunk( f ) ); if ( r.initialized() ) shown.push_back( picsum( r.get().get() ) ); }
  static std::string leading( const std::vector<Optional<std::string>> & v ) { std::string s; for ( auto & x : v ) { if ( !x.initialized() ) break; s += x.get(); } return s; }
  bool must_hold( uint32_t s ) const { if ( s == initial ) return true; for ( size_t i = needed; i < completed.size(); i++ ) if ( completed[ i ] == s ) return true; return false; }
  // returns whether the packet is acknowledged; what the receiver reported settles whether it still had a state it was free to forget
  bool packet( const Packet & p, const AckPacket * reported )
  {
    frame_done = false; uint32_t f = p.frame_no(); if ( f < next ) return false;
    if ( f > next ) { auto it = parts.find( next ); if ( it != parts.end() ) { std::string s = leading( it->second ); if ( !s.empty() ) partials++; decode( s ); } parts.clear(); next = f; current = player.current_decoder().minihash(); }
    auto & v = parts[ f ]; v.resize( p.fragments_in_this_frame() ); v.at( p.fragment_no() ).reset( std::string( p.payload() ) );
    for ( auto & x : v ) if ( !x.initialized() ) return true;
    frame_done = true; uint32_t src = p.source_state(); auto it = states.find( src ); held = current == src || must_hold( src );
    if ( current != src && it != states.end() && !held ) {
      FramePlayer forgot( player ); forgot.decode( Chunk( leading( v ) ) ); if ( !reported || forgot.current_decoder().minihash() != reported->current_state() ) held = true; }
    if ( current != src && held ) { player.set_decoder( it->second ); current = src; }
    if ( current == src && src != initial ) { size_t i = needed; while ( i < completed.size() && completed[ i ] != src ) i++; needed = i; /* reached by a partial frame: newer than all that is listed */ }
    decode( leading( v ) ); current = player.current_decoder().minihash();
    if ( current == p.target_state() ) { exact++; if ( current != initial ) { states.emplace( current, player.current_decoder() ); completed.push_back( current ); } } else blind++;
    parts.erase( f ); next++;
    return true;
  }
  // an acknowledgement of that packet, against the model; "" when truthful
  std::string judge( const AckPacket & a, const Packet & p, uint16_t connection )
  {
    if ( a.connection_id() != connection ) return "connection " + std::to_string( a.connection_id() );
    if ( a.frame_no() != p.frame_no() || a.fragment_no() != p.fragment_no() ) return "acknowledges packet " + std::to_string( a.frame_no() ) + "/" + std::to_string( a.fragment_no() );
    if ( a.current_state() != current ) return "reports another state than the one it is in";
    auto l = a.complete_states(); for ( uint32_t s : l ) if ( !states.count( s ) ) return "lists a state it never completed";
    if ( completed.empty() != l.empty() && completed.empty() ) return "lists states before any frame was completed";
    // everything completed since the last source used must be listed, in order
    size_t j = 0; for ( size_t i = needed; i < completed.size(); i++ ) { while ( j < l.size() && l[ j ] != completed[ i ] ) j++; if ( j == l.size() ) return "does not list state number " + std::to_string( i ) + " of " + std::to_string( completed.size() ) + ", which may be needed"; j++; }
    return "";
  }
};
