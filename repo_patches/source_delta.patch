From a5e7261411d01bed2beee0f6831cb3445fc45092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:43 +0000
Subject: [PATCH 01/36] fix: clamp per-segment quantizer indices to [0,127]

A segment quantizer adjustment may be negative (or push the index past
127); the sum was stored in an unsigned 8-bit field, so e.g. 5 - 10 became
251 and was then clamped to 127 instead of 0.
---
 src/decoder/frame.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index 3ac43e9..e2714be 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -193,10 +193,13 @@ SafeArray<Quantizer, num_segments> Frame<FrameHeaderType, MacroblockType>::calcu
   if ( segmentation.initialized() ) {
     for ( uint8_t i = 0; i < num_segments; i++ ) {
       QuantIndices segment_indices( header_.quant_indices );
-      segment_indices.y_ac_qi = segmentation.get().segment_quantizer_adjustments.at( i )
+      const int segment_qi = segmentation.get().segment_quantizer_adjustments.at( i )
         + ( segmentation.get().absolute_segment_adjustments
-            ? static_cast<Unsigned<7>>( 0 )
-            : segment_indices.y_ac_qi );
+            ? 0
+            : static_cast<int>( segment_indices.y_ac_qi ) );
+
+      /* the segment's base index is clamped before the per-plane deltas are applied */
+      segment_indices.y_ac_qi = static_cast<uint8_t>( min( max( segment_qi, 0 ), 127 ) );
 
       segment_quantizers.at( i ) = Quantizer( segment_indices );
     }
-- 
2.43.0


From 83e8f000c7e002fb01ea20c089ffbbfc538caa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:45 +0000
Subject: [PATCH 02/36] fix: clamp per-segment loop filter levels before
 mode/reference deltas

RFC 6386 (and libvpx) clamp the segment-adjusted level to [0,63] and then
add the reference-frame and mode deltas; the decoder only clamped the final
sum, so out-of-range segment levels with deltas enabled decoded differently.
---
 src/decoder/frame.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index e2714be..f8659d2 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -156,11 +156,14 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
         FilterParameters segment_filter( header_.filter_type,
                                          header_.loop_filter_level,
                                          header_.sharpness_level );
-        segment_filter.filter_level = segmentation.get().segment_filter_adjustments.at( i )
+        const int segment_level = segmentation.get().segment_filter_adjustments.at( i )
           + ( segmentation.get().absolute_segment_adjustments
               ? 0
               : segment_filter.filter_level );
 
+        /* the segment's level is clamped before the reference and mode adjustments */
+        segment_filter.filter_level = min( max( segment_level, 0 ), 63 );
+
         segment_loopfilters.at( i ) = segment_filter;
       }
     }
-- 
2.43.0


From db9c40ba75fc4aa2a20c0fb1b38f96477f2a2614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:33 +0000
Subject: [PATCH 03/36] fix: start a new segmentation map with every macroblock
 in segment 0

A frame may enable segmentation without sending a map; macroblocks are then
in segment 0 (libvpx, RFC 6386 reference decoder). The map started out as 3.
---
 src/decoder/decoder_state.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index 7740940..c51dd5f 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -170,7 +170,7 @@ template <class HeaderType>
 Segmentation::Segmentation( const HeaderType & header,
                             const unsigned int width,
                             const unsigned int height )
-  : map( width, height, 3 )
+  : map( width, height, 0 )
 {
   update( header );
 }
-- 
2.43.0


From 133fcebde653c85f86b43e6e20c8e8bb7e8ff5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:33 +0000
Subject: [PATCH 04/36] fix: keep loop filter deltas that an update does not
 mention

Each of the eight deltas has its own update flag (RFC 6386 section 9.6); one
whose flag is clear keeps its value. They were reset to zero instead.
---
 src/decoder/decoder_state.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index c51dd5f..e123f04 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -57,8 +57,11 @@ void FilterAdjustments::update( const HeaderType & header ) {
   /* update additional in-loop deblocking filter adjustments */
   if ( header.mode_lf_adjustments.get().initialized() ) {
     for ( unsigned int i = 0; i < loopfilter_ref_adjustments.size(); i++ ) {
-      loopfilter_ref_adjustments.at( i ) = header.mode_lf_adjustments.get().get().ref_update.at( i ).get_or( 0 );
-      loopfilter_mode_adjustments.at( i ) = header.mode_lf_adjustments.get().get().mode_update.at( i ).get_or( 0 );
+      /* a delta that is not sent keeps its previous value */
+      loopfilter_ref_adjustments.at( i )
+        = header.mode_lf_adjustments.get().get().ref_update.at( i ).get_or( loopfilter_ref_adjustments.at( i ) );
+      loopfilter_mode_adjustments.at( i )
+        = header.mode_lf_adjustments.get().get().mode_update.at( i ).get_or( loopfilter_mode_adjustments.at( i ) );
     }
   }
 }
-- 
2.43.0


From 5a3ef447add816a7b9d6c6fb161d8b048788860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:33 +0000
Subject: [PATCH 05/36] fix: include the mode adjustments in the filter
 adjustments' hash

The second range ran from the mode adjustments' begin to the reference
adjustments' end, so decoder states that differ only in a mode adjustment
had the same hash.
---
 src/decoder/decoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index 6f78782..b273c82 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -334,7 +334,7 @@ size_t FilterAdjustments::hash( void ) const
 
   boost::hash_range( hash_val, loopfilter_ref_adjustments.begin(), loopfilter_ref_adjustments.end() );
 
-  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_ref_adjustments.end() );
+  boost::hash_range( hash_val, loopfilter_mode_adjustments.begin(), loopfilter_mode_adjustments.end() );
 
   return hash_val;
 }
-- 
2.43.0


From 744c01d28e53b82a5e93d09266e10603f80882f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:56 +0000
Subject: [PATCH 06/36] fix: check the length of an ack's state list before
 allocating it

A 20-byte datagram could make the sender allocate up to 16 GB.
---
 src/net/packet.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/net/packet.cc b/src/net/packet.cc
index 3d0b322..bbb61ac 100644
--- a/src/net/packet.cc
+++ b/src/net/packet.cc
@@ -302,10 +302,15 @@ AckPacket::AckPacket( const Chunk & str )
     fragment_no_( str( 6, 2 ).le16() ),
     avg_delay_( str( 8, 4 ).le32() ),
     current_state_( str( 12, 4 ).le32() ),
-    complete_states_( str( 16, 4 ).le32() )
+    complete_states_()
 {
-  for ( size_t i = 0; i < complete_states_.size(); i++ ) {
-    complete_states_[ i ] = str( 20 + i * 4, 4 ).le32();
+  const uint64_t state_count = str( 16, 4 ).le32();
+
+  /* make sure that the datagram has all the states before allocating them */
+  const Chunk states = str( 20, state_count * 4 );
+
+  for ( size_t i = 0; i < state_count; i++ ) {
+    complete_states_.push_back( states( i * 4, 4 ).le32() );
   }
 }
 
-- 
2.43.0


From 723fd4d6017cac77804db6dae422e3130d0d8844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:23 +0000
Subject: [PATCH 07/36] fix: do not allocate an IVF index for frames the file
 does not hold

---
 src/util/ivf.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/util/ivf.cc b/src/util/ivf.cc
index 171769e..95e3188 100644
--- a/src/util/ivf.cc
+++ b/src/util/ivf.cc
@@ -58,9 +58,7 @@ try :
           throw Unsupported( "unsupported IVF header length" );
         }
 
-        /* build the index */
-        frame_index_.reserve( frame_count_ );
-
+        /* build the index (growing it with the file: the header's count is not to be trusted) */
         uint64_t position = supported_header_len;
         for ( uint32_t i = 0; i < frame_count_; i++ ) {
           Chunk frame_header = file_( position, frame_header_len );
-- 
2.43.0


From ec5cd7383d8cb0aa683e80c716ed73fc498af258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:03 +0000
Subject: [PATCH 08/36] fix: refuse malformed saved decoder states instead of
 asserting

---
 src/decoder/decoder.cc              | 69 +++++++++++++++++++----------
 src/decoder/enc_state_serializer.hh | 34 +++++++-------
 src/decoder/macroblock.cc           |  5 +++
 src/decoder/probability_tables.cc   |  9 ++--
 4 files changed, 69 insertions(+), 48 deletions(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index b273c82..ce76b33 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -48,7 +48,14 @@ Decoder::Decoder( DecoderState state, References refs )
 Decoder::Decoder(EncoderStateDeserializer &idata)
   : state_(move(DecoderState::deserialize(idata)))
   , references_(move(References::deserialize(idata))) {
-  assert(idata.remaining() == 0);
+  if (idata.remaining() != 0) {
+    throw Invalid("decoder state: trailing data");
+  }
+
+  if (references_.last.get().display_width() != state_.width
+      or references_.last.get().display_height() != state_.height) {
+    throw Invalid("decoder state: references do not match frame size");
+  }
 }
 
 size_t Decoder::serialize(EncoderStateSerializer &odata) const {
@@ -70,12 +77,14 @@ size_t Decoder::serialize(EncoderStateSerializer &odata) const {
 
 Decoder Decoder::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::DECODER);
-  (void) data_type;   // not used except in assert
+  if (data_type != EncoderSerDesTag::DECODER) {
+    throw Invalid("decoder state: not a decoder");
+  }
 
   uint32_t len = idata.get<uint32_t>();
-  assert(len == idata.remaining());
-  (void) len;         // not used except in assert
+  if (len != idata.remaining()) {
+    throw Invalid("decoder state: wrong length");
+  }
 
   return Decoder(idata);
 }
@@ -198,15 +207,20 @@ size_t References::serialize(EncoderStateSerializer &odata) const {
 
 References References::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::REFERENCES);
-  (void) data_type;   // unused
+  if (data_type != EncoderSerDesTag::REFERENCES) {
+    throw Invalid("decoder state: references missing");
+  }
 
   uint32_t get_len = idata.get<uint32_t>();
-  assert(get_len <= idata.remaining());
-  (void) get_len;     // unused
+  if (get_len > idata.remaining()) {
+    throw Invalid("decoder state: references truncated");
+  }
 
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
+  if (width == 0 or height == 0) {
+    throw Invalid("decoder state: empty frame");
+  }
 
   return References(idata, width, height);
 }
@@ -246,11 +260,18 @@ DecoderState::DecoderState(EncoderStateDeserializer &idata, const unsigned s_wid
   EncoderSerDesTag seg_opt = idata.get_tag();
   if (seg_opt == EncoderSerDesTag::OPT_FULL) {
     segmentation = move(Segmentation::deserialize(idata));
+    if (segmentation.get().map.width() != width or segmentation.get().map.height() != height) {
+      throw Invalid("decoder state: segmentation map does not match frame size");
+    }
+  } else if (seg_opt != EncoderSerDesTag::OPT_EMPTY) {
+    throw Invalid("decoder state: segmentation missing");
   }
 
   EncoderSerDesTag filt_opt = idata.get_tag();
   if (filt_opt == EncoderSerDesTag::OPT_FULL) {
     filter_adjustments = move(FilterAdjustments::deserialize(idata));
+  } else if (filt_opt != EncoderSerDesTag::OPT_EMPTY) {
+    throw Invalid("decoder state: filter adjustments missing");
   }
 }
 
@@ -315,12 +336,14 @@ size_t DecoderState::serialize(EncoderStateSerializer &odata) const {
 
 DecoderState DecoderState::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::DECODER_STATE);
-  (void) data_type;   // unused
+  if (data_type != EncoderSerDesTag::DECODER_STATE) {
+    throw Invalid("decoder state: tables missing");
+  }
 
   uint32_t get_len = idata.get<uint32_t>();
-  assert(get_len <= idata.remaining());
-  (void) get_len;     // unused
+  if (get_len > idata.remaining()) {
+    throw Invalid("decoder state: tables truncated");
+  }
 
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
@@ -358,14 +381,11 @@ size_t FilterAdjustments::serialize(EncoderStateSerializer &odata) const {
 
 FilterAdjustments::FilterAdjustments(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::FILT_ADJ);
-  (void) data_type;   // not used except in assert
-
   uint32_t expect_len = num_reference_frames + 4;
   uint32_t get_len = idata.get<uint32_t>();
-  assert(expect_len == get_len);
-  (void) expect_len;  // not used except in assert
-  (void) get_len;     // "
+  if (data_type != EncoderSerDesTag::FILT_ADJ or expect_len != get_len) {
+    throw Invalid("decoder state: bad filter adjustments");
+  }
 
   for (unsigned i = 0; i < num_reference_frames; i++) {
     loopfilter_ref_adjustments.at(i) = idata.get<int8_t>();
@@ -423,16 +443,17 @@ size_t Segmentation::serialize(EncoderStateSerializer &odata) const {
 
 Segmentation Segmentation::deserialize(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::SEGM_ABS || data_type == EncoderSerDesTag::SEGM_REL);
   bool abs = data_type == EncoderSerDesTag::SEGM_ABS;
 
   uint32_t get_len = idata.get<uint32_t>();
   uint16_t width = idata.get<uint16_t>();
   uint16_t height = idata.get<uint16_t>();
-  uint32_t expect_len = 4 + num_segments + num_segments + width * height;
-  assert(expect_len == get_len);
-  (void) expect_len;    // unused except in assert
-  (void) get_len;       // unused except in assert
+  uint64_t expect_len = 4 + num_segments + num_segments + uint64_t(width) * height;
+  if ((data_type != EncoderSerDesTag::SEGM_ABS && data_type != EncoderSerDesTag::SEGM_REL)
+      || expect_len != get_len || expect_len - 4 > idata.remaining()
+      || width == 0 || height == 0) {
+    throw Invalid("decoder state: bad segmentation");
+  }
 
   return Segmentation(idata, abs, width, height);
 }
diff --git a/src/decoder/enc_state_serializer.hh b/src/decoder/enc_state_serializer.hh
index b1c362c..15920d7 100644
--- a/src/decoder/enc_state_serializer.hh
+++ b/src/decoder/enc_state_serializer.hh
@@ -37,6 +37,7 @@
 #include <utility>
 #include <vector>
 
+#include "exception.hh"
 #include "file.hh"
 #include "file_descriptor.hh"
 
@@ -164,27 +165,24 @@ class EncoderStateDeserializer : File {
     }
 
     MutableRasterHandle get_ref(EncoderSerDesTag t, const uint16_t width, const uint16_t height) {
-      MutableRasterHandle raster(width, height);
+      const uint64_t rwidth = 16 * VP8Raster::macroblock_dimension(width);
+      const uint64_t rheight = 16 * VP8Raster::macroblock_dimension(height);
+      const uint64_t expect_len = rwidth * rheight + 2 * (rwidth / 2) * (rheight / 2);
+
+      if (this->get_tag() != t) {
+        throw Invalid("decoder state: reference missing");
+      }
 
-      if (this->peek_tag() == t) {
-        EncoderSerDesTag data_type = this->get_tag();
-        assert(data_type == t);
-        (void) t;           // not used except in assert
-        (void) data_type;   // not used except in assert
-        unsigned rwidth = raster.get().width();
-        unsigned rheight = raster.get().height();
-
-        uint32_t expect_len = rwidth * rheight + 2 * (rwidth / 2) * (rheight / 2);
-        uint32_t get_len = this->get<uint32_t>();
-        assert(get_len == expect_len);
-        (void) get_len;     // only used in assert
-        (void) expect_len;  // only used in assert
-
-        raster.get().Y().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-        raster.get().U().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
-        raster.get().V().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+      if (this->get<uint32_t>() != expect_len or this->remaining() < expect_len) {
+        throw Invalid("decoder state: bad reference");
       }
 
+      MutableRasterHandle raster(width, height);
+
+      raster.get().Y().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+      raster.get().U().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+      raster.get().V().forall([this](uint8_t &f){ f = this->get<uint8_t>(); });
+
       return raster;
     }
 };
diff --git a/src/decoder/macroblock.cc b/src/decoder/macroblock.cc
index de92984..25007ca 100644
--- a/src/decoder/macroblock.cc
+++ b/src/decoder/macroblock.cc
@@ -79,6 +79,11 @@ void Macroblock<FrameHeaderType, MacroblockHeaderType>::update_segmentation( Seg
 
   /* cache segment id of this macroblock*/
   segment_id_ = mutable_segmentation_map.at( context_.column, context_.row );
+
+  /* a map that came from a saved state is not known to be valid */
+  if ( segment_id_ >= num_segments ) {
+    throw Invalid( "segmentation map names a segment that does not exist" );
+  }
 }
 
 template <>
diff --git a/src/decoder/probability_tables.cc b/src/decoder/probability_tables.cc
index d0093cd..1b9f65a 100644
--- a/src/decoder/probability_tables.cc
+++ b/src/decoder/probability_tables.cc
@@ -159,15 +159,12 @@ uint32_t ProbabilityTables::serialize(EncoderStateSerializer &odata) const {
 
 ProbabilityTables::ProbabilityTables(EncoderStateDeserializer &idata) {
   EncoderSerDesTag data_type = idata.get_tag();
-  assert(data_type == EncoderSerDesTag::PROB_TABLE);
-  (void) data_type;   // unused except in assert
-
   uint32_t expect_len = BLOCK_TYPES * COEF_BANDS * PREV_COEF_CONTEXTS * ENTROPY_NODES +
                         y_mode_probs.size() + uv_mode_probs.size() + 2 * MV_PROB_CNT;
   uint32_t get_len = idata.get<uint32_t>();
-  assert(expect_len == get_len);
-  (void) expect_len;  // uunusd except in assert
-  (void) get_len;     // "
+  if (data_type != EncoderSerDesTag::PROB_TABLE or expect_len != get_len) {
+    throw Invalid("decoder state: bad probability tables");
+  }
 
   for (unsigned i = 0; i < BLOCK_TYPES; i++) {
     for (unsigned j = 0; j < COEF_BANDS; j++) {
-- 
2.43.0


From bbe7684124f6aac688076492e9112010be44a75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:29 +0000
Subject: [PATCH 09/36] fix: tell the bool decoder which first partitions are
 complete, not the opposite

---
 src/decoder/decoder_state.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index e123f04..884b071 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -79,7 +79,7 @@ inline KeyFrame DecoderState::parse_and_apply<KeyFrame>( const UncompressedChunk
 
   /* initialize Boolean decoder for the frame and macroblock headers */
   BoolDecoder first_partition( uncompressed_chunk.first_partition(),
-                               uncompressed_chunk.corruption_level() >= CORRUPTED_FIRST_PARTITION );
+                               uncompressed_chunk.corruption_level() < CORRUPTED_FIRST_PARTITION );
 
   if ( uncompressed_chunk.experimental() ) {
     throw Invalid( "experimental key frame" );
@@ -120,7 +120,7 @@ inline InterFrame DecoderState::parse_and_apply<InterFrame>( const UncompressedC
 
   /* initialize Boolean decoder for the frame and macroblock headers */
   BoolDecoder first_partition( uncompressed_chunk.first_partition(),
-                               uncompressed_chunk.corruption_level() >= CORRUPTED_FIRST_PARTITION );
+                               uncompressed_chunk.corruption_level() < CORRUPTED_FIRST_PARTITION );
 
   /* parse interframe header */
   InterFrame myframe( uncompressed_chunk.show_frame(),
-- 
2.43.0


From 875d222c028ebf68e4381d1cc31edbe576c5f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:56 +0000
Subject: [PATCH 10/36] fix: accept partial frames with several residual
 partitions when concealing errors

---
 src/decoder/uncompressed_chunk.cc | 14 ++++++++++++--
 src/decoder/uncompressed_chunk.hh |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/decoder/uncompressed_chunk.cc b/src/decoder/uncompressed_chunk.cc
index a674fc6..3b61e61 100644
--- a/src/decoder/uncompressed_chunk.cc
+++ b/src/decoder/uncompressed_chunk.cc
@@ -42,7 +42,8 @@ UncompressedChunk::UncompressedChunk( const Chunk & frame,
     experimental_(),
     first_partition_( nullptr, 0 ),
     rest_( nullptr, 0 ),
-    corruption_level_( NO_CORRUPTION )
+    corruption_level_( NO_CORRUPTION ),
+    accept_partial_( accept_partial )
 {
   try {
     /* flags */
@@ -137,13 +138,22 @@ const vector< Chunk > UncompressedChunk::dct_partitions( const uint8_t num ) con
   /* get the lengths of all DCT partitions except the last one */
   vector< uint32_t > partition_lengths;
   for ( uint8_t i = 0; i < num - 1; i++ ) {
+    if ( accept_partial_ and rest_of_frame.size() < 3 ) {
+      /* the frame ends before this length: nothing of the partitions arrived */
+      rest_of_frame = Chunk( nullptr, 0 );
+      partition_lengths.push_back( 0 );
+      continue;
+    }
+
     partition_lengths.push_back( rest_of_frame.bits( 0, 24 ) );
     rest_of_frame = rest_of_frame( 3 );
   }
 
   /* make all the DCT partitions */
   vector< Chunk > dct_partitions;
-  for ( const auto & length : partition_lengths ) {
+  for ( const auto & stated_length : partition_lengths ) {
+    /* of a partial frame, take what arrived */
+    const uint64_t length = accept_partial_ ? min<uint64_t>( stated_length, rest_of_frame.size() ) : stated_length;
     dct_partitions.emplace_back( rest_of_frame( 0, length ) );
     rest_of_frame = rest_of_frame( length );
   }
diff --git a/src/decoder/uncompressed_chunk.hh b/src/decoder/uncompressed_chunk.hh
index f4c9c08..fe435c9 100644
--- a/src/decoder/uncompressed_chunk.hh
+++ b/src/decoder/uncompressed_chunk.hh
@@ -59,6 +59,7 @@ private:
   Chunk first_partition_;
   Chunk rest_;
   CorruptionLevel corruption_level_;
+  bool accept_partial_;
 
 public:
   UncompressedChunk( const Chunk & frame, const uint16_t expected_width,
-- 
2.43.0


From d7932c5b4885dbac3b1b2aba32851c3e6ac850f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:26 +0000
Subject: [PATCH 11/36] fix: let an Optional be assigned to itself

Assigning destroyed the object before copying from it, so assigning a
decoder whose state has segmentation to itself read freed memory.
---
 src/util/optional.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/optional.hh b/src/util/optional.hh
index 74e9a6a..4a94e25 100644
--- a/src/util/optional.hh
+++ b/src/util/optional.hh
@@ -89,6 +89,8 @@ public:
   /* move assignment operators */
   const Optional & operator=( Optional<T> && other )
   {
+    if ( this == &other ) { return *this; }
+
     /* destroy if necessary */
     if ( initialized_ ) {
       object_.~T();
@@ -104,6 +106,8 @@ public:
   /* copy assignment operator */
   const Optional & operator=( const Optional<T> & other )
   {
+    if ( this == &other ) { return *this; }
+
     /* destroy if necessary */
     if ( initialized_ ) {
       object_.~T();
-- 
2.43.0


From e0e27250e557bb412b539d47e7d0d9105a0c3d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:25 +0000
Subject: [PATCH 12/36] fix: make room for whole macroblocks in a SafeRaster

It was sized for the displayed picture but filled with the
macroblock-aligned one, so the encoder wrote behind the buffer for every
picture whose width is not a multiple of 16.
---
 src/decoder/safe_raster.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoder/safe_raster.cc b/src/decoder/safe_raster.cc
index 1105c7a..8f34ebf 100644
--- a/src/decoder/safe_raster.cc
+++ b/src/decoder/safe_raster.cc
@@ -31,7 +31,8 @@
 #include "decoder.hh"
 
 SafeRaster::SafeRaster( uint16_t width, uint16_t height )
-  : safe_Y_( width + MARGIN_WIDTH * 2, height + MARGIN_WIDTH * 2 ),
+  : safe_Y_( 16 * VP8Raster::macroblock_dimension( width ) + MARGIN_WIDTH * 2,
+             16 * VP8Raster::macroblock_dimension( height ) + MARGIN_WIDTH * 2 ),
     display_width_( width ), display_height_( height )
 {}
 
-- 
2.43.0


From 9f003d21ec78376f0f4bbe2ecdddae3d9c0366bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:12 +0000
Subject: [PATCH 13/36] fix: drop the segmentation a decoder state brought
 along when encoding without it

An encoder continuing from a decoder whose state has segmentation emitted
frames without it, but reconstructed them with the old segment quantizers
and filter levels, so decoders arrived at another picture.
---
 src/encoder/encode_inter.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index f442ad8..3cd87f6 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -158,6 +158,10 @@ void Encoder::update_decoder_state( const InterFrame & frame )
     decoder_state_.probability_tables.update( frame.header() );
   }
 
+  if ( not frame.header().update_segmentation.initialized() ) {
+    decoder_state_.segmentation.clear();
+  }
+
   if ( frame.header().mode_lf_adjustments.initialized() ) {
     if ( decoder_state_.filter_adjustments.initialized() ) {
       decoder_state_.filter_adjustments.get().update( frame.header() );
@@ -584,6 +588,9 @@ pair<InterFrame &, double> Encoder::encode_raster<InterFrame>( const VP8Raster &
 
   InterFrame & frame = inter_frame_;
 
+  /* the frame will not carry segmentation */
+  decoder_state_.segmentation.clear();
+
   frame.mutable_header().quant_indices = quant_indices;
   frame.mutable_header().refresh_entropy_probs = true;
   frame.mutable_header().refresh_last = true;
-- 
2.43.0


From 31ebe3dc3b740ca8b971afae8570642fd8929c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:48 +0000
Subject: [PATCH 14/36] fix: encode into recycled frames as into new ones

The frames the encoder works in are reused and pooled. What was left in
their headers (probability updates, reference probabilities) went out with
the next frame, token statistics were gathered with the previous frame's Y2
links, and size estimates predicted from uninitialised samples, so that the
output depended on what the process had encoded before.
---
 src/encoder/encode_inter.cc    |  9 +++++++--
 src/encoder/encode_intra.cc    | 13 +++++++++----
 src/encoder/size_estimation.cc | 10 ++++++++++
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index 3cd87f6..fbb98b5 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -591,6 +591,8 @@ pair<InterFrame &, double> Encoder::encode_raster<InterFrame>( const VP8Raster &
   /* the frame will not carry segmentation */
   decoder_state_.segmentation.clear();
 
+  /* the frame is recycled; nothing may remain of its previous header */
+  frame.mutable_header() = InterFrameHeader( BoolDecoder::zero_decoder() );
   frame.mutable_header().quant_indices = quant_indices;
   frame.mutable_header().refresh_entropy_probs = true;
   frame.mutable_header().refresh_last = true;
@@ -637,13 +639,16 @@ pair<InterFrame &, double> Encoder::encode_raster<InterFrame>( const VP8Raster &
       else {
         frame_mb.reconstruct_intra( quantizer, reconstructed_mb );
       }
-
-      frame_mb.accumulate_token_branches( token_branch_counts );
     }
   );
 
+  /* the tokens' contexts are only known once the Y2 blocks are linked */
   frame.relink_y2_blocks();
 
+  frame.macroblocks().forall(
+    [&] ( const InterFrameMacroblock & frame_mb ) { frame_mb.accumulate_token_branches( token_branch_counts ); }
+  );
+
   optimize_prob_skip( frame );
   optimize_interframe_probs( frame );
   optimize_probability_tables( frame, token_branch_counts );
diff --git a/src/encoder/encode_intra.cc b/src/encoder/encode_intra.cc
index f39b785..29c5ce6 100644
--- a/src/encoder/encode_intra.cc
+++ b/src/encoder/encode_intra.cc
@@ -396,6 +396,8 @@ pair<KeyFrame &, double> Encoder::encode_raster<KeyFrame>( const VP8Raster & ras
 
   KeyFrame & frame = key_frame_;
 
+  /* the frame is recycled; nothing may remain of its previous header */
+  frame.mutable_header() = KeyFrameHeader( BoolDecoder::zero_decoder() );
   frame.mutable_header().quant_indices = quant_indices;
   frame.mutable_header().refresh_entropy_probs = true;
 
@@ -430,18 +432,21 @@ pair<KeyFrame &, double> Encoder::encode_raster<KeyFrame>( const VP8Raster & ras
 
         frame_mb.calculate_has_nonzero();
         frame_mb.reconstruct_intra( quantizer, reconstructed_mb );
-
-        frame_mb.accumulate_token_branches( token_branch_counts );
       }
     );
 
+    /* the tokens' contexts are only known once the Y2 blocks are linked */
+    frame.relink_y2_blocks();
+
+    frame.macroblocks().forall(
+      [&] ( const KeyFrameMacroblock & frame_mb ) { frame_mb.accumulate_token_branches( token_branch_counts ); }
+    );
+
     optimize_probability_tables( frame, token_branch_counts );
   }
 
   optimize_prob_skip( frame );
 
-  frame.relink_y2_blocks();
-
   // optimize_prob_skip( frame );
   apply_best_loopfilter_settings( raster, reconstructed_raster_handle.get(), frame );
 
diff --git a/src/encoder/size_estimation.cc b/src/encoder/size_estimation.cc
index ad35d1c..b1ea941 100644
--- a/src/encoder/size_estimation.cc
+++ b/src/encoder/size_estimation.cc
@@ -49,6 +49,8 @@ size_t Encoder::estimate_size<KeyFrame>( const VP8Raster & raster, const size_t
   QuantIndices quant_indices;
   quant_indices.y_ac_qi = y_ac_qi;
 
+  /* the frame is recycled; nothing may remain of its previous header */
+  frame.mutable_header() = KeyFrameHeader( BoolDecoder::zero_decoder() );
   frame.mutable_header().quant_indices = quant_indices;
   frame.mutable_header().refresh_entropy_probs = true; // XXX
 
@@ -57,6 +59,9 @@ size_t Encoder::estimate_size<KeyFrame>( const VP8Raster & raster, const size_t
 
   VP8Raster & reconstructed_raster = reconstructed_raster_handle.get();
 
+  /* prediction looks beyond the macroblocks that are reconstructed here */
+  reconstructed_raster.copy_from( raster );
+
   update_rd_multipliers( quantizer );
 
   // TokenBranchCounts token_branch_counts;
@@ -111,6 +116,8 @@ size_t Encoder::estimate_size<InterFrame>( const VP8Raster & raster, const size_
   QuantIndices quant_indices;
   quant_indices.y_ac_qi = y_ac_qi;
 
+  /* the frame is recycled; nothing may remain of its previous header */
+  frame.mutable_header() = InterFrameHeader( BoolDecoder::zero_decoder() );
   frame.mutable_header().quant_indices = quant_indices;
   frame.mutable_header().refresh_entropy_probs = true;
   frame.mutable_header().refresh_last = true;
@@ -122,6 +129,9 @@ size_t Encoder::estimate_size<InterFrame>( const VP8Raster & raster, const size_
 
   VP8Raster & reconstructed_raster = reconstructed_raster_handle.get();
 
+  /* prediction looks beyond the macroblocks that are reconstructed here */
+  reconstructed_raster.copy_from( raster );
+
   update_rd_multipliers( quantizer );
 
   frame.mutable_macroblocks().forall_ij(
-- 
2.43.0


From 70ccaf3f1029c1e409bb4ac459c335ddbcbb53ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:01 +0000
Subject: [PATCH 15/36] fix: measure the SSIM while searching for a quantizer

The search asked for the state to be updated instead of for the SSIM to be
computed, took every frame's SSIM for zero and so always ended at the
finest quantizer.
---
 src/encoder/encoder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/encoder/encoder.cc b/src/encoder/encoder.cc
index 99acd88..8901259 100644
--- a/src/encoder/encoder.cc
+++ b/src/encoder/encoder.cc
@@ -530,7 +530,7 @@ FrameType & Encoder::encode_with_quantizer_search( const VP8Raster & raster,
   while ( y_ac_qi_min <= y_ac_qi_max ) {
     quant_indices.y_ac_qi = ( y_ac_qi_min + y_ac_qi_max ) / 2;
 
-    pair<FrameType &, double> encoded_frame = encode_raster<FrameType>( raster, quant_indices, true );
+    pair<FrameType &, double> encoded_frame = encode_raster<FrameType>( raster, quant_indices, false, true );
 
     double current_ssim = encoded_frame.second;
 
-- 
2.43.0


From 2fe3c2c78e74358b73ebe4fdee728fe0e38b9bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:21 +0000
Subject: [PATCH 16/36] fix: remember segmentation and filter deltas while they
 are switched off

A decoder forgot them when a frame did without them, so a later frame that
switched them on again without resending everything was decoded with defaults
instead of the values in force before.  Whether they are in use is a matter of
each frame's header, the values persist until the next key frame.
---
 src/decoder/decoder_state.hh | 10 +++-------
 src/decoder/frame.cc         | 17 +++++++++++------
 src/encoder/encode_inter.cc  |  9 ---------
 3 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/src/decoder/decoder_state.hh b/src/decoder/decoder_state.hh
index 884b071..37ce33b 100644
--- a/src/decoder/decoder_state.hh
+++ b/src/decoder/decoder_state.hh
@@ -140,9 +140,7 @@ inline InterFrame DecoderState::parse_and_apply<InterFrame>( const UncompressedC
     } else {
       filter_adjustments.initialize( myframe.header() );
     }
-  } else {
-    filter_adjustments.clear();
-  }
+  } /* otherwise they are switched off for this frame, but not forgotten */
 
   /* update segmentation information */
   if ( myframe.header().update_segmentation.initialized() ) {
@@ -151,15 +149,13 @@ inline InterFrame DecoderState::parse_and_apply<InterFrame>( const UncompressedC
     } else {
       segmentation.initialize( myframe.header(), width, height );
     }
-  } else {
-    segmentation.clear();
-  }
+  } /* otherwise it is switched off for this frame, but not forgotten */
 
   /* parse the frame (and update the persistent segmentation map) */
   myframe.parse_macroblock_headers( first_partition, frame_probability_tables,
                                     ( uncompressed_chunk.corruption_level() > CORRUPTED_RESIDUES ) );
 
-  if ( segmentation.initialized() ) {
+  if ( myframe.header().update_segmentation.initialized() ) {
     myframe.update_segmentation( segmentation.get().map );
   }
 
diff --git a/src/decoder/frame.cc b/src/decoder/frame.cc
index f8659d2..b5646b7 100644
--- a/src/decoder/frame.cc
+++ b/src/decoder/frame.cc
@@ -144,6 +144,7 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
   if ( header_.loop_filter_level ) {
     /* calculate per-segment filter adjustments if
        segmentation is enabled */
+    const bool segmentation_enabled = header_.update_segmentation.initialized() and segmentation.initialized();
 
     const FilterParameters frame_loopfilter( header_.filter_type,
                                              header_.loop_filter_level,
@@ -151,7 +152,7 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
 
     SafeArray< FilterParameters, num_segments > segment_loopfilters;
 
-    if ( segmentation.initialized() ) {
+    if ( segmentation_enabled ) {
       for ( uint8_t i = 0; i < num_segments; i++ ) {
         FilterParameters segment_filter( header_.filter_type,
                                          header_.loop_filter_level,
@@ -170,14 +171,16 @@ void Frame<FrameHeaderType, MacroblockType>::loopfilter( const Optional< Segment
 
     /* the macroblock needs to know whether the mode- and reference-based
        filter adjustments are enabled */
+    const Optional< FilterAdjustments > enabled_filter_adjustments
+      = header_.mode_lf_adjustments.initialized() ? filter_adjustments : Optional< FilterAdjustments >();
 
     macroblock_headers_.get().forall_ij( [&]( const MacroblockType & macroblock,
                                               const unsigned int column,
                                               const unsigned int row )
                                          {
                                            VP8Raster::Macroblock output = raster.macroblock( column, row );
-                                           macroblock.loopfilter( filter_adjustments,
-                                                                  segmentation.initialized()
+                                           macroblock.loopfilter( enabled_filter_adjustments,
+                                                                  segmentation_enabled
                                                                   ? segment_loopfilters.at( macroblock.segment_id() )
                                                                   : frame_loopfilter,
                                                                   output ); } );
@@ -193,7 +196,7 @@ SafeArray<Quantizer, num_segments> Frame<FrameHeaderType, MacroblockType>::calcu
 
   SafeArray< Quantizer, num_segments > segment_quantizers;
 
-  if ( segmentation.initialized() ) {
+  if ( header_.update_segmentation.initialized() and segmentation.initialized() ) {
     for ( uint8_t i = 0; i < num_segments; i++ ) {
       QuantIndices segment_indices( header_.quant_indices );
       const int segment_qi = segmentation.get().segment_quantizer_adjustments.at( i )
@@ -217,12 +220,13 @@ void KeyFrame::decode( const Optional< Segmentation > & segmentation, const Refe
 {
   const Quantizer frame_quantizer( header_.quant_indices );
   const auto segment_quantizers = calculate_segment_quantizers( segmentation );
+  const bool segmentation_enabled = header_.update_segmentation.initialized() and segmentation.initialized();
 
   /* process each macroblock */
   macroblock_headers_.get().forall_ij( [&]( const KeyFrameMacroblock & macroblock,
                                             const unsigned int column,
                                             const unsigned int row ) {
-                                         const auto & quantizer = segmentation.initialized()
+                                         const auto & quantizer = segmentation_enabled
                                            ? segment_quantizers.at( macroblock.segment_id() )
                                            : frame_quantizer;
                                          VP8Raster::Macroblock output = raster.macroblock( column, row );
@@ -236,12 +240,13 @@ void InterFrame::decode( const Optional<Segmentation> & segmentation, const Refe
 {
   const Quantizer frame_quantizer( header_.quant_indices );
   const auto segment_quantizers = calculate_segment_quantizers( segmentation );
+  const bool segmentation_enabled = header_.update_segmentation.initialized() and segmentation.initialized();
 
   /* process each macroblock */
   macroblock_headers_.get().forall_ij( [&]( const InterFrameMacroblock & macroblock,
                                             const unsigned int column,
                                             const unsigned int row ) {
-                                         const auto & quantizer = segmentation.initialized()
+                                         const auto & quantizer = segmentation_enabled
                                            ? segment_quantizers.at( macroblock.segment_id() )
                                            : frame_quantizer;
                                          VP8Raster::Macroblock output = raster.macroblock( column, row );
diff --git a/src/encoder/encode_inter.cc b/src/encoder/encode_inter.cc
index fbb98b5..d820f6d 100644
--- a/src/encoder/encode_inter.cc
+++ b/src/encoder/encode_inter.cc
@@ -158,18 +158,12 @@ void Encoder::update_decoder_state( const InterFrame & frame )
     decoder_state_.probability_tables.update( frame.header() );
   }
 
-  if ( not frame.header().update_segmentation.initialized() ) {
-    decoder_state_.segmentation.clear();
-  }
-
   if ( frame.header().mode_lf_adjustments.initialized() ) {
     if ( decoder_state_.filter_adjustments.initialized() ) {
       decoder_state_.filter_adjustments.get().update( frame.header() );
     } else {
       decoder_state_.filter_adjustments.initialize( frame.header() );
     }
-  } else {
-    decoder_state_.filter_adjustments.clear();
   }
 }
 
@@ -588,9 +582,6 @@ pair<InterFrame &, double> Encoder::encode_raster<InterFrame>( const VP8Raster &
 
   InterFrame & frame = inter_frame_;
 
-  /* the frame will not carry segmentation */
-  decoder_state_.segmentation.clear();
-
   /* the frame is recycled; nothing may remain of its previous header */
   frame.mutable_header() = InterFrameHeader( BoolDecoder::zero_decoder() );
   frame.mutable_header().quant_indices = quant_indices;
-- 
2.43.0


From 032cca26da6249c43d33f6a9b78448fc499943c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:04 +0000
Subject: [PATCH 17/36] fix: read raw video of odd sizes as it is written

The chroma planes of a picture with odd width or height were read one sample
short per row or one row short, so every following sample was misplaced.
---
 src/input/yuv4mpeg.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/input/yuv4mpeg.cc b/src/input/yuv4mpeg.cc
index 3b69bc9..ffd545c 100644
--- a/src/input/yuv4mpeg.cc
+++ b/src/input/yuv4mpeg.cc
@@ -55,7 +55,7 @@ size_t YUV4MPEGHeader::frame_length()
     case C420:
     case C420jpeg:
     case C420paldv:
-      return ( width * height * 3 ) / 2;
+      return y_plane_length() + 2 * uv_plane_length();
     default: throw LogicError();
   }
 }
@@ -77,7 +77,7 @@ size_t YUV4MPEGHeader::uv_plane_length()
     case C420:
     case C420jpeg:
     case C420paldv:
-      return ( width * height / 4 );
+      return ( ( width + 1 ) / 2 ) * ( ( height + 1 ) / 2 );
     default: throw LogicError();
   }
 }
@@ -290,13 +290,13 @@ Optional<RasterHandle> YUV4MPEGReader::get_next_frame()
     memcpy( &raster.get().Y().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().U().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-  for ( size_t row = 0; row < display_height() / 2; row++ ) {
-    read_data = fd_.read_exactly( display_width() / 2 );
+  for ( size_t row = 0; row < raster.get().chroma_display_height(); row++ ) {
+    read_data = fd_.read_exactly( raster.get().chroma_display_width() );
     memcpy( &raster.get().V().storage()->at( 0, row ), &read_data[ 0 ], read_data.length() );
   }
 
-- 
2.43.0


From bae8b727c17074c0bfcda73ffa60e3087f1f5ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:13 +0000
Subject: [PATCH 18/36] fix: keep a receiver state that is reached again while
 it is still listed as complete

---
 src/salsify/salsify-receiver.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/salsify/salsify-receiver.cc b/src/salsify/salsify-receiver.cc
index 20f6386..e4586ff 100644
--- a/src/salsify/salsify-receiver.cc
+++ b/src/salsify/salsify-receiver.cc
@@ -28,6 +28,7 @@
 
 #include <getopt.h>
 
+#include <algorithm>
 #include <cstdlib>
 #include <random>
 #include <unordered_map>
@@ -281,7 +282,10 @@ int main( int argc, char *argv[] )
 
           for ( ; it != complete_states.end(); it++ ) {
             if ( *it != expected_source_state ) {
-              decoders.erase( *it );
+              /* the same state can be reached (and listed) more than once */
+              if ( find( next( it ), complete_states.end(), *it ) == complete_states.end() ) {
+                decoders.erase( *it );
+              }
             }
             else {
               break;
-- 
2.43.0


From 4dd0f911261ae332e0e3334726a2915d00feba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:19 +0000
Subject: [PATCH 19/36] fix: ignore acknowledgements of frames the sender has
 not sent

---
 src/salsify/salsify-sender.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index f3dd111..0e08a26 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -667,6 +667,11 @@ int main( int argc, char *argv[] )
         return ResultType::Continue;
       }
 
+      if ( ack.frame_no() >= cumulative_fpf.size() ) {
+        /* this is an ack for a frame that we have not sent */
+        return ResultType::Continue;
+      }
+
       uint64_t this_ack_seq = ack_seq_no( ack, cumulative_fpf );
 
       if ( last_acked != numeric_limits<uint64_t>::max() and
-- 
2.43.0


From 5c3acac68c5a2c7c38562f55842bc6e0be203929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:19 +0000
Subject: [PATCH 20/36] fix: no division by zero when the receiver reports an
 average delay of zero

---
 src/salsify/salsify-sender.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index 0e08a26..4a728d4 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -454,7 +454,7 @@ int main( int argc, char *argv[] )
         /* is it time to update the quality setting? */
         if ( next_cc_update <= system_clock::now() ) {
           const size_t old_quantizer = cc_quantizer;
-          cc_rate = 1000 * 1000 * 1400 / avg_delay;
+          cc_rate = 1000 * 1000 * 1400 / max( 1u, avg_delay );
 
           double change_percentage = ( 1.0 * cc_rate - 1.0 * cc_rate_ewma ) /
                                      ( 1.0 * cc_rate_ewma );
-- 
2.43.0


From fcd9bd4542f182c317e5f1cca1d5f378f5a65cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:19 +0000
Subject: [PATCH 21/36] fix: start from a complete state the sender still has
 when acknowledgements were reordered

---
 src/salsify/salsify-sender.cc | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/salsify/salsify-sender.cc b/src/salsify/salsify-sender.cc
index 4a728d4..96da590 100644
--- a/src/salsify/salsify-sender.cc
+++ b/src/salsify/salsify-sender.cc
@@ -382,6 +382,16 @@ int main( int argc, char *argv[] )
 
       uint32_t selected_source_hash = initial_state;
 
+      /* acks can be reordered in the network, so the states that they list may
+         have been cleaned up already */
+      const auto latest_complete_state = [&]()
+        {
+          const auto it = find_if( receiver_complete_states.rbegin(), receiver_complete_states.rend(),
+                                   [&]( const uint32_t state ) { return encoders.count( state ) > 0; } );
+
+          return ( it != receiver_complete_states.rend() ) ? *it : initial_state;
+        };
+
       /* reason about the state of the receiver based on ack messages
        * this is the logic that decides which encoder to use. for example,
        * if the packet loss is huge, we can always select an encoder with a sure
@@ -390,15 +400,9 @@ int main( int argc, char *argv[] )
       /* if we're in 'conservative' mode, let's just encode based on something
          we're sure that is available in the receiver */
       if ( system_clock::now() < conservative_until ) {
-        if( receiver_complete_states.size() == 0 ) {
-          /* and the receiver doesn't have any other states, other than the
-             default state */
-          selected_source_hash = initial_state;
-        }
-        else {
-          /* the receiver has at least one stored state, let's use it */
-          selected_source_hash = receiver_complete_states.back();
-        }
+        /* let's use the latest state stored by the receiver that we still have,
+           or the default state if there is none */
+        selected_source_hash = latest_complete_state();
       }
       else if ( not receiver_last_acked_state.initialized() ) {
         /* okay, we're not in 'conservative' mode */
@@ -423,15 +427,9 @@ int main( int argc, char *argv[] )
           cerr << "Going into 'conservative' mode for next "
                << conservative_for.count() << " seconds." << endl;
 
-          if( receiver_complete_states.size() == 0 ) {
-            /* and the receiver doesn't have any other states, other than the
-               default state */
-            selected_source_hash = initial_state;
-          }
-          else {
-            /* the receiver has at least one stored state, let's use it */
-            selected_source_hash = receiver_complete_states.back();
-          }
+          /* let's use the latest state stored by the receiver that we still have,
+             or the default state if there is none */
+          selected_source_hash = latest_complete_state();
         }
         else {
           /* we assume that the receiver is in a right state */
-- 
2.43.0


From 1844cd5e1b11e0fa7d182e8b26a9790f23b92d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 22/36] fix: give every thread its own zero decoder

The decoder of an empty range is changed by decoding from it (its state moves
along even though every byte it reads is a zero), and it was shared by all
threads without synchronization.
---
 src/decoder/bool_decoder.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoder/bool_decoder.hh b/src/decoder/bool_decoder.hh
index b40d906..9cb6c41 100644
--- a/src/decoder/bool_decoder.hh
+++ b/src/decoder/bool_decoder.hh
@@ -110,7 +110,7 @@ public:
 
   static BoolDecoder & zero_decoder()
   {
-    static BoolDecoder zd { { nullptr, 0 } };
+    static thread_local BoolDecoder zd { { nullptr, 0 } };
     return zd;
   }
 
-- 
2.43.0


From 11db04e04c7c067a4204f37ef3ec17f5f6ef8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 23/36] fix: no empty subsampled frames for pictures narrower
 or lower than four samples

With assertions on (--enable-debug=asserts), constructing an Encoder for such
pictures ended the process.
---
 src/encoder/encoder.hh | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/encoder/encoder.hh b/src/encoder/encoder.hh
index 3734c7b..e56b97d 100644
--- a/src/encoder/encoder.hh
+++ b/src/encoder/encoder.hh
@@ -121,6 +121,11 @@ private:
   DecoderState decoder_state_;
   uint16_t width() const { return decoder_state_.width; }
   uint16_t height() const { return decoder_state_.height; }
+
+  /* the subsampled frame has at least one macroblock */
+  static uint16_t subsampled_dimension( const uint16_t dimension, const unsigned int factor )
+  { return std::max( 1u, dimension / factor ); }
+
   MutableRasterHandle temp_raster_handle_ { width(), height() };
   References references_;
   SafeReferences safe_references_;
@@ -133,12 +138,12 @@ private:
   EncoderQuality encode_quality_;
 
   KeyFrameHandle key_frame_ { width(), height() };
-  KeyFrameHandle subsampled_key_frame_ { uint16_t( width() / WIDTH_SAMPLE_DIMENSION_FACTOR ),
-      uint16_t( height() / HEIGHT_SAMPLE_DIMENSION_FACTOR ),
+  KeyFrameHandle subsampled_key_frame_ { subsampled_dimension( width(), WIDTH_SAMPLE_DIMENSION_FACTOR ),
+      subsampled_dimension( height(), HEIGHT_SAMPLE_DIMENSION_FACTOR ),
       subsampled_frame_pool<KeyFrame>() };
   InterFrameHandle inter_frame_ { width(), height() };
-  InterFrameHandle subsampled_inter_frame_ { uint16_t( width() / WIDTH_SAMPLE_DIMENSION_FACTOR ),
-      uint16_t( height() / HEIGHT_SAMPLE_DIMENSION_FACTOR ),
+  InterFrameHandle subsampled_inter_frame_ { subsampled_dimension( width(), WIDTH_SAMPLE_DIMENSION_FACTOR ),
+      subsampled_dimension( height(), HEIGHT_SAMPLE_DIMENSION_FACTOR ),
       subsampled_frame_pool<InterFrame>() };
 
   Optional<uint8_t> loop_filter_level_ {};
-- 
2.43.0


From 0a73a8535cfce95db94fd441414602248e66405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:48 +0000
Subject: [PATCH 24/36] fix: start new decoders from blank pictures, not
 recycled ones

---
 src/decoder/decoder.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/decoder/decoder.cc b/src/decoder/decoder.cc
index ce76b33..71f99f8 100644
--- a/src/decoder/decoder.cc
+++ b/src/decoder/decoder.cc
@@ -167,8 +167,18 @@ bool Decoder::operator==( const Decoder & other ) const
   return state_ == other.state_ and references_ == other.references_;
 }
 
+/* rasters are recycled, with the contents of their last use */
+static MutableRasterHandle blank_raster( const uint16_t width, const uint16_t height )
+{
+  MutableRasterHandle raster( width, height );
+  raster.get().Y().fill( 0 );
+  raster.get().U().fill( 0 );
+  raster.get().V().fill( 0 );
+  return raster;
+}
+
 References::References( const uint16_t width, const uint16_t height )
-  : References( MutableRasterHandle( width, height ) )
+  : References( blank_raster( width, height ) )
 {}
 
 References::References( MutableRasterHandle && raster )
-- 
2.43.0


From fd534680d2580b6a68da61b3f03c6a45023f5483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:07 +0000
Subject: [PATCH 25/36] fix: xc-zero-out-residues announces skipped macroblocks
 in the header

---
 src/frontend/xc-zero-out-residues.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/frontend/xc-zero-out-residues.cc b/src/frontend/xc-zero-out-residues.cc
index c45ccf8..5f2cef0 100644
--- a/src/frontend/xc-zero-out-residues.cc
+++ b/src/frontend/xc-zero-out-residues.cc
@@ -97,6 +97,12 @@ int main( int argc, char *argv[] )
           }
         );
 
+        /* every macroblock now says that it has no coefficients, so the
+           header must announce that they say it at all */
+        if ( not frame.header().prob_skip_false.initialized() ) {
+          frame.mutable_header().prob_skip_false.reset( 1 );
+        }
+
         ivf_writer.append_frame( frame.serialize( old_prob_tables ) );
       }
     }
-- 
2.43.0


From 49ef962b7754a26db749b1969765bc0482f7efd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:07 +0000
Subject: [PATCH 26/36] fix: xc-ssim reads ivf by default, as its usage says

---
 src/frontend/xc-ssim.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frontend/xc-ssim.cc b/src/frontend/xc-ssim.cc
index 49986be..dec54ad 100644
--- a/src/frontend/xc-ssim.cc
+++ b/src/frontend/xc-ssim.cc
@@ -34,7 +34,7 @@ int main( int argc, char *argv[] )
     return EXIT_FAILURE;
   }
 
-  string video_format[ 2 ];
+  string video_format[ 2 ] = { "ivf", "ivf" };
   bool all_planes = false;
 
   const option command_line_options[] = {
@@ -71,6 +71,7 @@ int main( int argc, char *argv[] )
 
   if ( optind + 1 >= argc ) {
     usage_error( argv[ 0 ] );
+    return EXIT_FAILURE;
   }
 
   string video_file[ 2 ];
-- 
2.43.0


From ab284e64b41cbac5174b5afefc5dbc0d64202f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:34 +0000
Subject: [PATCH 27/36] fix: set a block's type before the second pass
 quantizes it

A block that followed a Y2 block in the first pass and is predicted on its own
in the second kept its DC coefficient unquantized, and was then dequantized.
---
 src/encoder/encode_intra.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/encoder/encode_intra.cc b/src/encoder/encode_intra.cc
index 29c5ce6..06e9174 100644
--- a/src/encoder/encode_intra.cc
+++ b/src/encoder/encode_intra.cc
@@ -52,6 +52,10 @@ void Encoder::luma_sb_apply_intra_prediction( const VP8Raster::Block4 & original
                                               bmode sb_prediction_mode,
                                               const EncoderPass encoder_pass ) const
 {
+  /* the quantization below depends on the block's type, and the block may
+     have had another one in the first pass or in the frame before */
+  frame_sb.set_Y_without_Y2();
+
   frame_sb.mutable_coefficients().subtract_dct( original_sb,
     reconstructed_sb.contents() );
 
@@ -63,7 +67,6 @@ void Encoder::luma_sb_apply_intra_prediction( const VP8Raster::Block4 & original
   }
 
   frame_sb.set_prediction_mode( sb_prediction_mode );
-  frame_sb.set_Y_without_Y2();
   frame_sb.calculate_has_nonzero();
 
   reconstructed_sb.intra_predict( sb_prediction_mode );
-- 
2.43.0


From b852799d7c5d257d1be5a416553d07eb669a90c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:43 +0000
Subject: [PATCH 28/36] fix: add up chroma vectors without overflow

---
 src/decoder/macroblock.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decoder/macroblock.cc b/src/decoder/macroblock.cc
index 25007ca..1ca3fa6 100644
--- a/src/decoder/macroblock.cc
+++ b/src/decoder/macroblock.cc
@@ -296,8 +296,8 @@ MotionVector MotionVector::luma_to_chroma( const MotionVector & s1,
                                            const MotionVector & s3,
                                            const MotionVector & s4 )
 {
-  const int16_t x = s1.x() + s2.x() + s3.x() + s4.x();
-  const int16_t y = s1.y() + s2.y() + s3.y() + s4.y();
+  const int x = s1.x() + s2.x() + s3.x() + s4.x();
+  const int y = s1.y() + s2.y() + s3.y() + s4.y();
 
   return MotionVector( x >= 0 ?  (x + 4) >> 3 : -((-x + 4) >> 3),
                        y >= 0 ?  (y + 4) >> 3 : -((-y + 4) >> 3) );
-- 
2.43.0


From 7faeedfba3fe96f5922db64722a8dfdfe8f3c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:43 +0000
Subject: [PATCH 29/36] fix: camera pictures whose width is not a multiple of
 16 come out sheared

---
 src/input/camera.cc | 66 ++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/src/input/camera.cc b/src/input/camera.cc
index 3946cbf..6710897 100644
--- a/src/input/camera.cc
+++ b/src/input/camera.cc
@@ -113,6 +113,19 @@ Camera::~Camera()
   SystemCall( "stream off", ioctl( camera_fd_.fd_num(), VIDIOC_STREAMOFF, &capture_type ) );
 }
 
+/* copy a tightly packed plane into a raster, whose rows may be longer;
+   returns what follows the plane */
+static const uint8_t * copy_plane( const uint8_t * src, const size_t width,
+                                   const size_t height, TwoD<uint8_t> & plane )
+{
+  for ( size_t row = 0; row < height; row++ ) {
+    memcpy( &plane.at( 0, row ), src, width );
+    src += width;
+  }
+
+  return src;
+}
+
 Optional<RasterHandle> Camera::get_next_frame()
 {
   MutableRasterHandle raster_handle { width_, height_ };
@@ -130,45 +143,35 @@ Optional<RasterHandle> Camera::get_next_frame()
   switch( pixel_format_ ) {
   case V4L2_PIX_FMT_YUYV:
     {
-    uint8_t * src = mmap_region_->addr();
-    uint8_t * dst_y_start  = &raster.Y().at( 0, 0 );
-    uint8_t * dst_cb_start = &raster.U().at( 0, 0 );
-    uint8_t * dst_cr_start = &raster.V().at( 0, 0 );
-
-    const size_t y_plane_lenght = width_ * height_;
+      const uint8_t * src = mmap_region_->addr();
 
-    for ( size_t i = 0; i < y_plane_lenght; i++ ) {
-      dst_y_start[ i ] = src[ i << 1 ];
-    }
+      for ( size_t row = 0; row < height_; row++ ) {
+        const uint8_t * const src_row = src + row * width_ * 2;
 
-    size_t i = 0;
+        for ( size_t column = 0; column < width_; column++ ) {
+          raster.Y().at( column, row ) = src_row[ column * 2 ];
+        }
 
-    for ( size_t row = 0; row < height_; row++ ) {
-      if ( row % 2 == 1 ) { continue; }
+        if ( row % 2 == 1 ) { continue; }
 
-      for ( size_t column = 0; column < width_ / 2; column++ ) {
-        dst_cb_start[ i ] = src[ row * width_ * 2 + column * 4 + 1 ];
-        dst_cr_start[ i ] = src[ row * width_ * 2 + column * 4 + 3 ];
-        i++;
+        for ( size_t column = 0; column < width_ / 2; column++ ) {
+          raster.U().at( column, row / 2 ) = src_row[ column * 4 + 1 ];
+          raster.V().at( column, row / 2 ) = src_row[ column * 4 + 3 ];
+        }
       }
     }
-  }
 
-  break;
+    break;
 
   case V4L2_PIX_FMT_NV12:
     {
-      memcpy( &raster.Y().at( 0, 0 ), mmap_region_->addr(), width_ * height_ );
+      const uint8_t * const src_chroma = copy_plane( mmap_region_->addr(), width_, height_, raster.Y() );
 
-      uint8_t * src_chroma_start = mmap_region_->addr() + width_ * height_;
-      uint8_t * dst_cb_start = &raster.U().at( 0, 0 );
-      uint8_t * dst_cr_start = &raster.V().at( 0, 0 );
-
-      size_t chroma_length = width_ * height_ / 4;
-
-      for ( size_t i = 0; i < chroma_length; i++ ) {
-        dst_cb_start[ i ] = src_chroma_start[ 2 * i ];
-        dst_cr_start[ i ] = src_chroma_start[ 2 * i + 1 ];
+      for ( size_t row = 0; row < height_ / 2; row++ ) {
+        for ( size_t column = 0; column < width_ / 2; column++ ) {
+          raster.U().at( column, row ) = src_chroma[ row * width_ + 2 * column ];
+          raster.V().at( column, row ) = src_chroma[ row * width_ + 2 * column + 1 ];
+        }
       }
     }
 
@@ -176,9 +179,10 @@ Optional<RasterHandle> Camera::get_next_frame()
 
   case V4L2_PIX_FMT_YUV420:
     {
-      memcpy( &raster.Y().at( 0, 0 ), mmap_region_->addr(), width_ * height_ );
-      memcpy( &raster.U().at( 0, 0 ), mmap_region_->addr() + width_ * height_, width_ * height_ / 4 );
-      memcpy( &raster.V().at( 0, 0 ), mmap_region_->addr() + width_ * height_ * 5 / 4, width_ * height_ / 4 );
+      const uint8_t * src = mmap_region_->addr();
+      src = copy_plane( src, width_, height_, raster.Y() );
+      src = copy_plane( src, width_ / 2, height_ / 2, raster.U() );
+      copy_plane( src, width_ / 2, height_ / 2, raster.V() );
     }
 
     break;
-- 
2.43.0


From c219d8548ce1ccc18e0e812ec089d852b90283d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:57 +0000
Subject: [PATCH 30/36] fix: JPEG pictures of sizes that are not multiples of a
 block overran the buffers

---
 src/input/jpeg.cc | 32 ++++++++++++++++++--------------
 src/input/jpeg.hh |  1 +
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/input/jpeg.cc b/src/input/jpeg.cc
index 9ceff65..32ff23d 100644
--- a/src/input/jpeg.cc
+++ b/src/input/jpeg.cc
@@ -86,20 +86,22 @@ void JPEGDecompresser::begin_decoding( const Chunk & chunk )
   }
 
   if ( Y_.initialized() ) {
-    if ( Y_.get().height() != height()
-         or U_.get().height() != height()
-         or V_.get().height() != height()
-         or Y_.get().width() != width()
-         or U_.get().width() != width() / 2
-         or V_.get().width() != width() / 2 ) {
+    if ( width_ != width() or height_ != height() ) {
       throw runtime_error( "JPEG size changed" );
     }
   } else {
-    Y_.initialize( width(), height() );
-    U_.initialize( width() / 2, height() );
-    V_.initialize( width() / 2, height() );
+    width_ = width();
+    height_ = height();
 
-    for ( unsigned int i = 0; i < height(); i++ ) {
+    /* libjpeg writes whole blocks of samples */
+    const unsigned int padded_width = ( width() + 2 * DCTSIZE - 1 ) / ( 2 * DCTSIZE ) * ( 2 * DCTSIZE );
+    const unsigned int padded_height = ( height() + DCTSIZE - 1 ) / DCTSIZE * DCTSIZE;
+
+    Y_.initialize( padded_width, padded_height );
+    U_.initialize( padded_width / 2, padded_height );
+    V_.initialize( padded_width / 2, padded_height );
+
+    for ( unsigned int i = 0; i < padded_height; i++ ) {
       Y_rows.emplace_back( &Y_.get().at( 0, i ) );
       U_rows.emplace_back( &U_.get().at( 0, i ) );
       V_rows.emplace_back( &V_.get().at( 0, i ) );
@@ -130,7 +132,7 @@ void JPEGDecompresser::decode( BaseRaster & r )
         &U_rows.at( decompresser_.output_scanline ),
         &V_rows.at( decompresser_.output_scanline ) };
 
-    const auto decoded = jpeg_read_raw_data( &decompresser_, image.data(), height() );
+    const auto decoded = jpeg_read_raw_data( &decompresser_, image.data(), DCTSIZE );
 
     if ( decoded != DCTSIZE ) {
       throw runtime_error( "jpeg_read_raw_data returned short read" );
@@ -139,10 +141,12 @@ void JPEGDecompresser::decode( BaseRaster & r )
 
   jpeg_finish_decompress( &decompresser_ );
 
-  memcpy( &r.Y().at( 0, 0 ), &Y_.get().at( 0, 0 ), width() * height() );
+  for ( size_t row = 0; row < height(); row++ ) {
+    memcpy( &r.Y().at( 0, row ), &Y_.get().at( 0, row ), width() );
+  }
 
-  for ( size_t row = 0; row < height() / 2; row++ ) {
-    for ( size_t column = 0; column < width() / 2; column++ ) {
+  for ( size_t row = 0; row < r.chroma_display_height(); row++ ) {
+    for ( size_t column = 0; column < r.chroma_display_width(); column++ ) {
       r.U().at( column, row ) = U_.get().at( column, row * 2 );
       r.V().at( column, row ) = V_.get().at( column, row * 2 );
     }
diff --git a/src/input/jpeg.hh b/src/input/jpeg.hh
index a5aadd3..876ed1b 100644
--- a/src/input/jpeg.hh
+++ b/src/input/jpeg.hh
@@ -45,6 +45,7 @@ class JPEGDecompresser
 
   static void error( const j_common_ptr cinfo );
 
+  unsigned int width_ { 0 }, height_ { 0 };
   Optional<TwoD<uint8_t>> Y_ {}, U_ {}, V_ {};
   std::vector<uint8_t *> Y_rows {}, U_rows {}, V_rows {};
 
-- 
2.43.0


From faf2a4833f3574ef33cbe5e62144d74284481bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:29 +0000
Subject: [PATCH 31/36] fix: re-encoded frames announced segments whose ids
 they did not carry

update_residues() copied the segmentation update of the original header, but
not the segment ids of its macroblocks, and codes the frame with one quantizer;
a decoder read the frame as something else.
---
 src/encoder/reencode.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/encoder/reencode.cc b/src/encoder/reencode.cc
index f4ca8e0..2814c1c 100644
--- a/src/encoder/reencode.cc
+++ b/src/encoder/reencode.cc
@@ -243,7 +243,9 @@ InterFrame Encoder::update_residues( const VP8Raster & original_raster,
   const InterFrameHeader & of_header = original_frame.header();
   InterFrameHeader & if_header = frame.mutable_header();
 
-  if_header.update_segmentation      = of_header.update_segmentation;
+  /* the whole frame is coded with one quantizer, without segments */
+  if_header.update_segmentation.clear();
+
   if_header.filter_type              = of_header.filter_type;
   if_header.loop_filter_level        = of_header.loop_filter_level;
   if_header.sharpness_level          = of_header.sharpness_level;
-- 
2.43.0


From 03d0bd92bcc84903638667501a39629247dc7b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:29 +0000
Subject: [PATCH 32/36] fix: key frames kept by the re-encoder lost their
 segmentation map

The encoder's own state took the segment adjustments of such a frame but not
its map, and reconstructed another picture than a decoder.
---
 src/encoder/encode_intra.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/encoder/encode_intra.cc b/src/encoder/encode_intra.cc
index 06e9174..ece43e5 100644
--- a/src/encoder/encode_intra.cc
+++ b/src/encoder/encode_intra.cc
@@ -43,6 +43,15 @@ void Encoder::update_decoder_state( const KeyFrame & frame )
   if ( frame.header().refresh_entropy_probs ) {
     decoder_state_.probability_tables.coeff_prob_update( frame.header() );
   }
+
+  if ( decoder_state_.segmentation.initialized() ) {
+    frame.macroblocks().forall_ij(
+      [&] ( const KeyFrameMacroblock & macroblock, const unsigned int column, const unsigned int row )
+      {
+        decoder_state_.segmentation.get().map.at( column, row ) = macroblock.segment_id();
+      }
+    );
+  }
 }
 
 void Encoder::luma_sb_apply_intra_prediction( const VP8Raster::Block4 & original_sb,
-- 
2.43.0


From 783b329c9ddc243a250ef2241561a9afaa981a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:39 +0000
Subject: [PATCH 33/36] fix: bit fields of more than 31 bits were read wrongly
 from chunks

---
 src/util/chunk.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/chunk.hh b/src/util/chunk.hh
index eb43c18..b40a4bb 100644
--- a/src/util/chunk.hh
+++ b/src/util/chunk.hh
@@ -63,7 +63,7 @@ private:
     if ( n > 63 ) {
       throw std::out_of_range( "bit mask size is unsupported" );
     }
-    return ( 1 << n ) - 1;
+    return ( uint64_t( 1 ) << n ) - 1;
   }
 
 public:
@@ -133,7 +133,7 @@ public:
 
     uint64_t val = 0;
     for ( uint64_t i = 0; i < byte_len; i++ ) {
-      val |= buffer_[ i ] << ( i * 8 );
+      val |= uint64_t( buffer_[ i ] ) << ( i * 8 );
     }
 
     return ( val >> bit_offset ) & bit_mask( bit_length );
-- 
2.43.0


From b2f37271c94d97aee6f1348ffeab428d21019ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:39 +0000
Subject: [PATCH 34/36] fix: a chunk's part of enormous length was taken to lie
 inside it

---
 src/util/chunk.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/chunk.hh b/src/util/chunk.hh
index b40a4bb..1de6736 100644
--- a/src/util/chunk.hh
+++ b/src/util/chunk.hh
@@ -93,7 +93,9 @@ public:
   Chunk operator() ( const uint64_t & offset, const uint64_t & length ) const
   {
     bounds_check( offset );
-    bounds_check( offset + length );
+    if ( length > size_ - offset ) { /* the sum could wrap */
+      throw std::out_of_range( "attempted to read past end of chunk" );
+    }
     return Chunk( buffer_ + offset, length );
   }
 
-- 
2.43.0


From 4080e3ae6f4e029087f117cff033a8eef3245fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:15 +0000
Subject: [PATCH 35/36] fix: a macroblock whose header was cut off used an
 undetermined reference

---
 src/decoder/macroblock.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoder/macroblock.cc b/src/decoder/macroblock.cc
index 1ca3fa6..9161e4c 100644
--- a/src/decoder/macroblock.cc
+++ b/src/decoder/macroblock.cc
@@ -351,7 +351,11 @@ void InterFrameMacroblock::decode_prediction_modes( BoolDecoder & data,
 {
   if ( error_concealment and not data.valid() ) {
     /* We don't have enough prediction data for this macroblock */
-    header_.is_inter_mb = true;
+    if ( not header_.is_inter_mb ) {
+      /* an intra macroblock's header names no reference */
+      header_.set_reference( LAST_FRAME );
+    }
+
     Y2_.set_prediction_mode( ZEROMV );
     Y2_.set_if_coded();
   }
-- 
2.43.0


From 0003e958b8b2c8b5a3d1f96da6878a6c127e63b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:39 +0000
Subject: [PATCH 36/36] fix: a 64-bit header field was written as its lower
 half

---
 src/net/packet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/net/packet.cc b/src/net/packet.cc
index bbb61ac..35d4d8d 100644
--- a/src/net/packet.cc
+++ b/src/net/packet.cc
@@ -50,7 +50,7 @@ string Packet::put_header_field( const uint32_t n )
 
 string Packet::put_header_field( const uint64_t n )
 {
-  const uint32_t network_order = htole64( n );
+  const uint64_t network_order = htole64( n );
   return string( reinterpret_cast<const char *>( &network_order ),
                  sizeof( network_order ) );
 }
-- 
2.43.0

