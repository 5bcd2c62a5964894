#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts live here so that they can be edited readably)."""
import json, os
P = []


def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


add("P01", "Decoding any valid VP8 stream is bit-exact",
    "For every valid VP8 stream in the supported profile (version 0, normal loop filter, fixed frame size), decoding frame after frame yields exactly the pixels the VP8 "
    "specification defines for every shown frame, and leaves exactly the specified last, golden and alternate reference pictures after every frame, shown or hidden.",
    ["inputs", "histories"], "all streams: every frame size, header feature, segmentation and filter setting, prediction mode, motion vector, residual, and any sequence of key, inter, shown and hidden frames",
    "The decoding test needs test vectors that are not in the tree, so no stream is decoded against an independent reference; even the standard vectors sample a few dozen streams out of all histories.",
    ["src/decoder/frame.cc", "src/decoder/decoder_state.hh", "src/decoder/macroblock.cc", "src/decoder/prediction.cc", "src/decoder/loopfilter.cc", "src/decoder/transform.cc", "src/decoder/tokens.cc", "src/decoder/quantization.cc", "src/decoder/modemv_data.cc"],
    [("frame parsing and probability persistence", "src/decoder/decoder_state.hh parse_and_apply"), ("reconstruction", "src/decoder/frame.cc decode"), ("reference update", "src/decoder/frame.cc copy_to")],
    [("decoder state", "probabilities, segmentation, filter deltas, three references")], ["Decoder::parse_and_decode_frame", "Decoder::get_references"])
add("P02", "Malformed input is refused or decoded, never corrupts memory or hangs",
    "Whatever bytes are given as a compressed frame, an IVF file, a saved decoder state or a raw video file, reading them either succeeds or reports an error; it never touches memory outside its buffers, "
    "never terminates the process abnormally, never hangs and never allocates memory out of proportion to the input and the picture size it states. After an input was refused, a fresh decoder still decodes valid streams correctly.",
    ["inputs", "fault_sequences"], "all byte strings, in particular valid files with bits flipped, fields overwritten, pieces cut, repeated or spliced",
    "No test feeds a malformed file; the set of byte strings is unbounded.",
    ["src/decoder/uncompressed_chunk.cc", "src/decoder/bool_decoder.hh", "src/decoder/frame_header.hh", "src/decoder/decoder.cc", "src/input/ivf_reader.cc", "src/util/ivf.cc", "src/util/chunk.hh", "src/input/yuv4mpeg.cc", "src/decoder/enc_state_serializer.hh"],
    [("bounds of chunks", "src/util/chunk.hh"), ("frame header checks", "src/decoder/uncompressed_chunk.cc"), ("state file checks", "src/decoder/enc_state_serializer.hh")], None,
    ["exceptions of Decoder, IVF, FilePlayer, YUV4MPEGReader", "AddressSanitizer"])
add("P03", "Damaged frames are concealed and intact frames are unaffected by concealment",
    "With error concealment switched on, every prefix of a valid frame that still holds the frame header (any part of its tail lost in the network) given to a decoder that has a reference picture yields a picture of the right size instead of an error or crash: "
    "macroblocks of an inter frame whose headers were lost repeat the previous picture, residual data that was lost counts as zero bits. The decoder accepts later frames, and a complete key frame brings it back to exactly the undamaged decoder's state. "
    "Complete valid frames decode to the same pixels and state with error concealment on as off.",
    ["inputs", "fault_sequences", "histories"], "all streams, all truncation points, all sequences of damaged and complete frames",
    "No test ever switches error concealment on or truncates a frame.",
    ["src/decoder/uncompressed_chunk.cc", "src/decoder/decoder.cc", "src/decoder/decoder_state.hh", "src/decoder/bool_decoder.hh", "src/decoder/player.cc"],
    [("partial chunk acceptance", "src/decoder/uncompressed_chunk.cc"), ("corrupted frame handling", "src/decoder/decoder.cc decompress_frame / parse_frame")], None, ["FramePlayer::decode", "Decoder::parse_and_decode_frame"])
add("P04", "Serializing a parsed frame preserves it",
    "Parsing any valid frame and serializing the result gives a bitstream that parses back to an equal frame and that, decoded from the same decoder state, produces the same pictures and the same following state as the original bytes, in this decoder and in any conforming VP8 decoder.",
    ["inputs", "histories"], "all valid key and inter frames with every header feature and number of data partitions, at every point of a stream",
    "The round-trip test needs the missing test vectors; it compares whole streams of a few files.",
    ["src/encoder/serializer.cc", "src/encoder/encode_tree.cc", "src/encoder/bool_encoder.hh", "src/decoder/frame.hh", "src/decoder/frame_header.hh"],
    [("frame serialization", "src/encoder/serializer.cc"), ("frame equality", "src/decoder/frame.hh operator==")], None, ["KeyFrame::serialize", "InterFrame::serialize"])
add("P05", "Entropy coding is lossless for every bit sequence",
    "Any sequence of binary decisions written with any probabilities from 1 to 255 (including equiprobable literals) is read back identically, the written bytes are those of the VP8 boolean coder, and reading past the end behaves as if zero bytes followed.",
    ["inputs"], "all sequences of (bit, probability) pairs of any length, and all byte strings on the reading side",
    "No test exercises the boolean coder directly; carries propagating through long runs of 0xff bytes are rare in ordinary data.",
    ["src/encoder/bool_encoder.hh", "src/decoder/bool_decoder.hh"],
    [("carry propagation", "src/encoder/bool_encoder.hh add_one_to_output"), ("renormalisation and refill", "src/decoder/bool_decoder.hh")], None, ["BoolEncoder::put / finish", "BoolDecoder::get"])
add("P06", "Decoding depends only on the decoder state and the frame; copies are independent",
    "Decoding a frame is a pure function of the decoder's state and the frame's bytes: it gives the same pictures and state whatever else the process decoded or encoded before or in between. "
    "A copy of a decoder, and every picture handed out, keep their content no matter what is done afterwards with the original or with other copies.",
    ["histories", "inputs"], "all interleavings of copying, decoding, dropping and moving among any number of decoders and pictures",
    "Tests decode one stream in one process; state carried over in recycled buffers shows only in particular interleavings.",
    ["src/decoder/decoder.cc", "src/decoder/raster_handle.cc", "src/decoder/frame_pool.cc", "src/decoder/raster_handle.hh", "src/decoder/frame.cc"],
    [("recycled pictures", "src/decoder/raster_handle.cc RasterPool"), ("recycled frames", "src/decoder/frame_pool.cc")], None, ["Decoder copy, parse_and_decode_frame, get_references"])
add("P07", "State fingerprints and equality identify decoder states",
    "Two decoders whose states agree in everything that can influence later decoding (entropy probabilities, segmentation, filter adjustments, the three reference pictures) compare equal and have equal fingerprints, however they got there; "
    "two decoders whose states differ in any such component compare unequal and have different fingerprints. The short fingerprint is a function of the full one, and zero stands for 'any state'.",
    ["inputs", "histories"], "all pairs of decoder states, in particular pairs that differ in one probability, one segment, one filter delta or one sample of one reference",
    "The serialization test compares a handful of states for equality and never checks that different states are told apart.",
    ["src/decoder/decoder.cc", "src/decoder/decoder.hh", "src/decoder/decoder_state.hh", "src/decoder/vp8_raster.hh", "src/decoder/raster_handle.cc"],
    [("hashes", "src/decoder/decoder.cc hash functions"), ("equality", "src/decoder/decoder.hh operator==")], None, ["Decoder::get_hash, minihash, minihash_match, operator=="])
add("P08", "A saved decoder state resumes decoding exactly",
    "Saving a decoder state and loading it gives a decoder equal to the saved one up to golden and alternate references being replaced by the last picture, so any continuation that does not use those decodes identically; loading is the inverse of saving and saving again gives the same bytes. "
    "A player refuses a state of another picture size or one that does not match the fingerprint the file asks for.",
    ["inputs", "histories"], "all decoder states reachable by valid streams, all save points and continuations",
    "The serialization test samples states of fixed synthetic content, and never resumes decoding from one.",
    ["src/decoder/enc_state_serializer.hh", "src/decoder/decoder.cc", "src/decoder/player.cc", "src/decoder/decoder_state.hh"],
    [("state serialization", "src/decoder/decoder.cc serialize/deserialize"), ("player checks", "src/decoder/player.cc deserialize")], None, ["Decoder::serialize, FilePlayer, EncoderStateDeserializer::build"])
add("P09", "Every encoded frame decodes to the encoder's own reconstruction",
    "For every sequence of pictures and every encoding mode, the frames the encoder emits, decoded from the state the encoder started from, are valid VP8 for any conforming decoder and produce exactly the decoder state and picture the encoder believes it has reached.",
    ["inputs", "histories", "configurations"], "all pictures and sizes, quantizers, target sizes, quality settings, two-pass and real-time modes, and all branchings of encoder copies",
    "The loopback test encodes one short clip with one or two settings.",
    ["src/encoder/encoder.cc", "src/encoder/encode_intra.cc", "src/encoder/encode_inter.cc", "src/encoder/serializer.cc", "src/encoder/encode_tree.cc", "src/encoder/reencode.cc"],
    [("frame construction", "src/encoder/encoder.cc"), ("encoder's view of the decoder", "src/encoder/encoder.cc update_decoder_state")], [("encoder's decoder state and references", "what a decoder will hold after the frame")],
    ["Encoder::encode_with_*", "Encoder::minihash", "Encoder::export_decoder"])
add("P10", "Encoding is a deterministic function of encoder state and picture",
    "Encoding the same picture with the same settings from equal encoder states gives the same bytes, whatever else was encoded or decoded before in the process; "
    "encoding with a copy, or estimating the size of a frame, leaves the original encoder's later output unchanged.",
    ["histories", "inputs", "configurations"], "all interleavings of encodes, estimates and decodes on copies of encoders",
    "Tests encode with a single encoder in a fresh process.",
    ["src/encoder/encoder.cc", "src/encoder/encoder.hh", "src/encoder/size_estimation.cc", "src/decoder/frame_pool.cc"],
    [("copying encoders", "src/encoder/encoder.cc"), ("size estimation", "src/encoder/size_estimation.cc"), ("recycled frames", "src/decoder/frame_pool.cc")], None, ["Encoder::encode_with_quantizer, encode_with_target_size, estimate_frame_size"])
add("P11", "Encoder quality and size requests are honoured and reported truthfully",
    "A frame encoded with a given quantizer carries exactly that quantizer and shows the picture given as closely as that quantizer allows; a minimum-quality request yields a frame whose decoded SSIM reaches the minimum whenever the best quantizer can reach it, with a quantizer whose next coarser neighbour would miss it; "
    "target-size mode uses a quantizer (4 to 127, and within 16 of the previous one in real-time quality) whose size estimate fits the target while its next finer neighbour's does not, or the coarsest allowed when none is found to fit; and the SSIM the encoder reports is that of the picture a decoder will produce against the source.",
    ["inputs", "configurations"], "all pictures, encoder states, quantizers, quality minima and size targets",
    "No test looks at quality, size or the reported statistics.",
    ["src/encoder/encoder.cc", "src/encoder/size_estimation.cc", "src/util/ssim.cc"],
    [("quantizer search", "src/encoder/encoder.cc encode_with_quantizer_search"), ("size estimate search", "src/encoder/encoder.cc encode_with_target_size")], None, ["Encoder::stats", "frame header of the output"])
add("P12", "Re-encoding a chunk against another state keeps playback correct",
    "Re-encoding a chunk of frames so that it starts from another decoder state gives frames that, decoded from that state, reproduce exactly the state the re-encoder reports, frame by frame, and terminating a chunk gives a final frame after which the decoder state is fully determined by its last picture; the resulting stream is valid for any conforming decoder. Frames re-encoded from a chunk this encoder made show the pictures asked for as closely as their quantizers allow.",
    ["inputs", "histories", "configurations"], "all pictures, all original chunks, all source states, both weightings of old prediction modes, and with or without an extra frame chunk",
    "No test runs re-encoding at all.",
    ["src/encoder/reencode.cc", "src/encoder/encoder.cc", "src/frontend/xc-enc.cc", "src/frontend/xc-terminate-chunk.cc"],
    [("re-encoding", "src/encoder/reencode.cc"), ("chunk termination", "src/frontend/xc-terminate-chunk.cc")], None, ["Encoder::reencode", "xc-enc -r, xc-terminate-chunk"])
add("P13", "IVF files return exactly the frames that were appended",
    "After any sequence of frames is appended to an IVF writer, reading the file gives the same number of frames with the same bytes, the size, codec, time base and state fingerprint given, also when the file is read before the writer is closed, between any two appends; when the writing process ends or the disk fills up in the middle of any write, all frames whose append had returned are there.",
    ["inputs", "histories", "crash_points"], "all frame sequences, sizes and read points",
    "No test reads back a written IVF file; tests read only complete files.",
    ["src/util/ivf.cc", "src/util/ivf_writer.cc", "src/util/file.cc", "src/input/ivf_reader.cc"],
    [("header update on append", "src/util/ivf_writer.cc append_frame"), ("frame index", "src/util/ivf.cc")], None, ["IVFWriter, IVF"])
add("P14", "Raw video is written, read and compared without loss",
    "Any picture written as a YUV4MPEG frame and read back has the same samples, for every even or odd size and every sequence of frames; the header read back states the size and frame rate written; samples outside the picture repeat its last row and column; and the SSIM of two pictures, taken over the luma plane extended to whole macroblocks, is symmetric, 1 for equal pictures, and agrees with its published definition on overlapping 8x8 windows.",
    ["inputs"], "all sizes, frame rates, picture contents and numbers of frames",
    "No test reads or writes raw video, and the sizes used are multiples of sixteen.",
    ["src/input/yuv4mpeg.cc", "src/input/yuv4mpeg.hh", "src/util/ssim.cc", "src/util/raster.cc"],
    [("reading and writing frames", "src/input/yuv4mpeg.cc"), ("picture quality", "src/util/raster.cc quality")], None, ["YUV4MPEGReader, YUV4MPEGFrameWriter, BaseRaster::quality"])
add("P15", "A frame split into packets is reassembled exactly, in any order",
    "Any non-empty frame of up to 65535 fragments split into packets and received in any order, with any duplicates, is complete exactly when every fragment has arrived and then equals the original; before that, the partial frame is exactly the longest run of leading fragments received. "
    "Packets of another frame, connection, state pair or fragment count are refused and change nothing, and no packet carries more than the maximum payload.",
    ["inputs", "schedules", "fault_sequences"], "all frame sizes and contents, all arrival orders, losses, duplications and mixtures with foreign packets",
    "There is no test of the network code at all.",
    ["src/net/packet.cc", "src/net/packet.hh"],
    [("fragmentation and reassembly", "src/net/packet.cc FragmentedFrame")], [("remaining fragment count", "when a frame is complete")], ["FragmentedFrame::complete, frame, partial_frame, packets"])
add("P16", "Packets and acknowledgements survive the wire and malformed ones are refused",
    "Every data packet and acknowledgement written to bytes and read back has the same fields, in the documented little-endian layout; a datagram that is too short, has an impossible fragment number, no payload or a list longer than the datagram is refused with an error, with no other effect and no disproportionate memory use.",
    ["inputs", "fault_sequences"], "all field values and all byte strings received as datagrams",
    "There is no test of the network code at all.",
    ["src/net/packet.cc", "src/net/packet.hh", "src/util/chunk.hh"],
    [("wire format", "src/net/packet.cc to_string and Packet(Chunk), AckPacket(Chunk)")], None, ["Packet, AckPacket"])
add("P17", "The pacer releases every packet once, in order, never early",
    "Whatever the timing and interleaving of pushes and pops, packets leave the pacer in the order they entered, each exactly once. A packet entering an empty pacer is due at once, any other exactly its requested gap after the packet queued before it, and the reported waiting time says to the millisecond when the next packet is due.",
    ["schedules", "histories"], "all sequences of pushes, pops and waiting times",
    "There is no test of the pacer.",
    ["src/net/pacer.hh"], [("due times", "src/net/pacer.hh")], None, ["Pacer::push, ms_until_due, front, pop"])
add("P18", "The receiver's acknowledgements are truthful under any packet loss",
    "Under any loss, duplication and reordering of packets of an honest sender, the receiver keeps running, acknowledges each packet of the current frame with the fingerprint of the state it is really in, and shows each complete frame's picture when it held that frame's source state. "
    "Every state it lists as complete can be used as the source of a following frame and then leads to that frame's target state.",
    ["schedules", "fault_sequences", "histories"], "all sender histories (including several frames from one source state and returns to older states) and all network schedules",
    "The receiver is a program no test runs.",
    ["src/salsify/salsify-receiver.cc", "src/net/packet.cc", "src/decoder/player.cc", "src/decoder/decoder.cc"],
    [("state bookkeeping", "src/salsify/salsify-receiver.cc main")], [("stored decoders and list of complete states", "what the receiver can decode from")], ["acknowledgement packets", "pictures given to the display"])
add("P19", "The sender encodes only from states the receiver can hold",
    "Whatever acknowledgements arrive (late, lost, reordered, reporting a state the sender does not know, or belonging to another connection), the sender keeps sending frames with consecutive numbers; each carries the fingerprint of a state that an earlier frame of the session (or the initial state) produced, decodes from that state to the announced target, "
    "and, after the receiver has reported an unknown state, starts from a state the receiver reported as complete or from the initial state until its cautious period is over. In between it starts from the state its last frame led to, and it never skips more than three pictures in a row.",
    ["schedules", "fault_sequences", "histories"], "all acknowledgement histories",
    "The sender is a program no test runs.",
    ["src/salsify/salsify-sender.cc", "src/encoder/encoder.cc", "src/net/packet.cc"],
    [("source state selection", "src/salsify/salsify-sender.cc main"), ("stored encoders", "src/salsify/salsify-sender.cc main")], None, ["data packets sent"])
add("P20", "Codec objects used in parallel threads do not disturb each other",
    "Decoders and encoders (also copies sharing reference pictures) used at the same time in different threads give the results they give when used one after the other, without data races.",
    ["schedules", "inputs"], "all thread interleavings of encoding and decoding on distinct objects that may share pictures",
    "No test uses more than one thread.",
    ["src/decoder/raster_handle.cc", "src/decoder/frame_pool.cc", "src/encoder/encoder.cc", "src/decoder/raster_handle.hh"],
    [("shared pools", "src/decoder/raster_handle.cc, src/decoder/frame_pool.cc"), ("shared tables", "src/encoder/costs.cc")], None, ["results of threads, ThreadSanitizer"])
add("P21", "All builds of the codec behave identically",
    "The build with assembly kernels, the one with portable kernels and the one with assertions enabled decode every valid stream to the same pictures and states, and encode every sequence of pictures to the same bytes; no assertion fails.",
    ["inputs", "configurations"], "all streams, pictures, sizes and encoder settings, in both builds",
    "Tests run a single build; the kernels' alignment, edge and saturation cases depend on the data.",
    ["src/decoder/transform.cc", "src/decoder/prediction.cc", "src/decoder/loopfilter.cc", "src/decoder/dct.cc", "src/encoder/variance.cc", "src/encoder/variance_sse2.cc", "src/decoder/transform_sse.hh", "src/decoder/predictor_sse.hh"],
    [("kernel selection", "HAVE_SSE2 in the sources")], None, ["decoded pictures and encoded bytes of both builds"])
add("P22", "The command-line tools agree with the library and with each other",
    "For every stream, the tools report and write what decoding it implies: the decoders' output pictures, the saved states and their comparison, the frame sizes, and the quality figures are those of the library's decoder, and encoding with the encoder tool gives a file whose decoded frames and saved state match, whatever options are combined.",
    ["inputs", "configurations"], "all streams, start states, options and frame numbers",
    "One test runs the encoder and decoder tools on one clip; the other tools are never run.",
    ["src/frontend/xc-enc.cc", "src/frontend/vp8decode.cc", "src/frontend/xc-dump.cc", "src/frontend/xc-diff.cc", "src/frontend/comp-states.cc", "src/frontend/xc-framesize.cc", "src/frontend/xc-ssim.cc", "src/frontend/decode-bundle.cc", "src/decoder/player.cc"],
    [("players", "src/decoder/player.cc"), ("tools", "src/frontend")], None, ["tool output and exit status"])

add("P23", "A session recovers exact pictures once the network stops losing packets",
    "However packets and acknowledgements were lost, repeated, delayed or reordered before, once they arrive intact both programs are still running, every frame sent is completed and acknowledged, and every frame sent after the receiver reported a state "
    "that no frame led to, or the state of the frame before, is decoded to exactly the sender's reconstruction and shown; a receiver left on an older state returns to the sender's.",
    ["schedules", "fault_sequences", "histories"], "all network histories of a session, all pictures, all three sender modes",
    "No test runs sender and receiver; recovery depends on what was lost when.",
    ["src/salsify/salsify-sender.cc", "src/salsify/salsify-receiver.cc", "src/net/packet.cc", "src/encoder/encoder.cc", "src/decoder/player.cc"],
    [("cautious mode", "src/salsify/salsify-sender.cc main"), ("stored decoders", "src/salsify/salsify-receiver.cc main")], None, ["packets of both programs", "pictures given to the display"])

add("P24", "Camera and JPEG pictures are taken over exactly",
    "Every picture a camera delivers (YUYV, NV12, planar or 4:2:2 JPEG, any size the format allows) comes out with exactly its luma samples and with the chroma samples of its even rows where the format has one per row, picture after picture, "
    "every buffer going back to the device and earlier pictures staying as they were; a device that cannot do what was asked, and JPEG data of another kind or size, is refused. Damaged JPEG data is refused or decoded without touching memory outside the buffers.",
    ["inputs", "histories"], "all picture sizes, formats, contents, JPEG encodings and numbers of pictures",
    "No test has a camera or a JPEG file.",
    ["src/input/camera.cc", "src/input/jpeg.cc", "src/util/mmap_region.cc"],
    [("conversion", "src/input/camera.cc get_next_frame"), ("JPEG planes", "src/input/jpeg.cc")], None, ["Camera::get_next_frame", "JPEGDecompresser::decode"])
add("P25", "Sockets, descriptors and the poller move every byte and serve what is ready",
    "Datagrams sent through UDP sockets arrive whole with their sender's address (and, when asked for, the time of arrival), and one too big is refused; addresses keep IP and port through text, copies and comparison; what is written to a descriptor is read back "
    "identically whatever sizes the system transfers, and each descriptor is closed once, by its last owner. Each poll calls, in the order they were added, exactly the callbacks of active actions that are interested and whose descriptor is ready, once; it reports a timeout when none becomes ready in the time given, ends when none is interested, "
    "when a callback says so (with its status) or when a peer has hung up, and refuses a callback that makes no progress.",
    ["inputs", "schedules", "histories"], "all histories of sends, receives, transfers, interests and callback results",
    "No test uses the networking library's sockets or poller.",
    ["src/net/socket.cc", "src/net/address.cc", "src/net/poller.cc", "src/util/file_descriptor.hh"],
    [("datagrams", "src/net/socket.cc"), ("event loop", "src/net/poller.cc poll")], None, ["UDPSocket, Address, FileDescriptor, Poller"])
add("P26", "Buffers, optional values, arrays and mapped files hold what was put there",
    "A part of a byte buffer is handed out exactly when it lies inside it (for every offset and length, however large), and numbers, and bit fields of up to 63 bits within its first eight bytes, read from it are the little-endian values of its bytes; an optional value holds what was last put there "
    "through every construction, copy, move, assignment, reset and clearing, each contained object being built once and destroyed once; a two-dimensional array and its windows read back what was written, windows alias the array at their place, copies are equal and independent, every cell is "
    "told its true neighbours; a picture's shown rectangle comes out row by row, plane by plane; a mapped file shows the file's bytes, also after being moved; a numeral is read as its value or refused; a cleanup action runs once when its scope is left, however it is left, unless disabled.",
    ["inputs", "histories"], "all contents, offsets, lengths, sizes and sequences of operations",
    "No test exercises these containers at their limits, and every part of the system trusts them.",
    ["src/util/chunk.hh", "src/util/optional.hh", "src/util/2d.hh", "src/util/raster.cc", "src/util/file.cc", "src/util/mmap_region.cc", "src/util/paranoid.cc"],
    [("bounds", "src/util/chunk.hh bounds_check, operator(), bits"), ("lifetime", "src/util/optional.hh"), ("windows", "src/util/2d.hh TwoDSubRange")], None, ["Chunk, Optional, TwoD, TwoDSubRange, BaseRaster, File, paranoid::stoul"])
add("P27", "Viewers and the webcam stand-in present exactly the pictures, in order",
    "vp8play opens a window of the video's size and draws exactly the shown frames of the file, in order and unchanged, starting at the first key frame or, given a saved state, at the first frame from that state; display-jpeg draws the picture of the file; "
    "real-webcam opens the camera and format asked for and draws every picture the camera delivers, none twice; fake-webcam puts out every picture of its input unchanged and in order, under a header with its size and the rate asked for, not faster than that rate.",
    ["inputs", "histories"], "all streams, saved states, pictures, options and camera histories",
    "No test runs these programs.",
    ["src/frontend/vp8play.cc", "src/salsify/display-jpeg.cc", "src/salsify/real-webcam.cc", "src/salsify/fake-webcam.cc", "src/decoder/player.cc"],
    [("playback", "src/decoder/player.cc FilePlayer"), ("pacing", "src/salsify/fake-webcam.cc main")], None, ["pictures given to the display", "output of fake-webcam"])
add("P28", "Frames are sized and paced by the delays the receiver measures",
    "With every acknowledgement the receiver reports the moving average (weight one tenth, starting at zero) of the gaps between packet arrivals beyond the pause the packet states, which is the time since the previous frame was queued, in the first packet of a frame, and zero in the others. "
    "From the newest acknowledgement (unlimited before the first) the sender takes as capacity 1400 bytes for each packet that fits in 100 ms at that delay beyond those in flight. It encodes each picture the camera delivers with a quantizer 17 finer and one 23 coarser than the last frame's (64 at first, kept within 3 to 127) "
    "and sends the larger result that fits, none when neither fits, and the coarser one after three skips in a row; its conventional mode sends every picture, with a quantizer that changes at most once per update interval, not coarser when the rate rose and not finer when it fell. "
    "The packets of a frame leave in order, a fifth of the reported delay apart but at least 0.5 and at most 2 ms, none earlier.",
    ["inputs", "schedules", "histories"], "all pictures, acknowledgements, arrival times and schedules",
    "No test runs the sender or the receiver; the decision depends on acknowledgements arriving during the encode, on packets still queued and on earlier skips.",
    ["src/salsify/salsify-sender.cc", "src/salsify/salsify-receiver.cc", "src/net/pacer.hh", "src/net/packet.cc"],
    [("capacity", "src/salsify/salsify-sender.cc target_size, choice among encode outputs"), ("candidates", "src/salsify/salsify-sender.cc increment_quantizer"), ("average", "src/salsify/salsify-receiver.cc AverageInterPacketDelay"), ("pacing", "src/net/pacer.hh push")], None, ["sizes, times and stated pauses of packets sent", "average delay in acknowledgements"])

add("P29", "The window shows the picture, sample for sample and in its true colours",
    "After every drawing and every repaint the display window shows the picture last drawn: each window pixel has the BT.601 colour (video range) of the luma sample at its place, one to one from the top left corner, and of the chroma interpolated there (samples sited at the left luma column, between the two luma rows); beyond the picture its edge goes on. "
    "This holds for every picture, every sequence of pictures and repaints, every window size and every change of it. Each drawing and each repaint swaps the buffers once; a picture of another size is refused and changes nothing; the window is opened once at the picture's displayed size, on the whole screen when asked, and is closed before the window system is left.",
    ["inputs", "histories"], "all pictures, window sizes and histories of drawing and resizing",
    "No test opens a window; sampling, siting, plane sizes and state kept by OpenGL between drawings show up only for particular sizes and orders.",
    ["src/display/display.cc", "src/display/display.hh", "src/display/gl_objects.cc", "src/display/gl_objects.hh"],
    [("colours and sampling", "src/display/display.cc shaders, resize"), ("planes", "src/display/gl_objects.cc Texture"), ("refusal", "src/display/display.cc draw")], None, ["pixels of the window at every buffer swap"])

add("P30", "Encoded pictures stay within the quantizer's accuracy of their source",
    "Before the loop filter, every frame the encoder emits decodes to a picture that differs from the source only by what quantization explains: in each 4x4 block that is not limited to 0..255, each transform coefficient is off by less than one quantizer step (of that coefficient's kind: luma, second-order luma or chroma, first or other), two steps for a two-pass encoder's first key frame, which may also drop second-order blocks that sum to almost nothing; the error energy of every block is bounded accordingly. The steps are those of the requested quantizer, or of the one chosen to meet a size or quality. "
    "So errors never build up from frame to frame, whatever stream or state the encoder takes over from; and a best-quality encoder never chooses a loop filter that makes the picture worse than none.",
    ["inputs", "histories"], "all pictures, quantizers, encoder states and histories of frames",
    "The tests compare the encoder's references with a decoder's; since the encoder re-decodes what it wrote, a wrong residual or prediction is consistent on both sides and shows only as loss against the source.",
    ["src/encoder/encoder.cc", "src/encoder/encode_intra.cc", "src/encoder/encode_inter.cc", "src/decoder/dct.cc", "src/decoder/quantization.cc"],
    [("quantization", "src/encoder/encoder.cc, src/decoder/quantization.cc Quantizer"), ("residuals and predictions", "src/encoder/encode_intra.cc, encode_inter.cc"), ("loop filter choice", "src/encoder/encoder.cc apply_best_loopfilter_settings")], None, ["decoded pictures against the source"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
