"""What each property's check runs, and what its manifest entry says."""
PROPS = {
    "P01": dict(
        technique="generated VP8 streams, differential against libvpx",
        note="random exploration of valid streams with shrinking; trusts libvpx as the specification and the harness's own bitstream writer for validity",
        rule="A case is one generated VP8 stream (random size, feature subset, per-macroblock modes, vectors and residuals written by an independent "
             "bitstream writer); it is non-trivial when it carries coded residuals and more than 60 bytes, distinct by digest of all its bytes.",
        assumptions=["libvpx (the installed shared library) is the reference decoder", "streams stay inside what alfalfa documents as supported: "
                     "version 0, normal loop filter, fixed size, no scaling", "no block ends in an explicit zero token (decoders disagree on its context)"],
        runs=[dict(variant="rel", target="decode"), dict(variant="scalar", target="decode", thorough_only=True)]),
    "P02": dict(
        technique="structure-aware mutation fuzzing under AddressSanitizer, bounds checking and a memory cap",
        note="random exploration of mutated streams, files and saved states with shrinking; memory safety is what AddressSanitizer, -fsanitize=bounds and libstdc++ assertions see",
        rule="A case is one mutated or random input (a stream of frames fed to one decoder, an IVF file, a saved state, a raw video file); distinct by digest of its bytes.",
        assumptions=["memory in proportion: a fixed allowance, plus what the stated picture size needs, plus a multiple of the input's length",
                     "undefined behaviour that neither sanitizer sees is out of reach"],
        runs=[dict(variant="asan", target="robust")]),
    "P03": dict(
        technique="generated streams with generated truncations; metamorphic and stateful oracles",
        note="random exploration of streams, truncation points and damage histories with shrinking; compares decoders of alfalfa with each other (conformance itself is P01)",
        rule="A case is one generated stream with its truncations; non-trivial when something was cut (or, for complete frames, when residuals are coded), distinct by digest of the bytes fed.",
        assumptions=["the frame header itself arrived (Salsify's first fragment is at least as long)", "lost macroblocks are compared on streams with the loop filter off"],
        runs=[dict(variant="rel", target="conceal")]),
    "P04": dict(
        technique="generated VP8 streams; round-trip and differential against libvpx",
        note="random exploration of valid frames and histories with shrinking; the serialized bytes are read by alfalfa and by libvpx",
        rule="A case is one generated stream, every frame of it parsed, serialized, parsed and decoded again; non-trivial when residuals are coded and more than 60 bytes are written, distinct by digest of the stream.",
        assumptions=["libvpx is the conforming decoder", "serialization is given the probability tables that hold after the frame, as the tools do"],
        runs=[dict(variant="rel", target="serialize", scale=1.5)]),
    "P05": dict(
        technique="generated bit sequences; round-trip and differential against a transcription of the RFC 6386 coder",
        note="random exploration of decision sequences, probabilities and coded bytes with shrinking",
        rule="A case is one sequence of decisions with probabilities written and read back, or one byte string read with generated probabilities; non-trivial when it has more than 8 decisions, distinct by digest.",
        assumptions=["a byte string to be read does not start with 0xff, which no VP8 bool coder writes"],
        runs=[dict(variant="rel", target="boolcoder")]),
    "P06": dict(
        technique="stateful property-based testing of interleaved decoders against libvpx",
        note="random exploration of histories of decoding, copying, assigning, moving, dropping and holding pictures with shrinking",
        rule="A case is one history over up to six decoders and three streams in one process; non-trivial when it decodes more than two frames and copies a decoder, distinct by digest of streams and operations.",
        assumptions=["all pictures of a process have one size (the library's documented restriction)"],
        runs=[dict(variant="rel", target="pure", scale=2), dict(variant="asan", target="pure", scale=0.12, share=0.3)]),
    "P07": dict(
        technique="generated state pairs, equal and differing in one component, against a field-by-field oracle",
        note="random exploration of states reached by generated streams and of single-component changes; a 64-bit hash may collide, which the check treats as a violation (probability below 1e-12 per run)",
        rule="A case is one pair of decoder states with a stated relation; distinct by digest of the stream and the component changed.",
        assumptions=["a change that only one 32-bit short fingerprint hides is given three attempts"],
        runs=[dict(variant="rel", target="print")]),
    "P08": dict(
        technique="generated states and continuations; round-trip and differential",
        note="random exploration of states reached by generated streams, with shrinking; continuations are decoded by original and restored decoder",
        rule="A case is one state saved and restored with a generated continuation, or one file and state offered to a player; distinct by digest of the stream.",
        assumptions=["saved states hold the last picture only, as documented by the code"],
        runs=[dict(variant="rel", target="saved")]),
    "P09": dict(
        technique="generated picture sequences and encoder histories; differential against alfalfa's decoder and libvpx",
        note="random exploration of pictures, modes and histories with shrinking; libvpx stands for every conforming decoder",
        rule="A case is one encoding session (pictures, modes, copies, estimates, hand-overs) of up to 30 frames; non-trivial when more than 40 bytes were emitted, distinct by digest of pictures and operations.",
        assumptions=["all pictures of a process have one size (the library's documented restriction)"],
        runs=[dict(variant="rel", target="encode"), dict(variant="asan", target="encode", scale=0.08, share=0.3)]),
    "P10": dict(
        technique="metamorphic: the same encoding job repeated, copied and forked among generated other work in one process",
        note="random exploration of jobs and disturbances with shrinking; the heap is filled with another pattern the second time",
        rule="A case is one job (pictures and requests) run once alone and again among other encoders, decoders, copies and estimates; non-trivial when at least one step was repeated, distinct by digest of pictures and operations.",
        assumptions=["all pictures of a process have one size"],
        runs=[dict(variant="rel", target="encdet", scale=1.5)]),
    "P11": dict(
        technique="generated pictures and requests; invariants checked by trial encodes with neighbouring quantizers, and a bound on the error of every macroblock from its quantizer",
        note="random exploration with shrinking; the SSIM function itself is P14",
        rule="A case is one session of requests of one kind; distinct by digest of the pictures.",
        assumptions=["pictures of at least 8x8 samples (SSIM is defined on 8x8 windows)"],
        runs=[dict(variant="rel", target="quality", scale=2)]),
    "P12": dict(
        technique="generated chunks, start states and re-encoding options; differential against alfalfa's decoder and libvpx",
        note="random exploration with shrinking; closeness to the pictures asked for is bounded by the quantizer step, for weakly filtered frames",
        rule="A case is one chunk re-encoded from a generated start state, or one file terminated by the tool; distinct by digest of pictures and frames.",
        assumptions=["the chunk's first key frame carries no segmentation (the re-encoder refuses it, as documented)", "the chunk's frames are shown"],
        build_extra=["xc-terminate-chunk"],
        runs=[dict(variant="rel", target="reencode", scale=2)]),
    "P13": dict(
        technique="stateful property-based testing against a list model, with injected short transfers, process ends and full disks",
        note="random exploration of frame sequences and read points with shrinking; faults are injected at read(2) and write(2)",
        rule="A case is one file written by a history of appends and read between any of them, or one history ended at a random byte of a random write; non-trivial when it holds "
             "more than one frame (or was ended in the middle), distinct by digest of the frames and the end point.",
        assumptions=["one writer per file", "a full disk or the end of the process shows as write(2) doing part of its work; losing pages after a power failure is outside the property"],
        runs=[dict(variant="rel", target="ivf")]),
    "P14": dict(
        technique="generated pictures; round-trip, differential against an independent writer and a transcription of SSIM",
        note="random exploration of sizes, contents and sequences with shrinking",
        rule="A case is one raw video written and read back, one written independently and read, or one pair of pictures compared; non-trivial when it has a frame, distinct by digest of the samples.",
        assumptions=["pictures of at least 8x8 samples for SSIM", "4:2:0 sampling, the only one the reader accepts"],
        runs=[dict(variant="rel", target="yuv")]),
    "P15": dict(
        technique="stateful property-based testing against a set model",
        note="random exploration of frames and arrival schedules with shrinking, up to the largest representable number of fragments",
        rule="A case is one frame with one arrival schedule (permutation, losses, duplicates, foreign packets); non-trivial when it has at least two fragments and "
             "three arrivals, distinct by digest of frame and schedule.",
        assumptions=["a duplicate carries the same payload as the original"],
        runs=[dict(variant="rel", target="packets")]),
    "P16": dict(
        technique="generated datagrams against a byte-layout model, with a memory bound",
        note="random exploration of valid, mutated and noise datagrams with shrinking; memory is bounded by replacing operator new",
        rule="A case is one acknowledgement built from fields, one mutated valid datagram or one noise datagram; distinct by digest of the bytes.",
        assumptions=["bytes behind an acknowledgement's state list are ignored"],
        runs=[dict(variant="rel", target="wire")]),
    "P17": dict(
        technique="stateful property-based testing against a queue model on a virtual clock",
        note="random exploration of histories with shrinking; the clock is replaced at clock_gettime",
        rule="A case is one history of pushes, sends and waits; non-trivial when it pushes more than three packets and time passes, distinct by final clock and count.",
        assumptions=["time does not run backwards", "gaps are not negative"],
        runs=[dict(variant="rel", target="pacer")]),
    "P18": dict(
        technique="stateful property-based testing of the receiver program in lockstep, on a generated network, against a receiver model that never forgets",
        note="random exploration of sender and network histories with shrinking; the program's main loop, clock and display are driven by the harness",
        rule="A case is one session: an honest sender's frames (from the initial, the latest or a listed state), each packet lost, duplicated, delayed or reordered; "
             "non-trivial when more than one frame was completed, distinct by digest of frames and history.",
        assumptions=["an honest sender refers to the initial state, to the state its last frame leads to, or to a listed state not older than its earlier sources",
                     "one datagram is handled at a time (the program's main loop does nothing else)", "FramePlayer itself is P03 and P06"],
        build_extra=["salsify-receiver"],
        runs=[dict(variant="rel", target="receiver", scale=4)]),
    "P19": dict(
        technique="stateful property-based testing of the sender program in lockstep under generated acknowledgement histories",
        note="random exploration of schedules and acknowledgement histories with shrinking; main loop, clock, camera and network of the program are driven by the harness",
        rule="A case is one session of up to 240 events (pictures, ends of encodes, acknowledgements, time, readiness to send) in one of the three modes; non-trivial when more than two frames "
             "were sent and an acknowledgement was taken, distinct by digest of pictures and history.",
        assumptions=["acknowledgements are well-formed (malformed datagrams are P16)", "acknowledgements of packets older than the newest acknowledged one are ignored, as documented in the code",
                     "the cautious period is five seconds"],
        build_extra=["salsify-sender"],
        runs=[dict(variant="rel", target="sender", scale=2)]),
    "P20": dict(
        technique="generated jobs for several threads at once, differential against running them one after the other, and under ThreadSanitizer",
        note="random exploration of jobs and (by chance, and by generated yields) of schedules with shrinking; interleavings are those the kernel and ThreadSanitizer produce, not all of them",
        rule="A case is two to six jobs (decoding, encoding, copies that share pictures) run alone and then at once in threads; distinct by digest of streams and pictures.",
        assumptions=["an object is used by one thread at a time", "all pictures of a process have one size, and the first was made before the threads start or in one of them"],
        runs=[dict(variant="rel", target="threads", scale=3, share=0.5), dict(variant="tsan", target="threads", scale=0.3, share=0.5)]),
    "P21": dict(
        technique="generated streams and pictures; differential between three builds of the codec",
        note="random exploration with shrinking; the accelerated build in process against the portable build and the build with assertions as programs",
        rule="A case is one list of decoding or encoding operations run in two builds, every outcome compared (pictures, states, emitted bytes, SSIM); non-trivial when more than 60 bytes are decoded or a picture is encoded, distinct by digest.",
        assumptions=["the portable encoder lacks two functions in the repository (no configuration builds it); harness/portable.cc supplies them, one as an instantiation of the project's code, one from the format's definition"],
        also_build=[("scalar", ["codecrun", "codecrun-plain", "codecrun-dec"]), ("dbg", ["codecrun", "codecrun-plain", "codecrun-dec"])],
        runs=[dict(variant="rel", target="builds", scale=1.5)]),
    "P22": dict(
        technique="generated streams, states, pictures and option combinations; the tools' files and reports against the library, libvpx and independent computations",
        note="random exploration with shrinking; each tool runs as a program in a scratch directory",
        rule="A case is one generated stream or picture sequence with one tool invocation (or a chain of them); non-trivial when it has more than one frame or a picture is encoded, distinct by digest of the input and the command.",
        assumptions=["libvpx is the reference for pictures of valid streams", "saved states hold the last picture only, as documented by the code",
                     "vp8decode may report failure when a stream ends in a frame that is not shown"],
        build_extra=["vp8decode", "xc-decode-bundle", "xc-enc", "xc-ssim", "xc-dissect", "xc-framesize", "xc-dump", "xc-diff", "comp-states", "xc-merge", "xc-terminate-chunk", "xc-zero-out-residues"],
        runs=[dict(variant="rel", target="tools", scale=3)]),
    "P23": dict(
        technique="stateful property-based testing of sender and receiver programs together on a generated network",
        note="random exploration of network histories with shrinking; both main loops, clocks, camera and display are driven by the harness",
        rule="A case is one session of the two programs: up to 90 pictures over a network that loses, repeats and reorders packets and acknowledgements, then 14 pictures over one that does not; "
             "non-trivial when more than three frames were completed and the network was not perfect, distinct by digest of pictures and history.",
        assumptions=["after the loss stops, packets and acknowledgements arrive before the next picture"],
        build_extra=["salsify-sender", "salsify-receiver"],
        runs=[dict(variant="rel", target="session")]),
    "P24": dict(
        technique="generated pictures from a device played by the harness, and generated and damaged JPEG data; differential against the generated samples and libjpeg, under AddressSanitizer",
        note="random exploration of formats, sizes and contents with shrinking; the device is a stand-in at ioctl(2), buffers are a real memory mapping",
        rule="A case is one device with up to 12 pictures, one series of JPEG pictures, or one damaged JPEG; non-trivial when more than one picture is taken (or the data is damaged), distinct by digest of the samples.",
        assumptions=["raw formats are tightly packed, of even width (and of even height where chroma is halved vertically)", "libjpeg decodes JPEG data correctly",
                     "the first picture of a JPEG camera is unspecified, as documented in the code"],
        runs=[dict(variant="asan", target="camera")]),
    "P25": dict(
        technique="stateful property-based testing of sockets, descriptors and poller against models of queues, strings and readiness",
        note="random exploration of histories with shrinking, over the loopback network and local socket pairs; transfers are shortened at read(2) and write(2)",
        rule="A case is one history of operations on up to five sockets or descriptors; non-trivial when more than one datagram, 20 bytes or one callback is served, distinct by digest of what was sent or of the history.",
        assumptions=["the loopback network neither loses nor reorders datagrams that fit the receive buffer"],
        runs=[dict(variant="rel", target="sockets")]),
    "P26": dict(
        technique="stateful property-based testing of byte buffers, optional values, arrays, pictures, mapped files and numbers against plain models, under AddressSanitizer",
        note="random exploration of contents, extents and histories with shrinking; models are vectors, flags and a register of live objects",
        rule="A case is one byte buffer with up to 20 accesses, one history over four optional values, one array with up to 15 changes, one picture, one mapped file or 20 numerals; "
             "non-trivial when a part was taken, more than two operations ran, or data was compared; distinct by digest of contents and operations.",
        assumptions=["an optional value moved from is unspecified until it is set again", "empty files are not mapped"],
        runs=[dict(variant="asan", target="values")]),
    "P27": dict(
        technique="generated streams, pictures and schedules given to the viewer programs; differential against the library's decoding and the generated pictures",
        note="random exploration with shrinking; the real main programs run with a display and a camera that write down what they are given; OpenGL itself is out of reach here",
        rule="A case is one run of one program: vp8play on a generated file (also behind frames without a key frame, or from a saved state), display-jpeg on a JPEG, real-webcam on a series of pictures, fake-webcam on a raw video; distinct by digest of the input.",
        assumptions=["decoding itself is right (P01, P24)", "how a playback ends whose last frame is hidden is not specified"],
        build_extra=["vp8play", "display-jpeg", "real-webcam", "fake-webcam"],
        runs=[dict(variant="rel", target="view")]),
    "P28": dict(
        technique="stateful property-based testing of the sender and receiver programs in lockstep on a virtual clock, against a model of capacity, candidates and pacing",
        note="random exploration of schedules, acknowledgements and arrival times with shrinking; clock, arrival times, main loop, camera and network of the programs are driven by the harness",
        rule="A case is one session of the sender (pictures, ends of encodes, acknowledgements with drawn delays, time, readiness to send) or one series of packet arrivals at the receiver; non-trivial when more than two frames "
             "were sent and an acknowledgement was taken, or more than three acknowledgements were given; distinct by digest of pictures, frames and history.",
        assumptions=["encoding is deterministic (P10)", "the receiver reports states the sender still has (the other case is P19)", "packets may leave in the millisecond before they are due (P17)",
                     "an average of the same gaps computed in another order may differ by one microsecond"],
        build_extra=["salsify-sender", "salsify-receiver"],
        runs=[dict(variant="rel", target="rate", scale=2)]),
    "P29": dict(
        technique="generated pictures, window sizes and drawing histories; differential of the rendered window against a software model of colour conversion and sampling",
        note="random exploration with shrinking; the display's own code and shaders run on Mesa's software renderer, with off-screen surfaces in the place of the window system's windows",
        rule="A case is one window with up to six drawings, repaints, resizes and refused pictures, every buffer swap read back and every pixel compared; distinct by digest of pictures and window sizes.",
        assumptions=["Mesa's llvmpipe is a correct OpenGL implementation", "a colour may be off by four and a half of 255 steps (texture filtering has eight bits)", "framebuffer and window have the same size"],
        runs=[dict(variant="rel", target="display")]),
    "P30": dict(
        technique="generated pictures, quantizers and encoder histories; error bounds per transform coefficient against the source, from an unfiltered decoding of each frame",
        note="random exploration with shrinking; the bound is the format's own quantizer table plus a fixed allowance for integer rounding in the transforms",
        rule="A case is one encoder's history of frames in which some block used more than a fifth of its error bound; distinct by digest of pictures and settings.",
        assumptions=["The decoder is right (P01)", "Rounding in the transforms moves a coefficient by at most 9, a second-order coefficient by at most 60", "Blocks with a sample at 0 or 255 are judged by their error energy only"],
        runs=[dict(variant="rel", target="accuracy")]),
}
