DEC = ["decoder", "util"]
NET = ["net", "util"]
TARGETS = {
    "decode": dict(srcs=["h_decode.cc"], libs=DEC),
    "packets": dict(srcs=["h_packets.cc"], libs=NET),
    "wire": dict(srcs=["h_wire.cc"], libs=NET),
    "pacer": dict(srcs=["h_pacer.cc"], libs=NET),
    "conceal": dict(srcs=["h_conceal.cc"], libs=DEC),
    "serialize": dict(srcs=["h_serialize.cc"], libs=["encoder", "decoder", "util"]),
    "boolcoder": dict(srcs=["h_boolcoder.cc"], libs=["util"]),
    "pure": dict(srcs=["h_pure.cc"], libs=["encoder", "decoder", "util"]),
    "print": dict(srcs=["h_print.cc"], libs=DEC),
    "saved": dict(srcs=["h_saved.cc"], libs=DEC),
    "encode": dict(srcs=["h_encode.cc"], libs=["encoder", "decoder", "input", "util"]),
    "accuracy": dict(srcs=["h_accuracy.cc"], libs=["encoder", "decoder", "input", "util"]),
    "encdet": dict(srcs=["h_encdet.cc"], libs=["encoder", "decoder", "input", "util"]),
    "quality": dict(srcs=["h_quality.cc"], libs=["encoder", "decoder", "input", "util"]),
    "reencode": dict(srcs=["h_reencode.cc"], libs=["encoder", "decoder", "input", "util"]),
    "ivf": dict(srcs=["h_ivf.cc"], libs=["util"]),
    "yuv": dict(srcs=["h_yuv.cc"], libs=["input", "decoder", "util"]),
    "receiver": dict(srcs=["h_receiver.cc"], libs=["encoder", "decoder", "input", "net", "util"]),
    "sender": dict(srcs=["h_sender.cc"], libs=["encoder", "decoder", "input", "net", "util"]),
    "rate": dict(srcs=["h_rate.cc"], libs=["encoder", "decoder", "input", "net", "util"]),
    "session": dict(srcs=["h_session.cc"], libs=["encoder", "decoder", "input", "net", "util"]),
    "threads": dict(srcs=["h_threads.cc"], libs=["encoder", "decoder", "input", "util"]),
    "builds": dict(srcs=["h_builds.cc"], libs=["encoder", "decoder", "input", "util"]),
    "codecrun": dict(srcs=["codecrun.cc", "portable.cc"], libs=["encoder", "decoder", "input", "util"]),
    # in case the portable build of the encoder changes shape: without the harness's additions, and without the encoder
    "codecrun-plain": dict(srcs=["codecrun.cc"], libs=["encoder", "decoder", "input", "util"]),
    "codecrun-dec": dict(srcs=["codecrun.cc"], flags="-DCODECRUN_DECODE_ONLY", libs=["decoder", "util"]),
    "tools": dict(srcs=["h_tools.cc"], libs=["encoder", "decoder", "input", "util"]),
    "camera": dict(srcs=["h_camera.cc", "repo:src/input/camera.cc"], libs=["input", "decoder", "util"]),
    "sockets": dict(srcs=["h_net.cc"], libs=NET),
    "values": dict(srcs=["h_values.cc"], libs=["util"]),
    "view": dict(srcs=["h_view.cc"], libs=["input", "decoder", "util"]),
    "display": dict(srcs=["h_display.cc", "repo:src/display/*.cc"], libs=DEC, flags="-DGLEW_STATIC -I@REPO@/src/display", ld="-lGLEW -lGL -lGLU -lEGL -lglfw"),
    "robust": dict(srcs=["h_robust.cc"], libs=["input", "decoder", "util"]),
}

# alfalfa's own programs, for harnesses that run them
for _t, _s in [("vp8decode", "vp8decode"), ("xc-decode-bundle", "decode-bundle")] + [(t, t) for t in
               ("xc-enc", "xc-ssim", "xc-dissect", "xc-framesize", "xc-dump", "xc-diff", "comp-states", "xc-merge", "xc-terminate-chunk", "xc-zero-out-residues")]:
    TARGETS[_t] = dict(srcs=["repo:src/frontend/%s.cc" % _s], libs=["encoder", "input", "decoder", "util"], flags="-std=c++14 -iquote @VERIF@/harness/shim")

# the Salsify programs, with stand-ins for camera and display and a main loop driven by the harness
_S = "-std=c++14 -iquote @VERIF@/harness/shim"
TARGETS["salsify-receiver"] = dict(srcs=["repo:src/salsify/salsify-receiver.cc", "shim/shim_display.cc", "shim/shim_sched.cc"], libs=["net", "decoder", "util"], flags=_S)
TARGETS["salsify-sender"] = dict(srcs=["repo:src/salsify/salsify-sender.cc", "shim/shim_camera.cc", "shim/shim_sched.cc"], libs=["net", "encoder", "input", "decoder", "util"], flags=_S)

# the viewers, with stand-ins for camera and display that write down what they are given
_V = "-std=c++14 -iquote @VERIF@/harness/viewshim"
TARGETS["vp8play"] = dict(srcs=["repo:src/frontend/vp8play.cc"], libs=["decoder", "util"], flags=_V)
for _t in ("fake-webcam", "real-webcam", "display-jpeg"):
    TARGETS[_t] = dict(srcs=["repo:src/salsify/%s.cc" % _t], libs=["input", "decoder", "util"], flags=_V)
