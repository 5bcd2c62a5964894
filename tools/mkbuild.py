#!/usr/bin/env python3
"""Generate and run a ninja build of alfalfa's libraries (from the working tree of
/repo) plus one or more harness programs from /verif/harness.

usage: mkbuild.py VARIANT TARGET...     (prints nothing on success)

Everything is written below $VP_BUILD (default /verif/build)/VARIANT, which git ignores.
"""
import os, re, subprocess, sys, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, "build"))

VARIANTS = {
    "rel":    dict(cxx="g++", flags="-O2 -g1 -DNDEBUG", ld="", cfg="sse"),
    "scalar": dict(cxx="g++", flags="-O2 -g1 -DNDEBUG", ld="", cfg="scalar"),
    "asan":   dict(cxx="g++", flags="-O1 -g1 -DNDEBUG -D_GLIBCXX_ASSERTIONS -fsanitize=address,bounds -fno-sanitize-recover=bounds -fno-omit-frame-pointer", ld="-fsanitize=address,bounds", cfg="sse"),
    "tsan":   dict(cxx="g++", flags="-O1 -g1 -DNDEBUG -fsanitize=thread", ld="-fsanitize=thread", cfg="sse"),
    "dbg":    dict(cxx="g++", flags="-O1 -g1", ld="", cfg="sse"),
}
LIBS = ["net", "encoder", "input", "decoder", "util"]       # link order
INCS = ["util", "decoder", "input", "encoder", "net"]

# harness program -> (sources in /verif/harness, extra compile flags, libs used)
sys.path.insert(0, os.path.join(VERIF, "tools"))
from targets import TARGETS  # noqa: E402


def lib_sources(lib):
    d = os.path.join(REPO, "src", lib)
    order = []
    try:
        txt = open(os.path.join(d, "Makefile.am")).read().replace("\\\n", " ")
        for m in re.finditer(r"^\w+_a_SOURCES\s*\+?=\s*(.*)$", txt, re.M):
            order += [w for w in m.group(1).split() if w.endswith((".cc", ".asm"))]
    except OSError:
        pass
    have = sorted(os.path.basename(p) for p in glob.glob(d + "/*.cc") + glob.glob(d + "/*.asm"))
    res = [s for s in order if s in have] + [s for s in have if s not in order]
    return [s for s in res if s not in ("config.asm", "x86inc.asm", "x86_abi_support.asm", "subprocess.cc", "camera.cc")]


def main():
    variant, targets = sys.argv[1], sys.argv[2:]
    v = VARIANTS[variant]
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    incs = " ".join("-I%s/src/%s" % (REPO, i) for i in INCS)
    cfg = os.path.join(VERIF, "support", v["cfg"])
    L = ["cxx = " + v["cxx"],
         "base = -std=c++17 -pthread -w -include cstdint -DHAVE_CONFIG_H -I%s %s %s" % (cfg, incs, v["flags"]),
         "rule cc\n  command = $cxx $base $extra -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
         "rule as\n  command = cd %s/src/decoder && yasm -f elf64 -I%s/src/asm/ $in -o $out" % (REPO, REPO),
         "rule ar\n  command = rm -f $out && ar crs $out $in",
         "rule ld\n  command = $cxx $base %s -o $out $in -Wl,--start-group $libs -Wl,--end-group $ldl" % v["ld"]]
    need = set()
    for t in targets:
        need |= set(TARGETS[t].get("libs", LIBS))
    asm_inc = " ".join(os.path.join(REPO, "src/decoder", f) for f in ("config.asm", "x86inc.asm", "x86_abi_support.asm")
                       if os.path.exists(os.path.join(REPO, "src/decoder", f)))
    for lib in LIBS:
        if lib not in need:
            continue
        objs = []
        for s in lib_sources(lib):
            src = os.path.join(REPO, "src", lib, s)
            o = "%s/%s/%s.o" % (out, lib, s)
            objs.append(o)
            if s.endswith(".asm"):
                L.append("build %s: as %s | %s" % (o, src, asm_inc))
            else:
                # the project itself builds with -std=c++14
                L.append("build %s: cc %s\n  extra = -std=c++14" % (o, src))
        L.append("build %s/lib%s.a: ar %s" % (out, lib, " ".join(objs)))
    outs = []
    for t in targets:
        T = TARGETS[t]
        objs = []
        for s in [x for p in T["srcs"] for x in (["repo:" + os.path.relpath(f, REPO) for f in sorted(glob.glob(os.path.join(REPO, p[5:])))] if "*" in p else [p])]:
            src = s if s.startswith("/") else (os.path.join(REPO, s[5:]) if s.startswith("repo:") else os.path.join(VERIF, "harness", s))
            o = "%s/h/%s/%s.o" % (out, t, os.path.basename(s))
            objs.append(o)
            L.append("build %s: cc %s\n  extra = %s" % (o, src, T.get("flags", "").replace("@REPO@", REPO).replace("@VERIF@", VERIF)))
        libs = ["%s/lib%s.a" % (out, l) for l in LIBS if l in T.get("libs", LIBS)]
        exe = "%s/%s" % (out, t)
        L.append("build %s: ld %s | %s\n  libs = %s\n  ldl = /usr/lib/x86_64-linux-gnu/libx264.a -ljpeg -lpthread -lm -ldl %s" %
                 (exe, " ".join(objs), " ".join(libs), " ".join(libs), T.get("ld", "")))
        outs.append(exe)
    nf = os.path.join(out, "build-%s.ninja" % "-".join(targets)[:80])
    new = "builddir = %s\n" % out + "\n".join(L) + "\n"
    if not os.path.exists(nf) or open(nf).read() != new:
        open(nf, "w").write(new)
    p = subprocess.run(["ninja", "-f", nf, "-C", out, "-k", "0"] + outs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write(p.stdout[-6000:])
    return p.returncode


if __name__ == "__main__":
    sys.exit(main())
