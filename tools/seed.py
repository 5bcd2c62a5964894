#!/usr/bin/env python3
"""Planted bugs.  seed.py new ID PROP NEEDS BREAKS  : save /repo's uncommitted change as seeded/ID and undo it
                  seed.py test [ID...]              : confirm each one (build, tests, demo) and run its property's check"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


DEMO = '''#!/bin/bash
# compiles demo.cc against the built libraries and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
B=$repo/_build/src
g++ -std=c++14 -O1 -w -include cstdint -DHAVE_CONFIG_H -DNDEBUG -pthread -I"$repo/_build" -I"$here" \\
  -I"$repo/src/util" -I"$repo/src/decoder" -I"$repo/src/input" -I"$repo/src/encoder" -I"$repo/src/net" \\
  "$here/demo.cc" -o "$t/demo" -Wl,--start-group "$B/net/libnet.a" "$B/encoder/libalfalfaencoder.a" "$B/input/libalfalfainput.a" \\
  "$B/decoder/libalfalfadecoder.a" "$B/util/libalfalfautil.a" -Wl,--end-group /usr/lib/x86_64-linux-gnu/libx264.a -ljpeg -lpthread -lm -ldl || exit 2
cd "$t" && DEMO_DIR=$here timeout 200 ./demo
'''


def new(i, prop, needs, breaks):
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    p = sh("git -C %s diff" % R).stdout
    assert p.strip(), "no change in /repo"
    open(os.path.join(d, "patch.diff"), "w").write(p)
    sh("git -C %s checkout -- ." % R)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    f = os.path.join(d, "demo.sh")
    if not os.path.exists(f):
        open(f, "w").write(DEMO)
        os.chmod(f, 0o755)


def test(ids):
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base.get("passed") or base.get("stable") or base
    for i in ids:
        d = os.path.join(V, "seeded", i)
        prop = json.load(open(d + "/meta.json"))["property"]
        res = [i, prop]
        if sh("git -C %s status --short" % R).stdout.strip():
            print("repo not clean"); return
        if "--nobase" not in sys.argv:
            b = sh("bash /opt/vp/build.sh")
            x = sh("bash %s/demo.sh" % d, cwd=R)
            res.append("demo-clean=%d" % x.returncode)
            if x.returncode:
                res.append(x.stdout[-300:])
        a = sh("git -C %s apply %s/patch.diff" % (R, d))
        try:
            if a.returncode:
                res.append("does not apply"); continue
            t = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            tj = json.load(open("/tmp/seedtest.json"))
            res.append("tests %d passed %s failed" % (len(tj["passed"]), tj["failed"]))
            x = sh("bash %s/demo.sh" % d, cwd=R)
            res.append("demo-bug=%d" % x.returncode)
            t0 = time.time()
            c = sh("python3 tools/check.py %s" % prop, cwd=V)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
            res.append("check rc=%d %.0fs %s" % (c.returncode, time.time() - t0, "CAUGHT" if c.returncode == 1 and v else "MISSED " + c.stdout[-300:]))
            if v:
                res.append(c.stdout[:160].replace("\n", " "))
        finally:
            sh("git -C %s checkout -- ." % R)
            print(" | ".join(res), flush=True)
    sh("bash /opt/vp/build.sh")


if __name__ == "__main__":
    if sys.argv[1] == "new":
        new(*sys.argv[2:6])
    else:
        ids = [a for a in sys.argv[2:] if not a.startswith("--")]
        test(ids or sorted(os.listdir(os.path.join(V, "seeded"))))
