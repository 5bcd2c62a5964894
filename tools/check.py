#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : build from /repo's working tree, run the generated
checks of one property, write evidence/PROPERTY.json, exit 0 (held) or 1 (VIOLATION line)."""
import json, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from props import PROPS  # noqa: E402


def known_findings(prop):
    try:
        k = json.load(open(os.path.join(VERIF, "known-findings.json")))
    except OSError:
        return []
    return [f for f in k["findings"] if f["property"] == prop and f.get("status") == "known"]


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    P = PROPS[prop]
    t0 = time.time()
    replays = os.path.join(VERIF, "work", "replays")
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = known_findings(prop)
    ksig = ";".join(f["signature"] if f["sub"] == "*" else "%s/%s" % (f["sub"], f["signature"]) for f in known)
    # thorough runs everything quick runs, with the thorough counts, plus runs marked thorough only
    runs = [r for r in P["runs"] if tier == "thorough" or not r.get("thorough_only")]
    variants = {}
    for r in runs:
        variants.setdefault(r["variant"], [])
        if r["target"] not in variants[r["variant"]]:
            variants[r["variant"]].append(r["target"])
    for v, ts in variants.items():
        extra = P.get("build_extra", [])
        rc = subprocess.call([sys.executable, os.path.join(VERIF, "tools/mkbuild.py"), v] + ts + [e for e in extra if e not in ts])
        if rc:
            print("check %s: build of variant %s failed" % (prop, v))
            return 2
    for v, alternatives in P.get("also_build", []):
        # the first of the alternatives that builds serves
        for i, t in enumerate(alternatives):
            last = i + 1 == len(alternatives)
            rc = subprocess.call([sys.executable, os.path.join(VERIF, "tools/mkbuild.py"), v, t], stderr=None if last else subprocess.DEVNULL)
            if rc == 0:
                if i:
                    print("check %s: variant %s without %s, using %s" % (prop, v, alternatives[0], t))
                    d = os.path.join(os.environ.get("VP_BUILD", os.path.join(VERIF, "build")), v)
                    shutil.copy2(os.path.join(d, t), os.path.join(d, alternatives[0]))
                break
            if last:
                print("check %s: build of variant %s failed" % (prop, v))
                return 2
    t_build = time.time() - t0
    total_budget = P.get("budget", 300 if tier == "quick" else 3 * 3600)
    if tier == "thorough":
        total_budget = max(total_budget, 3 * 3600)
    env = dict(os.environ, ASAN_OPTIONS="exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=0",
               TSAN_OPTIONS="exitcode=66:halt_on_error=1:second_deadlock_stack=1", UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1",
               VP_BUILD=os.environ.get("VP_BUILD", os.path.join(VERIF, "build")), VP_VERIF=VERIF)
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=P["rule"], samples=[], sub_checks=[], build_s=round(t_build, 1))
    violation = None
    hits = {}
    unconfirmed = []
    for r in runs:
        exe = os.path.join(env["VP_BUILD"], r["variant"], r["target"])
        out = os.path.join(VERIF, "work", "%s-%s-%s.json" % (prop, r["variant"], r["target"]))
        if os.path.exists(out):
            os.remove(out)
        sc = scale * (r.get("scale", 1) if tier == "quick" else r.get("thorough_scale", r.get("scale", 1)))
        cmd = [exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--out", out, "--replay-dir", replays, "--scale", str(sc),
               "--budget", str(total_budget * r.get("share", 1.0 / len(runs)))]
        if ksig:
            cmd += ["--known", ksig]
        if r.get("only"):
            cmd += ["--only", r["only"]]
        if r.get("jobs"):
            cmd += ["--jobs", str(r["jobs"])]
        e = dict(env)
        e.update(r.get("env", {}))
        rc = subprocess.call(cmd, env=e)
        try:
            d = json.load(open(out))
        except (OSError, ValueError):
            print("check %s: %s gave no result (exit %d)" % (prop, exe, rc))
            return 2
        for s in d["subs"]:
            cov["evaluations"] += s["evaluations"]
            cov["distinct_nontrivial"] += s["distinct_nontrivial"]
            for x in s["samples"][:2]:
                cov["samples"].append("%s: %s" % (s["name"], x))
            cov["sub_checks"].append(dict(name=s["name"], build=r["variant"], planned=s["planned"], evaluations=s["evaluations"],
                                          distinct_nontrivial=s["distinct_nontrivial"], wall_s=round(s["wall_s"], 2), cut_short=s["cut_short"],
                                          classified=s["tags"]))
        for k, n in d["known_hits"].items():
            hits[k] = hits.get(k, 0) + n
        unconfirmed += d["unconfirmed"]
        if d["violations"]:
            violation = d["violations"][0]
            break
    if unconfirmed:
        cov["unconfirmed_failures"] = unconfirmed[:8]
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
        if hits.get(f["signature"]):
            cov.setdefault("known_findings_hit", {})[f["signature"]] = hits[f["signature"]]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=P.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    if violation:
        cov["violation"] = violation
    tmp = os.path.join(VERIF, "evidence", "." + prop + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    if violation:
        print("%s: %s: %s" % (violation["sub"], violation["sig"], violation["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
        return 1
    if cov["evaluations"] == 0:
        print("check %s: nothing was evaluated" % prop)
        return 2
    print("%s held: %d cases, %d distinct non-trivial, %.0f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
