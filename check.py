#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough] | --list | --setup | --replay <file>

Builds the library in /repo's working tree together with the exploration harnesses of
the property, runs them, writes evidence/<PROPERTY>.json and decides.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Else: error."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "CoarseGrainSites")
LIB = os.path.join(SRC, "src", "libmythical")
H = os.path.join(VERIF, "harness")
JOBS = max(1, min(8, os.cpu_count() or 1))

sys.path.insert(0, H)
from registry import PROPERTIES, MODULES, PLAIN, DEEP  # noqa: E402

CXX = "g++"
COMMON = ["-std=c++14", "-g1", "-UNDEBUG", "-w", "-D_GLIBCXX_ASSERTIONS"]
SAN = ["-O1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
SHIM = ["-include", os.path.join(H, "rng_shim.hpp")]
# shim: draws behind the seam, memory and undefined behaviour checked; fast: the same
# without the sanitizers; plain: the library's own random numbers, checked
FLAVOUR = {"shim": COMMON + SAN + SHIM, "fast": COMMON + ["-O2"] + SHIM, "plain": COMMON + SAN}
INC = ["-iquote", os.path.join(VERIF, "standin", "q", "a", "b"),
       "-I" + os.path.join(VERIF, "standin", "UGLY", "include"),
       "-I" + os.path.join(SRC, "include"), "-I" + os.path.join(SRC, "src"),
       "-I" + os.path.join(LIB, "topologyfeatures"), "-I" + LIB, "-I" + H]


def run(cmd, timeout=None, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b"").decode("utf-8", "replace"), "timeout"


def lib_sources():
    return sorted(glob.glob(os.path.join(LIB, "**", "*.cpp"), recursive=True))


def build(wanted, bdir):
    """wanted: (module, flavour) pairs; compiles the library once per flavour and links
    every module; returns {(module, flavour): exe}"""
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    wanted = sorted(set(wanted))
    flavours = sorted({f for _, f in wanted})
    tasks = []
    for m, f in wanted:
        o = os.path.join(bdir, "%s.%s.o" % (m, f))
        tasks.append(("H", (m, f), o, [CXX] + FLAVOUR[f] + INC + ["-c", os.path.join(H, MODULES[m]), "-o", o]))
    for f in flavours:
        os.makedirs(os.path.join(bdir, f))
        for s in lib_sources():
            o = os.path.join(bdir, f, os.path.relpath(s, LIB).replace("/", "_")[:-4] + ".o")
            tasks.append((f, s, o, [CXX] + FLAVOUR[f] + INC + ["-c", s, "-o", o]))
    objs = {f: [] for f in flavours}
    errs = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for (k, s, o, cmd), (rc, so, se) in zip(tasks, ex.map(lambda t: run(t[3]), tasks)):
            if rc != 0:
                errs[(k, s)] = se
            elif k in objs:
                objs[k].append(o)
    exes = {}
    for m, f in wanted:
        if ("H", (m, f)) in errs:
            raise BuildError("harness %s does not compile:\n%s" % (m, errs[("H", (m, f))][:4000]))
        ar = os.path.join(bdir, "lib_%s.a" % f)
        if not os.path.exists(ar):
            rc, so, se = run(["ar", "rcs", ar] + objs[f])
            if rc:
                raise BuildError(se)
        exe = os.path.join(bdir, "%s.%s" % (m, f))
        san = [x for x in FLAVOUR[f] if x.startswith("-fsanitize")]
        rc, so, se = run([CXX] + san + [os.path.join(bdir, "%s.%s.o" % (m, f)), ar, "-o", exe, "-lpthread"])
        if rc:
            extra = "\n".join("%s: %s" % (k, v[:1500]) for k, v in errs.items())
            raise BuildError("cannot link %s:\n%s\n%s" % (m, se[:3000], extra))
        exes[(m, f)] = exe
    return exes


def runs_of(prop, tier):
    """the explorations of a check: (module, flavour, tier of the exploration)"""
    out = []
    for m in PROPERTIES[prop]["modules"]:
        if m in PLAIN:
            out.append((m, "plain", tier))
        elif m in DEEP:
            out += [(m, "fast", tier), (m, "shim", "light")]
        elif tier == "quick":
            out.append((m, "shim", "quick"))
        else:
            out += [(m, "shim", "quick"), (m, "fast", "thorough")]
    return out


class BuildError(Exception):
    pass


def sanenv():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:quarantine_size_mb=8:allocator_may_return_null=0:abort_on_error=1:malloc_context_size=4"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
    return e


def parse(out):
    r = {"stats": {}, "scenarios": {}, "samples": []}
    for line in out.splitlines():
        if line.startswith("STATS "):
            r["stats"] = {k: int(v) for k, v in (x.split("=") for x in line.split()[1:])}
        elif line.startswith("SCENARIO "):
            p = line.split()
            r["scenarios"][p[1]] = dict(x.split("=") for x in p[2:])
        elif line.startswith("SAMPLE "):
            r["samples"].append(line[7:])
        elif line.startswith("FAIL "):
            r["kind"] = line.split("kind=")[1]
        elif line.startswith("CASE "):
            r["case"] = line[5:]
        elif line.startswith("MSG "):
            r["msg"] = line[4:]
    return r


def known_findings(prop):
    out = []
    f = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if not line:
                continue
            d = json.loads(line)
            if d.get("property") == prop and d.get("status") == "known":
                out.append(d)
    return out


def main():
    a = sys.argv[1:]
    if not a or a[0] == "--list":
        for p in sorted(PROPERTIES):
            print(p, PROPERTIES[p]["modules"])
        return 0
    if a[0] == "--setup":
        for t in ("g++", "ar"):
            if not shutil.which(t):
                print("missing", t)
                return 2
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("nothing to prepare: every check builds what it needs from /repo's working tree")
        return 0
    if a[0] == "--replay":
        d = json.load(open(a[1]))
        mf = (d["module"], d["flavour"])
        exes = build([mf], os.path.join(VERIF, "build", "replay"))
        rc, so, se = run([exes[mf], "--property", d["property"], "--tier", d["tier"], "--replay", d["case"]], 600, sanenv())
        print(so, se[:6000])
        return 0 if rc == 0 else 1
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if prop not in PROPERTIES:
        print("unknown property", prop)
        return 2
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = PROPERTIES[prop]
    runs = runs_of(prop, tier)
    bdir = os.path.join(VERIF, "build", prop)
    try:
        exes = build([(m, f) for m, f, _ in runs], bdir)
    except BuildError as e:
        print("BUILD ERROR\n%s" % e)
        return 2
    tb = time.time() - t0
    total = {"jobs": 0, "done": 0, "states": 0, "transitions": 0, "traces": 0, "pruned": 0, "outcomes": 0, "capped": 0}
    scen, samples = {}, []
    violation = None
    wall = spec.get("budget", 480) if tier == "quick" else spec.get("thorough_budget", 7200)
    hang = "60"
    for i, (m, fl, rt) in enumerate(runs):
        left = max(30, int((wall - (time.time() - t0 - tb)) / (len(runs) - i)))
        exe = exes[(m, fl)]
        cmd = [exe, "--property", prop, "--tier", rt, "--jobs", str(JOBS), "--hang", hang, "--budget", str(left)]
        rc, so, se = run(cmd, left + 200, sanenv())
        r = parse(so)
        for k in total:
            total[k] += r["stats"].get(k, 0)
        for k, v in r["scenarios"].items():
            scen["%s/%s/%s:%s" % (m, fl, rt, k)] = v
        samples += [m + ": " + s for s in r["samples"]][:3]
        if rc == 0:
            continue
        if rc == 1 and "case" in r:
            # confirm on the real code, alone, before believing it
            ok = False
            det = ""
            for _ in range(2):
                rc2, so2, se2 = run([exe, "--property", prop, "--tier", rt, "--replay", r["case"]], 150, sanenv())
                det = (so2 + "\n" + se2)[:6000]
                if rc2 not in (0, 3):
                    ok = True
                    break
            how = "python3 check.py --replay <this file>"
            if not ok and r.get("kind") != "hang":
                # state kept between executions: the case fails only after others, in the same process
                rc3, so3, se3 = run(cmd, left + 200, sanenv())
                r3 = parse(so3)
                if rc3 == 1 and "case" in r3 and r3.get("kind") != "hang":
                    ok, so2, det = True, so3, (so3 + "\n" + se3)[:6000]
                    how = "fails only after other cases in the same process: " + " ".join([os.path.basename(cmd[0])] + cmd[1:])
            if not ok:
                print("UNCONFIRMED %s %s: %s\n%s" % (r.get("kind"), r["case"], r.get("msg"), det))
                print("CHECK ERROR: a reported case did not reproduce")
                return 3
            r2 = parse(so2)
            violation = {"property": prop, "module": m, "flavour": fl, "tier": rt, "kind": r.get("kind"), "case": r["case"],
                         "message": r2.get("msg") or r.get("msg"), "detail": det, "how": how}
            break
        print("CHECK ERROR module=%s rc=%s\n%s\n%s" % (m, rc, so[-3000:], se[-3000:]))
        return 3
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": total["states"], "transitions": total["transitions"],
            "traces_validated_against_impl": total["traces"],
            "samples": samples or ["(none)"],
            "exhaustive": violation is None and total["capped"] == 0,
            "distinct_outcomes": total["outcomes"],
            "executions_cut_at_known_states": total["pruned"],
            "configurations": total["jobs"], "configurations_finished": total["done"],
            "scenarios": scen,
            "rule": spec["rule"],
            "bounds": spec["bounds"],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(tb, 2),
        "violations": 1 if violation else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(bdir, ignore_errors=True)
    if violation:
        d = os.path.join(VERIF, "build", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.json" % prop)
        with open(p, "w") as f:
            json.dump(violation, f, indent=1)
        print("case: %s %s" % (violation["module"], violation["case"]))
        print("what: %s" % violation["message"])
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d configurations=%d/%d capped=%d wall=%.1fs" % (
        prop, tier, total["states"], total["transitions"], total["traces"], total["done"], total["jobs"], total["capped"], time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
