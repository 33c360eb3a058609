#!/usr/bin/env python3
"""Runs the check of one property.

  run.py P01 quick|thorough         run it (VERIF_SEED selects the seed)
  run.py P01 --replay FILE          re-run one stored case
  run.py --build                    build every harness (setup)

Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check
itself could not run.
"""
import json, os, sys, subprocess, time, shutil, glob, tempfile, fnmatch
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vbuild
from vbuild import VERIF, ENV, NCPU
from checks import CHECKS

KNOWN_FILE = os.path.join(VERIF, "known_findings.json")

def load_known(pid):
    if not os.path.exists(KNOWN_FILE): return []
    return [k for k in json.load(open(KNOWN_FILE))["findings"] if k["property"] == pid]

class Result:
    def __init__(self):
        self.evals = 0; self.discards = 0; self.checks = 0; self.nontriv = 0
        self.distinct = set(); self.classes = {}; self.samples = []; self.fails = []; self.known = {}
        self.errors = []
    def merge(self, d, exe):
        self.evals += d["evaluations"]; self.discards += d["discards"]; self.checks += d["checks"]
        self.nontriv += d["nontrivial"]
        self.distinct.update(d["distinct"])
        for k, v in d["classes"].items(): self.classes[k] = self.classes.get(k, 0) + v
        for k, v in d["known"].items(): self.known[k] = self.known.get(k, 0) + v
        self.samples += d["samples"]
        for f in d["failures"]:
            f["exe"] = exe
            self.fails.append(f)

def run_harness(res, part, exe, tier, seed, outdir, known):
    cfg = part[tier]
    nsh = part.get("shards", NCPU)
    procs = []
    for s in range(nsh):
        out = os.path.join(outdir, "%s.%d.json" % (part["name"], s))
        cmd = [exe, "--seed", str(seed), "--shard", "%d/%d" % (s, nsh), "--cases", str(cfg["cases"]),
               "--time", str(cfg["time"]), "--out", out, "--replaydir", outdir, "--tier", tier,
               "--case-timeout", str(part.get("case_timeout", 120))]
        for k in known: cmd += ["--known", k["sig"]]
        if part.get("only"): cmd += ["--only", part["only"]]
        log = open(out + ".log", "wb")
        env = dict(ENV); env.update(part.get("env", {}))
        procs.append((subprocess.Popen(cmd, cwd=outdir, env=env, stdout=log, stderr=subprocess.STDOUT), out))
    deadline = time.time() + cfg["time"] + 300
    for p, out in procs:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); res.errors.append("%s: shard did not end" % part["name"])
        files = [f for f in [out] + sorted(glob.glob(out + ".w*")) if os.path.exists(f)]
        if p.returncode not in (0, 1) or not files:
            tail = open(out + ".log", "rb").read()[-1500:].decode(errors="replace")
            res.errors.append("%s: shard ended with %s: %s" % (part["name"], p.returncode, tail))
        for f in files:
            try: res.merge(json.load(open(f)), exe)
            except Exception as e: res.errors.append("unreadable result %s: %s" % (f, e))

def replay_once(exe, path, part):
    env = dict(ENV); env.update(part.get("env", {}))
    try:
        r = subprocess.run([exe, "--replay", path, "--case-timeout", str(part.get("case_timeout", 120))],
                           env=env, cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        return r.returncode != 0, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return True, "replay timed out"

def shrink_crash(exe, path, part):
    """Shrinks a crashing case by truncating and zeroing its choices."""
    lines = open(path).read().splitlines()
    ch = lines[1].split()[2:]
    t0 = time.time()
    def write(c, p):
        open(p, "w").write("\n".join([lines[0], "choices %d %s" % (len(c), " ".join(c))] + lines[2:]) + "\n")
    def bad(c):
        tmp = path + ".try"; write(c, tmp)
        b, _ = replay_once(exe, tmp, part)
        os.remove(tmp)
        return b
    lo, hi = 0, len(ch)
    while lo < hi and time.time() - t0 < 60:
        mid = (lo + hi) // 2
        if bad(ch[:mid]): hi = mid
        else: lo = mid + 1
    if bad(ch[:hi]): ch = ch[:hi]
    for i in range(min(len(ch), 60)):
        if time.time() - t0 > 90: break
        if ch[i] != "0":
            c = ch[:i] + ["0"] + ch[i + 1:]
            if bad(c): ch = c
    write(ch, path)

def build_part(part):
    if "build" in part: return part["build"]()
    return vbuild.build_exe(part["name"], [os.path.join(VERIF, s) if not s.startswith("/") else s for s in part["srcs"]],
                            libs=part.get("libs", ("base", "atm")), flags=part.get("flags", ()),
                            incs=part.get("incs", ()), ldflags=part.get("ldflags", ()))

def main():
    if sys.argv[1:] == ["--build"]:
        seen = set()
        for pid in sorted(CHECKS):
            for part in CHECKS[pid]["parts"]:
                if "srcs" in part or "build" in part:
                    build_part(part)
        print("built"); return 0
    pid = sys.argv[1]
    chk = CHECKS[pid]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        path = os.path.abspath(sys.argv[3])
        prop = open(path).readline().split()[1]
        for part in chk["parts"]:
            if part["name"] == prop.split("/")[0] or prop.split(":")[0] in part.get("props", [prop.split(":")[0]]):
                if "pyfunc" in part:
                    bad, out = part["pyreplay"](path)
                else:
                    bad, out = replay_once(build_part(part), path, part)
                if "unknown prop" in out: continue
                print(out); return 1 if bad else 0
        print("no harness for", prop); return 2
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    known = load_known(pid)
    outdir = os.path.join(VERIF, "out", "%s-%s-%d" % (pid, tier, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    res = Result()
    parts = []
    try:
        for part in chk["parts"]:
            parts.append((part, build_part(part) if ("srcs" in part or "build" in part) else None))
    except vbuild.BuildError as e:
        print("ERROR: build failed: %s" % e); return 2
    tb = time.time() - t0
    for part, exe in parts:
        if "pyfunc" in part:
            part["pyfunc"](res, part, exe, tier, seed, outdir, known)
        else:
            run_harness(res, part, exe, tier, seed, outdir, known)
    # known findings: re-run each listed case
    for k in known:
        kp = os.path.join(VERIF, k["replay"])
        still = None
        prop = open(kp).readline().split()[1]
        for part, exe in parts:
            if "pyfunc" in part:
                if prop not in part.get("props", []): continue
                b, out = part["pyreplay"](kp)
            else:
                b, out = replay_once(exe, kp, part)
            if "unknown prop" in out: continue
            still = b and (("sig=%s " % k["sig"]) in out)
        if still: print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else: print("note: listed finding no longer reproduces: %s" % k["what"])
    # confirm failures
    viol = []
    bysig = {}
    for f in res.fails:
        bysig.setdefault((f["prop"], f["sig"]), []).append(f)
    os.makedirs(os.path.join(VERIF, "out", "replays"), exist_ok=True)
    for (prop, sig), fs in sorted(bysig.items()):
        fs.sort(key=lambda f: len(open(f["replay"]).read().split("\n")[1]) if os.path.exists(f["replay"]) else 1 << 30)
        for f in fs[:3]:
            part = next(p for p, e in parts if e == f["exe"] and (("pyfunc" in p) == bool(f.get("py"))))
            if sig.startswith("crash-signal") or sig == "crash-exit": shrink_crash(f["exe"], f["replay"], part)
            n = 0
            for _ in range(3):
                if f.get("py"): bad, out = part["pyreplay"](f["replay"])
                else: bad, out = replay_once(f["exe"], f["replay"], part)
                n += bool(bad)
            if n >= 2 or (n >= 1 and "crash" in sig):
                dst = os.path.join(VERIF, "out", "replays", "%s-%s-seed%d-%s.replay" % (pid, prop.replace(":", "_").replace("/", "_"), seed, "".join(c if c.isalnum() else "_" for c in sig)[:60]))
                shutil.copy(f["replay"], dst)
                f["replay"] = dst
                viol.append(f)
                break
        else:
            print("note: failure %s/%s did not reproduce on replay; ignored" % (prop, sig))
    wall = time.time() - t0
    samples = []
    for s in res.samples:
        if s not in samples: samples.append(s)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": res.evals, "distinct_nontrivial": len(res.distinct),
                       "rule": chk["rule"], "samples": samples[:12] or ["none"],
                       "assertions": res.checks, "discarded": res.discards, "classes": dict(sorted(res.classes.items())),
                       "known_finding_hits": res.known},
          "assumptions": chk.get("assumptions", []),
          "violations": [{"prop": f["prop"], "sig": f["sig"], "msg": f["msg"], "case": f["desc"], "replay": f["replay"]} for f in viol],
          "wall_s": round(wall, 2), "build_s": round(tb, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    shutil.rmtree(outdir, ignore_errors=True)
    vbuild.prune()
    for f in viol:
        print("  %s [%s] %s\n    case: %s" % (f["prop"], f["sig"], f["msg"], f["desc"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, f["replay"]))
    print("%s %s: %d cases (%d distinct nontrivial, %d discarded), %d assertions, %d violations, %.1f s (build %.1f)" %
          (pid, tier, res.evals, len(res.distinct), res.discards, res.checks, len(viol), wall, tb))
    if viol: return 1
    if res.errors:
        for e in res.errors: print("ERROR:", e)
        return 2
    if res.evals < chk.get("min_" + tier, chk.get("min", 1)):
        print("ERROR: only %d cases were evaluated (minimum %d)" % (res.evals, chk.get("min", 1))); return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
