#!/usr/bin/env python3
"""check.py PROP [quick|thorough]: seeded simulated runs for one property.

Exit 0: no violation.  Exit 1 with "VIOLATION property=<id> replay=<path>": a violation that reproduces
from its seed and from its minimised replay file, each in a fresh process.  Exit 3: the check itself failed.
"""
import collections, glob, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
import build as simbuild
from info import INFO, REAL, STUB, ASSUME, RUNS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def known_findings():
    out = []
    p = os.path.join(HERE, "findings", "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: "):
                f = dict(x.split("=", 1) for x in l.split() if "=" in x and not x.startswith("what="))
                f["what"] = l.split("what=", 1)[1].strip() if "what=" in l else ""
                out.append(f)
    return out

def load_runs(outdir):
    rows = []
    for f in sorted(glob.glob(outdir + "/w*.jsonl")):
        for l in open(f, errors="replace"):
            try: rows.append(json.loads(l))
            except ValueError: pass
    rows.sort(key=lambda r: r["i"])
    return rows

def replay_head(path):
    d = {}
    for l in open(path, errors="replace"):
        k, _, v = l.rstrip("\n").partition(" ")
        if k in ("class", "message", "seed", "hash", "steps"): d[k] = v
    return d

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="semla-sim-")
    try:
        return run(prop, tier, seed, t0, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def run(prop, tier, seed, t0, work):
    # the build directory is private to this run, so checks may run side by side
    bdir = os.path.join(work, "b")
    try:
        exe = simbuild.build(bdir)
    except simbuild.BuildError as e:
        print("BUILD-ERROR", e); return 3
    env = dict(os.environ, SIM_KEYS=os.path.join(HERE, "keys"))
    for d in ("obj", "img"): shutil.rmtree(os.path.join(bdir, d), ignore_errors=True)
    tb = time.time() - t0
    n = RUNS[prop] * (1 if tier == "quick" else 40)
    cap = 150 if tier == "quick" else 3000
    out = os.path.join(work, "out")
    jobs = os.cpu_count() or 4
    t1 = time.time()
    subprocess.run([exe, "batch", prop, str(seed), str(n), str(jobs), str(cap), out], env=env, check=False)
    wall = time.time() - t1
    rows = load_runs(out)
    bad = [r for r in rows if r["st"] == 0]
    good = [r for r in rows if r["st"]]
    known, seen_known, code, reported = known_findings(), set(), 0, []
    viols = sorted(glob.glob(out + "/viol-*.replay"), key=lambda p: int(p.rsplit("-", 1)[1].split(".")[0]))
    err = 0
    for v in viols:
        h = replay_head(v)
        kf = [k for k in known if k.get("property") == prop and k.get("class") == h["class"]]
        # gate: the seed again, then the recorded choices, each in a fresh process
        a = sh([exe, "run", prop, h["seed"]], env=env)
        if a.returncode != 1 or ("hash=" + h["hash"]) not in a.stdout:
            print("NOT-REPRODUCED from its seed:", h, a.stdout[-400:]); err = 3; continue
        if sh([exe, "replay", v], env=env).returncode != 1:
            print("NOT-REPRODUCED from its record:", h); err = 3; continue
        small = os.path.join(work, "small.replay")
        s = sh([exe, "shrink", v, small, "40" if tier == "quick" else "120"], env=env)
        best = small if s.returncode == 0 and sh([exe, "replay", small], env=env).returncode == 1 else v
        h2 = replay_head(best)
        if kf and any(k["hash"] == h2["hash"] for k in kf): seen_known.add(kf[0]["what"]); continue
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        dst = os.path.join(HERE, "replays", "%s-%s.replay" % (prop, h["seed"]))
        shutil.copy(best, dst)
        t = sh([exe, "replay", dst, "-v"], env=env)
        open(dst + ".trace", "w").write(t.stdout)
        print("violation:", h2.get("class"), "::", h2.get("message", "")[:600])
        print("seed %s, %s; replay: python3 /verif/check.py --replay %s" % (h["seed"], (s.stdout.strip().splitlines() or [""])[-1], dst))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        reported.append(dst); code = 1
        break
    for k in known:
        if k.get("property") == prop and (k["what"] in seen_known or k.get("always") == "1"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if bad and not code:
        # a run that the simulator could not finish: neither verdict
        print("HARNESS-ERROR in %d runs: %s" % (len(bad), bad[:3]))
        if len(bad) > max(2, len(rows) // 200): err = err or 3
    write_evidence(prop, tier, seed, t0, tb, wall, rows, good, bad, reported, n)
    faults = sum(sum(r["f"].values()) for r in good)
    print("%s %s seed=%d: %d runs in %.1f s, %d violations, %d faults injected, %d distinct executions" % (
        prop, tier, seed, len(good), wall, len(reported), faults, len(set(r["h"] for r in good))))
    if code: return code
    if not good: print("no run finished"); return 3
    return err

def write_evidence(prop, tier, seed, t0, tb, wall, rows, good, bad, reported, n):
    fc, pc = collections.Counter(), collections.Counter()
    for r in good:
        for k, v in r["f"].items(): fc[k] += v
        for e in r["p"].split(";"):
            if e: pc[e.split("=")[0]] += 1
    nontrivial = [r for r in good if r["p"]]
    need = INFO[prop]["must"]
    samples = []
    for r in (nontrivial[:2] + [x for x in nontrivial if x["f"]][:4]):
        samples.append("run %d seed %d: %d steps, %d context switches, %d us simulated, faults %s, reached %s, execution hash %s" % (
            r["i"], r["seed"], r["steps"], r["sw"], r["now"], r["f"] or "none", r["p"].strip(";"), r["h"]))
    simt = sum(r["now"] for r in good) / 1e6
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(good),
            "distinct_nontrivial": len(set(r["h"] for r in nontrivial)),
            "rule": "one evaluation = one simulated run (seeded workload, schedule and faults) judged by the property's oracle; "
                    "non-trivial = the run reached at least one probe of the scenario (" + ", ".join(sorted(pc)) + "); distinct = different "
                    "hash over every scheduling decision, I/O result, fault and process event of the run",
            "samples": samples or ["none"],
            "runs_requested": n, "runs_unfinished": len(bad),
            "runs_and_seeds_per_hour": int(len(good) / max(wall, 0.01) * 3600),
            "simulated_time_s": round(simt, 3),
            "steps_total": sum(r["steps"] for r in good),
            "context_switches_total": sum(r["sw"] for r in good),
            "distinct_interleavings": len(set(r["sh"] for r in good)),
            "distinct_interleavings_measure": "hash of the sequence of (process, reason) scheduling decisions",
            "runs_with_a_fault": sum(1 for r in good if r["f"]),
            "faults_injected": dict(sorted(fc.items())),
            "probes_runs": dict(sorted(pc.items())),
            "probes_never_hit": [p for p in need if not pc.get(p)],
            "oracle": INFO[prop]["oracle"],
            "components_real": REAL, "components_stub": STUB,
        },
        "wall_s": round(time.time() - t0, 2), "build_s": round(tb, 2),
        "assumptions": ASSUME + INFO[prop].get("assume", []), "violations": len(reported),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f: json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)

def replay(path):
    work = tempfile.mkdtemp(prefix="semla-sim-")
    try:
        exe = simbuild.build(os.path.join(work, "b"))
        r = subprocess.run([exe, "replay", path, "-v"], env=dict(os.environ, SIM_KEYS=os.path.join(HERE, "keys")))
        return r.returncode
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    if len(sys.argv) < 2: print(__doc__); sys.exit(3)
    sys.exit(main())
