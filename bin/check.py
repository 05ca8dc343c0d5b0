#!/usr/bin/env python3
"""check.py <property> <quick|thorough>

Builds the simulator from /repo's working tree, runs seeded simulated executions of every scenario of the
property on all cores, gates + minimises + replays every violation, writes evidence/<property>.json.
exit 0: held on everything explored;  exit 1 + "VIOLATION property=<id> replay=<path>";  anything else: broken check.
"""
import os, sys, json, time, subprocess, tempfile, shutil, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import props as P

VERIF = B.VERIF
NW = max(2, min(8, os.cpu_count() or 8))

def run_batches(exe, prop, seed, secs, out, n=NW, first=0, stride=None, runs=None, hashes=False, maxviol=3, scenario=None):
    ps = []
    for i in range(n):
        tag = "w%d" % i
        cmd = [exe, "batch", "--prop", prop, "--seed", str(seed), "--out", out, "--tag", tag, "--first", str(first + i), "--stride", str(stride or n),
               "--secs", str(secs), "--maxviol", str(maxviol)]
        if runs: cmd += ["--runs", str(runs)]
        if hashes: cmd += ["--hashes", os.path.join(out, "hashes." + tag)]
        if scenario: cmd += ["--scenario", scenario]
        ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True))
    res = []
    for p in ps:
        o, _ = p.communicate()
        if p.returncode != 0:
            raise SystemExit("worker failed (rc %d)" % p.returncode)
        res.append(json.loads(o))
    return res

def read_hashes(out, n):
    h = {}
    for i in range(n):
        for l in open(os.path.join(out, "hashes.w%d" % i)):
            a, b, c = l.split(); h[int(a)] = (b, c)
    return h

def determinism(exe, prop, seed, out, count):
    """The same seeds under different worker counts, each in its own process: every hash must agree."""
    maps = []
    for n in (1, 3, NW):
        d = os.path.join(out, "det%d" % n); os.makedirs(d)
        if n == 1:
            run_batches(exe, prop, seed, 30, d, n=1, runs=max(4, count // 3), hashes=True, maxviol=1000)
        else:
            run_batches(exe, prop, seed, 60, d, n=n, runs=(count + n - 1) // n, hashes=True, maxviol=1000)
        maps.append(read_hashes(d, n))
    mism, cmp = [], 0
    for m in maps[:-1]:
        for k, v in m.items():
            if k in maps[-1]:
                cmp += 1
                if maps[-1][k] != v: mism.append(k)
    return cmp, mism

def replay(exe, prop, choices, out, tag="rp"):
    p = subprocess.run([exe, "replay", "--prop", prop, "--choices", choices, "--out", out, "--tag", tag], stdout=subprocess.PIPE, text=True)
    return json.loads(p.stdout)

def known_findings():
    out = []
    fn = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    for l in open(fn):
        m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", l.strip())
        if m: out.append(m.groups())
    return out

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    secs_override = os.environ.get("VERIF_SECS")
    t0 = time.time()
    conf = P.PROPS[prop]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev_file = os.path.join(VERIF, "evidence", prop + ".json")
    if os.path.exists(ev_file): os.unlink(ev_file)
    work = tempfile.mkdtemp(prefix="simcheck-")
    try:
        rc = drive(prop, tier, seed, conf, work, t0, float(secs_override) if secs_override else None, ev_file)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def drive(prop, tier, seed, conf, work, t0, secs_override, ev_file):
    known = [k for k in known_findings() if k[0] == prop]
    merged = {"runs": 0, "discarded": 0, "harness_errors": 0, "simtime": 0, "events": 0}
    counters, samples, violations, hashes, scheds = {}, [], [], set(), set()
    det_cmp, det_bad = 0, []
    search_s = 0.0
    hmsg = ""
    for variant, share in conf["variants"]:
        exe = B.build(variant)
        d = os.path.join(work, variant); os.makedirs(d)
        total = secs_override or conf[tier]
        dc, db = determinism(exe, prop, seed, d, 24 if tier == "quick" else 400)
        det_cmp += dc; det_bad += [(variant, k) for k in db]
        bd = os.path.join(d, "b"); os.makedirs(bd)
        ts = time.time()
        res = run_batches(exe, prop, seed, total * share, bd)
        search_s += time.time() - ts
        for r in res:
            for k in merged: merged[k] += r[k]
            if r["harness_msg"]: hmsg = r["harness_msg"]
            for k, v in r["counters"].items(): counters[k] = counters.get(k, 0) + v
            for s in r["samples"]:
                if len(samples) < 6: samples.append(s)
            hashes.update(r["hashes"]); scheds.update(r["scheds"])
            for v in r["violations"]: v["variant"] = variant; v["exe"] = exe; violations.append(v)
    # -------- violations: known / gated / minimised
    reported, bycls = [], {}
    for v in violations: bycls.setdefault((v["variant"], v["cls"]), []).append(v)
    unreproducible = []
    known_seen = set()
    for (variant, cls), vs in sorted(bycls.items()):
        k = next((k for k in known if k[1] == cls and any(re.search(k[2], v["msg"]) for v in vs)), None)
        if k: known_seen.add(k); continue
        done = False
        for v in sorted(vs, key=lambda v: v["index"])[:3]:
            r1, r2 = replay(v["exe"], prop, v["choices"], work), replay(v["exe"], prop, v["choices"], work)
            if r1["status"] == 2 and r1["cls"] == r2["cls"] == cls and r1["hash"] == r2["hash"] == v["hash"]:
                done = True; break
        if not done:
            unreproducible.append(v); continue
        mf = os.path.join(work, "min.%d" % len(reported))
        if len(reported) < 2:
            subprocess.run([v["exe"], "minimise", "--prop", prop, "--choices", v["choices"], "--cls", cls, "--secs", "12" if tier == "quick" else "60", "--save", mf, "--out", work, "--tag", "min"], stdout=subprocess.DEVNULL)
        use = v["choices"]
        if os.path.exists(mf):
            a, b = replay(v["exe"], prop, mf, work), replay(v["exe"], prop, mf, work)
            if a["status"] == 2 and a["cls"] == b["cls"] == cls and a["hash"] == b["hash"]: use, r1 = mf, a
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        rf = os.path.join(rd, "%s-%s-%d.json" % (prop, r1["hash"], len(reported)))
        json.dump({"property": prop, "variant": variant, "seed": seed, "index": v["index"], "class": cls, "message": r1["msg"], "hash": r1["hash"],
                   "choices": [int(x) for x in open(use).read().split()], "original_choices": len(open(v["choices"]).read().split()),
                   "trace": r1["trace"].split("\n"), "replay_with": "python3 /verif/bin/replay.py <this file>"}, open(rf, "w"), indent=1)
        reported.append((rf, cls, r1["msg"]))
    wall = time.time() - t0
    faults = {k: v for k, v in sorted(counters.items()) if k.startswith("fault.")}
    cov = {
        "evaluations": merged["runs"] - merged["discarded"], "distinct_nontrivial": len(hashes), "rule": conf["rule"], "samples": samples,
        "simulated_runs": merged["runs"], "discarded_runs": merged["discarded"],
        "runs_per_hour": int(merged["runs"] * 3600 / max(search_s, 1e-3)), "seeds_per_hour": int(merged["runs"] * 3600 / max(search_s, 1e-3)),
        "simulated_time": {"unit": conf.get("time_unit", "simulated I/O operations and scheduler steps"), "total": merged["simtime"]},
        "observed_events": merged["events"],
        "faults_injected": faults,
        "scenarios": {k[9:]: v for k, v in sorted(counters.items()) if k.startswith("scenario.")},
        "other_counters": {k: v for k, v in sorted(counters.items()) if not k.startswith("fault.") and not k.startswith("scenario.")},
        "distinct_interleavings": {"measure": conf.get("sched_measure", "hash over the sequence of injected faults and their positions"), "count": len(scheds)},
        "determinism": {"compared": det_cmp, "mismatches": len(det_bad), "worker_counts": [1, 3, NW]},
        "components": conf["components"], "workers": NW, "known_findings_seen": [k[3] for k in sorted(known_seen)],
    }
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": conf["assumptions"],
               "wall_s": round(wall, 2), "violations": len(reported)}, open(ev_file, "w"), indent=1)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))
    for rf, cls, msg in reported:
        print("violated: %s\n  %s" % (cls, msg[:1200].replace("\n", "\n  ")))
        print("VIOLATION property=%s replay=%s" % (prop, rf))
    print("%s %s: %d simulated runs, %d distinct non-trivial, %d schedules/fault sequences, determinism %d compared / %d mismatching, %.0f s"
          % (prop, tier, merged["runs"], len(hashes), len(scheds), det_cmp, len(det_bad), wall))
    if reported: return 1
    if unreproducible:
        print("ERROR: %d violation(s) did not replay exactly: %s" % (len(unreproducible), unreproducible[0]["cls"])); print(unreproducible[0]["msg"][:500]); return 3
    if merged["harness_errors"]: print("ERROR: harness: " + hmsg); return 3
    if merged["runs"] - merged["discarded"] < 20 or not hashes:
        print("ERROR: too few evaluations"); return 3
    if det_bad: print("WARNING: executions were not repeatable for %s" % det_bad[:5])
    return 0

if __name__ == "__main__":
    main()
