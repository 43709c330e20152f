#!/usr/bin/env python3
"""check.py <property> quick|thorough

Decides one property by seeded search over simulated runs of the code in /repo's working tree.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: no verdict (build failure, simulator error)."""
import hashlib, json, os, re, select, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/tools")
import build as builder
import plans

NPROC = int(os.environ.get("SIM_JOBS", "8"))

def run_replay(exe, text, timeout=300):
    fd, path = tempfile.mkstemp(prefix="plan", dir="/dev/shm")
    try:
        os.write(fd, text.encode()); os.close(fd)
        r = subprocess.run([exe, "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
        return json.loads(r.stdout.decode("utf-8", "replace").strip().splitlines()[-1])
    except Exception as e:
        return {"kind": 2, "klass": "", "msg": "replay: %s" % e, "hash": "", "err": ""}
    finally:
        os.unlink(path)

def minimise(exe, text, klass, budget=75):
    """Delta debugging over the lines of the plan (operations, faults, preemptions); the violation class must stay."""
    end = time.time() + budget
    lines = text.strip().split("\n")
    head = [l for l in lines if not l.startswith("op ")]
    ops = [l for l in lines if l.startswith("op ")]
    tried = 0
    def fails(cand):
        nonlocal tried
        tried += 1
        r = run_replay(exe, "\n".join(head + cand) + "\n")
        return r["kind"] == 1 and r["klass"] == klass
    n = 2
    while len(ops) > 1 and time.time() < end:
        size = max(1, len(ops) // n); reduced = False
        i = 0
        while i < len(ops) and time.time() < end:
            cand = ops[:i] + ops[i + size:]
            if cand and fails(cand):
                ops = cand; reduced = True
            else:
                i += size
        if size == 1 and not reduced: break
        if not reduced or size > 1: n = min(len(ops), n * 2) if not reduced else max(2, min(len(ops), n))
        if size == 1 and reduced: n = len(ops)
    return "\n".join(head + ops) + "\n", tried

def load_known():
    p = VERIF + "/known-findings.json"
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}

def symbolize(exe, err):
    out = []
    for m in re.finditer(r"#(\d+) 0x[0-9a-f]+\s+\((\S*?)\+(0x[0-9a-f]+)\)", err):
        if len(out) > 9: break
        if m.group(2) == exe: out.append(m.group(3))
    if not out: return ""
    try:
        r = subprocess.run(["addr2line", "-Cfpe", exe] + out, stdout=subprocess.PIPE, text=True, timeout=60)
        return r.stdout
    except Exception:
        return ""

def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = plans.PROPS[prop]
    exe, log = builder.build()
    if exe is None:
        print("ERROR: build of the simulator from /repo failed"); print("\n".join(l[:300] for l in log.splitlines() if "error" in l)[:2500]); return 2
    tb = time.time() - t0
    budget = float(os.environ.get("SIM_SECS", spec.get(tier, 35 if tier == "quick" else 600)))
    known = [k for k in load_known()["findings"] if k["property"] == prop]
    totals = {}; viol = None; per = []; statefiles = []; samples = []; errors = []; knownHits = {}
    scratch = tempfile.mkdtemp(prefix="simck", dir="/dev/shm")
    wls = spec["workloads"]; share = sum(w[1] for w in wls)
    try:
        for wl, weight in wls:
            secs = budget * weight / share
            procs = []
            for k in range(NPROC):
                sf = "%s/states.%s.%d" % (scratch, wl, k)
                cmd = [exe, "--workload", wl, "--start", str(seed * 1000003 + k), "--stride", str(NPROC), "--secs", "%.1f" % secs,
                       "--det", "50", "--states", sf, "--stop", "1" if not known else "20"]
                if tier == "thorough": cmd.append("--thorough")
                procs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL), sf))
            agg = {"workload": wl, "runs": 0, "ops": 0, "sim_us": 0, "det": 0, "counters": {}}
            wstates = set(); live = {p.stdout.fileno(): (p, sf, b"") for p, sf in procs}; stop = False
            while live:
                ready, _, _ = select.select(list(live), [], [], 1.0)
                for fd in ready:
                    p, sf, buf = live[fd]
                    d = os.read(fd, 1 << 16)
                    if not d:
                        p.wait(); del live[fd]
                        if p.returncode not in (0, 1, 2) and not stop: errors.append("worker of %s ended with status %d" % (wl, p.returncode))
                        continue
                    buf += d
                    while b"\n" in buf:
                        line, buf = buf.split(b"\n", 1)
                        ev = json.loads(line.decode("utf-8", "replace"))
                        if ev["event"] == "summary":
                            for k in ("runs", "ops", "sim_us", "det"): agg[k] += ev[k]
                            for k, v in ev["counters"].items(): agg["counters"][k] = agg["counters"].get(k, 0) + v
                            try:
                                b = open(sf, "rb").read()
                                wstates.update(b[i:i + 8] for i in range(0, len(b), 8))
                            except OSError: pass
                        elif ev["event"] == "violation":
                            kf = [k for k in known if k["klass"] == ev["klass"] and re.search(k["match"], ev["msg"])]
                            if kf:
                                knownHits[kf[0]["id"]] = knownHits.get(kf[0]["id"], 0) + 1
                            elif viol is None or ev["seed"] < viol["seed"]:
                                viol = ev; viol["workload"] = wl
                        else:
                            errors.append("%s: %s seed %s %s" % (ev["event"], wl, ev.get("seed"), ev.get("msg", "")))
                    if fd in live: live[fd] = (p, sf, buf)
                if (viol or errors) and not stop:
                    stop = True
                    for p, _, _ in live.values():
                        if p.poll() is None: p.kill()
            agg["states"] = len(wstates); statefiles.append(len(wstates)); per.append(agg)
            if viol or errors: break
        replay = None
        if viol and not errors:
            a = run_replay(exe, viol["plan"]); b = run_replay(exe, viol["plan"])
            if a["kind"] != 1 or a["klass"] != viol["klass"] or a["hash"] != b["hash"] or a["hash"] != viol["hash"]:
                errors.append("violation of %s seed %s did not reproduce exactly (%s/%s/%s)" % (viol["workload"], viol["seed"], viol["klass"], a["klass"], b["klass"]))
            else:
                text, tried = minimise(exe, viol["plan"], viol["klass"])
                fin = run_replay(exe, text); fin2 = run_replay(exe, text)
                if fin["kind"] != 1 or fin["klass"] != viol["klass"] or fin["hash"] != fin2["hash"]:
                    text, fin = viol["plan"], a
                os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
                replay = "%s/evidence/replay/%s-%s-%s.plan" % (VERIF, prop, viol["workload"], viol["seed"])
                hdr = "# property %s, class %s\n# %s\n# replay: %s --replay %s --trace\n" % (prop, fin["klass"], fin["msg"].replace("\n", " "), exe, replay)
                for l in symbolize(exe, fin.get("err", "")).splitlines(): hdr += "#   " + l + "\n"
                open(replay, "w").write(hdr + text)
                viol["final"] = fin; viol["minimised_ops"] = sum(l.startswith("op ") for l in text.splitlines()); viol["tries"] = tried
    finally:
        subprocess.run(["rm", "-rf", scratch])
    runs = sum(a["runs"] for a in per); wall = time.time() - t0
    counters = {}
    for a in per:
        for k, v in a["counters"].items(): counters[k] = counters.get(k, 0) + v
    faults = {k[6:]: v for k, v in counters.items() if k.startswith("fault.")}
    search = max(1e-3, wall - tb)
    # sample plans actually explored
    for wl, _ in wls[:2]:
        g = subprocess.run([exe, "--workload", wl, "--start", str(seed * 1000003), "--gen"] + (["--thorough"] if tier == "thorough" else []), stdout=subprocess.PIPE, text=True).stdout
        samples.append({"workload": wl, "seed": seed * 1000003, "plan": g.strip().split("\n")[:14]})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "wall_s": round(wall, 2),
          "violations": 1 if viol else 0,
          "assumptions": plans.ASSUMPTIONS + spec.get("assumptions", []),
          "coverage": {"evaluations": runs, "distinct_nontrivial": sum(statefiles),
                       "rule": "one evaluation = one simulated run (one seed, one plan of operations, placements, preemptions and faults); distinct_nontrivial = distinct hashes of " + spec.get("measure", "observed environment states (all query results and contents) after an operation") + " reached over all runs",
                       "samples": samples,
                       "runs_per_hour": int(runs / search * 3600), "seeds": "%d, step 1, %d seeds" % (seed * 1000003, runs),
                       "simulated_time_s": round(sum(a["sim_us"] for a in per) / 1e6, 1),
                       "operations_executed": sum(a["ops"] for a in per),
                       "faults_injected": faults, "counters": {k: v for k, v in counters.items() if not k.startswith("fault.")},
                       "determinism_checks": sum(a["det"] for a in per),
                       "workloads": [{k: a[k] for k in ("workload", "runs", "ops", "states", "det")} for a in per],
                       "real_components": plans.REAL, "stubbed_components": plans.STUB,
                       "known_findings_hit": knownHits, "build_s": round(tb, 1)}}
    if viol and replay:
        ev["coverage"]["violation"] = {"class": viol["final"]["klass"], "message": viol["final"]["msg"], "seed": viol["seed"], "replay": replay, "minimised_ops": viol["minimised_ops"]}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if errors:
        for e in errors[:5]: print("ERROR: " + e)
        return 2
    if viol:
        f = viol["final"]
        print("class=%s seed=%s workload=%s ops=%d (of %d)" % (f["klass"], viol["seed"], viol["workload"], viol["minimised_ops"], sum(l.startswith("op ") for l in viol["plan"].splitlines())))
        print(f["msg"])
        sys.stdout.write(symbolize(exe, f.get("err", "")))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    print("OK property=%s runs=%d states=%d faults=%s wall=%.1fs" % (prop, runs, sum(statefiles), json.dumps(faults), wall))
    return 0
if __name__ == "__main__":
    sys.exit(main())
