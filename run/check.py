#!/usr/bin/env python3
"""Runs the seeded simulation search for one property.

  check.py <property> [--tier quick|thorough] [--seconds S] [--jobs N]
  check.py --replay FILE

exit 0: the property held in every simulated run;  exit 1: VIOLATION line printed;
exit 2: the machinery itself could not give an answer.
"""
import argparse, collections, hashlib, json, os, re, selectors, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import props as P

VERIF = B.VERIF
LIMIT = 90          # real seconds one simulated run may take


def env(scratch):
    e = dict(os.environ)
    e["SIM_SCRATCH"] = scratch
    e.pop("SIM_NO_ASLR_FIX", None)
    # a fixed environment block: its size must not move the initial stack
    keep = {k: e[k] for k in ("PATH", "SIM_SCRATCH") if k in e}
    keep["SIM_KNOWN"] = " ".join(sorted(k["key"] for k in load_known() if k.get("status") == "known"))
    return keep


class Scratch:
    def __enter__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
        self.d = tempfile.mkdtemp(prefix="usmlsim-", dir=base)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def one(exe, scen, seed, scratch):
    r = subprocess.run([exe, "one", "--scenario", scen, "--seed", str(seed), "--cpu", "0", "--limit", str(LIMIT)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(scratch))
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            return json.loads(l)
    return {"verdict": "error", "cls": "driver", "msg": "rc=%d %s" % (r.returncode, r.stderr[-500:]), "hash": "", "ops": [], "devs": []}


def text_of(scen, ops, devs, sched=None):
    out = ["scenario " + scen]
    if sched is not None:
        out.append("schedule-seed %d" % sched)
    for t, n, a in ops:
        out.append("op %d %s %s" % (t, n, " ".join(map(str, a))))
    for t, ev, c in devs:
        out.append("dev %d %d %d" % (t, ev, c))
    out.append("end")
    return "\n".join(out) + "\n"


class Replayer:
    """A process that replays texts one after another."""
    def __init__(self, exe, scratch, cpu=0):
        self.p = subprocess.Popen([exe, "replay", "--cpu", str(cpu), "--limit", str(LIMIT)], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env(scratch))

    def run(self, text):
        self.p.stdin.write(text)
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l:
            return {"verdict": "error", "cls": "driver", "msg": "", "hash": "", "ops": [], "devs": []}
        return json.loads(l)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=10)
        except Exception:
            self.p.kill()


def minimise(exe, scratch, scen, r, budget):
    """Shrinks operations, faults and scheduling decisions; keeps the violation class."""
    end = time.time() + budget
    rp = Replayer(exe, scratch)
    cls = r["cls"]
    stats = {"tries": 0, "ops_before": len(r["ops"]), "devs_before": len(r["devs"])}

    def fails(ops, devs, sched=None):
        stats["tries"] += 1
        x = rp.run(text_of(scen, ops, devs, sched))
        return x if x["verdict"] == "violation" and x["cls"] == cls else None

    ops, devs = r["ops"], r["devs"]
    if not fails(ops, devs):
        rp.close()
        return ops, devs, stats            # explicit decisions differ from the seed: keep the original

    def ddmin(items, test):
        n = 2
        while len(items) >= 1 and time.time() < end:
            size = max(1, len(items) // n)
            cut = False
            i = 0
            while i < len(items) and time.time() < end:
                cand = items[:i] + items[i + size:]
                if test(cand):
                    items = cand
                    cut = True
                else:
                    i += size
            if size == 1 and not cut:
                break
            if not cut:
                n = min(len(items), n * 2) or 1
            else:
                n = max(2, n - 1)
            if not items:
                break
        return items

    if fails(ops, []):
        devs = []
    state = {"devs": devs}

    def ops_test(cand):
        if fails(cand, state["devs"]):
            return True
        for s in range(6):
            x = fails(cand, [], 1000 + s)
            if x and len(x["devs"]) < 4000:
                state["devs"] = x["devs"]
                return True
        return False

    devs = ddmin(devs, lambda c: fails(ops, c) is not None)
    state["devs"] = devs
    ops = ddmin(ops, ops_test)
    devs = ddmin(state["devs"], lambda c: fails(ops, c) is not None)
    rp.close()
    stats["ops_after"], stats["devs_after"] = len(ops), len(devs)
    return ops, devs, stats


def symbolise(exe, msg):
    addrs = sorted(set(re.findall(r"0x[0-9a-f]{4,16}", msg)))
    if not addrs:
        return msg
    try:
        q = [hex(int(a, 16) - 1) for a in addrs]
        r = subprocess.run(["addr2line", "-Cfpe", exe] + q, stdout=subprocess.PIPE, text=True, timeout=60)
        tab = dict(zip(addrs, r.stdout.splitlines()))
    except Exception:
        return msg
    return re.sub(r"0x[0-9a-f]{4,16}", lambda m: "%s[%s]" % (m.group(0), tab[m.group(0)]) if m.group(0) in tab and "??" not in tab[m.group(0)] else m.group(0), msg)


def replay_file(path):
    meta = {}
    with open(path) as f:
        lines = f.read()
    for l in lines.splitlines():
        m = re.match(r"# (\w+): (.*)", l)
        if m:
            meta[m.group(1)] = m.group(2)
    exe = B.build([meta["binary"]])[meta["binary"]]
    text = "\n".join(l for l in lines.splitlines() if not l.startswith("#")) + "\n"
    with Scratch() as sc:
        rp = Replayer(exe, sc)
        x = rp.run(text)
        rp.close()
    same = x["verdict"] == "violation" and x["cls"] == meta.get("class") and x["hash"] == meta.get("hash")
    print("replay: verdict=%s class=%s hash=%s (recorded class=%s hash=%s)" % (x["verdict"], x["cls"], x["hash"], meta.get("class"), meta.get("hash")))
    print(symbolise(exe, x["msg"]))
    print("history:")
    print(symbolise(exe, x.get("trace", "")))
    if x["verdict"] == "violation":
        print("VIOLATION property=%s replay=%s" % (meta.get("property"), path))
        print("reproduced exactly" if same else "reproduced with a different trace")
        return 1
    return 0


def load_known():
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


class Agg:
    def __init__(self):
        self.runs = self.errors = self.nontrivial = 0
        self.sim_ns = self.points = self.events = self.switches = self.preempts = 0
        self.maxthreads = 0
        self.ihash = set()
        self.nthash = set()      # of non-trivial runs
        self.hashes = set()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.knowns = collections.Counter()
        self.fault_runs = 0
        self.wall = 0.0

    def add(self, r):
        self.runs += 1
        self.nontrivial += r["nontrivial"]
        for k in ("sim_ns", "points", "events", "switches", "preempts"):
            setattr(self, k, getattr(self, k) + r[k])
        self.maxthreads = max(self.maxthreads, r["threads"])
        self.ihash.add(r["ihash"])
        if r["nontrivial"]:
            self.nthash.add(r["ihash"])
        self.hashes.add(r["hash"])
        self.faults.update(r["faults"])
        self.probes.update(r["probes"])
        self.knowns.update(r["knowns"])
        if r["faults"]:
            self.fault_runs += 1

    def dict(self):
        return {"runs": self.runs, "non_trivial_runs": self.nontrivial, "errors": self.errors,
                "runs_per_hour": round(self.runs / self.wall * 3600) if self.wall else 0,
                "simulated_seconds": round(self.sim_ns / 1e9, 3), "scheduling_points": self.points,
                "events": self.events, "context_switches": self.switches, "forced_preemptions": self.preempts,
                "max_threads": self.maxthreads, "distinct_interleavings": len(self.ihash),
                "distinct_executions": len(self.hashes), "runs_with_faults": self.fault_runs,
                "faults_injected": dict(self.faults), "rare_conditions_reached": dict(self.probes)}


def search(exe, scen, base, jobs, seconds, scratch, on_bad, maxruns=1 << 40):
    """Runs seeds base, base+1, ... on all cores until the time is used; stops at the first bad run."""
    agg = Agg()
    t0 = time.time()
    sel = selectors.DefaultSelector()
    procs = []
    per = max(1, maxruns // jobs)
    for i in range(jobs):
        p = subprocess.Popen([exe, "run", "--scenario", scen, "--seed", str(base + i), "--count", str(per), "--stride", str(jobs),
                              "--budget", "%.2f" % seconds, "--cpu", str(i), "--stop-after", "1", "--limit", str(LIMIT)],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env(scratch))
        os.set_blocking(p.stdout.fileno(), False)
        sel.register(p.stdout, selectors.EVENT_READ, [p, b""])
        procs.append(p)
    bad = []
    live = len(procs)
    while live:
        for key, _ in sel.select(timeout=5):
            st = key.data
            chunk = key.fileobj.read(1 << 16)
            if not chunk:
                if chunk is not None:
                    sel.unregister(key.fileobj)
                    live -= 1
                continue
            st[1] += chunk
            *lines, st[1] = st[1].split(b"\n")
            for l in lines:
                if not l.startswith(b"{"):
                    continue
                r = json.loads(l)
                if r["verdict"] == "ok":
                    agg.add(r)
                else:
                    bad.append(r)
        if bad and not getattr(agg, "stopping", False):
            agg.stopping = True
            agg.stop_at = time.time() + 2
        if bad and time.time() > agg.stop_at:
            for p in procs:
                p.kill()
    for p in procs:
        p.wait()
    agg.wall = time.time() - t0
    agg.errors = sum(1 for r in bad if r["verdict"] == "error")
    return agg, bad


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 8)
    ap.add_argument("--scenario")
    ap.add_argument("--replay")
    ap.add_argument("--no-min", action="store_true")
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay_file(a.replay))
    prop = P.PROPS[a.property]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(re.sub(r"\D", "", os.environ.get("VERIF_SEED", "1")) or 1)
    t0 = time.time()
    scens = [s for s in prop["scenarios"] if not a.scenario or s["name"] == a.scenario]
    try:
        exes = B.build(sorted({s["binary"] for s in scens}))
    except RuntimeError as e:
        print(e)
        sys.exit(2)
    t_build = time.time() - t0
    total = a.seconds or (prop.get("quick_s", 20) if tier == "quick" else prop.get("thorough_s", 600))
    weight = sum(s.get("weight", 1) for s in scens)
    known = [k for k in load_known() if k.get("property") == a.property and k.get("status") == "known"]
    aggs, samples, violation, rc, machinery, found_known = {}, [], None, 0, [], set()
    det = []
    with Scratch() as sc:
        for s in scens:
            exe, name = exes[s["binary"]], s["name"]
            secs = total * s.get("weight", 1) / weight
            base = (int(hashlib.sha256(("%d/%s" % (seed, name)).encode()).hexdigest()[:8], 16)) * 10 ** 7 + 1
            # the same seed twice must be the same execution
            x, y = one(exe, name, base, sc), one(exe, name, base, sc)
            det.append({"scenario": name, "seed": base, "hash": x["hash"], "identical": x["hash"] == y["hash"] and x["verdict"] == y["verdict"]})
            if x["verdict"] == "ok":
                samples.append({"scenario": name, "seed": base, "workload": [[t, n] + arg for t, n, arg in x["ops"][:12]],
                                "scheduling_decisions": x["devs"][:8], "points": x["points"], "threads": x["threads"], "faults": x["faults"]})
            spent, start = 0.0, base
            agg = Agg()
            while True:
                g, bad = search(exe, name, start, a.jobs, max(0.5, secs - spent), sc, None)
                spent += g.wall
                # merge
                for k in ("runs", "nontrivial", "sim_ns", "points", "events", "switches", "preempts", "errors", "fault_runs", "wall"):
                    setattr(agg, k, getattr(agg, k) + getattr(g, k))
                agg.maxthreads = max(agg.maxthreads, g.maxthreads)
                agg.ihash |= g.ihash; agg.nthash |= g.nthash; agg.hashes |= g.hashes
                agg.faults.update(g.faults); agg.probes.update(g.probes); agg.knowns.update(g.knowns)
                hit = None
                for r in bad:
                    # gate: the run must repeat exactly
                    u, v = one(exe, name, r["seed"], sc), one(exe, name, r["seed"], sc)
                    okv = ("violation",) if r["verdict"] == "violation" else ("error",)
                    if r["cls"] == "sim-timeout":
                        if u["cls"] == v["cls"] == "sim-timeout" and prop.get("timeout_is_hang", True):
                            u["verdict"], u["cls"] = "violation", "hang-realtime"
                            hit = (r, u)
                            break
                    elif r["verdict"] == "violation" and u["verdict"] in okv and u["hash"] == v["hash"] == r["hash"] and u["cls"] == v["cls"] == r["cls"]:
                        m = None
                        for k in known:
                            if k["scenario"] == name and re.search(k["class"], u["cls"]) and re.search(k["match"], symbolise(exe, u["msg"])):
                                m = k
                        if m:
                            found_known.add(m["key"])
                            continue
                        hit = (r, u)
                        break
                    else:
                        machinery.append({"scenario": name, "seed": r["seed"], "what": "%s %s, reruns: %s %s, %s %s" % (r["verdict"], r["cls"], u["verdict"], u["cls"], v["verdict"], v["cls"]), "msg": r["msg"][:400]})
                if hit:
                    violation = (s, exe, hit[1], hit[0]["seed"])
                    break
                if not bad or spent >= secs - 0.5 or len(machinery) > 20:
                    break
                start = max(start + a.jobs * (g.runs + 8), max(r["seed"] for r in bad) + a.jobs)
            aggs[name] = agg
            if violation:
                break
        replay = None
        mstats = None
        if violation:
            s, exe, r, vseed = violation
            ops, devs = r["ops"], r["devs"]
            if not a.no_min and r["cls"] != "hang-realtime":
                ops, devs, mstats = minimise(exe, sc, s["name"], r, prop.get("min_s", 40))
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            best = None
            for cand_ops, cand_devs in ((ops, devs), (r["ops"], r["devs"])):
                t = text_of(s["name"], cand_ops, cand_devs)
                xs = []
                for _ in range(2):          # fresh processes
                    rp = Replayer(exe, sc)
                    xs.append(rp.run(t))
                    rp.close()
                if all(x["verdict"] == "violation" and x["cls"] == r["cls"] for x in xs) and xs[0]["hash"] == xs[1]["hash"]:
                    best = (t, xs[0])
                    break
            if best is None:                # fall back to the seed itself
                t = text_of(s["name"], r["ops"], [], vseed)
                best = (t, r)
            replay = os.path.join(VERIF, "replays", "%s-%s-%d.replay" % (a.property, s["name"], vseed))
            sym = symbolise(exe, best[1]["msg"])
            with open(replay, "w") as f:
                f.write("# property: %s\n# binary: %s\n# seed: %d\n# class: %s\n# hash: %s\n# operations: %d\n# decisions: %d\n" %
                        (a.property, s["binary"], vseed, best[1]["cls"], best[1]["hash"], best[0].count("\nop "), best[0].count("\ndev ")))
                for l in sym.splitlines():
                    f.write("#   %s\n" % l)
                f.write(best[0])
                f.write("".join("# | %s\n" % l for l in symbolise(exe, best[1].get("trace", "")).splitlines()))
            rc = 1
    allr = Agg()
    for g in aggs.values():
        for k in ("runs", "nontrivial", "sim_ns", "points", "events", "switches", "preempts", "errors", "fault_runs"):
            setattr(allr, k, getattr(allr, k) + getattr(g, k))
        allr.wall += g.wall
        allr.maxthreads = max(allr.maxthreads, g.maxthreads)
        allr.ihash |= g.ihash; allr.nthash |= g.nthash; allr.hashes |= g.hashes
        allr.faults.update(g.faults); allr.probes.update(g.probes); allr.knowns.update(g.knowns)
    for k in known:
        if allr.knowns.get(k["key"]) or k["key"] in found_known:
            print("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]))
    cov = {"evaluations": allr.runs, "distinct_nontrivial": len(allr.nthash),
           "rule": prop["rule"], "samples": samples[:6] or [{"none": True}]}
    cov.update(allr.dict())
    cov.pop("runs")                      # = evaluations
    cov["interleaving_measure"] = "hash of the sequence of (synchronisation operation, thread) pairs and thread switches of a run"
    if len(aggs) > 1:
        cov["per_scenario"] = {n: g.dict() for n, g in aggs.items()}
    cov["determinism_selfcheck"] = det
    cov["seeds"] = "base seed = sha256(VERIF_SEED/scenario), consecutive seeds from there"
    cov["real_code"] = prop["real"]
    cov["stubbed"] = prop["stub"]
    cov["build_seconds"] = round(t_build, 1)
    cov["known_findings_seen"] = dict(allr.knowns)
    if machinery:
        cov["unreproducible"] = machinery[:10]
    ev = {"property": a.property, "tier": tier, "seed": seed, "level": prop.get("level", "exploration"), "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "assumptions": prop.get("assumptions", []) + P.ASSUMPTIONS}
    if violation:
        s, exe, r, vseed = violation
        ev["violations"] = 1
        cov["violation"] = {"scenario": s["name"], "seed": vseed, "class": r["cls"], "what": symbolise(exe, r["msg"])[:1500],
                            "replay": replay, "minimised": mstats}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.property + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    print("%s %s: %d runs (%d non-trivial, %d distinct interleavings) in %.1f s + build %.1f s; faults %s" %
          (a.property, tier, allr.runs, allr.nontrivial, len(allr.ihash), allr.wall, t_build, dict(allr.faults)))
    if violation:
        s, exe, r, vseed = violation
        print("%s in scenario %s, seed %d: %s" % (r["cls"], s["name"], vseed, symbolise(exe, r["msg"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (a.property, replay))
    elif machinery:
        for m in machinery[:5]:
            print("machinery:", m)
        rc = 2
    elif any(not d["identical"] for d in det):
        print("machinery: the same seed gave two different executions:", [d for d in det if not d["identical"]])
        rc = 2
    elif allr.runs == 0:
        print("machinery: no run finished")
        rc = 2
    sys.exit(rc)


if __name__ == "__main__":
    main()
