#!/usr/bin/env python3
"""Runs the checks.

  run.py check PROP [--tier quick|thorough]   decide one property on /repo's current tree
  run.py replay FILE                          rebuild and replay a recorded violation
  run.py determinism [N]                      every scenario: N seeds, twice, different worker counts; compare event logs
  run.py setup                                build both flavours

Exit status of `check`: 0 the property held on everything explored, 1 a VIOLATION line was
printed, 2 the check itself could not do its work.
"""
import collections, json, os, re, selectors, signal, subprocess, sys, tempfile, time
import build

VERIF = os.path.dirname(os.path.abspath(__file__))
NW = max(1, min(16, len(os.sched_getaffinity(0))))

# property -> (runs in the quick tier: fast flavour, instrumented flavour; per cent of the time for the instrumented one)
PLAN = {
    "C01": (24000, 18000, 45), "C02": (20000, 15000, 40), "C03": (40000, 26000, 40), "C04": (30000, 70000, 75), "C05": (20000, 6000, 35),
    "C06": (20000, 16000, 55), "C07": (150000, 60000, 40), "C08": (90000, 6000, 30), "C09": (60000, 9000, 30), "C10": (250000, 10000, 25),
    "C11": (250000, 10000, 25), "C12": (50000, 8000, 35), "C13": (70000, 6000, 30), "C14": (200000, 8000, 30), "C15": (60000, 6000, 30), "C16": (60000, 9000, 35), "C17": (60000, 9000, 25), "C18": (90000, 16000, 30),
    "C19": (120000, 16000, 30), "C20": (150000, 10000, 25), "C21": (150000, 60000, 30),
}
QUICK_WALL, THOROUGH_WALL = 60.0, 700.0

RULES = {}
META = os.path.join(VERIF, "coverage.json")


def sh_sim(exe, args, timeout=300, worker=0):
    env = dict(os.environ, SIM_WORKER=str(worker))
    p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True, timeout=timeout)
    if p.returncode != 0 or not p.stdout.strip():
        raise RuntimeError("simulator failed (%d): %s" % (p.returncode, p.stderr[-500:]))
    return json.loads(p.stdout.splitlines()[-1])


def spec_text(overrides, trace):
    out = ["o %d %d" % (o, v) for o, v in overrides]
    if trace is not None:
        out.append("r")
        out += ["t %d %s %d" % (s, k, v) for s, k, v in trace]
    return "\n".join(out) + "\n"


def one(exe, prop, seed, scenario, overrides=(), trace=None, worker=0):
    with tempfile.NamedTemporaryFile("w", suffix=".sim", dir=os.path.dirname(exe)) as f:
        f.write(spec_text(overrides, trace)); f.flush()
        return sh_sim(exe, ["one", prop, str(seed), scenario or "-", f.name], worker=worker)


def frames(exe, pcs):
    pcs = [p for p in pcs if p]
    if not pcs:
        return []
    o = subprocess.run(["addr2line", "-f", "-C", "-e", exe] + [hex(p) for p in pcs], stdout=subprocess.PIPE, text=True).stdout.split("\n")
    return ["%s (%s)" % (o[i], os.path.basename(o[i + 1].split(" ")[0])) for i in range(0, len(o) - 1, 2)]


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)$", l.strip())
            if m:
                out.append(m.groups())
    return out


class Batch:
    """All seeds of one property with one build flavour on NW worker processes."""

    def __init__(self, exe, flavour, prop, first, count, wall):
        self.exe, self.flavour, self.prop = exe, flavour, prop
        self.n = 0
        self.bad = []
        self.harness = []
        self.known = collections.Counter()
        self.faults = collections.Counter(); self.fault_runs = collections.Counter(); self.probes = collections.Counter()
        self.scen = collections.Counter()
        self.tot = collections.Counter()
        self.scheds = set(); self.states = set(); self.params = set(); self.distinct = set()
        self.samples = []
        self.nontrivial = 0
        self.maxthreads = 0
        t0 = time.time()
        sel = selectors.DefaultSelector()
        procs = []
        for w in range(NW):
            cnt = (count - w + NW - 1) // NW
            if cnt <= 0:
                continue
            env = dict(os.environ, SIM_WORKER=str(w))
            p = subprocess.Popen([exe, "batch", prop, str(first + w), str(NW), str(cnt), str(int(wall * 1000))],
                                 stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, start_new_session=True)
            os.set_blocking(p.stdout.fileno(), False)
            sel.register(p.stdout, selectors.EVENT_READ, [p, b""])
            procs.append(p)
        open_ = len(procs)
        stop = None
        hard = t0 + wall + 240
        self.truncated = False
        while open_:
            now = time.time()
            if (stop and now > stop) or now > hard:
                self.truncated = True
                break
            for key, _ in sel.select(0.5):
                data = key.data
                chunk = key.fileobj.read()
                if chunk == b"":
                    sel.unregister(key.fileobj); open_ -= 1
                    continue
                if chunk is None:
                    continue
                data[1] += chunk
                *lines, data[1] = data[1].split(b"\n")
                for l in lines:
                    self.take(json.loads(l))
            if self.bad and not stop:
                stop = time.time() + 3.0
        for p in procs:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            if p.returncode not in (0, -9):
                self.harness.append({"msg": "worker ended with %d" % p.returncode, "seed": -1, "scenario": "-", "cls": "harness"})
        self.wall = time.time() - t0

    def take(self, d):
        self.n += 1
        self.scen[d["scenario"]] += 1
        for k in ("steps", "switches", "syncops", "accesses", "allocs", "creates", "sim_ns", "checks"):
            self.tot[k] += d[k]
        self.maxthreads = max(self.maxthreads, d["threads"])
        self.faults.update(d["faults"]); self.probes.update(d["probes"])
        for k in d["faults"]:
            self.fault_runs[k] += 1
        self.scheds.add(d["sched"]); self.states.add(d["state"]); self.params.add(d["params"])
        if d["nontrivial"]:
            self.nontrivial += 1
            self.distinct.add((d["params"], d["sched"], d["hash"]))
            if len(self.samples) < 6 and self.scen[d["scenario"]] <= 400 and sum(1 for s in self.samples if s["scenario"] == d["scenario"]) < 2:
                self.samples.append({"seed": d["seed"], "flavour": self.flavour, "scenario": d["scenario"], "steps": d["steps"], "threads": d["threads"],
                                     "faults": d["faults"], "run": d["desc"][:300]})
        if d["verdict"] == 1:
            k = self.is_known(d)
            if k:
                self.known[k] += 1
            else:
                self.bad.append(d)
        elif d["verdict"] == 2:
            self.harness.append(d)

    def is_known(self, d):
        for prop, ident, text in KNOWN:
            m = re.match(r"cls=(\S+) site=(\S+) ", text)
            if prop == d_prop(self) and m and m.group(1) == d.get("cls") and m.group(2) == (d.get("site") or "-").replace(" ", "_"):
                return ident
        return None


def d_prop(b):
    return b.prop


KNOWN = known_findings()


def same(d, ref):
    return d["verdict"] == 1 and d["cls"] == ref["cls"]


def minimise(exe, prop, ref, budget):
    """Shrink parameters first (their runs keep the seeded scheduler), then the recorded trace."""
    end = time.time() + budget
    seed, scn = ref["seed"], ref["scenario"]
    best, ov = ref, {}
    tried = set()
    progress = True
    rounds = 0
    while progress and time.time() < end and rounds < 6:
        progress = False
        rounds += 1
        k = 0
        while k < len(best["plog"]) and time.time() < end:
            o, name, val, lo, hi = best["plog"][k]
            k += 1
            cands = []
            for c in (lo, lo + (val - lo) // 2, val - 1):
                if lo <= c < val and c not in cands:
                    cands.append(c)
            for c in cands:
                t = dict(ov); t[o] = c
                key = tuple(sorted(t.items()))
                if key in tried:
                    continue
                tried.add(key)
                try:
                    d = one(exe, prop, seed, scn, sorted(t.items()))
                except Exception:
                    continue
                if same(d, ref):
                    ov, best, progress = t, d, True
                    break
                if time.time() > end:
                    break
    # trace driven replay of the shrunk run
    ovl = sorted(ov.items())
    trace = best["trace"]
    try:
        d = one(exe, prop, seed, scn, ovl, trace)
    except Exception:
        return best, ovl, None
    if not same(d, ref):
        return best, ovl, None
    best = d
    n = 2
    while len(trace) >= 1 and time.time() < end:
        size = max(1, (len(trace) + n - 1) // n)
        hit = False
        for i in range(0, len(trace), size):
            t = trace[:i] + trace[i + size:]
            try:
                d = one(exe, prop, seed, scn, ovl, t)
            except Exception:
                continue
            if same(d, ref):
                trace, best, hit = t, d, True
                break
            if time.time() > end:
                break
        if hit:
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(trace), n * 2)
    return best, ovl, trace


def confirm_and_report(exe, flavour, prop, bad, tier):
    """The gate: a violation counts only if it repeats exactly and its replay file reproduces it."""
    bad = sorted(bad, key=lambda d: (d["steps"], d["seed"]))
    for d in bad[:6]:
        a = one(exe, prop, d["seed"], d["scenario"])
        b = one(exe, prop, d["seed"], d["scenario"], worker=1)
        if not (a["verdict"] == b["verdict"] == 1 and a["hash"] == b["hash"] == d["hash"] and a["cls"] == b["cls"] == d["cls"]):
            print("note: seed %d of %s does not repeat exactly (%s %s %s)" % (d["seed"], d["scenario"], d["hash"], a["hash"], b["hash"]))
            continue
        m, ov, trace = minimise(exe, prop, a, 60 if tier == "quick" else 120)
        rep = {"property": prop, "flavour": flavour, "scenario": d["scenario"], "seed": d["seed"], "overrides": ov, "trace": trace,
               "cls": m["cls"], "site": m["site"], "hash": m["hash"], "message": m["msg"], "run": m["desc"], "where": frames(exe, m["pc"]),
               "original": {"steps": d["steps"], "trace_entries": len(a["trace"]), "message": d["msg"], "run": d["desc"]},
               "minimised": {"steps": m["steps"], "trace_entries": None if trace is None else len(trace)},
               "parameters": [p[1:3] for p in m["plog"]]}
        r = one(exe, prop, d["seed"], d["scenario"], ov, trace, worker=2)
        if not (r["verdict"] == 1 and r["hash"] == m["hash"] and r["cls"] == m["cls"]):
            print("note: replay of seed %d does not reproduce" % d["seed"])
            continue
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        path = os.path.join("evidence", "replay", "%s-%s-%d.json" % (prop, d["scenario"], d["seed"]))
        json.dump(rep, open(os.path.join(VERIF, path), "w"), indent=1)
        print("%s: %s in scenario %s: %s" % (prop, m["cls"], d["scenario"], m["msg"]))
        print("  run: %s" % m["desc"])
        for f in rep["where"]:
            print("  at %s" % f)
        print("  seed %d; schedule and fault trace minimised from %d to %s entries" % (d["seed"], len(a["trace"]), "seeded" if trace is None else len(trace)))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return path
    return None


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    nf, ni, pct = PLAN[prop]
    exes = {}
    for fl, n in (("fast", nf), ("instr", ni)):
        if n:
            exes[fl] = build.build(fl)[0]
    tbuild = time.time() - t0
    wall = QUICK_WALL if tier == "quick" else THOROUGH_WALL
    mult = 1 if tier == "quick" else 40
    batches = []
    rc = 0
    first = (seed % 1000003) * 10000000 + 1
    for fl, n, part in (("fast", nf, 100 - pct if ni else 100), ("instr", ni, pct if nf else 100)):
        if not n:
            continue
        b = Batch(exes[fl], fl, prop, first, n * mult, wall * part / 100.0)
        batches.append(b)
        if b.bad:
            if confirm_and_report(exes[fl], fl, prop, b.bad, tier):
                rc = 1
            else:
                rc = 2
            break
        if b.harness:
            print("error: %d runs of %s (%s) did not finish: seed %s %s: %s" % (len(b.harness), prop, fl, b.harness[0]["seed"], b.harness[0]["scenario"], b.harness[0]["msg"]))
            rc = 2
            break
    for b in batches:
        for k, n in sorted(b.known.items()):
            text = [t for p, i, t in KNOWN if i == k][0]
            print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, text, n))
    runs = sum(b.n for b in batches)
    swall = sum(b.wall for b in batches)
    tot = collections.Counter(); faults = collections.Counter(); fruns = collections.Counter(); probes = collections.Counter(); scen = collections.Counter()
    for b in batches:
        tot.update(b.tot); faults.update(b.faults); fruns.update(b.fault_runs); probes.update(b.probes)
        scen.update({"%s/%s" % (k, b.flavour): v for k, v in b.scen.items()})
    if rc == 0 and sum(b.nontrivial for b in batches) == 0:
        print("error: no run reached the behaviour under test")
        rc = 2
    meta = json.load(open(META)).get(prop, {}) if os.path.exists(META) else {}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0,
        "assumptions": meta.get("assumptions", []),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(set().union(*[b.distinct for b in batches])) if batches else 0,
            "rule": meta.get("rule", "one evaluation is one simulated run; non-trivial runs reached the behaviour under test; distinct by parameters, schedule and event log"),
            "samples": sum((b.samples for b in batches), [])[:8],
            "oracle_checks": tot["checks"],
            "seeds": {"first": first, "runs": runs},
            "runs_per_hour": int(runs / swall * 3600) if swall else 0,
            "seeds_per_hour": int(runs / swall * 3600) if swall else 0,
            "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
            "scheduler_steps": tot["steps"], "context_switches": tot["switches"], "synchronisation_operations": tot["syncops"],
            "instrumented_accesses": tot["accesses"], "library_allocations": tot["allocs"], "threads_created": tot["creates"],
            "max_threads_in_a_run": max([b.maxthreads for b in batches] or [0]),
            "faults_injected": dict(faults), "runs_with_fault": dict(fruns),
            "distinct_schedules": len(set().union(*[b.scheds for b in batches])) if batches else 0,
            "distinct_synchronisation_orders": len(set().union(*[b.states for b in batches])) if batches else 0,
            "distinct_parameter_sets": len(set().union(*[b.params for b in batches])) if batches else 0,
            "rare_conditions_reached": dict(probes), "scenarios": dict(scen),
            "stopped_by_time": [b.flavour for b in batches if b.n < {"fast": nf, "instr": ni}[b.flavour] * mult],
            "search_seconds": round(swall, 2), "build_seconds": round(tbuild, 2), "workers": NW,
            "real_code": meta.get("real", "all of libarmas' C sources, unmodified, compiled from /repo's working tree"),
            "simulated": meta.get("stub", "threads, mutexes, condition variables, once, semaphores, scheduling, clocks, processor count, environment variables, heap allocation"),
        },
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (prop, os.getpid()))
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    print("%s %s: %d runs (%d non-trivial) in %.0f s, faults %s, exit %d" % (prop, tier, runs, sum(b.nontrivial for b in batches), time.time() - t0, dict(faults), rc))
    return rc


def replay(path):
    rep = json.load(open(path))
    exe, _ = build.build(rep["flavour"])
    d = one(exe, rep["property"], rep["seed"], rep["scenario"], rep["overrides"], rep["trace"])
    if d["verdict"] == 1 and d["cls"] == rep["cls"]:
        print("%s: %s: %s" % (rep["property"], d["cls"], d["msg"]))
        print("  run: %s" % d["desc"])
        for f in frames(exe, d["pc"]):
            print("  at %s" % f)
        print("event log %s" % ("identical" if d["hash"] == rep["hash"] else "differs (%s, recorded %s): the code changed" % (d["hash"], rep["hash"])))
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    print("not reproduced: verdict %d %s" % (d["verdict"], d.get("msg", "")))
    return 0


def determinism(n):
    bad = 0
    for fl in ("fast", "instr"):
        exe, _ = build.build(fl)
        scns = [l.split() for l in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True).stdout.splitlines()]
        for prop, scn in [(s[0], s[1]) for s in scns]:
            logs = []
            for stride in (1, 3, 8):
                out = {}
                ps = []
                for w in range(stride):
                    env = dict(os.environ, SIM_WORKER=str((w * 5 + stride) % NW), SIM_NOISE="x" * (stride * 97))
                    ps.append(subprocess.Popen([exe, "batch", prop, str(5000 + w), str(stride), str((n - w + stride - 1) // stride), "100000", scn], stdout=subprocess.PIPE, env=env, text=True))
                for p in ps:
                    for l in p.communicate()[0].splitlines():
                        d = json.loads(l)
                        out[d["seed"]] = (d["hash"], d["verdict"], d["sched"], d["params"], d["steps"])
                logs.append(out)
            diff = [s for s in logs[0] if any(l.get(s) != logs[0][s] for l in logs[1:])]
            if len(logs[0]) != n:
                diff.append("count %d" % len(logs[0]))
            bad += len(diff)
            print("%-5s %s/%-14s %d seeds x3: %s" % (fl, prop, scn, len(logs[0]), "identical" if not diff else "DIFFERENT %s" % diff[:5]))
            sys.stdout.flush()
    return 1 if bad else 0


def main(a):
    try:
        if a[:1] == ["setup"]:
            for fl in ("fast", "instr"):
                print(build.build(fl)[0])
            return 0
        if a[:1] == ["check"]:
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--tier" in a:
                tier = a[a.index("--tier") + 1]
            return check(a[1], tier)
        if a[:1] == ["replay"]:
            return replay(a[1])
        if a[:1] == ["determinism"]:
            return determinism(int(a[1]) if len(a) > 1 else 200)
    except build.BuildError as e:
        print("error: build failed:\n%s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
