#!/usr/bin/env python3
"""Developer aid: run a batch of seeds of one property on 8 workers and summarise verdicts.
   try.py PROP [fast|instr] [COUNT] [SECONDS] [SCENARIO] [FIRST]"""
import sys, os, json, collections, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import build
prop = sys.argv[1]; fl = sys.argv[2] if len(sys.argv) > 2 else "fast"
count = int(sys.argv[3]) if len(sys.argv) > 3 else 2000
secs = float(sys.argv[4]) if len(sys.argv) > 4 else 20
scn = sys.argv[5:6] if len(sys.argv) > 5 and sys.argv[5] != '-' else []
first = int(sys.argv[6]) if len(sys.argv) > 6 else 1
exe, _ = build.build(fl)
ps = []
for w in range(8):
    env = dict(os.environ, SIM_WORKER=str(w))
    ps.append(subprocess.Popen([exe, "batch", prop, str(first + w), "8", str(count // 8), str(secs * 1000)] + scn, stdout=subprocess.PIPE, env=env, text=True))
c = collections.Counter(); ex = {}; n = 0; nt = 0; faults = collections.Counter(); probes = collections.Counter(); ms = 0
for p in ps:
    for l in p.communicate()[0].splitlines():
        d = json.loads(l); n += 1; nt += d["nontrivial"]
        faults.update(d["faults"]); probes.update(d["probes"])
        k = (d["scenario"], d["verdict"], d.get("cls"), d.get("site", "")[:50])
        c[k] += 1
        if d["verdict"]: ex.setdefault(k, (d["seed"], d["msg"][:230], [hex(x) for x in d["pc"] if x]))
print(prop, fl, "runs", n, "nontrivial", nt, dict(faults), dict(probes))
for k, v in c.most_common():
    print("  ", v, k)
    if k in ex:
        e = ex[k]; print("        seed", e[0], e[1])
        if e[2]:
            o = subprocess.run(["addr2line", "-f", "-e", exe] + e[2][:4], capture_output=True, text=True).stdout.split("\n")
            print("        ", " < ".join("%s %s" % (o[i], os.path.basename(o[i + 1]).split(" ")[0]) for i in range(0, len(o) - 1, 2)))
