#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, notes.json-like tables below and the scenarios present in sim/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = set()
for f in os.listdir(os.path.join(V, "sim")):
    if f.endswith(".cpp"):
        have |= set(re.findall(r"^SCENARIO\((C\d\d),", open(os.path.join(V, "sim", f)).read(), re.M))
ASSUME = ("Trusts the simulator (seams by symbol renaming at the object level: threads, locks, clocks, allocation, environment, streams), "
          "gcc, and the long double reference models. Sampled, not exhaustive.")
NOTE = {
 "C01": "Seeded search over shapes, policies, thread limits and schedules of the real accelerated code; every result is compared element by element with a long double model within the rounding bound, and padding and inputs bit by bit.",
 "C02": "Seeded adversarial schedules with spurious wake-ups, stalls, clock jumps and early timeouts; liveness is progress within a bounded number of fairly scheduled steps, deadlock is detected exactly.",
 "C03": "Seeded histories of create, use and release, also from several application threads; thread end and memory return are exact counts.",
 "C04": "Every load and store of the instrumented library is checked against a happens-before race detector and the allocator's live objects, under seeded access-level schedules; plus guard zones in the uninstrumented build.",
 "C05": "Seeded allocation and thread-start failures at every ordinal reached, singly, repeatedly or from a point on, in every accelerator, with a recovery call afterwards.",
 "C06": "Several simulated application threads call the library at the same time; each result is compared bit for bit with the same call run alone, with race detection in the instrumented build.",
 "C07": "Seeded configuration texts against a reference reader, first use from several threads, and BLAS level 2, 3 and extended precision calls under generated tunings against a long double model.",
 "C08": "Seeded allocation failures at every ordinal reached in a table of dense operations, with leak, memory and recovery checks.",
 "C09": "Seeded workspace sizes and contents in guarded memory; the result is compared bit for bit with a run in differently filled workspace and with the defining equations.",
 "C10": "Seeded streams that end early, fail, fill up, deliver short reads or damaged bytes; accepted data is compared with what an independent reader finds in the bytes.",
 "C11": "Seeded streams that end early, fail, fill up, deliver short reads or damaged bytes; accepted data is compared with what an independent reader finds in the bytes.",
 "C12": "Seeded shapes, tunings, workspaces, accelerators and schedules; results are checked against the defining equations in long double.",
 "C13": "Seeded operation histories on sparse objects against a dense model, with allocation failures and leak checks.",
 "C14": "Seeded systems, limits and failures; iteration counts and residuals are recomputed independently.",
 "C15": "Seeded object histories with allocation failures against a small executable model of every object.",
 "C16": "Seeded shapes, tunings, workspaces, accelerators and schedules; results are checked against the defining equations in long double.",
 "C17": "Seeded operands with massive cancellation under generated tunings, workspaces and memory placement; every element is compared with a quadruple precision reference within the bound of doubled working precision.",
 "C18": "Seeded operations, lengths, strides and value patterns under generated tunings, memory contents and placement, alone and beside other simulated threads; results are compared with long double or quadruple precision definitions.",
 "C19": "Seeded entry points, options, shapes, storage orders and increments under generated tunings and memory contents, alone and in several simulated threads; results are compared with the definitions of the interface standard in long double.",
 "C20": "Seeded objects, formats and buffering with write faults at every byte and failing allocations; the bytes that arrived are compared with an independently formatted text.",
 "C21": "Seeded operations with one or two operands or pivot vectors of a wrong size in memory blocks that end with the operand; every access, the return value, the error code and the untouched bytes are judged.",
}
NA = {}
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the build in /verif compiles /repo's sources unmodified and renames libc and pthread symbols in the objects. python3 run.py replay FILE reproduces a recorded violation; python3 run.py determinism N compares event logs of repeated seeds. Violations are confirmed by exact repetition before they are reported."}
for p in props:
    if p in have:
        m["checks"].append({"property": p, "quick_cmd": "python3 run.py check %s --tier quick" % p, "thorough_cmd": "python3 run.py check %s --tier thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and inputs of the real library, history and model checks",
                            "level": "exploration", "level_note": NOTE[p] + " " + ASSUME})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "no check yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
