"""Run an ad-hoc program in the simulator: one.py 'program' [json overrides]."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import simlib
simd, stub = simlib.build_sim()
s = simlib.Sim(simd, stub, simlib.build_mnml())
j = dict(argv=["-e", sys.argv[1]], files={}, seed=1, stdfd={0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"]})
if len(sys.argv) > 2:
    j.update(json.loads(sys.argv[2]))
r = s.run(j, trace=bool(os.environ.get("TRACE")))
for t in r.get("trace", []):
    print(t)
print(r["end"], [(p["pid"], p["code"], p["sig"], p["state"]) for p in r["procs"]], r["notes"])
for k in r["sinks"]:
    print(k, repr(simlib.sink(r, k))[:3000])
for m in r["marks"]:
    print(m)
