"""Write MANIFEST.json from the scenario modules that exist and the property list."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = {
    "C21": "the value of an expression is a pure function of its text: no schedule, clock, I/O, fault or crash takes part, so there is nothing for a simulator to vary; input-space testing or proof would be another technique",
    "C22": "single-threaded table updates with no schedule, clock, I/O or fault in them; the fault-dependent part (definitions after a failed load, a failed growth) is decided under C15 and C17",
    "C23": "pure functions of their arguments without schedule, time, I/O or faults",
    "C24": "pure functions of their arguments without schedule, time, I/O or faults",
    "C25": "equivalence of two pure evaluations; what depends on the environment (finding, opening and loading the plugin) is decided under C15; C30, which has the transpiler run, compares the values of what it produced",
}
NOTE = ("Seeded search: every violation reported is a real execution of the real interpreter under a simulated kernel and replays exactly; "
        "quiet means no violation in the seeds drawn (counts in the evidence). Trusts the simulated kernel (sim/simd.cpp) to answer system "
        "calls as Linux may, and the reference model in harness/p_%s.py.")
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "harness", "p_%s.py" % i.lower())):
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                           technique="deterministic simulation with fault injection (seeded schedules and faults, reference model)",
                           level="exploration", level_note=NOTE % i.lower()))
    else:
        na.append(dict(property=i, reason=PURE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seam is the system-call boundary, intercepted by the simulator.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
