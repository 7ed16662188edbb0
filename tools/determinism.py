"""determinism.py [cases per scenario] [PROP...]: run cases of every scenario in two separate simulators and compare the histories."""
import multiprocessing as mp
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import engine
import simlib


def one(a):
    prop, name, n, paths = a
    sc = [s for s in engine.load_prop(prop) if s.name == name][0]
    sims = [simlib.Sim(*paths), simlib.Sim(*paths)]
    bad = []
    for i in range(n):
        case, seed = engine.case_of(1, prop, sc, i, "quick")
        h = []
        for k, s in enumerate(sims):
            if k:   # a different history in the second simulator before the case
                s.run(engine.make_job(sc, *engine.case_of(2, prop, sc, i, "quick")))
            h.append(s.run(engine.make_job(sc, case, seed))["hash"])
        if h[0] != h[1]:
            bad.append(i)
    for s in sims:
        s.close()
    return prop, name, n, bad


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    props = sys.argv[2:] or ["C%02d" % i for i in range(1, 21)]
    simd, stub = simlib.build_sim()
    paths = (simd, stub, simlib.build_mnml())
    jobs = [(p, s.name, n, paths) for p in props for s in engine.load_prop(p)]
    rc = 0
    with mp.Pool(8) as pool:
        for p, name, k, bad in pool.imap_unordered(one, jobs):
            print(p, name, "%d cases, %d differ %s" % (k, len(bad), bad[:5]))
            rc |= bool(bad)
    return rc


sys.exit(main())
