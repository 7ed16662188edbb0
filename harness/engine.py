"""Seeded search over simulated runs: case generation, checking, minimisation, replay files and evidence."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

import simlib

EVID = os.environ.get("VERIF_EVID", os.path.join(simlib.VERIF, "evidence"))

REAL = ["mnml interpreter binary built from /repo (lexer, parser, evaluator, slab allocator, module loader, REPL)",
        "the io, logic, math, std, sys, unix modules and the transpiled plugins (shared objects built from /repo)",
        "the .l library of /repo/share/mnml", "glibc (stdio, dlopen, getaddrinfo) inside every simulated process"]
STUB = ["the kernel: processes, scheduling, signals, clocks, files, pipes, terminals, TCP and memory protection are the "
        "simulator's model, reached by intercepting every system call",
        "programs other than mnml that a script executes (a scripted stand-in)",
        "network peers, pipe peers and terminal users (scripted actors)"]


class Scenario:
    name = "?"
    weight = 1
    list_keys = ()      # lists in the case whose elements may be dropped while minimising
    str_keys = ()       # strings in the case that may be shortened while minimising

    def gen(self, r, tier):
        raise NotImplementedError

    def job(self, case):
        raise NotImplementedError

    def check(self, case, res):
        """Return a list of 'kind: detail' strings."""
        raise NotImplementedError

    def tags(self, case, res):
        return []

    def shrink(self, case):
        for k in ("faults", "knobs"):
            for x in sorted(case.get(k, {})):
                c = json.loads(json.dumps(case))
                del c[k][x]
                yield c
        for k in self.list_keys:
            v = case.get(k)
            if not v:
                continue
            n = len(v)
            size = n
            while size >= 1:
                for i in range(0, n, size):
                    c = json.loads(json.dumps(case))
                    c[k] = v[:i] + v[i + size:]
                    yield c
                size //= 2
        for k in self.str_keys:
            v = case.get(k)
            if not v:
                continue
            n = len(v)
            size = n
            while size >= 1 and n < 4000:
                for i in range(0, n, size):
                    c = dict(case)
                    c[k] = v[:i] + v[i + size:]
                    yield c
                size //= 2


def case_of(seed, prop, sc, idx, tier):
    r = random.Random("%d/%s/%s/%d" % (seed, prop, sc.name, idx))
    case = sc.gen(r, tier)
    case.setdefault("faults", {})
    case.setdefault("knobs", {})
    simseed = int.from_bytes(hashlib.sha256(("%d/%s/%s/%d" % (seed, prop, sc.name, idx)).encode()).digest()[:7], "big")
    return case, simseed


def make_job(sc, case, simseed):
    job = sc.job(case)
    job["seed"] = simseed
    job.setdefault("faults", case.get("faults", {}))
    job.setdefault("knobs", case.get("knobs", {}))
    job.setdefault("stdfd", {0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"]})
    return job


def verdict(sc, case, res):
    if res.get("notes"):
        return []
    try:
        return sc.check(case, res)
    except (IndexError, KeyError, ValueError, TypeError) as e:
        # The output is not of the form that any execution that keeps the property has.
        t = traceback.extract_tb(e.__traceback__)[-1]
        return ["form: the observations do not have the expected form (%s, %s)" % (type(e).__name__, t.line)]


def kind(v):
    return v.split(":")[0]


def load_prop(prop):
    m = importlib.import_module("p_" + prop.lower())
    return m.SCENARIOS


# ---------------------------------------------------------------- workers
def worker(w, nw, prop, seed, tier, deadline, paths, q, stop):
    try:
        import signal
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        scs = load_prop(prop)
        sched = []
        for i, s in enumerate(scs):
            sched += [i] * s.weight
        sim = simlib.Sim(*paths)
        st = new_stats()
        counters = [0] * len(scs)
        last = time.time()
        n = w
        while time.time() < deadline and not stop.is_set():
            si = sched[n % len(sched)]
            idx = n
            n += nw
            sc = scs[si]
            case, simseed = case_of(seed, prop, sc, idx, tier)
            counters[si] += 1
            try:
                job = make_job(sc, case, simseed)
                res = sim.run(job)
                viol = verdict(sc, case, res)
            except simlib.SimError as e:
                st["simerrors"] += 1
                st["lasterr"] = str(e)
                continue
            account(st, sc, case, res)
            if viol:
                res2 = sim.run(job)
                viol2 = verdict(sc, case, res2)
                if res2["hash"] == res["hash"] and viol2 and kind(viol2[0]) == kind(viol[0]):
                    q.put(("viol", dict(scenario=sc.name, idx=idx, case=case, seed=simseed, violation=viol)))
                    break
                st["unreproduced"] += 1
            if time.time() - last > 0.7:
                q.put(("stats", st))
                st = new_stats()
                last = time.time()
        q.put(("stats", st))
        sim.close()
    except Exception:
        q.put(("error", traceback.format_exc()))
    q.put(("done", w))


def new_stats():
    return dict(runs=0, simerrors=0, unreproduced=0, unmodelled=0, sim_us=0, syscalls=0, steps=0, fired={}, tags={}, hashes=[],
                ilv=[], per={}, ends={}, multi=0, samples=[], lasterr="", maxprocs=0)


def account(st, sc, case, res):
    st["runs"] += 1
    st["sim_us"] += res["sim_us"]
    st["syscalls"] += res["syscalls"]
    st["steps"] += res["steps"]
    st["multi"] += res["multi"]
    st["maxprocs"] = max(st["maxprocs"], len(res["procs"]))
    if res.get("notes"):
        st["unmodelled"] += 1
        st["lasterr"] = str(res["notes"][:1])
    for k, v in res["fired"].items():
        st["fired"][k] = st["fired"].get(k, 0) + v
    for t in sc.tags(case, res):
        st["tags"][t] = st["tags"].get(t, 0) + 1
    st["per"][sc.name] = st["per"].get(sc.name, 0) + 1
    st["ends"][res["end"]] = st["ends"].get(res["end"], 0) + 1
    if res["choices"] or res["fired"]:
        st["hashes"].append(res["hash"])
    st["ilv"].append(res["ilv"])
    if len(st["samples"]) < 1 and (res["faults"] or res["multi"]):
        st["samples"].append(dict(scenario=sc.name, case=abbrev(case), faults=res["faults"][:8], end=res["end"],
                                  steps=res["steps"], choices=len(res["choices"]), hash=res["hash"]))


def abbrev(x, n=300):
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + "...(%d)" % len(x)
    if isinstance(x, list):
        return [abbrev(y, n) for y in x[:30]] + (["...(%d)" % len(x)] if len(x) > 30 else [])
    if isinstance(x, dict):
        return {k: abbrev(v, n) for k, v in x.items()}
    return x


def merge(a, b):
    for k in ("runs", "simerrors", "unreproduced", "unmodelled", "sim_us", "syscalls", "steps", "multi"):
        a[k] += b[k]
    a["maxprocs"] = max(a["maxprocs"], b["maxprocs"])
    for k in ("fired", "tags", "per", "ends"):
        for x, v in b[k].items():
            a[k][x] = a[k].get(x, 0) + v
    a.setdefault("hset", set()).update(b["hashes"])
    a.setdefault("iset", set()).update(b["ilv"])
    seen = set(s["scenario"] for s in a["samples"])
    for s in b["samples"]:
        if len(a["samples"]) < 4 and s["scenario"] not in seen:
            a["samples"].append(s)
            seen.add(s["scenario"])
    a["lasterr"] = b["lasterr"] or a["lasterr"]


# ---------------------------------------------------------------- minimisation and replay
def minimise(sc, v, paths, budget):
    """Smaller case first (fresh schedule from the same seed), then fewer non-default choices."""
    end = time.time() + budget
    sim = simlib.Sim(*paths)
    want = kind(v["violation"][0])
    seed = v["seed"]

    def run(case, choices=None):
        try:
            res = sim.run(make_job(sc, case, seed), choices=choices)
        except (simlib.SimError, Exception):
            return None, None
        try:
            vi = verdict(sc, case, res)
        except Exception:
            return None, None
        if vi and kind(vi[0]) == want:
            return vi, res
        return None, None

    case = v["case"]
    vi, res = run(case)
    if not vi:
        sim.close()
        return None
    progress = True
    while progress and time.time() < end - budget / 3:
        progress = False
        for c in sc.shrink(case):
            if time.time() > end - budget / 3:
                break
            try:
                nv, nr = run(c)
            except Exception:
                nv = None
            if nv:
                case, vi, res = c, nv, nr
                progress = True
                break
    ch = res["choices"]
    nv, nr = run(case, ch)
    if nv:
        vi, res = nv, nr
        size = max(1, len(ch))
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(ch) and time.time() < end:
                t = ch[:i] + ch[i + size:]
                nv, nr = run(case, t)
                if nv:
                    ch, vi, res = t, nv, nr
                else:
                    i += size
            size //= 2
    sim.close()
    sim = simlib.Sim(*paths)
    job = make_job(sc, case, seed)
    r1 = sim.run(job, choices=ch, trace=True)
    r2 = sim.run(job, choices=ch)
    sim.close()
    v1, v2 = verdict(sc, case, r1), verdict(sc, case, r2)
    if not v1 or not v2 or r1["hash"] != r2["hash"] or kind(v1[0]) != want:
        return None
    return dict(scenario=sc.name, seed=seed, idx=v["idx"], case=case, choices=ch, hash=r1["hash"], violation=v1,
                faults=r1["faults"], trace=r1["trace"][-400:])


def write_replay(prop, rep):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s.json" % (prop, rep["scenario"], rep["hash"]))
    rep = dict(rep, property=prop)
    with open(p, "w") as f:
        json.dump(rep, f, indent=1)
    return p


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    simd, stub = simlib.build_sim()
    bdir = simlib.build_mnml()
    sc = [s for s in load_prop(rep["property"]) if s.name == rep["scenario"]][0]
    sim = simlib.Sim(simd, stub, bdir)
    res = sim.run(make_job(sc, rep["case"], rep["seed"]), choices=rep["choices"], trace=True)
    sim.close()
    for t in res["trace"]:
        print(t)
    v = verdict(sc, rep["case"], res)
    print("end=%s hash=%s (recorded %s)" % (res["end"], res["hash"], rep["hash"]))
    for x in v:
        print("violated:", x[:2000])
    if v:
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    return 0


# ---------------------------------------------------------------- main
def check(prop, seed, tier, budget, nw=8):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    simd, stub = simlib.build_sim()
    bdir = simlib.build_mnml()
    paths = (simd, stub, bdir)
    tb = time.time()
    scs = load_prop(prop)
    q = mp.Queue()
    stop = mp.Event()
    deadline = time.time() + budget
    ps = [mp.Process(target=worker, args=(w, nw, prop, seed, tier, deadline, paths, q, stop), daemon=True)
          for w in range(nw)]
    for p in ps:
        p.start()
    total = new_stats()
    viols, errors, done = [], [], 0
    grace = None
    while done < nw:
        try:
            k, x = q.get(timeout=1)
        except Exception:
            if time.time() > deadline + 90 or (grace and time.time() > grace):
                break
            continue
        if k == "stats":
            merge(total, x)
        elif k == "viol":
            viols.append(x)
            stop.set()
            grace = grace or time.time() + 20
        elif k == "error":
            errors.append(x)
        else:
            done += 1
    for p in ps:
        if p.is_alive():
            p.terminate()
    search_s = time.time() - tb
    reports = []
    for v in sorted(viols, key=lambda v: (len(json.dumps(v["case"])), v["idx"]))[:3]:
        sc = [s for s in scs if s.name == v["scenario"]][0]
        rep = minimise(sc, v, paths, 45 if not reports else 10)
        if rep:
            reports.append((write_replay(prop, rep), rep))
            break
        total["unreproduced"] += 1
    hset, iset = total.pop("hset", set()), total.pop("iset", set())
    cov = dict(
        evaluations=total["runs"], distinct_nontrivial=len(hset),
        rule="one evaluation is one simulated run of the real interpreter from one seed; it is counted as distinct and "
             "non-trivial when at least one scheduling, delivery or fault choice differed from the default and the hash of "
             "its whole system-call history is new",
        samples=total["samples"], per_scenario=total["per"], runs_per_hour=int(total["runs"] / max(search_s, 0.1) * 3600),
        seeds_per_hour=int(total["runs"] / max(search_s, 0.1) * 3600),
        simulated_seconds=round(total["sim_us"] / 1e6, 3), system_calls=total["syscalls"], scheduler_steps=total["steps"],
        scheduling_decisions_with_alternatives=total["multi"],
        choices_fired=total["fired"], distinct_interleavings=len(iset),
        interleaving_measure="hash of the sequence of (actor, process or network event) picked by the scheduler",
        most_processes_in_a_run=total["maxprocs"], run_endings=total["ends"], situations=total["tags"],
        real_components=REAL, stub_components=STUB,
        runs_set_aside_unmodelled=total["unmodelled"], simulator_errors=total["simerrors"],
        unreproduced=total["unreproduced"], base_seed=seed)
    if errors or total["lasterr"]:
        cov["notes"] = (errors[:1] + [total["lasterr"]])[:2]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=["the simulated kernel behaves as Linux does for the calls the interpreter makes",
                           "sampling: seeds not drawn are not covered"],
              wall_s=round(time.time() - t0, 2), violations=len(reports))
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d distinct, %d interleavings, %.1f s (build %.1f s)" % (
        prop, tier, total["runs"], len(hset), len(iset), time.time() - t0, tb - t0))
    for e in errors[:2]:
        print(e, file=sys.stderr)
    if reports:
        p, rep = reports[0]
        print("scenario %s seed %d: %s" % (rep["scenario"], rep["seed"], rep["violation"][0][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if errors or total["runs"] == 0 or total["simerrors"] > total["runs"]:
        print("check error: %s" % (errors[:1] or total["lasterr"]), file=sys.stderr)
        return 2
    return 0
