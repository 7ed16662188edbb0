"""C04: a print that returned survives a crash, an exec or a kill."""
from common import *
from p_c03 import DSTS, LOADS, gen_print, print_text, print_expr


class Crash(Scenario):
    list_keys = ("ops",)

    def __init__(self, mode, weight):
        self.mode = mode
        self.name = "crash-" + mode
        self.weight = weight

    def gen(self, r, tier):
        k, f = delivery(r)
        f.pop("short_read", None)
        f.pop("clock_jump", None)
        if r.random() < 0.4:
            f["short_write"] = {"p": r.choice([1000, 4000])}
        n = r.choice([2, 4, 8, 12])
        ops = []
        while len(ops) < n:
            o = gen_print(r, "%d" % len(ops), list(DSTS), r.random() < 0.4)
            ops.append(o)
        c = dict(ops=ops, knobs=k, faults=f, out=r.choice(["sink", "tty", "regular"]), end="none")
        if self.mode == "kill":
            f["kill9"] = {"p": r.choice([100, 300, 800]), "max": 1, "window": 1}
        elif self.mode == "oom":
            f["mprotect"] = {"p": 10000, "window": 1}
        c["group"] = r.random() < 0.4
        return c

    def job(self, case):
        prog = [LOADS, mark("arm")]
        ops = case["ops"]
        i = 0
        while i < len(ops):
            p = ops[i]
            d = DSTS[p["dst"]]
            body = print_expr(p) + " " + mark("m%d" % i)
            while case["group"] and d and i + 1 < len(ops) and ops[i + 1]["dst"] == p["dst"]:
                i += 1
                body += " " + print_expr(ops[i]) + " " + mark("m%d" % i)
            prog.append(body if d is None else "(out %s %s)" % (d, body))
            i += 1
        if self.mode == "exec":
            prog.append('(exec "/bin/x" NIL NIL)')
        elif self.mode == "oom":
            prog.append("(load '(std def cons while))(def grow (X) (grow (cons X X)) T) (def eat (X) (cons X (eat X))) (eat 1)")
        j = dict(files={"/work/p.l": "\n".join(prog) + "\n",
                        "/bin/x": {"kind": "prog", "mode": 0o755, "data": "X 0\n"}},
                 argv=["/work/p.l"], knobs=dict(case["knobs"]),
                 stdfd={0: ["null"], 1: ["sink", "out"] + (["tty"] if case["out"] == "tty" else []), 2: ["sink", "err"],
                        3: ["sink", "d3"], 4: ["sink", "d4"]})
        if case["out"] == "regular":
            j["knobs"]["sink_regular"] = 1
        return j

    def check(self, case, res):
        allow = {"kill": (9,), "oom": (6, 11), "exec": ()}[self.mode]
        v = ended(res, allow)
        if v:
            return v
        seen = {}
        for m in res["marks"]:
            if m["name"].startswith("m"):
                seen[int(m["name"][1:])] = m["step"]
        killed = res["procs"][0]["sig"] != 0
        if not killed and len(seen) != len(case["ops"]):
            return ["marks: %d of %d prints were reached" % (len(seen), len(case["ops"]))]
        names = {"std": "out", "nil": "out", "fd3": "d3", "fd4": "d4", "file": "/work/o1.txt", "file2": "/work/o2.txt"}
        for d in ("out", "d3", "d4", "/work/o1.txt", "/work/o2.txt"):
            full = "".join(print_text(p) for p in case["ops"] if names[p["dst"]] == d)
            got = res["files"].get(d, "") if d[0] == "/" else sink(res, d)
            if not full.startswith(got) or (not killed and got != full):
                return ["prefix: destination %s %s" % (d, diff(full, got))]
            need = ""
            for i, p in enumerate(case["ops"]):
                if names[p["dst"]] == d:
                    need += print_text(p)
                if i in seen:
                    have = got if d[0] == "/" else "".join(s[2] for s in res["sinks"].get(d, []) if s[0] <= seen[i])
                    if len(have) < len(need):
                        return ["durable: print %d had returned but destination %s holds %d of %d bytes: %s" % (
                            i, d, len(have), len(need), diff(need, have))]
        return []

    def tags(self, case, res):
        return ["killed" if res["procs"][0]["sig"] else "ended", "end:" + self.mode]


SCENARIOS = [Crash("kill", 6), Crash("exec", 2), Crash("oom", 1)]
