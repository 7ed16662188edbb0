"""C03: printed output reaches its destination once, in order, complete."""
import random

from common import *

FNS = ("prin", "prinl", "print", "printl")
# destination -> (sink or file name, expression for out)
DSTS = {"std": None, "nil": "NIL", "fd3": "3", "fd4": "4", "file": '"o1.txt"', "file2": '"/work/o2.txt"'}


def gen_print(r, ident, dsts, long=True):
    fn = r.choice(FNS)
    args = [["str", "<%s>" % ident]]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.random()
        if k < 0.15 and long:
            args.append(["str", "".join(r.choice("abcdefghij ") for _ in range(7)) *
                         r.choice([1, 30, 145, 146, 147, 290, 600, 1200])])
        elif k < 0.2 and long:
            args.append(["l", [["n", r.randrange(-99, 100000)] for _ in range(r.choice([20, 200, 500]))]])
        else:
            args.append(L.clean(L.gen_value(r, 2, 80)))
    return {"fn": fn, "args": args, "dst": r.choice(dsts)}


def print_expr(p, r=None):
    r = r or random.Random(1)
    return "(%s %s)" % (p["fn"], " ".join(arg_expr(a, r) for a in p["args"]))


def arg_expr(a, r):
    """An expression that evaluates to value a."""
    if a[0] == "str" and a[1] and L.str_ok(a[1]):
        return L.str_source(a[1])
    if a[0] in ("n", "nil", "t", "c"):
        return L.source(a, r, 0)
    return "'" + L.source(a, r, 0) if a[0] in ("s", "l", "d") and L.canon(a) is not None else "(car '(" + L.source(a, r, 0) + "))"


def print_text(p):
    c = [L.canon(a) for a in p["args"]]
    if p["fn"] in ("prin", "prinl"):
        s = "".join(L.text(x, False) for x in c)
    else:
        s = " ".join(L.text(x, True) for x in c)
    return s + ("\n" if p["fn"].endswith("l") else "")


def stmt(p, seq=None):
    e = print_expr(p)
    d = DSTS[p["dst"]]
    if seq:
        e = "".join([e] + seq)
    return e if d is None else "(out %s %s)" % (d, e)


LOADS = "(load '(io in out prin prinl print printl readline) '(std if prog car cdr quit let when) '(logic =) '(unix fork wait exec unlink dup close pipe))"


class Prints(Scenario):
    """One process, no failures: bytes per destination are exact."""
    name = "prints"
    weight = 3
    list_keys = ("ops",)

    def gen(self, r, tier):
        k, f = delivery(r)
        f.pop("short_read", None)
        if r.random() < 0.8:
            f["short_write"] = {"p": r.choice([1000, 4000, 9000])}
        k["stdoutcap"] = r.choice([4096, 4096, 8192, 65536])
        n = r.choice([1, 2, 4, 8, 16])
        ops = [gen_print(r, str(i), list(DSTS)) for i in range(n)]
        return dict(ops=ops, knobs=k, faults=f, out=r.choice(["sink", "tty", "file", "pipe"]), mode=r.choice(["script", "expr", "repl"]))

    def job(self, case):
        prog = LOADS + "\n" + "\n".join(stmt(p) for p in case["ops"]) + "\n"
        j = dict(files={}, actors=[], stdfd={0: ["null"], 2: ["sink", "err"], 3: ["sink", "d3"], 4: ["sink", "d4"]})
        o = case["out"]
        if o == "file":
            j["stdfd"][1] = ["file", "/work/std.txt"]
            j["files"]["/work/std.txt"] = ""
        elif o == "pipe":
            j["stdfd"][1] = ["pipeout", "rd"]
            j["actors"] = [{"name": "rd", "ops": [{"op": "sleep", "a": [50]}, {"op": "drain"}]}]
            j["knobs"] = dict(case["knobs"], wait_actors=1)
        else:
            j["stdfd"][1] = ["sink", "out"] + (["tty"] if o == "tty" else [])
        if case["mode"] == "script":
            j["files"]["/work/p.l"] = prog
            j["argv"] = ["/work/p.l"]
        elif case["mode"] == "expr":
            j["argv"] = ["-e", prog]
        else:
            j["argv"] = ["-e", "(load \"p.l\")"]
            j["files"]["/work/p.l"] = prog
        return j

    def expected(self, case):
        e = {"std": "", "fd3": "", "fd4": "", "file": "", "file2": ""}
        for p in case["ops"]:
            d = "std" if p["dst"] == "nil" else p["dst"]
            e[d] += print_text(p)
        return e

    def observed(self, case, res):
        o = case["out"]
        std = res["files"].get("/work/std.txt", "") if o == "file" else res["pipes"].get("rd", res["actors"].get("rd", {}).get("got", "")) \
            if o == "pipe" else sink(res, "out")
        return {"std": std, "fd3": sink(res, "d3"), "fd4": sink(res, "d4"), "file": res["files"].get("/work/o1.txt", ""),
                "file2": res["files"].get("/work/o2.txt", "")}

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        e, o = self.expected(case), self.observed(case, res)
        for d in e:
            if e[d] != o[d]:
                return ["output: destination %s %s" % (d, diff(e[d], o[d]))]
        return []

    def tags(self, case, res):
        t = ["stdout:" + case["out"]]
        if any(len(print_text(p)) > 1024 for p in case["ops"]):
            t.append("print over 1024 bytes")
        return t


class WriteErrors(Prints):
    """A failing write costs at most the print call it belongs to."""
    name = "write-errors"
    weight = 3

    def gen(self, r, tier):
        c = Prints.gen(self, r, tier)
        c["out"] = r.choice(["sink", "tty", "file"])
        c["ops"] = [gen_print(r, "%d" % i, list(DSTS)) for i in range(r.choice([4, 8, 16]))]
        c["faults"]["write_err"] = {"p": r.choice([300, 1500, 4000]), "max": r.choice([1, 2, 5])}
        return c

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        o = self.observed(case, res)
        nerr = res["fired"].get("write_err", 0)
        lost = 0
        for d in o:
            ops = [print_text(p) for p in case["ops"] if ("std" if p["dst"] == "nil" else p["dst"]) == d]
            n, err = account_losses(ops, o[d])
            if err:
                return ["output: destination %s %s" % (d, err)]
            lost += n
        if lost > nerr:
            return ["lost: %d print calls incomplete after %d failed writes" % (lost, nerr)]
        return []

    def tags(self, case, res):
        return Prints.tags(self, case, res) + (["a write failed"] if res["fired"].get("write_err") else [])


def account_losses(ops, out):
    """ops: texts with unique <id>; out: observed. Returns (number of incomplete ops, error)."""
    pos, lost, i = 0, 0, 0
    while i < len(ops):
        if out.startswith(ops[i], pos):
            pos += len(ops[i])
            i += 1
            continue
        # ops[i] is incomplete; find the next complete one
        j = i + 1
        while j < len(ops):
            k = out.find(ops[j], pos)
            if k >= 0:
                break
            j += 1
        end = out.find(ops[j], pos) if j < len(ops) else len(out)
        part = out[pos:end]
        whole = "".join(ops[i:j])
        it = iter(whole)
        if not all(ch in it for ch in part):
            return lost, "after losing %d call(s) from %r: %r is not part of what they print" % (j - i, ops[i][:40], part[:200])
        lost += j - i
        pos = end
        i = j
    if pos != len(out):
        return lost, "surplus output %r" % out[pos:pos + 200]
    return lost, None


class Forked(Scenario):
    """Output pending at a fork, and output of several processes to shared destinations."""
    name = "forked"
    weight = 4
    list_keys = ("ops",)

    def gen(self, r, tier):
        k, f = delivery(r)
        f.pop("short_read", None)
        if r.random() < 0.5:
            f["short_write"] = {"p": r.choice([1000, 4000])}
        ops = []
        nf = 0
        for i in range(r.choice([2, 4, 7, 12])):
            if r.random() < 0.3 and nf < 3:
                kid = [gen_print(r, "k%d.%d" % (i, q), ["std", "nil", "fd3"], r.random() < 0.2) for q in range(r.choice([0, 1, 2, 4]))]
                end = r.choice(["quit", "quit", "exec", "execfail"])
                ops.append({"fork": kid, "end": end, "wait": r.random() < 0.6})
                if end != "quit" and r.random() < 0.4:
                    # in the middle of a print call
                    ops[-1]["mid"] = i
                nf += 1
            else:
                ops.append(gen_print(r, "p%d" % i, ["std", "std", "nil", "fd3"], r.random() < 0.3))
        return dict(ops=ops, knobs=k, faults=f, out=r.choice(["sink", "tty", "regular"]))

    def job(self, case):
        prog = [LOADS]
        for o in case["ops"]:
            if "fork" not in o:
                prog.append(stmt(o))
                continue
            end = {"quit": "(quit)", "exec": '(exec "/bin/x" NIL NIL)', "execfail": '(exec "/bin/none" NIL NIL)'}[o["end"]]
            if "mid" in o:
                prog.append("(printl 'm%d (let ((P . (fork))) (if (= P 0) (prog %s %s) (prog %s 'par))) 'z)" % (o["mid"], " ".join(stmt(p) for p in o["fork"]), end, "(wait P)" if o["wait"] else "P"))
                continue
            prog.append("(let ((P . (fork))) (if (= P 0) (prog %s %s) %s))" % (" ".join(stmt(p) for p in o["fork"]), end,
                                                                         "(wait P)" if o["wait"] else "P"))
        j = dict(argv=["-e", "\n".join(prog)], files={"/bin/x": {"kind": "prog", "mode": 0o755, "data": "W 1 3\nEND\nX 0\n"}},
                 stdfd={0: ["null"], 1: ["sink", "out"] + (["tty"] if case["out"] == "tty" else []), 2: ["sink", "err"], 3: ["sink", "d3"]})
        j["knobs"] = dict(case["knobs"])
        if case["out"] == "regular":
            j["knobs"]["sink_regular"] = 1
        return j

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        pids = [p["pid"] for p in res["procs"]]
        exp = {p: {"out": "", "d3": ""} for p in pids}
        k = 0
        if len(pids) != 1 + sum("fork" in o for o in case["ops"]):
            return ["processes: %d processes were created" % len(pids)]
        for o in case["ops"]:
            if "fork" not in o:
                exp[pids[0]]["d3" if o["dst"] == "fd3" else "out"] += print_text(o)
            else:
                k += 1
                if "mid" in o:
                    exp[pids[0]]["out"] += "m%d par z\n" % o["mid"]
                for p in o["fork"]:
                    exp[pids[k]]["d3" if p["dst"] == "fd3" else "out"] += print_text(p)
                exp[pids[k]]["out"] += {"quit": "", "exec": "END", "execfail": "No such file or directory\n"}[o["end"]]
        for s in ("out", "d3"):
            got = by_pid(res, s)
            for p in pids:
                if got.get(p, "") != exp[p][s]:
                    return ["output: process %d to %s %s" % (p, s, diff(exp[p][s], got.get(p, "")))]
        return []

    def tags(self, case, res):
        t = []
        ops = case["ops"]
        for a, b in zip(ops, ops[1:]):
            if "fork" in b and "fork" not in a and not a["fn"].endswith("l"):
                t.append("fork right after a partial line")
                break
        return t


SCENARIOS = [Prints(), WriteErrors(), Forked()]
