"""C17: memory growth is invisible; running out stops the program and never corrupts it."""
import random

from common import *

LOADS = ("(load '(io in out prin prinl print printl readline read) '(std \\ list let prog if while <- quote cons car cdr len conc def when unless match) '(math + - < * %) '(logic = <>) "
         "'(unix unlink) \"@lib/rev.l\" \"@lib/append.l\" \"@lib/iter.l\")\n")


def sizes(r, big):
    k = r.randrange(8)
    if k == 0:
        return r.choice([0, 1, 2])
    if k < 5:
        return r.randrange(1, 900)
    if k < 7:
        return r.randrange(500, 2500)
    return r.randrange(2000, 30000 if big else 4000)


class Grow(Scenario):
    list_keys = ("steps",)

    def __init__(self, name, weight, kind):
        self.name = name
        self.weight = weight
        self.kind = kind

    def gen(self, r, tier):
        k, f = delivery(r)
        k["maxsteps"] = 600000
        f.pop("clock_jump", None)
        f.pop("delay", None)
        f["short_read"] = {"p": r.choice([200, 2000]), "only": "/work/"}
        f["short_write"] = {"p": r.choice([200, 2000])}
        if self.kind == "refused":
            f["mprotect"] = {"p": r.choice([10000, 5000, 3000]), "max": 1}
            if r.random() < 0.15:
                f["mmap"] = {"p": r.choice([300, 3000]), "max": 1}
        steps = []
        for i in range(r.choice([1, 2, 3, 5])):
            q = r.choice(["cons", "cons", "line", "lit", "rev", "map", "nest", "defs", "conc", "free", "read", "pairs"])
            n = sizes(r, tier != "quick" or r.random() < 0.05)
            if q == "nest":
                n = min(n, 400)
            if q == "map":
                n = min(n, 300)
            if q in ("defs", "conc", "rev", "lit", "read"):
                n = min(n, 1500)
            steps.append({"id": i, "k": q, "n": n, "s": r.randrange(1 << 30)})
        return dict(steps=steps, pad=r.choice([0, r.randrange(1500), r.randrange(1200), r.randrange(6000)]), knobs=k, faults=f, top=r.choice(["script", "script", "expr"]))

    def value(self, st):
        """The value the step builds, as printed text, and the program text that builds it."""
        n, k, i = st["n"], st["k"], st["id"]
        r = random.Random(st["s"])
        show = lambda l: "(" + " ".join(map(str, l)) + ")" if l else "NIL"
        loop = "(let ((a . NIL) (n . 0)) (while (< n %d) (<- 'a (cons %%s a)) (<- 'n (+ n 1))) a)" % n
        if k == "cons":
            return loop % "(* n 3)", show([x * 3 for x in range(n - 1, -1, -1)]), {}
        if k == "pairs":
            return loop % "(cons n (list n 'x))", show(["(%d %d x)" % (x, x) for x in range(n - 1, -1, -1)]), {}
        if k == "line":
            t = "".join(r.choice(L.PRINT) for _ in range(n))
            return '(in "l%d" (readline))' % i, L.literal(["str", t]) if t else "NIL", {"/work/l%d" % i: t + "\nnext\n"}
        if k == "lit":
            l = [r.randrange(-10 ** 6, 10 ** 6) for _ in range(n)]
            return "'" + show(l) if l else "NIL", show(l), {}
        if k == "read":
            l = [r.choice(["a", "(b c)", "1", "^x", "(d . e)", "((f) g)"]) for _ in range(min(n, 3000))]
            return '(in "r%d" (read))' % i, show(l), {"/work/r%d" % i: (show(l)).replace(" ", "\n" if r.random() < 0.5 else " ") + "\n"}
        if k == "rev":
            return "(rev %s)" % (loop % "n"), show(range(n)), {}
        if k == "map":
            return "(append %s '(z))" % (loop % "n"), show(list(range(n - 1, -1, -1)) + ["z"]), {}
        if k == "conc":
            return "(conc %s (list 'u 'v))" % (loop % "n"), show(list(range(n - 1, -1, -1)) + ["u", "v"]), {}
        if k == "nest":
            return "(let ((a . 'z) (n . 0)) (while (< n %d) (<- 'a (list a)) (<- 'n (+ n 1))) a)" % n, "(" * n + "z" + ")" * n, {}
        if k == "free":
            return "(prog %s %s 'free%d)" % (loop % "(list n n)", loop % "(* n n)", i), "free%d" % i, {}
        if k == "defs":
            m = min(n, 120)
            s = "".join("(def d%d.%d (x) (+ x %d))" % (i, j, j) for j in range(m)).replace(".", "_")
            return "(prog %s (list %s))" % (s, " ".join("(d%d_%d 1)" % (i, j) for j in range(m))), show([j + 1 for j in range(m)]), {}

    def job(self, case):
        files = {}
        body = "(printl (len pad))"
        tail = ""
        for st in case["steps"]:
            e, v, fl = self.value(st)
            files.update(fl)
            body += "\n(let ((k%d . %s))\n(printl k%d)" % (st["id"], e, st["id"])
            tail = "(printl k%d))" % st["id"] + tail
        prog = LOADS + "(let ((pad . %s)) %s %s (printl (len pad)) 'ok)\n(printl 'end)\n" % ("'(" + " ".join(["1"] * case["pad"]) + ")" if 0 < case["pad"] < 1500 else "(let ((a . NIL) (n . 0)) (while (< n %d) (<- 'a (cons n a)) (<- 'n (+ n 1))) a)" % case["pad"], body, tail)
        if case["top"] == "expr" and len(prog) < 100000:
            return dict(files=files, argv=["-d", "-e", prog])
        files["/work/p.l"] = prog
        return dict(files=files, argv=["-d", "p.l"])

    def check(self, case, res):
        refused = res["fired"].get("mprotect", 0) + res["fired"].get("mmap", 0)
        v = ended(res, allow=(6,) if refused else ())
        if v:
            return v
        p = str(case["pad"])
        vals = [self.value(s)[1] for s in case["steps"]]
        e = "".join(x + "\n" for x in [p] + vals + list(reversed(vals)) + [p, "end"])
        o = sink(res, "out")
        pr = res["procs"][0]
        if o == e:
            if pr["sig"] or (code(res) != 0):
                if not refused:
                    return ["status: %s although everything was computed" % code(res)]
            return []
        if not refused:
            return ["result: " + diff(e, o)]
        if not e.startswith(o):
            return ["corrupt: after memory was refused: " + diff(e, o)]
        if not pr["sig"] and code(res) == 0:
            return ["status: the program stopped short with success after memory was refused"]
        return []

    def tags(self, case, res):
        t = {"step:" + s["k"] for s in case["steps"]}
        if res["procs"][0]["sig"] == 6:
            t.add("stopped for lack of memory")
        return t


class Limit(Scenario):
    """Data close to the documented limit works; a program that needs more stops with a failure."""
    name = "limit"
    weight = 1

    def gen(self, r, tier):
        return dict(knobs={"maxsteps": 400000}, faults={"short_read": {"p": r.choice([0, 300]), "only": "/work/"}}, pad=r.randrange(3000), kind=r.choice(["line", "line", "line", "over", "cons", "deep"]),
                    n=r.choice([r.randrange(60000, 300000), r.randrange(300000, 900000)]), how=r.choice(["prinl", "printl", "len", "drop"]))

    def job(self, case):
        n = case["n"] if case["kind"] == "line" else 1200000
        if case["kind"] in ("line", "over"):
            how = {"prinl": "(prinl a)", "printl": "(printl a)", "len": "(printl (len a))", "drop": "(printl 'read)"}[case["how"]]
            prog = LOADS + "(let ((pad . '(%s))) (printl 'start) (let ((a . (in \"l\" (readline)))) %s) (printl 'after))\n(printl 'end)\n" % ("1 " * (1 + case["pad"]), how)
            return dict(files={"/work/p.l": prog, "/work/l": "xyz" * (n // 3) + "\n"}, argv=["p.l"])
        e = {"cons": "(cons 1 a)", "deep": "(cons (list a) NIL)"}[case["kind"]]
        prog = LOADS + "(let ((pad . '(%s)) (a . NIL)) (printl 'start) (while T (<- 'a %s)) (printl 'never))\n(printl 'end)\n" % ("1 " * (1 + case["pad"]), e)
        return dict(files={"/work/p.l": prog}, argv=["p.l"])

    def check(self, case, res):
        v = ended(res, allow=(6,) if case["kind"] != "line" else ())
        if v:
            return v
        if case["kind"] == "line":
            n = case["n"] // 3
            e = {"prinl": "xyz" * n, "printl": "(" + "^x ^y ^z " * (n - 1) + "^x ^y ^z)", "len": str(3 * n), "drop": "read"}[case["how"]]
            e = "start\n" + e + "\nafter\nend\n"
            if sink(res, "out") != e:
                return ["result: " + diff(e, sink(res, "out"))]
            return []
        if sink(res, "out") != "start\n":
            return ["corrupt: output %r" % sink(res, "out")[:100]]
        if not res["procs"][0]["sig"] and code(res) == 0:
            return ["status: success although memory ran out"]
        return []

    def tags(self, case, res):
        return {"limit:" + case["kind"]}


SCENARIOS = [Grow("grow", 60, "plain"), Grow("refused", 40, "refused"), Limit()]
