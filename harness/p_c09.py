"""C09: processes joined by fork, pipe, dup and wait exchange data exactly once."""
import random

from common import *

LOADS = ("(load '(io in out prin prinl print printl readline) '(std if prog let when while list cons def setq quit <-) '(logic = <>) '(math + *) "
         "'(unix fork wait exec unlink dup close pipe))")
ALPHA = ["abcdef", "ghijkl", "mnopqr", "stuvwx", "yz0123"]
PROGS = {"/bin/x%d" % c: {"kind": "prog", "mode": 0o755, "data": "X %d\n" % c} for c in (0, 1, 2, 3, 7, 42, 255)}
PROGS["/bin/k"] = {"kind": "prog", "mode": 0o755, "data": "K 9\n"}
PROGS["/bin/cat"] = {"kind": "prog", "mode": 0o755, "data": "E\nX 0\n"}


def common_gen(r):
    k, f = delivery(r)
    k["maxsteps"] = 150000
    f.pop("short_read", None)
    f.pop("clock_jump", None)
    if r.random() < 0.6:
        k["pipecap"] = r.choice([4096, 8192, 65536])
    if r.random() < 0.5:
        f["short_read"] = {"p": r.choice([1000, 6000]), "only": "pipe:"}
    return k, f


def texts(r, alpha, lines):
    return ["".join(r.choice(alpha) for _ in range(r.choice([1, 2, 5, 30, 30, 400 if r.random() < 0.2 else 8]))) for _ in range(lines)]


def end_expr(e):
    return {"k": '(exec "/bin/k" NIL NIL)'}.get(e, '(exec "/bin/x%s" NIL NIL)' % e)


def end_code(e):
    return "NIL" if e == "k" else str(e)


LOOP = "(let ((L . (readline))) (while (<> L 'EOF) %s (<- 'L (readline))))"


class FanIn(Scenario):
    """Several children write into one pipe; the parent or an executed program reads it to the end and waits for each child."""
    name = "fan-in"
    weight = 3
    list_keys = ("kids",)

    def gen(self, r, tier):
        k, f = common_gen(r)
        n = r.choice([1, 2, 2, 3, 4, 5])
        kids = [{"lines": texts(r, ALPHA[i], r.choice([0, 1, 3, 10, 40])), "how": r.choice(["out", "dup", "each", "prin"]), "end": r.choice([0, 1, 2, 3, 7, 42, 255, "k"]),
                 "i": i} for i in range(n)]
        order = list(range(n))
        r.shuffle(order)
        return dict(kids=kids, order=order, knobs=k, faults=f, early=r.choice(["after", "after", "before"]), reader=r.choice(["mnml", "cat"]))

    def child(self, k):
        fn = "prin" if k["how"] == "prin" else "prinl"
        w = " ".join('(%s "%s")' % (fn, x) for x in k["lines"])
        if k["how"] == "dup":
            return "(prog (close R) (dup W 1) (close W) %s %s)" % (w, end_expr(k["end"]))
        if k["how"] == "each":
            w = " ".join('(out W (prinl "%s"))' % x for x in k["lines"])
            return "(prog (close R) %s (close W) %s)" % (w, end_expr(k["end"]))
        return "(prog (close R) (out W %s) (close W) %s)" % (w, end_expr(k["end"]))

    def job(self, case):
        waits = " ".join("(printl (list 'w%d (wait P%d)))" % (i, i) for i in case["order"] if any(k["i"] == i for k in case["kids"]))
        if case["reader"] == "mnml":
            rd = "(in R " + LOOP % "(printl L)" + ")"
        else:
            # the reading end becomes the standard input of an executed program
            rd = '(let ((Q . (fork))) (if (= Q 0) (prog (dup R 0) (close R) (exec "/bin/cat" NIL NIL)) (printl (list \'q (wait Q)))))'
        body = "(prog (close W) %s (close R) %s)" % (rd, waits)
        for k in reversed(case["kids"]):
            body = "(let ((P%d . (fork))) (if (= P%d 0) %s %s))" % (k["i"], k["i"], self.child(k), body)
        prog = LOADS + " (let (((R . W) . (pipe))) %s)" % body
        return dict(files=dict(PROGS), argv=["-e", prog])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        out = by_pid(res, "out").get(res["procs"][0]["pid"], "")
        lines = out.split("\n")
        tail = [x for x in lines if x.startswith("(w") or x.startswith("(q")]
        data = "\n".join(x for x in lines if not (x.startswith("(w") or x.startswith("(q")))
        if case["reader"] == "cat":
            data = "".join(s[2] for s in res["sinks"]["out"] if s[1] != res["procs"][0]["pid"])
        nl = 0
        for k in case["kids"]:
            e = "".join(k["lines"])
            o = "".join(c for c in data if c in ALPHA[k["i"]])
            if e != o:
                return ["stream: writer %d %s" % (k["i"], diff(e, o))]
            nl += len(k["lines"]) if k["how"] != "prin" else 0
        if case["reader"] == "cat" and data.count("\n") != nl:
            return ["stream: %d newlines written, %d arrived" % (nl, data.count("\n"))]
        exp = ["(w%d %s)" % (i, end_code(k["end"])) for i in case["order"] for k in case["kids"] if k["i"] == i]
        if case["reader"] == "cat":
            exp = ["(q 0)"] + exp
        if exp != tail:
            return ["wait: expected %s observed %s" % (exp, tail)]
        return []

    def tags(self, case, res):
        t = {"%d writers" % len(case["kids"]), "reader:" + case["reader"]}
        if any(k["end"] == "k" for k in case["kids"]):
            t.add("a writer is killed by a signal")
        if sum(len(x) for k in case["kids"] for x in k["lines"]) > case["knobs"].get("pipecap", 65536):
            t.add("more data than the pipe holds")
        return t


class Pipeline(Scenario):
    """writer | stages | reader, every process its own child."""
    name = "pipeline"
    weight = 3
    list_keys = ("lines", "stages")

    def gen(self, r, tier):
        k, f = common_gen(r)
        return dict(lines=texts(r, "abcdefgh", r.choice([0, 1, 5, 20, 60])), stages=[r.choice(["mnml", "cat", "dup"]) for _ in range(r.choice([0, 1, 2, 3]))],
                    head=r.choice(["child", "self"]), knobs=k, faults=f)

    def job(self, case):
        w = " ".join('(prinl "%s")' % x for x in case["lines"])
        n = len(case["stages"])
        # pipe i carries data from stage i-1 (0: the writer) to stage i; the last one is read by the parent
        last = n
        body = "(prog (in R%d %s) (close R%d) %s)" % (last, LOOP % "(prinl L)", last, " ".join("(printl (list 'w%d (wait P%d)))" % (i, i) for i in range(n + 1)))
        for i in range(n, 0, -1):
            s = case["stages"][i - 1]
            if s == "cat":
                c = '(prog (close R%d) (dup R%d 0) (dup W%d 1) (close R%d W%d) (exec "/bin/cat" NIL NIL))' % (i, i - 1, i, i - 1, i)
            elif s == "dup":
                c = "(prog (close R%d) (dup R%d 0) (close R%d) (dup W%d 1) (close W%d) (in NIL %s) (exec \"/bin/x%d\" NIL NIL))" % (
                    i, i - 1, i - 1, i, i, LOOP % "(prinl L)", 3)
            else:
                c = "(prog (close R%d) (out W%d (in R%d %s)) (close W%d R%d) (exec \"/bin/x%d\" NIL NIL))" % (i, i, i - 1, LOOP % "(prinl L)", i, i - 1, 7)
            body = "(let (((R%d . W%d) . (pipe)) (P%d . (fork))) (if (= P%d 0) %s (prog (close W%d R%d) %s)))" % (i, i, i, i, c, i, i - 1, body)
        c = "(prog (close R0) (out W0 %s) (close W0) (exec \"/bin/x1\" NIL NIL))" % w
        prog = LOADS + " (let (((R0 . W0) . (pipe)) (P0 . (fork))) (if (= P0 0) %s (prog (close W0) %s)))" % (c, body)
        return dict(files=dict(PROGS), argv=["-e", prog])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        exp = "".join(x + "\n" for x in case["lines"]) + "(w0 1)\n" + "".join(
            "(w%d %d)\n" % (i + 1, {"cat": 0, "dup": 3, "mnml": 7}[s]) for i, s in enumerate(case["stages"]))
        if sink(res, "out") != exp:
            return ["stream: " + diff(exp, sink(res, "out"))]
        return []

    def tags(self, case, res):
        return ["%d stages" % len(case["stages"])] + ["stage:" + s for s in set(case["stages"])]


class Talk(Scenario):
    """Parent and child converse over two pipes in lock step; each keeps its own copy of the data."""
    name = "talk"
    weight = 2
    list_keys = ("msgs",)

    def gen(self, r, tier):
        k, f = common_gen(r)
        return dict(msgs=texts(r, "abcdefgh", r.choice([1, 2, 5, 12])), knobs=k, faults=f, dup=r.random() < 0.5, end=r.choice([0, 3, 42]))

    def job(self, case):
        n = len(case["msgs"])
        ask = " ".join('(out W1 (prinl "%s")) (prinl (readline)) (setq G (+ G 1)) (<- \'V (* V 2))' % x for x in case["msgs"])
        ans = " ".join("(out W2 (prinl \"re:\" (readline))) (setq G (+ G 10)) (<- 'V (+ V 1))" for _ in range(n))
        child = '(prog (close W1 R2) (in R1 %s) (printl (list \'c (readline))) (printl (list \'child G V)) (close R1 W2) %s)' % (ans, end_expr(case["end"]))
        child = child.replace("(in R1 %s) (printl (list 'c (readline)))" % ans, "(in R1 %s (printl (list 'c (readline))))" % ans)
        if case["dup"]:
            ask = "(let ((D . (dup W1))) " + ask.replace("(out W1", "(out D") + " (close D))"
        parent = "(prog (close R1 W2) (in R2 %s (close W1) (printl (list 'p (readline)))) (printl (wait P)) (printl (list 'parent G V)) (close R2))" % ask
        prog = LOADS + " (setq G 5) (let ((V . 1) ((R1 . W1) . (pipe)) ((R2 . W2) . (pipe)) (P . (fork))) (if (= P 0) %s %s))" % (child, parent)
        return dict(files=dict(PROGS), argv=["-e", prog])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        n = len(case["msgs"])
        b = by_pid(res, "out")
        top = res["procs"][0]["pid"]
        pe = "".join("re:%s\n" % x for x in case["msgs"]) + "(p EOF)\n%d\n(parent %d %d)\n" % (case["end"], 5 + n, 2 ** n)
        ce = "(c EOF)\n(child %d %d)\n" % (5 + 10 * n, 1 + n)
        if b.get(top, "") != pe:
            return ["stream: parent " + diff(pe, b.get(top, ""))]
        co = "".join(x for p, x in b.items() if p != top)
        if co != ce:
            return ["stream: child " + diff(ce, co)]
        return []


class Eof(Scenario):
    """A reader sees the end of the stream when, and not before, the last writer is gone."""
    name = "eof"
    weight = 2

    def gen(self, r, tier):
        k, f = common_gen(r)
        return dict(knobs=k, faults=f, holds=[r.choice([0, 20, 300, 5000]) for _ in range(r.choice([1, 2, 3]))], own=r.random() < 0.4, n=r.choice([0, 1, 4]))

    def job(self, case):
        files = dict(PROGS)
        for i, h in enumerate(case["holds"]):
            files["/bin/h%d" % i] = {"kind": "prog", "mode": 0o755, "data": "Z %d\nX %d\n" % (h, i)}
        # each child keeps its copy of the writing end open across exec for some time
        own = "" if case["own"] else "(close W)"
        own2 = " ".join("(printl (readline))" for _ in range(case["n"])) + (" " + mark("own") + " (close W) " if case["own"] else "")
        body = "(prog %s (in R %s (printl (readline)) %s) (close R) %s)" % (own, own2, mark("eof"), " ".join(
            "(printl (wait P%d))" % i for i in range(len(case["holds"]))))
        for i in range(len(case["holds"]) - 1, -1, -1):
            w = '(out W %s)' % " ".join('(prinl "m%d")' % j for j in range(case["n"])) if i == 0 else ""
            body = '(let ((P%d . (fork))) (if (= P%d 0) (prog (close R) %s (exec "/bin/h%d" NIL NIL)) %s))' % (i, i, w, i, body)
        return dict(files=files, argv=["-e", LOADS + mark("go") + "(let (((R . W) . (pipe))) %s)" % body])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        exp = "".join(L.literal(["str", "m%d" % j]) + "\n" for j in range(case["n"])) + "EOF\n" + "".join("%d\n" % i for i in range(len(case["holds"])))
        if sink(res, "out") != exp:
            return ["stream: " + diff(exp, sink(res, "out"))]
        t0 = marks(res, "go")[0]["t"]
        t1 = marks(res, "eof")[0]["t"]
        if t1 - t0 < max(case["holds"]) * 1000:
            return ["eof: end of the stream seen after %d us while a writer held it for %d ms" % (t1 - t0, max(case["holds"]))]
        return []


SCENARIOS = [FanIn(), Pipeline(), Talk(), Eof()]
