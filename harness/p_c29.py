"""C29: the test runner runs and reports every selected test, and its exit status is the verdict."""
import re

from common import *

HEAD = ("(load \"@lib/test.l\" \"@lib/run.l\" '(math + - * <) '(logic =) '(io in out prin prinl read readline) '(std \\ list prog let if car cdr quit while <-)"
        " '(unix fork wait exec pipe close unlink select))\n")

# what is under test, and its literal value
VALUES = [("(+ 1 1)", "2"), ("(- 3 10)", "-7"), ("(* 6 7)", "42"), ('(list 1 "a" ^b \'c)', None), ("(car '(5 6))", "5"), ("(cdr '(5))", "NIL"), ("(= 1 1)", "T"), ("(= 1 2)", "NIL"), ("'sym", None),
          ('(in "/work/data" (readline))', '"first line"'), ('(in "/work/data" (readline) (read))', "12"), ('(in "/work/none" 5)', "NIL"), ('(in "/work/data" (readline) (readline) (readline))', None),
          ('(unlink "/work/none")', "NIL"), ('(prog (out "/work/o" (prinl "x")) (in "/work/o" (readline)))', '"x"'), ('(prog (out "/work/p" (prinl 1)) (unlink "/work/p"))', "T"),
          ('(car (run "/bin/x3" NIL NIL))', "3"), ('(car (run "/bin/k" NIL NIL))', "NIL"), ('(car (cdr (run "/bin/w" NIL NIL)))', '"hello"'),
          ('(let ((p . (fork))) (if (= p 0) (exec "/bin/x3" NIL NIL) (wait p)))', "3"), ('(let ((p . (fork))) (if (= p 0) (exec "/bin/k" NIL NIL) (wait p)))', "NIL"),
          ('(let (((r . w) . (pipe)) (p . (fork))) (if (= p 0) (exec "/bin/x3" NIL NIL) (prog (wait p) (out w (prinl "in the pipe")) (close w) (let ((l . (in r (readline)))) (close r) l))))', '"in the pipe"'),
          ('(let (((r . w) . (pipe))) (close w) (let ((l . (in r (readline)))) (close r) (= l \'EOF)))', "T"),
          ('(prog (prin "") 8)', "8"), ('(prog (load "/work/lib.l") (libfun 20))', "21"), ('(load "/work/none.l")', "NIL"), ("(load '(nomodule x))", "NIL"),
          ('(let (((r . w) . (pipe))) (out w (prinl "x")) (let (((a e) . (select (list r) (\\ (f) f) NIL))) (close r w) (= (car a) r)))', "T"),
          ('(let ((n . 3) (s . 0)) (while (< 0 n) (<- \'s (+ s n)) (<- \'n (- n 1))) s)', "6")]
VALUES += [("(car '(+ b))", "'+"), ("(list '+ 1 2)", "'(+ 1 2)"), ("(cdr '(1 + 2 3))", "'(+ 2 3)"), ("(in \"/work/lib.l\" (car (read)))", "'def")]
VALUES = [v for v in VALUES if v[1] is not None]


def plain(t):
    return re.sub("\x1b\\[[0-9;]*m", "", t)


class Runner(Scenario):
    list_keys = ("tests",)

    def __init__(self, name, weight, faulty):
        self.name = name
        self.weight = weight
        self.faulty = faulty

    def gen(self, r, tier):
        k, f = delivery(r)
        tests = []
        names = set()
        allgood = r.random() < 0.4
        for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
            n = "".join(r.choice("abcdefghijklmnopqrstuvwxyz_0123456789-") for _ in range(r.choice([1, 2, 4, 8, 15, 30])))
            if n in names:
                continue
            names.add(n)
            kind = r.choice(["equal", "equal", "equal", "pred", "bare"])
            e, v = r.choice(VALUES)
            good = allgood or r.random() < 0.7
            if kind == "equal":
                tests.append([n, "(assert:equal %s %s)" % (v if good else r.choice(["1234", '"other"', "'(1 2)", "'T" if v != "T" else "5"]), e), good, "equal"])
            elif kind == "pred":
                tests.append([n, "(assert:predicate (\\ (x) (= x %s)) %s)" % (v if good else "1234", e), good, "pred"])
            else:
                tests.append([n, "T" if good else r.choice(["5", "'x", "(prog %s 7)" % e, "(= 1 2)"]), good, "bare"])
        mode = r.choice(["all", "all", "-t", "-t", "-t", "-l", "unknown", "-h", "missing"])
        sel = []
        if mode == "-t":
            pool = sorted(names) + ["nosuch", "z"]
            sel = [r.choice(pool) for _ in range(r.choice([1, 2, 3, 6]))]
        extra = r.choice(["", "", "", "before", "after"])
        io = "sink"
        if self.faulty:
            if r.random() < 0.3:
                io = r.choice(["pipe", "closed"])
            else:
                f["write_err"] = {"p": r.choice([500, 3000, 10000]), "max": r.choice([1, 5, 100000]), "only": "sink:out"}
        elif r.random() < 0.4:
            f["short_write"] = {"p": r.choice([1000, 5000])}
        return dict(tests=tests, mode=mode, sel=sel, extra=extra, io=io, knobs=k, faults=f, debug=r.random() < 0.5)

    def job(self, case):
        io = {0: ["null"], 1: ["sink", "out"] if case["io"] == "sink" else ["pipeout", "o"], 2: ["sink", "err"]}
        actors = [] if case["io"] == "sink" else [{"name": "o", "ops": [{"op": "drain"} if case["io"] == "pipe" else {"op": "closer"}]}]
        files = {"/work/data": "first line\n12 (a b)\n", "/work/lib.l": "(def libfun (x) (+ x 1))\n", "/bin/x3": {"kind": "prog", "mode": 0o755, "data": "X 3\n"},
                 "/bin/k": {"kind": "prog", "mode": 0o755, "data": "K 9\n"}, "/bin/w": {"kind": "prog", "mode": 0o755, "data": "W 1 12\nhello\nworld\nX 0\n"}}
        files["/work/t.l"] = HEAD + '(test:run\n\t"The suite"\n' + "".join('\t("%s" . %s)\n' % (t[0], t[1]) for t in case["tests"]) + "\t)\n"
        argv = (["-d"] if case["debug"] else []) + ["t.l"] + {"all": [], "-l": ["-l"], "unknown": ["-x"], "-h": ["-h"], "missing": ["-t"],
            "-t": ["-l"] * (case["extra"] == "before") + ["-t", ",".join(case["sel"])] + ["-l"] * (case["extra"] == "after")}[case["mode"]]
        return dict(files=files, argv=argv, stdfd=io, actors=actors)

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        mode = case["mode"]
        tests = {t[0]: t for t in case["tests"]}
        names = case["sel"] if mode == "-t" else [t[0] for t in case["tests"]]
        ok = all(n in tests and tests[n][2] for n in names)
        want = 0 if ok or mode == "-l" and names else 255
        if mode == "-l" and not names:
            want = code(res)    # a list of no tests has no value that matters
        if mode == "-h":
            want = code(res)    # the usage has no value that matters
        if code(res) != want:
            return ["status: %s %s ended with %s" % (mode, [(n, tests[n][2] if n in tests else "unknown") for n in names], code(res))]
        if self.faulty:
            return []
        exp = "[The suite]\n"
        if mode == "-h":
            exp, names = "", []
        if mode == "missing":
            exp = "Not enough values for flag: -t\n" + exp
        if mode == "unknown":
            exp = "Unknown flag: -x\n" + exp
        w = max([len(n) for n in names] or [0])
        lines = []
        for n in names:
            if mode == "-l":
                lines.append("- " + n.ljust(w))
            elif n not in tests:
                lines.append("! %s: not found" % n.ljust(w))
            else:
                lines.append(("✓ %s: passed" if tests[n][2] else "! %s: failed") % n.ljust(w))
        exp += "".join(l + "\n" for l in lines)
        out = plain(sink(res, "out").encode("latin-1").decode("utf-8", "replace"))
        if mode == "-h":
            return [] if out.startswith("Usage: t.l") and "passed" not in out and "failed" not in out else ["report: %r for -h" % out[:300]]
        got = re.sub(r"> FAILED \n! (Expect|Predicate): [^\n]*\n! (Actual|Value): [^\n]*\n", "", out)
        if got != exp:
            return ["report: expected %r observed %r" % (exp[-600:], got[-600:])]
        n = out.count("> FAILED")
        bad = sum(1 for x in names if mode != "-l" and x in tests and not tests[x][2] and tests[x][3] != "bare")
        if n != bad:
            return ["report: %d failed assertions, %d explained" % (bad, n)]
        return []

    def tags(self, case, res):
        return {"mode:" + case["mode"], "io:" + case["io"]} | {"fault:" + f[0] for f in res["faults"]}


SCENARIOS = [Runner("suite", 2, False), Runner("lossy", 1, True)]
