"""C31: tracing only observes."""
from collections import Counter
import importlib
import random
import re

from common import *

MNML = "@PREFIX/bin/mnml"
CATS = ["BIND", "CHAN", "CLOS", "CONS", "EVAL", "MAKE", "MODL", "REFC", "SLAB", "SLOT", "TAIL"]


LIGHT = ["CHAN", "MODL", "SLOT", "TAIL"]
HEAVY = ("c09.pipeline", "c11.both", "c15.module", "c20.status", "c27.writers", "c27.history", "c03.write-errors", "c05.deep", "c06.plain", "c13.serve")


def pick(r, light):
    n = r.choice([0, 1, 1, 1, 2, 2, 3])
    c = r.sample(LIGHT if light else CATS, n)
    if c and r.random() < 0.15:
        c.insert(r.randrange(len(c) + 1), r.choice(["", "NONE", "eval", c[0]]))
    return ",".join(c)


STEPS = 600000


WHOLE = re.compile(r"^! \d\d:\d\d:\d\d\.\d{6} \([^)]*\) .*\n", re.M)


def once(case, res):
    """A line carries the time it was traced at: two processes do not trace the same one."""
    seen = {}
    if "clock_jump" in str(case):
        return []
    for p, o in by_pid(res, "err").items():
        for l in set(WHOLE.findall(o)):
            if seen.setdefault(l, p) != p:
                return ["trace: processes %d and %d both write %r" % (seen[l], p, l[:80])]
    return []


class Observed(Scenario):
    """The programs of the other checks, traced: their own oracles judge them."""
    name = "observed"
    weight = 6

    def __init__(self):
        self.inner = {}
        for n in ("p_c01", "p_c02", "p_c03", "p_c05", "p_c06", "p_c07", "p_c09", "p_c10", "p_c11", "p_c12", "p_c13", "p_c14", "p_c15", "p_c18", "p_c19", "p_c20", "p_c27"):
            for sc in importlib.import_module(n).SCENARIOS:
                if sc.name != "programs":
                    self.inner[n[2:] + "." + sc.name] = sc

    def gen(self, r, tier):
        names = sorted(set(x.split(".")[0] for x in self.inner))
        m = r.choice(names)
        n = r.choice(sorted(x for x in self.inner if x.split(".")[0] == m))
        case = dict(self.inner[n].gen(r, tier), program=n, cats=pick(r, r.random() < (0.9 if n in HEAVY else 0.4)), tz=r.random() < (0.5 if m != "c14" else 0.1), err=r.choice(["plain", "plain", "short", "errors", "null"]))
        return case

    def job(self, case):
        j = self.inner[case["program"]].job(case)
        j["env"] = dict(j.get("env", {}), MNML_DEBUG=case["cats"], **({"TZ": "UTC0"} if case["tz"] else {}))
        k = dict(j.get("knobs", case.get("knobs", {})))
        k["maxsteps"] = STEPS
        j["knobs"] = k
        f = dict(j.get("faults", case.get("faults", {})))
        j["stdfd"] = dict(j.get("stdfd", NULL_IO))
        if case["err"] == "null":
            j["stdfd"][2] = ["null"]
        elif case["err"] == "errors" and "write_err" not in f:
            f["write_err"] = {"p": 2000, "only": "sink:err"}
        elif case["err"] == "short" and "short_write" not in f:
            f["short_write"] = {"p": 2000, "only": "sink:err"}
        j["faults"] = f
        return j

    def check(self, case, res):
        if res["end"] == "budget":
            return []
        return self.inner[case["program"]].check(case, res) or once(case, res)

    def shrink(self, case):
        return self.inner[case["program"]].shrink(case)

    def tags(self, case, res):
        return ["program:" + case["program"], "stderr:" + case["err"]] + ["traced:" + c for c in case["cats"].split(",") if c]


class Signalled(Observed):
    """Signals that arrive while a line is being traced."""
    name = "signalled"
    weight = 2

    def gen(self, r, tier):
        n = r.choice(sorted(x for x in self.inner if x.startswith("c14.") and "sigpipe" not in x))
        case = self.inner[n].gen(r, tier)
        case["sig"] = [[r.choice([0, 0, 1, 5, 20, 50, 100, 200, 500, 1000]), r.choice([15, 15, 3])] for _ in range(r.choice([1, 2, 4, 8]))]
        return dict(case, program=n, cats=r.choice(["", "EVAL", "EVAL", "CLOS", "BIND", "CHAN,MODL"]), tz=r.random() < 0.1, err=r.choice(["plain", "short", "null"]))


WIDTH = 60
KEY = "(%s)" % " ".join("^" + c for c in "MNML_DEBUG")
ALWAYS = ["BIND", "CLOS", "CONS", "EVAL", "MAKE", "MODL", "REFC", "SLAB"]
LINE = re.compile(r"^! \d\d:\d\d:\d\d\.\d{6} \(([^)]*)\)", re.M)
FORMS = ["(prinl (+ 1 2))", "(def (f a . b) (list a b))", "(def inc (x) (+ x 1))", "(printl (inc 4))", "(def cnt (n) (if (= n 0) 0 (cnt (- n 1))))", "(printl (cnt 3))",
         "(let ((A . 1) (B . (2 3))) (printl (list A B)))", "(load '(std map))", "(load '(none nothing))", "(load \"@lib/none.l\")", "(in \"d\" (printl (readline)))", "(in \"none\" (read))",
         "(printl (match 3 (1 . 'a) (_ . 'b)))", "(load \"d.l\")", "'(1 . 2)"]


class Categories(Scenario):
    """The same program started with several lists of categories: what each list traces is what its categories trace."""
    name = "categories"
    weight = 3
    list_keys = ("forms", "cats")

    def gen(self, r, tier):
        k, f = delivery(r)
        k["maxsteps"] = STEPS
        f.pop("clock_jump", None)
        if r.random() < 0.3:
            f["short_write"] = {"p": 1000, "only": "sink:err"}
        n = r.choice([1, 2, 2, 3])
        heavy = r.random() < 0.2
        cats = r.sample(CATS if heavy else ["BIND", "CHAN", "CLOS", "MODL", "SLOT", "TAIL", "TAIL", "EVAL"], n)
        forms = [r.choice(FORMS) for _ in range(r.choice([1, 2, 4]))]
        if not heavy and r.random() < 0.1:
            cats = [r.choice(["EVAL", "BIND", "CLOS"])]
            long = r.choice(["string", "string", "list", "pairs"])
            forms = ["(def len1 (l) (nil? l))", {"long": long, "n": r.choice([1023, 1024, 1025, 5000] if long == "string" else [100, 1024, 8000 if r.random() < 0.5 else 3000])}]
        elif not heavy and r.random() < 0.08:
            cats = r.sample(["CHAN", "MODL", "SLOT", "TAIL", "TAIL"], n)
            forms = ["(def cnt (n) (if (= n 0) 0 (cnt (- n 1))))", "(printl (cnt %d))" % r.choice([1000, 5000, 20000])]
        return dict(forms=forms, cats=sorted(set(cats), key=cats.index), other=r.choice(["", "NONE", "eval", "MOD", "MODLS", "slot", "TAI"]), rs=r.randrange(1 << 30), pad=r.choice([",", "", ""]), knobs=k, faults=f)

    def lists(self, case):
        r = random.Random(case["rs"])
        c = case["cats"]
        out = [[""]] + [[x] for x in c]
        if any(isinstance(x, dict) and x["n"] > 5000 for x in case["forms"]):
            return [",".join(l) for l in out]  # a write for each element: the two are enough
        for i in range(2):
            l = list(c)
            r.shuffle(l)
            if i and l:
                l.insert(r.randrange(len(l) + 1), r.choice(l + [case["other"]]))
            out.append(l)
        return [",".join(l) for l in out]

    @staticmethod
    def padded(case, l):
        return l + case["pad"] * (WIDTH - len(l))

    def form(self, x):
        if isinstance(x, str):
            return x
        n = x["n"]
        v = '"%s"' % ("x" * n) if x["long"] == "string" else "'(%s)" % " ".join("(%d . y)" % i if x["long"] == "pairs" else str(i) for i in range(n))
        return "(printl (len1 %s))" % v

    def job(self, case):
        files = {"@PREFIX/bin/mnml": {"kind": "prog", "host": "mnml", "mode": 0o755}, "/work/d": "line\n", "/work/d.l": "(def q (x) x)\n(q 1)\n",
                 "/work/c.l": "(load '(std if let match def list car cdr nil?) '(math + -) '(logic =) '(io in read readline prinl printl))\n(printl ENV)\n" + "\n".join(self.form(x) for x in case["forms"]) + "\n"}
        body = "(load '(unix fork exec wait) '(std let if prog) '(logic =))\n"
        for l in self.lists(case):
            env = ["HOME=/home/u", "TZ=UTC0", "MNML_SCRIPT_PATH=/usr/share/mnml", "MNML_DEBUG=" + self.padded(case, l)] + ([] if case["pad"] else ["PAD=" + "." * (WIDTH - len(l))])
            body += """(let ((P . (fork))) (if (= P 0) (exec (assoc "MNML_EXE" ENV) '("c.l") '(%s)) (wait P)))\n""" % " ".join('"%s"' % x for x in env)
        files["/work/p.l"] = "(load \"@lib/manips.l\")\n" + body
        return dict(files=files, argv=["p.l"], env={"MNML_EXE": MNML})

    def check(self, case, res):
        if res["end"] == "budget":
            return []
        v = ended(res)
        if v:
            return v
        outs = by_pid(res, "out")
        errs = by_pid(res, "err")
        pids = [p["pid"] for p in res["procs"]][1:]
        lists = self.lists(case)
        if len(pids) != len(lists):
            return ["form: %d processes for %d lists" % (len(pids), len(lists))]
        for l, p in zip(lists, pids):
            # the program sees its own list
            l = self.padded(case, l)
            v = KEY + "%s)" % "".join(" ^" + c for c in l)
            if l and v not in outs.get(p, ""):  # ENV leaves out what is empty
                return ["environment: the program does not see MNML_DEBUG as it was set to %s" % l]
            outs[p] = re.sub(r" \(\((\^P \^A \^D|\^M \^N \^M \^L \^_ \^D \^E \^B \^U \^G)\)[^()]*\)", "", outs[p])
        for l, p in zip(lists, pids):
            if outs.get(p, "") != outs.get(pids[0], ""):
                return ["output: traced with %r the program prints something else: %s" % (l, diff(outs.get(pids[0], ""), outs.get(p, "")))]
        n = [Counter(LINE.findall(errs.get(p, ""))) for p in pids]
        codes = [[q["code"] for q in res["procs"] if q["pid"] == p][0] for p in pids]
        if len(set(codes)) != 1:
            return ["status: %r" % codes]
        base = n[0]
        if not base:
            return ["trace: MNML_DEBUG without a category gives no line"]
        for c, x in zip(case["cats"], n[1:]):
            if c in ALWAYS and x == base:
                return ["trace: with %s alone, nothing of it is traced" % c]
        want = Counter(base)
        for x in n[1:1 + len(case["cats"])]:
            for y in set(x) | set(base):
                want[y] += x[y] - base[y]
        for l, x in list(zip(lists, n))[1 + len(case["cats"]):]:
            for y in sorted(set(x) | set(want)):
                if x[y] != want[y]:
                    return ["trace: with %r, %d lines of %s, where its categories one by one give %d" % (l, x[y], y, want[y])]
        return []

    def tags(self, case, res):
        return ["category:" + c for c in case["cats"]]


ANSWERS = ["(wait 99999)", "(wait 4000)", "(dup 999)", "(dup 999 998)", "(dup 1 99999)", "(exec \"/none\" NIL NIL)", "(exec \"/work/d\" NIL NIL)", "(connect \"127.0.0.1\" \"999\")", "(connect \"nowhere\" \"80\")", "(connect 5 80)",
           "(accept 999)", "(listen 'a)", "(listen 70000)", "(select '(77) NIL NIL)", "(in \"none\" (readline))", "(in \"d\" (readline))", "(in 999 (readline))", "(out \"/none/x\" (printl 1))", "(out 999 (printl 1))",
           "(unlink \"none\")", "(close 999)", "(load \"none.l\")", "(load '(none a))", "(load '(unix none))", "(load \"d.l\")", "(read)", "(readline)", "(pipe)", "(pipe)", "(listen 99)", "(in \"d\" (dup 0))"]


class Answers(Categories):
    """Calls that fail, traced or not, on a standard error that fails: they answer the same."""
    name = "answers"
    weight = 2

    def gen(self, r, tier):
        k, f = delivery(r)
        k["maxsteps"] = 1000000
        f = {x: y for x, y in f.items() if x in ("delay", "short_read")}
        f["write_err"] = {"p": r.choice([500, 2000, 5000, 10000]), "only": "sink:err"}
        if r.random() < 0.3:
            f["short_write"] = {"p": 1000, "only": "sink:err"}
        forms = [r.choice(ANSWERS) for _ in range(r.choice([1, 3, 5, 8]))]
        forms.sort(key=lambda x: x.startswith("(exec"))  # ends the program
        return dict(forms=forms, cats=r.sample(["BIND", "CHAN", "CLOS", "EVAL", "MODL", "SLOT", "TAIL"], r.choice([0, 1, 1, 2])), knobs=k, faults=f)

    def lists(self, case):
        return [None, "", ",".join(case["cats"])]

    def job(self, case):
        files = {"@PREFIX/bin/mnml": {"kind": "prog", "host": "mnml", "mode": 0o755}, "/work/d": "line\n", "/work/d.l": "(def q (x) x)\n(q 1)\n",
                 "/work/c.l": "(load '(std if let def prog) '(unix wait dup exec connect accept listen select unlink close pipe) '(io in out read readline printl))\n" + "\n".join("(printl %d %s)" % (i, x) for i, x in enumerate(case["forms"])) + "\n"}
        body = "(load '(unix fork exec wait) '(std let if prog) '(logic =))\n"
        for l in self.lists(case):
            env = ["HOME=/home/u", "TZ=UTC0", "MNML_SCRIPT_PATH=/usr/share/mnml"] + ([] if l is None else ["MNML_DEBUG=" + l])
            body += """(let ((P . (fork))) (if (= P 0) (exec (assoc "MNML_EXE" ENV) '("c.l") '(%s)) (wait P)))\n""" % " ".join('"%s"' % x for x in env)
        files["/work/p.l"] = "(load \"@lib/manips.l\")\n" + body
        return dict(files=files, argv=["p.l"], env={"MNML_EXE": MNML}, stdfd=NULL_IO)

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        outs = by_pid(res, "out")
        procs = res["procs"][1:]
        lists = self.lists(case)
        if len(procs) != len(lists):
            return ["form: %d processes for %d programs" % (len(procs), len(lists))]
        base = outs.get(procs[0]["pid"], "")
        if base.count("\n") < 1:
            return ["form: the program prints nothing"]
        if LINE.search(by_pid(res, "err").get(procs[0]["pid"], "")):
            return ["trace: lines of trace without MNML_DEBUG"]
        for l, p in zip(lists[1:], procs[1:]):
            o = outs.get(p["pid"], "")
            if o != base:
                return ["output: traced with %r the program prints something else: %s" % (l, diff(base, o))]
            if p["code"] != procs[0]["code"]:
                return ["status: %r traced, %r otherwise" % (p["code"], procs[0]["code"])]
        return []

    def tags(self, case, res):
        return ["category:" + c for c in case["cats"]] + ["answer:" + x.split()[0].strip("()") for x in case["forms"]]


SCENARIOS = [Observed(), Signalled(), Categories(), Answers()]
