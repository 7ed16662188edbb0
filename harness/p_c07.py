"""C07: every cell is released, whatever fails on the way."""
import importlib
import random
import re

from common import *
from p_c06 import Fds, LOADS

LOADS7 = LOADS.replace("(load ", "(load '(std setq set match cond while len str sym chr conc eval <- quote islst) '(math + - * / %% < >) '(logic and or not <>) ").replace(
    "%%", "%").replace(" islst", "")


def leaks(res):
    """Interpreter processes that ended normally report their slab through the exit status of -d."""
    for p in res["procs"]:
        if p["prog"].endswith("/mnml") and p["state"] != "run" and not p["sig"] and p["code"] == 254:
            return ["leak: process %d ended with cells still allocated" % p["pid"]]
    return []


class FailingOps(Fds):
    def job(self, case):
        j = Fds.job(self, case)
        j["argv"] = ["-d"] + j["argv"]
        return j

    def check(self, case, res):
        return leaks(res)


# ---------------------------------------------------------------- language
VARS = ["a", "b", "c", "x", "y"]


def num(r):
    return r.choice(["0", "1", "2", "7", "-3", "100"])


def expr(r, d, env):
    """A random expression that terminates and builds no cycle."""
    if d <= 0:
        return r.choice([num(r), '"str"', "'sym", "NIL", "T", "^c", "'(1 2 3)", "'(a . b)", "'((k . v) (l . w))", '""', "'(1 (2 (3)))"] + env)
    e = lambda: expr(r, d - r.choice([1, 1, 2]), env)
    k = r.randrange(34)
    if k == 0:
        v = r.choice(VARS)
        return "(let ((%s . %s)) %s %s)" % (v, e(), e(), expr(r, d - 1, env + [v]))
    if k == 1:
        v, w = r.choice(VARS), r.choice(VARS)
        return "(let (((%s . %s) . %s)) %s)" % (v, w, e(), expr(r, d - 1, env + [v, w]))
    if k == 2:
        v = r.choice(VARS)
        return "((\\ (%s) %s) %s)" % (v, expr(r, d - 1, env + [v]), e())
    if k == 3:
        v, w = r.choice(VARS), r.choice(VARS)
        return "((\\ (%s %s) %s) %s%s)" % (v, w, expr(r, d - 1, env + [v, w]), e(), r.choice(["", " " + e()]))
    if k == 4:
        return "(if %s %s %s)" % (e(), e(), e())
    if k == 5:
        return "(cond %s (%s . %s) (%s . %s) %s)" % (e(), r.choice(["not", "(= %s)" % e(), "(\\ (z) %s)" % e()]), e(), r.choice(["not", "(= %s)" % e()]), e(), r.choice(["", "(_ . %s)" % e()]))
    if k == 6:
        return "(match %s (%s . %s) (_ . %s))" % (e(), r.choice(["1", "NIL", "(_ _)", '"str"', "(1 . _)", "sym"]), e(), e())
    if k == 7:
        return "(prog %s %s)" % (e(), e())
    if k == 8:
        return "(list %s %s %s)" % (e(), e(), e())
    if k == 9:
        return "(cons %s %s)" % (e(), e())
    if k in (10, 11):
        return "(%s %s)" % (r.choice(["car", "cdr", "car", "cdr", "len", "str", "not", "sym", "chr"]), e())
    if k == 12:
        return "(%s %s %s)" % (r.choice(["+", "-", "*", "<", ">", "=", "<>", "and", "or"]), e(), e())
    if k == 13:
        return "(%s %s %s)" % (r.choice(["/", "%"]), e(), r.choice(["1", "3", "-2"]))
    if k == 14:
        return "(%s %s %s)" % (r.choice(["when", "unless"]), e(), e())
    if k == 15:
        return "(setq g%d %s)" % (r.randrange(3), e())
    if k == 16:
        return "(set 'g%d %s)" % (r.randrange(3), e())
    if k == 17:
        return "(%s %s %s)" % (r.choice(["prin", "prinl", "print", "printl"]), e(), e())
    if k == 18:
        v = r.choice(VARS)
        return "(prog (def f%d (%s) %s) (f%d %s))" % (d, v, expr(r, d - 1, env + [v]), d, e())
    if k == 19:
        v = r.choice(VARS)
        return "(let ((%s . 3)) (while (> %s 0) %s (<- '%s (- %s 1))))" % (v, v, expr(r, d - 2, [x for x in env if x != v]), v, v)
    if k == 20:
        v = r.choice(VARS)
        return "(let ((%s . %s)) (<- '%s %s) %s)" % (v, e(), v, r.choice([expr(r, 0, []), "(list 1 2)", "(+ 1 2)"]), v)
    if k == 21:
        return "(%s)" % r.choice(["car", "cons 1", "list", "+", "+ 1", "if", "let", "prog", "cond", "match", "def", "setq", "nofun 1 2", "\\", "print", "in", "out", "load",
                                  "=", "quote", "eval", "when T", "close", "run", "str", "conc", "while", "set", "not", "len", "unlink", "<", "and", "or", "\\ (x)"])
    if k == 22:
        return "(conc (list %s) (list %s %s))" % (e(), e(), e())
    if k == 23:
        return r.choice(["(+ 1)", "(cons %s)" % e(), "((\\ (p q) (list p q)) %s)" % e(), "(1 2 3)", "(\"s\" 1)", "(NIL)", "((quote car) '(1 2))", "('x 1)", "(T)", "(^a 1)"])
    if k == 24:
        # what is quoted is a list, a symbol or a number: there is no other quotation
        return "(eval %s)" % (lambda x: "'" + x if re.match(r"[(a-z0-9-]", x) else x)(e())
    if k == 25:
        return "(%s %s)" % (r.choice(["rev", "readlines", "append '(1)", "map (\\ (z) (list z z))", "split \"a,b\"", "trim"]), r.choice(["'(1 2 3)", '" ab "', "NIL", "^,"]))
    if k == 26:
        return "(load %s)" % r.choice(['"none.l"', "'(math nosym +)", "'(nomod a)", "'math", "5", "'(math)", "NIL", '"@lib/rev.l"', '"ok.l"', '"bad.l"', '"trunc.l"'])
    if k == 27:
        return '(in %s %s)' % (r.choice(['"data"', '"none"', "NIL", "77", "'x", '"trunc.l"', '"bad.l"']), r.choice(["(readline)", "(read)", "(read) (read) (readline)", e()]))
    if k == 28:
        return '(out %s %s)' % (r.choice(['"o"', '"no/ne"', "NIL", "77", "'x"]), e())
    if k == 29:
        return "(%s %s)" % (r.choice(["listen", "accept", "close", "wait", "unlink"]), r.choice(["NIL", "-1", "'x", "99", '"nofile"', "'(1 2)"]))
    if k == 30:
        return "(connect %s)" % r.choice(["NIL NIL", '"localhost" "9"', '"none" "x"', "1 2", '"localhost"'])
    if k == 31:
        return "(select %s %s NIL)" % (r.choice(["'(97 98)", "'x", "5"]), r.choice(["NIL", "(\\ (x) x)", "'x"]))
    if k == 32:
        return "(run %s)" % r.choice(['"/none" NIL NIL', '"/bin/ok" \'("a") NIL', '"/bin/ok" NIL \'(("a" . "b"))'])
    return "(let (((R . W) . (pipe))) (close R W) %s)" % e()


BAD = ["(", ")", "'", '"', '"a\\', "(a . ", "(a . b c)", "(. a)", "^", "a.b)", "((((", "))))", "'(", "(1 2 \"x", "#", "(a # c\n", "\x01", "\xff\xfe", "~", "(\0)", "-", "^\\",
       "(a . b . c)", "'.", ".", "(.)", "(a .)", "123abc(", "\x7f", "(prin 1", '("a" . "b', "`x", "(`", ",", "{", "^ab"]


class Language(Scenario):
    list_keys = ("forms",)

    def __init__(self, name, weight, bad):
        self.name = name
        self.weight = weight
        self.bad = bad

    def gen(self, r, tier):
        k, f = delivery(r)
        k["maxsteps"] = 60000
        forms = [expr(r, r.choice([1, 2, 3, 4, 5]), []) for _ in range(r.choice([1, 2, 3, 6]))]
        top = r.choice(["script", "expr", "repl", "repl", "load", "read"])
        if self.bad:
            for _ in range(r.choice([1, 1, 2, 3])):
                b = r.choice(BAD)
                if r.random() < 0.3:
                    b = "".join(r.choice("()'\"^.#ab1 \n\\-\x01\xc3") for _ in range(r.randrange(1, 12)))
                x = r.random()
                if x < 0.4:
                    forms.insert(r.randrange(len(forms) + 1), b)
                else:
                    i = r.randrange(len(forms))
                    c = r.randrange(len(forms[i]) + 1)
                    forms[i] = forms[i][:c] + (b if x < 0.7 else "") + forms[i][c + r.choice([0, 0, 1, 2]):]
        elif r.random() < 0.4:
            i = r.randrange(len(forms))
            forms = forms[:i] + [forms[i][:r.randrange(len(forms[i]) + 1)]]
        if r.random() < 0.35:
            for x in r.sample(["open", "dup", "read_eio", "write_err", "pipe", "fork", "exec", "socket", "connect", "stat", "getcwd", "select"], r.choice([1, 2, 4])):
                f[x] = {"p": r.choice([500, 3000, 10000]), "window": 1}
        return dict(forms=forms, knobs=k, faults=f, top=top, rs=r.randrange(1 << 30), nl=r.random() < 0.7)

    def job(self, case):
        r = random.Random(case["rs"])
        body = "\n".join(case["forms"]) + ("\n" if case["nl"] else "")
        # the wrapper keeps a NIL result from ending -e early
        files = {"/work/ok.l": "(def okf (x) x)\n(okf 1)\n", "/work/bad.l": "(def g (x) x)\n(1 . 2 3)\n)))\n(g 2)\n", "/work/trunc.l": "(def h (x) x)\n(h '(1 2 (3\n",
                 "/work/data": "line one\n(a b c)\n\"x\" y\nrest", "/bin/ok": {"kind": "prog", "mode": 0o755, "data": "W 1 6\nab\ncd\nX 2\n"}}
        j = dict(files=files, stdfd={0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"]}, actors=[])
        pre = LOADS7 + "\n" + mark("arm") + "\n"
        if case["top"] == "script":
            files["/work/p.l"] = pre + body
            j["argv"] = ["-d", "p.l"]
        elif case["top"] == "load":
            files["/work/q.l"] = body
            files["/work/p.l"] = pre + '(load "q.l")\n'
            j["argv"] = ["-d", "p.l"]
        elif case["top"] == "read":
            files["/work/q.l"] = body
            files["/work/p.l"] = pre + '(in "q.l" (while (read) 1) (read) (readline) (read))\n'
            j["argv"] = ["-d", "p.l"]
        elif case["top"] == "expr":
            j["argv"] = ["-d", "-e", (pre + body).replace("\0", "")]
        else:
            j["stdfd"][0] = ["pipein", "u"]
            j["actors"] = [{"name": "u", "ops": pieces(r, pre + body)}]
            j["argv"] = ["-d"]
        return j

    def check(self, case, res):
        for p in res["procs"]:
            # text that is cut up may be data that looks like a function; nothing is claimed about calling that
            if not self.bad and p["prog"].endswith("/mnml") and p["sig"] in (4, 6, 7, 8, 11):
                return ["crash: process %d was ended by signal %d" % (p["pid"], p["sig"])]
        return leaks(res)

    def tags(self, case, res):
        t = {"top:" + case["top"]}
        for f in res["faults"]:
            t.add("fault:" + f[0])
        return t


class Borrowed(Scenario):
    """The programs of the other checks, run with -d: what matters here is only that they release every cell."""
    name = "programs"
    weight = 4

    def __init__(self):
        self.inner = {}
        for n in ("p_c01", "p_c02", "p_c03", "p_c05", "p_c08", "p_c09", "p_c10", "p_c11", "p_c12", "p_c13", "p_c15", "p_c16", "p_c18", "p_c19", "p_c26", "p_c27", "p_c29"):
            for sc in importlib.import_module(n).SCENARIOS:
                self.inner[n[2:] + "." + sc.name] = sc

    def gen(self, r, tier):
        names = sorted(set(x.split(".")[0] for x in self.inner))
        m = r.choice(names)
        n = r.choice(sorted(x for x in self.inner if x.split(".")[0] == m))
        return dict(self.inner[n].gen(r, tier), program=n)

    def job(self, case):
        j = self.inner[case["program"]].job(case)
        if "-d" not in j["argv"]:
            j["argv"] = ["-d"] + j["argv"]
        return j

    def check(self, case, res):
        return leaks(res)

    def shrink(self, case):
        return self.inner[case["program"]].shrink(case)

    def tags(self, case, res):
        return ["program:" + case["program"]]


SCENARIOS = [FailingOps("ops-plain", 1, False, 2), FailingOps("ops-faulty", 3, True, 2), Language("language", 4, False), Language("malformed", 4, True), Borrowed()]
