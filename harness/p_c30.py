"""C30: the transpiler driver leaves exactly the C module that was asked for, which builds and computes what the source does, or fails visibly."""
import hashlib
import os
import shutil
import subprocess
import tempfile

import simlib
from common import *

# the functions of a source that may be transpiled: calls and their values, functions they call
MANIPS = {"assoc": [["(assoc 'b '((a . 1) (b . 2)))", "2"], ["(assoc 'z '((a . 1) (b . 2)))", "NIL"], ["(assoc 1 NIL)", "NIL"]], "caar": [["(caar '((1 2) 3))", "1"], ["(caar '((a . b)))", "a"]],
          "cddr": [["(cddr '(1 2 3))", "(3)"], ["(cddr '(1))", "NIL"]], "cadar": [["(cadar '((1 2) 3))", "2"]], "caddr": [["(caddr '(1 2 3 4))", "3"]], "cadddr": [["(cadddr '(1 2 3 4 5))", "4"]],
          "cadr": [["(cadr '(1 2 3))", "2"], ["(cadr '(1))", "NIL"]], "cdar": [["(cdar '((1 2) 3))", "(2)"]], "last": [["(last '(1 2 3))", "3"], ["(last '(1))", "1"]],
          "rep": [["(rep 3 'x)", "(x x x)"], ["(rep 0 'x)", "NIL"]], "truncl": [["(truncl 2 '(1 2 3))", "(1 2)"], ["(truncl 0 '(1))", "NIL"]]}
ITER = {"foldl": [["(foldl (\\ (a x) (cons x a)) NIL '(1 2 3))", "(3 2 1)"], ["(foldl (\\ (a x) (cons x a)) 5 NIL)", "5"]], "foldr": [["(foldr (\\ (x a) (cons x a)) '(1 2 3) NIL)", "(1 2 3)"]],
        "map": [["(map (\\ (x) (list x)) '(1 2))", "((1) (2))"], ["(map (\\ (x) x) NIL)", "NIL"]], "map2": [["(map2 cons '(1 2) '(3 4))", "((1 . 3) (2 . 4))"], ["(map2 cons '(1 2) '(3))", "((1 . 3))"]],
        "zip": [["(zip '(1 2) '(a b))", "((1 . a) (2 . b))"]]}
OWN = {"hd": ["(l)", "(car l)", [["(hd '(7 8))", "7"]]], "turn": ["(p)", "(cons (cdr p) (car p))", [["(turn '(1 . 2))", "(2 . 1)"], ["(turn '(1 2))", "((2) . 1)"]]],
       "cnt": ["(l)", "(if (nil? l) 0 (+ 1 (cnt (cdr l))))", [["(cnt '(a b c))", "3"], ["(cnt NIL)", "0"]]],
       "evens": ["(l)", "(if (not (nil? l)) (cons (car l) (evens (cddr l))))", [["(evens '(1 2 3 4 5))", "(1 3 5)"]]],
       "ontop": ["(p q)", "(cons (cdr p) q)", [["(ontop '(1 2) '(3))", "((2) 3)"]]], "under": ["(p q)", "(cons p (cdr q))", [["(under '(1) '(2 3))", "((1) 3)"]]],
       "both": ["(l)", "(if (and (lst? l) (not (nil? l))) (car l) l)", [["(both '(7))", "7"], ["(both 'a)", "a"], ["(both NIL)", "NIL"]]],
       "has2": ["(e l)", "(if (not (nil? l)) (if (= (car l) e) l (has2 e (cdr l))))", [["(has2 'b '(a b c))", "(b c)"], ["(has2 'z '(a b))", "NIL"], ["(has2 '(1) '((2) (1)))", "((1))"]]],
       "skip": ["(e l)", "(when (not (nil? l)) (if (<> (car l) e) (cons (car l) (skip e (cdr l))) (skip e (cdr l))))", [["(skip 'b '(a b c b))", "(a c)"]]],
       "tot": ["(n)", "(if (< n 1) 0 (+ n (tot (- n 1))))", [["(tot 4)", "10"], ["(tot 0)", "0"]]], "fact": ["(n)", "(if (<= n 1) 1 (* n (fact (- n 1))))", [["(fact 5)", "120"]]],
       "halve": ["(n)", "(if (>= n 10) (halve (/ n 2)) n)", [["(halve 100)", "6"]]], "no": ["(l)", "(unless (nil? l) (cdr l))", [["(no '(1 2))", "(2)"], ["(no NIL)", "NIL"]]],
       "joined": ["(a b)", "(conc a (cdr b))", [["(joined '(1) '(2 3))", "(1 3)"]]], "upto": ["(n l)", "(if (or (< n 1) (nil? l)) NIL (cons (car l) (upto (- n 1) (cdr l))))", [["(upto 2 '(a b c))", "(a b)"]]],
       "app": ["(a b)", "(if (nil? a) b (cons (car a) (app (cdr a) b)))", [["(app '(1 2) '(3))", "(1 2 3)"], ["(app NIL '(3))", "(3)"]]],
       "same": ["(x)", "x", [["(same '(1 2))", "(1 2)"], ["(same 5)", "5"]]],
       "pick": ["(n a b)", "(if (> n 0) a b)", [["(pick 1 '(a) 2)", "(a)"], ["(pick 0 1 2)", "2"]]],
       "drop": ["(a b c)", "(car (cdr b))", [["(drop 1 (list 2 3) 4)", "3"]]], "seven": ["(a b c d)", "7", [["(seven 1 NIL 2 3)", "7"]]],
       "alike": ["(a b l)", "(if (= a b) l (cdr l))", [["(alike 1 1 (list 2 3))", "(2 3)"], ["(alike (list 1) (list 1) (list 2 3))", "(2 3)"], ["(alike 1 2 (list 2 3))", "(3)"]]],
       "each": ["(f l)", "(if (not (nil? l)) (cons (f (car l) (cdr l)) (each f (cdr l))))", [["(each (\\ (a b) (cons b a)) '(1 2))", "(((2) . 1) (NIL . 2))"]]],
       "zero": ["(n)", "(if (= n 0) 5 7)", [["(zero 0)", "5"], ["(zero 3)", "7"]]], "next": ["(n m)", "(if (= n (+ m 1)) 5 7)", [["(next 1 0)", "5"], ["(next 1 1)", "7"]]],
       "one": ["(l)", "(if (= (car l) 1) 1 2)", [["(one '(1))", "1"], ["(one '(3))", "2"], ["(one '(a))", "2"]]], "wrap": ["(l)", "(cons l NIL)", [["(wrap '(1))", "((1))"], ["(wrap NIL)", "(NIL)"]]],
       "none": ["(l)", "(if (= l NIL) NIL (cons (car l) (none (cdr l))))", [["(none '(1 2))", "(1 2)"]]], "size": ["(l)", "(+ 1 (len l))", [["(size '(1 2))", "3"], ["(size NIL)", "1"]]],
       "pair": ["(l)", "(car (list l l))", [["(pair '(1 2))", "(1 2)"]]], "ff": ["(f l)", "(f 3 (f l l))", [["(ff cons '(1))", "(3 (1) 1)"]]],
       "grow": ["(x n)", "(if (= n 0) x (grow (swp x x) (- n 1)))", [["(grow 'a 2)", "((a . a) a . a)"]]], "swp": ["(u v)", "(cons v u)", [["(swp 1 2)", "(2 . 1)"]]],
       "mark": ["(l e)", "(if (nil? l) e (mark (cdr l) 1))", [["(mark '(a) 'b)", "1"], ["(mark NIL 'b)", "b"]]],
       "nth": ["(n l)", "(if (> n 0) (nth (- n 1) (cdr l)) (car l))", [["(nth 2 '(a b c d))", "c"]]]}
BAD = "(def bad (x)\n  \"A function whose argument is both a list and a number.\"\n  (cons (car x) (+ x 1)))\n"
OLD = {"new": None, "old": "int old;\n", "longer": "int old;\n" * 4000, "same": "/* an old module */\n#include <mnml/closure.h>\n"}
SOURCES = {"/usr/share/mnml/manips.l": MANIPS, "/usr/share/mnml/iterators.l": ITER, "/work/own.l": {k: v[2] for k, v in OWN.items()}}
OWNSRC = ("(load \"@lib/manips.l\" '(std \\ def if cons car cdr nil? lst? conc when unless len list) '(math + - * / > < <= >=) '(logic and = <> not or))\n" + "".join('(def %s %s\n  "The function %s."\n  %s)\n' % (k, v[0], k, v[1]) for k, v in OWN.items()) + BAD)
USE = ("(load '(io printl) '(std \\ def if cons car cdr nil? lst? conc list len unless when) '(math + - * / > < <= >=) '(logic and = <> not or))\n(load \"@lib/manips.l\" \"@lib/iterators.l\" \"/work/own.l\" '(std eval prog let) '(sys slabinfo))\n"
       "(def used () \"Cells in use.\" (let (((a . f) . (slabinfo))) (- a f)))\n")

# What the module allocates is surrounded by bytes that it must not touch.
GUARD = r"""
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
void *__real_malloc(size_t n);
void __real_free(void *p);
static long live;
void *__wrap_malloc(size_t n)
{
  live++;
  char *p = __real_malloc(n + 576);
  *(size_t *)p = n;
  memset(p + 8, 0xa5, 56);
  memset(p + 64, 0x5a, n);
  memset(p + 64 + n, 0xa5, 512);
  return p + 64;
}
__attribute__((destructor)) static void none_left(void)
{
  if (live)
    abort();
}
void __wrap_free(void *q)
{
  if (!q)
    return;
  live--;
  unsigned char *p = (unsigned char *)q - 64;
  size_t n = *(size_t *)p;
  for (int i = 8; i < 64; i++)
    if (p[i] != 0xa5)
      abort();
  for (int i = 0; i < 512; i++)
    if (p[64 + n + i] != 0xa5)
      abort();
  memset(q, 0x3c, n);
  __real_free(p);
}
"""

# calls of several compiled functions at once: the functions, a call and its value
NESTED = [["foldr map2", "(foldr (\\ (x a) (cons (map2 cons x x) a)) '((1 2) (3 4) (5 6)) NIL)", "(((1 . 1) (2 . 2)) ((3 . 3) (4 . 4)) ((5 . 5) (6 . 6)))"],
          ["foldr map", "(foldr (\\ (x a) (cons (map (\\ (e) (list e)) x) a)) '((1 2) (3)) NIL)", "(((1) (2)) ((3)))"], ["map map2", "(map (\\ (l) (map2 cons l l)) '((1 2) (3)))", "(((1 . 1) (2 . 2)) ((3 . 3)))"],
          ["map foldl", "(map (\\ (l) (foldl (\\ (a x) (cons x a)) NIL l)) '((1 2) (3 4)))", "((2 1) (4 3))"], ["map2 foldr", "(map2 (\\ (x y) (foldr cons x y)) '((1 2) (3)) '(8 9))", "((1 2 . 8) (3 . 9))"],
          ["map zip", "(map (\\ (l) (zip l l)) '((1 2) (3)))", "(((1 . 1) (2 . 2)) ((3 . 3)))"], ["foldr zip", "(foldr (\\ (x a) (cons (zip x '(a b)) a)) '((1 2) (3)) NIL)", "(((1 . a) (2 . b)) ((3 . a)))"],
          ["map", "(map (\\ (l) (map (\\ (e) (cons e e)) l)) '((1 2) (3)))", "(((1 . 1) (2 . 2)) ((3 . 3)))"], ["foldr", "(foldr (\\ (x a) (cons (foldr cons x NIL) a)) '((1 2) (3)) NIL)", "((1 2) (3))"],
          ["rep last", "(rep 2 (last '(1 2)))", "(2 2)"], ["truncl rep", "(truncl 2 (rep 4 'x))", "(x x)"], ["cnt evens", "(cnt (evens '(1 2 3 4 5)))", "3"]]

_built = {}
_sim = []


def build_and_use(text, src, mod, syms, gen=None):
    """Compile the C module, load it and call its functions; returns None or what is wrong."""
    key = hashlib.sha256(("%s %s %s\n%s" % (src, mod, [syms, gen], text)).encode("latin-1")).hexdigest()
    if key not in _built:
        d = tempfile.mkdtemp(prefix="c30-", dir=simlib.BUILD)
        try:
            _built[key] = _build_and_use(d, text, src, mod, syms, gen)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return _built[key]


def _build_and_use(d, text, src, mod, syms, gen):
    if not _sim:
        simd, stub = simlib.build_sim()
        _sim.append(simlib.Sim(simd, stub, simlib.build_mnml()))
    bdir = _sim[0].bdir
    c, so = os.path.join(d, "m.c"), os.path.join(d, "lib%s.so" % mod)
    with open(c, "w", encoding="latin-1") as f:
        f.write(text)
    with open(os.path.join(d, "guard.c"), "w") as f:
        f.write(GUARD)
    r = subprocess.run(["gcc", "-D_GNU_SOURCE", "-DLISP_ENABLE_DEBUG", "-DLISP_ENABLE_SSE", "-I" + simlib.REPO + "/include", "-I" + bdir + "/include", "-msse4.2", "-w", "-O0", "-std=gnu99", "-fPIC", "-shared", "-Wl,-Bsymbolic", "-Wl,--wrap=malloc", "-Wl,--wrap=free", "-o", so, c, os.path.join(d, "guard.c"),
                        os.path.join(bdir, "lib", "libminimal.a")], capture_output=True, text=True, env={"PATH": simlib.CLEAN_PATH})
    if r.returncode:
        return "the C compiler rejects it: " + r.stderr[:300]
    calls = gen or [x for s in syms for x in SOURCES[src][s]] + [x[1:] for x in NESTED if set(x[0].split()) <= set(syms)]
    use = USE + (HELP + LATE if gen else "") + "(printl (load '%s))\n" % mod + "".join("(printl %s)\n(printl (used))\n" % x[0] for x in calls for _ in range(3))
    job = dict(seed=1, files={"/work/u.l": use, "/work/own.l": OWNSRC, "/home/u/.mnml/lib%s.so" % mod: {"kind": "host", "mode": 0o755, "host": so}}, argv=["-d", "u.l"],
               stdfd={0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"]})
    res = _sim[0].run(job)
    v = ended(res)
    if v:
        return v[0]
    want = "".join(x[1] + "\n" for x in calls for _ in range(3))
    lines = sink(res, "out").splitlines(True)
    if sorted(lines.pop(0).strip("()\n").split()) != sorted(syms):
        return "the module provides %s for %s" % (sink(res, "out").split("\n")[0], syms)
    out = "".join(lines[::2])
    if out != want:
        return diff(want, out)
    for i, x in enumerate(calls):
        if lines[6 * i + 3] != lines[6 * i + 5]:
            return "each %s keeps cells: %s" % (x[0], lines[6 * i + 1:6 * i + 6:2])
    return None


class Transpile(Scenario):
    list_keys = ("syms",)

    def __init__(self, name, weight, faulty):
        self.name = name
        self.weight = weight
        self.faulty = faulty

    def gen(self, r, tier):
        k, f = delivery(r)
        src = r.choice(sorted(SOURCES))
        names = list(SOURCES[src])
        n = r.choice([1, 2, 3, len(names), len(names)])
        # few distinct selections, so that a module is built once and requested under many schedules
        q = random.Random(r.randrange(12))
        syms = q.sample(names, min(n, len(names)))
        opts = ["-c", "-m", "-s", "-o"]
        r.shuffle(opts)
        target = r.choice(["new", "new", "old", "longer", "same"])
        what = "ok"
        if self.faulty:
            what = r.choice(["nosrc", "nodir", "isdir", "drop", "value", "unknown", "help", "help", "usage", "bad", "write", "write", "open", "unlink"])
            if what == "write":
                f["write_err"] = {"p": r.choice([200, 2000, 10000]), "max": r.choice([1, 3, 100000]), "only": "/work/out"}
            if what == "open":
                f["open"] = {"p": 10000, "max": 100, "only": "/work/out"}
            if what == "unlink":
                f["unlink"] = {"p": 10000, "max": 100, "only": "/work/out"}
                target = r.choice(["old", "longer"])
        elif r.random() < 0.6:
            f["short_write"] = {"p": r.choice([1000, 5000])}
        if what == "bad":
            src = "/work/own.l"
            syms = [s for s in syms if s in OWN] or ["hd"]
        return dict(at=r.randrange(5), bad=r.randrange(len(syms) + 1), src=src, syms=syms, mod=q.choice(["mymod", "m", "zz_9"]), opts=opts, target=target, what=what, drop=r.choice(opts), knobs=k, faults=f, debug=r.random() < 0.5, rel=r.random() < 0.3)

    def job(self, case):
        dst = "/work/out/m.c"
        files = {"/work/out": {"kind": "dir", "mode": 0o755}, "/work/own.l": OWNSRC, "/work/mnmlc": open(os.path.join(simlib.REPO, "bin", "mnmlc"), "rb").read()}
        what = case["what"]
        if what == "nodir":
            dst = "/work/out/none/m.c"
        elif what == "isdir":
            files[dst] = {"kind": "dir", "mode": 0o755}
        elif case["target"] != "new":
            files[dst] = OLD[case["target"]]
        val = {"-c": "/work/none.l" if what == "nosrc" else case["src"], "-m": case["mod"], "-s": ",".join(case["syms"][:case["bad"]] + ["bad"] + case["syms"][case["bad"]:] if what == "bad" else case["syms"]), "-o": dst}
        if case["rel"] and val["-c"].startswith("/work/"):
            val["-c"] = val["-c"][6:]
        argv = (["-d"] if case["debug"] else []) + ["/work/mnmlc"]
        for o in case["opts"]:
            if what == "drop" and o == case["drop"]:
                continue
            argv += [o, val[o]]
        if what == "value":
            argv = argv[:-1]
        if what == "unknown":
            argv += ["-x"]
        if what == "help":
            argv.insert(len(argv) - 2 * case["at"], "-h")
        if what == "usage":
            argv = ["/work/mnmlc", "-h"]
        return dict(files=files, argv=argv)

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        out = sink(res, "out")
        what = case["what"]
        text = res["files"].get("/work/out/m.c")
        old = OLD[case["target"]]
        if what in ("help", "usage") and not out.startswith("Usage: mnmlc "):
            return ["usage: %r for -h" % out[:200]]
        if what == "usage":
            return [] if text == old else ["target: changed by -h"]
        if what in ("nosrc", "drop", "value", "unknown"):
            if code(res) == 0:
                return ["status: success although nothing could be transpiled (%s)" % what]
            if "Usage: mnmlc " not in out:
                return ["usage: %r for %s" % (out[:200], what)]
            if text != old:
                return ["target: changed although nothing was transpiled (%s)" % what]
            return []
        if what in ("nodir", "isdir") or what == "open" and code(res) != 0:
            return [] if code(res) != 0 else ["status: success although the target cannot be created (%s)" % what]
        if what in ("write", "unlink"):
            return []   # what is lost on the way to the target is not reported by the language
        if what == "bad":
            if code(res) == 0:
                return ["status: success although a function cannot be transpiled"]
        elif code(res) != 0:
            return ["status: %s for a valid request" % code(res)]
        if text is None:
            return ["target: success without a module"]
        if "int old;" in text or "an old module" in text:
            return ["target: something of its previous content is left"]
        w = build_and_use(text, case["src"], case["mod"], case["syms"], case.get("calls"))
        if w:
            return ["module: %s" % w]
        return []

    def tags(self, case, res):
        return {"what:" + case["what"], "target:" + case["target"], "src:" + case["src"].split("/")[-1], "status:%s" % code(res)} | {"fault:" + f[0] for f in res["faults"]}


# ---------------------------------------------------------------- generated functions
def show(v):
    if v == ():
        return "NIL"
    if not isinstance(v, tuple):
        return str(v)
    out = []
    while isinstance(v, tuple) and v:
        out.append(show(v[0]))
        v = v[1]
    return "(" + " ".join(out) + ("" if v == () else " . " + show(v)) + ")"


def lst(*xs):
    v = ()
    for x in reversed(xs):
        v = (x, v)
    return v


FUNS = {"cons": (2, lambda a, b: (a, b)), "(\\ (u v) (cons v u))": (2, lambda a, b: (b, a)), "(\\ (u v) v)": (2, lambda a, b: b), "(\\ (u) (list u u))": (1, lambda a: lst(a, a)), "(\\ (u) (cdr u))": (1, lambda a: a[1] if isinstance(a, tuple) and a else ()),
        "(\\ (u) u)": (1, lambda a: a)}


# functions that a generated one may call by name: kinds of the arguments and of the value
CALLS = {"swp": ("AA", "A", lambda a, b: (b, a)), "twice": ("A", "A", lambda a: lst(a, a)), "list": ("AA", "A", lambda a, b: lst(a, b)), "inc": ("N", "N", lambda n: n + 1), "plus": ("NN", "N", lambda n, m: n + m),
         "len": ("A", "N", lambda a: length(a)), "late": ("AA", "A", lambda a, b: (a, b))}
HELP = "(def swp (u v)\n  \"Swap.\"\n  (cons v u))\n(def twice (u)\n  \"Twice.\"\n  (list u u))\n(def inc (n)\n  \"Next.\"\n  (+ n 1))\n(def plus (n m)\n  \"Add.\"\n  (+ n m))\n"
LATE = "(load '(std len))\n(def late (u v)\n  \"Not known to the transpiler.\"\n  (cons u v))\n"


def length(v):
    n = 0
    while isinstance(v, tuple) and v:
        n += 1
        v = v[1]
    return n


class TooBig(Exception):
    pass


def value(e, env, fn):
    """What an expression of the generated kind is: int, symbol name, () or a pair."""
    if not isinstance(e, list):
        return () if e == "NIL" else env[e] if e in env else e
    op = e[0]
    if op in ("if", "when", "unless"):
        c = value(e[1], env, fn)
        if op == "unless":
            c = not c
        return value(e[2], env, fn) if c else (value(e[3], env, fn) if len(e) > 3 else ())
    a = [value(x, env, fn) for x in e[1:]]
    if op == "fn":
        return value(fn[1], dict(zip(fn[0], a)), fn)
    if op in env:
        return FUNS[env[op]][1](*a)
    if op in CALLS:
        return CALLS[op][2](*a)
    if op in ("car", "cdr"):
        return (a[0][op == "cdr"] if isinstance(a[0], tuple) and a[0] else ())
    r = {"cons": lambda: (a[0], a[1]), "+": lambda: a[0] + a[1], "-": lambda: a[0] - a[1], "*": lambda: a[0] * a[1], "/": lambda: abs(a[0]) // a[1] * (1 if a[0] > 0 else -1), "<": lambda: a[0] < a[1], ">": lambda: a[0] > a[1], "<=": lambda: a[0] <= a[1], ">=": lambda: a[0] >= a[1],
         "=": lambda: a[0] == a[1], "<>": lambda: a[0] != a[1], "not": lambda: not a[0], "and": lambda: a[0] and a[1], "or": lambda: a[0] or a[1], "nil?": lambda: a[0] == (), "lst?": lambda: isinstance(a[0], tuple)}[op]()
    if isinstance(r, int) and abs(r) > 1 << 40:
        raise TooBig()
    return r


def lisp(e):
    return "(" + " ".join(lisp(x) for x in e) + ")" if isinstance(e, list) else str(e)


class Maker:
    def __init__(self, r, types):
        self.r = r
        self.t = types

    def leaf(self, t):
        r = self.r
        own = [a for a in self.t if self.t[a] == t]
        if t == "N":
            return r.choice(own) if own and r.random() < 0.8 else r.choice([0, 1, 2, 7, -3])
        if r.random() < 0.1:
            return "NIL"
        return r.choice(own) if r.random() < 0.7 else ["cdr", r.choice(own)]

    def expr(self, t, d, tail=False):
        r = self.r
        if d <= 0 and t != "B" or r.random() < 0.12 and t != "B":
            return self.leaf(t)
        if tail and r.random() < 0.6:
            if t == "A" and r.random() < 0.3:
                return [r.choice(["when", "unless", "if"]), self.expr("B", d - 1), self.expr(t, d - 1, True)]
            return ["if", self.expr("B", d - 1), self.expr(t, d - 1, True), self.expr(t, d - 1, True)]
        if t == "N":
            if r.random() < 0.15:
                return ["/", self.expr("N", d - 1), r.choice([1, 2, 3])]
            if r.random() < 0.2:
                return self.named("N", d)
            return [r.choice(["+", "-", "*"]), self.expr("N", d - 1), self.expr("N", d - 1)]
        if t == "B":
            k = r.choice(["cmp", "eq", "not", "and", "pred", "pred"]) if d > 0 else r.choice(["cmp", "eq", "pred"])
            if k == "cmp":
                return [r.choice(["<", ">", "<=", ">="]), self.expr("N", d - 1), self.expr("N", d - 1)]
            if k == "eq":
                k = r.choice(["AA", "NN", "AN", "NA"])
                v = [self.expr(x, d - 1) for x in k]
                # a list compared with a number: not two names, which are taken to be of one kind
                if k[0] != k[1] and not isinstance(v[k.index("N")], int):
                    v[k.index("A")] = [r.choice(["car", "cdr"]), v[k.index("A")]]
                return [r.choice(["=", "<>"])] + v
            if k == "not":
                return ["not", self.expr("B", d - 1)]
            if k == "and":
                return [r.choice(["and", "or"]), self.expr("B", d - 1), self.expr("B", d - 1)]
            return [r.choice(["nil?", "lst?"]), self.expr("A", d - 1)]
        fs = [a for a in self.t if self.t[a][0] == "F"]
        if fs and r.random() < 0.35:
            f = r.choice(fs)
            return self.call(f, d)
        if r.random() < 0.2:
            return self.named("A", d)
        k = r.choice(["car", "cdr", "cons", "cons"])
        return [k] + [self.expr("A", d - 1) for _ in range(2 if k == "cons" else 1)]

    def call(self, f, d):
        """A call of an argument."""
        return [f] + [self.expr(self.r.choice("AAAN"), d - 1) for _ in range(int(self.t[f][1]))]

    def named(self, t, d):
        """A call of a function that is known by name."""
        f = self.r.choice(sorted(c for c in CALLS if CALLS[c][1] == t))
        return [f] + [self.expr(a, d - 1) for a in CALLS[f][0]]

    def again(self, rec):
        """Arguments of a call of itself; rec is the argument that gets smaller."""
        return ["fn"] + [(["cdr", a] if t == "A" else ["-", a, 1]) if a == rec else a if t[0] == "F" else self.expr(t, self.r.choice([0, 0, 1])) for a, t in self.t.items()]

    def step(self, t, rec, d):
        r = self.r
        k = r.choice(["tail", "cons", "cons", "branch"] if d > 0 else ["tail", "cons"])
        if k == "branch":
            return ["if", self.expr("B", 1), self.step(t, rec, d - 1), self.step(t, rec, d - 1)]
        if k == "tail":
            return self.again(rec)
        if t == "N":
            return [r.choice(["+", "-", "*"]), self.expr("N", 1), self.again(rec)]
        fs = [a for a in self.t if self.t[a] == "F2"]
        return [r.choice(fs + ["cons"]), self.expr("A", 1), self.again(rec)]

    def body(self, t):
        r = self.r
        recs = [a for a in self.t if self.t[a] in "AN"]
        if r.random() < 0.4:
            return self.expr(t, r.choice([1, 2, 3]), True)
        rec = r.choice(recs)
        end = [r.choice(["nil?"]), rec] if self.t[rec] == "A" else r.choice([["<", rec, 1], ["<=", rec, 0]])
        base, step = self.expr(t, 1, True), self.step(t, rec, 1)
        if r.random() < 0.5:
            return ["if", end, base, step]
        if t == "A" and r.random() < 0.4:
            return r.choice([["unless", end, step], ["when", ["not", end], step], ["if", ["not", end], step]])
        return ["if", ["not", end], step, base]


def lists(r, d=2):
    return lst(*[r.choice([1, 2, 5, "a", "b"]) if d == 0 or r.random() < 0.6 else lists(r, d - 1) for _ in range(r.choice([0, 1, 2, 3]))])


class Generated(Transpile):
    list_keys = ("calls",)

    def gen(self, r, tier):
        while True:
            case = super().gen(r, tier)
            names = r.sample(["x", "y", "z", "w"], r.choice([1, 2, 2, 3, 4]))
            types = {n: r.choice(["A", "A", "N", "F1", "F2"]) for n in names}
            if "A" not in types.values():
                types[names[0]] = "A"
            mk = Maker(r, types)
            body = mk.body(r.choice(["A", "A", "N"]))
            calls = []
            for _ in range(12):
                v = {n: r.choice([0, 1, 2, 3, 5, -2]) if t == "N" else lists(r) if t == "A" else r.choice([f for f in sorted(FUNS) if FUNS[f][0] == int(t[1])]) for n, t in types.items()}
                try:
                    want = show(value(body, v, (names, body)))
                except (TooBig, RecursionError):
                    continue
                calls.append(["(fn %s)" % " ".join(str(v[n]) if types[n] == "N" else v[n] if types[n][0] == "F" else ("NIL" if v[n] == () else "'" + show(v[n])) for n in names), want])
                if len(calls) == 4:
                    break
            if len(calls) == 4:
                break
        syms = ["fn"] + [h for h in ("swp", "twice", "inc", "plus") if r.random() < 0.2]
        r.shuffle(syms)
        case.update(src="/work/gen.l", syms=syms, mod="gen", text="(def fn (%s)\n  \"A function.\"\n  %s)\n" % (" ".join(names), lisp(body)), calls=calls, what="ok")
        return case

    def job(self, case):
        j = super().job(case)
        j["files"]["/work/gen.l"] = OWNSRC.split("\n")[0] + "\n(load '(std len list))\n" + HELP + case["text"]
        return j

    def check(self, case, res):
        if code(res) == 255 and not ended(res):
            return []   # refused, and visibly so
        return super().check(case, res)

    def tags(self, case, res):
        return super().tags(case, res) | {"generated:" + ("refused" if code(res) else "transpiled")}


SCENARIOS = [Transpile("module", 2, False), Transpile("failing", 1, True), Generated("generated", 3, False)]
