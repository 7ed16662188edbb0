"""C28: doing something again and again takes no more memory."""
import random
import re

from common import *
from p_c07 import LOADS7, expr

OPS = [
    '(in "data" (readline))', '(in "data" (read) (readline) (read))', '(in "none" (readline))', '(in 77 (readline))', "(in 'x 1)", '(in "trunc.l" (while (read) 1))', '(in "bad.l" (while (read) 1))',
    '(in "/work/data" (in "data" (readline)) (in "none" 1) (readline))', '(out "o" (prinl "abc" 1 \'x))', '(out "no/ne" (prinl 1))', '(out 77 (prinl 1))', '(out "o" (out NIL (prin "")))', "(out 'x 1)",
    '(load "ok.l")', '(load "none.l")', '(load "bad.l")', '(load "trunc.l")', "(load '(std car cdr))", "(load '(math nosym))", "(load '(nomod a))", "(load '(math nosym +))", '(load "@lib/rev.l")',
    '(load "ok.l" \'(nomod) "none" \'(math +))', "(load 5)", '(load "many.l")', '(unlink "o")', '(unlink "none")', "(let (((R . W) . (pipe))) (close R W))", "(close 77)", "(close (dup 1))", "(close (dup 1 50) 77)",
    '(let (((R . W) . (pipe))) (out W (prinl "x")) (let (((r e) . (select (list R) (\\ (f) (in f (readline)) NIL) NIL))) (close W)))',
    '(let (((R . W) . (pipe))) (out W (prinl "x")) (let (((r e) . (select (list R) (\\ (f) (in f (readline)) f) NIL))) (close R W)))',
    '(let (((R . W) . (pipe))) (out W (prinl "x")) (select (list R 77) (\\ (f) NIL) NIL) (close R W))',
    "(select '(77) (\\ (f) NIL) NIL)", '(connect "localhost" "9")', '(connect "nohost" "x")', "(connect 1 2)", "(close (listen 7000))", "(listen 'x)", "(accept 99)",
    '(let ((s . (listen 7000)) (c . (connect "localhost" "7000"))) (let (((a . b) . (accept s))) (close a c s)))',
    '(let ((P . (fork))) (if (= P 0) (exec "/bin/ok" NIL NIL) (wait P)))', '(wait 99)', '(let ((P . (fork))) (if (= P 0) (exec "/none" NIL NIL) (wait P)))', '(run "/bin/ok" \'("a") NIL)', '(run "/none" NIL NIL)',
    '(http/get "localhost" "9" "/" (\\ (c m h) 1))', "(time)", "(time (prin \"\"))", "(slabinfo)", "(len ARGV)", "(len ENV)", "(append '(1) '(2))", '(split "a,b" ^,)', "(rev '(1 2 3))", '(join "x" \'("a" "b"))',
]
SAFE = re.compile(r"\(quit|\(run |\(time|\(accept|\(wait|\(in NIL|\(readlines? ?|\(read\)|\(conc|setq|\(set |\(<-|\(def ")


class Turns(Scenario):
    """The cells in use after each turn of a loop."""
    name = "turns"
    weight = 3
    list_keys = ("ops",)

    def gen(self, r, tier):
        k, f = delivery(r)
        k["maxsteps"] = 60000
        ops = []
        for _ in range(r.choice([1, 2, 4, 8])):
            if r.random() < 0.75:
                ops.append(r.choice(OPS))
            else:
                e = expr(r, r.choice([1, 2, 3, 4]), [])
                if not SAFE.search(e):
                    ops.append(e)
        if r.random() < 0.5:
            for x in r.sample(["open", "dup", "read_eio", "write_err", "pipe", "fork", "exec", "socket", "connect", "bind", "listen", "accept", "setsockopt", "stat", "getcwd", "select", "unlink", "opendir"],
                              r.choice([1, 2, 4])):
                f[x] = {"p": r.choice([500, 3000, 10000]), "window": 1}
            if "write_err" in f:
                f["write_err"]["only"] = "/work/"
        return dict(ops=ops or ["1"], knobs=k, faults=f, turns=r.choice([4, 8, 30]), loop=r.choice(["if", "cond", "match", "unless", "when", "let", "while"]), top=r.choice(["script", "expr"]))

    def files(self):
        return {"/work/ok.l": "(def okf (x) x)\n(okf 1)\n", "/work/bad.l": "(def g (x) x)\n(1 . 2 3)\n)))\n(g 2)\n", "/work/trunc.l": "(def h (x) x)\n(h '(1 2 (3\n",
                "/work/many.l": "(def m1 (x) x)\n" * 5 + "(m1 '(1 2 3))\n" * 5 + '"' + "s" * 3000 + '"\n',
                "/work/data": "line one\n(a b c)\n\"x\" y\nrest", "/bin/ok": {"kind": "prog", "mode": 0o755, "data": "W 1 6\nab\ncd\nX 2\n"}}

    def job(self, case):
        files = self.files()
        pre = LOADS7 + "\n(load \"@lib/http.l\" \"@lib/manips.l\" \"@lib/split.l\" \"@lib/join.l\" '(sys slabinfo time) '(std \\ def) '(logic =))\n"
        show = '(out 3 (prinl (let (((a . f) . (slabinfo))) (- a f))))'
        pre += "(def turn () (prog %s 1))\n" % " ".join(case["ops"])
        n = case["turns"]
        # the first turns may define things
        again = "(prog (turn) %s (go (- n 1)))" % show
        go = {"if": "(if (= n 0) 'end %s)", "cond": "(cond n ((= 0) . 'end) (_ . %s))", "match": "(match n (0 . 'end) (_ . %s))", "unless": "(unless (= n 0) %s)", "when": "(when (> n 0) %s)"}
        if case["loop"] == "while":
            run = "(let ((k . (+ n 0))) (while (> k 0) (turn) %s (<- 'k (- k 1))))" % show
        elif case["loop"] == "let":
            run = "(let ((go . (\\ (n) %s))) (go n))" % (go["if"] % again)
        else:
            run = "(go n)"
        loop = "(def go (n) %s)\n" % (go[case["loop"]] % again) if case["loop"] in go else ""
        loop += "(def all (n) (prog %s %s %s 1))\n" % (show, run, show)
        loop += "(turn)\n(turn)\n(def every () (prog (all 2) %s (all %d) %s (all 2) 1))\n(every)\n" % (mark("arm"), n, mark("disarm"))
        j = dict(files=files, stdfd={0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"], 3: ["sink", "m"]})
        if case["top"] == "script":
            files["/work/p.l"] = pre + loop
            j["argv"] = ["p.l"]
        else:
            j["argv"] = ["-e", pre + loop]
        return j

    def check(self, case, res):
        # a turn may wait for something that a fault keeps from happening; that is not the matter here
        out = sink(res, "m").split("\n")[:-1]
        if res["end"] != "exit":
            return []
        n = case["turns"]
        if len(out) != n + 10:
            return [] if res["faults"] else ["turns: %d of %d turns reported" % (len(out), n + 10)]
        got = [int(x) for x in out]
        if got[:4] != got[-4:] or not res["faults"] and len(set(got[6:-5])) > 1:
            return ["memory: cells in use after each turn: %s" % (got[:15] + ["..."] + got[-15:] if len(got) > 30 else got)]
        return []

    def tags(self, case, res):
        return {"fault:" + f[0] for f in res["faults"]} | {"loop:" + case["loop"]}


class Heap(Scenario):
    """The memory the process has, after thousands of the same operation."""
    name = "heap"
    weight = 1
    list_keys = ("ops",)

    def gen(self, r, tier):
        ops = []
        while len(ops) < r.choice([1, 1, 1, 2]):
            o = r.choice(OPS)
            if not re.search(r"fork|run |many|http", o):
                ops.append(o)
        f = {}
        if r.random() < 0.5:
            for x in r.sample(["open", "dup", "read_eio", "write_err", "pipe", "socket", "connect", "bind", "listen", "accept", "setsockopt", "stat", "getcwd", "select", "unlink", "opendir"], r.choice([1, 3])):
                f[x] = {"p": r.choice([500, 3000, 10000]), "max": 100000, "window": 1}
            if "write_err" in f:
                f["write_err"]["only"] = "/work/"
        return dict(ops=ops, knobs=dict(maxsteps=400000), faults=f, turns=r.choice([3000, 5000]))

    def job(self, case):
        files = Turns().files()
        pre = LOADS7 + "\n(load \"@lib/http.l\" \"@lib/manips.l\" \"@lib/split.l\" \"@lib/join.l\" '(sys slabinfo time) '(std \\ def) '(logic =))\n"
        pre += "(def turn () (prog %s 1))\n" % " ".join(case["ops"])
        n = case["turns"]
        pre += "(turn)\n(turn)\n" + mark("arm")
        for x in ("a", "b"):
            # not by recursion: whether a call is the last is the business of C07
            pre += "\n(let ((n . %d)) (while (> n 0) (turn) (<- 'n (- n 1))))\n%s" % (n // 4 if x == "a" else n - n // 4, mark(x))
        files["/work/p.l"] = pre + "\n"
        return dict(files=files, argv=["p.l"], stdfd={0: ["null"], 1: ["null"], 2: ["null"]})

    def check(self, case, res):
        if res["end"] != "exit":
            return []
        m = {x["name"]: x["heap"] for x in marks(res)}
        if "b" not in m:
            return [] if res["faults"] else ["turns: the loop was not completed"]
        if m["b"] - m["a"] > 0:
            return ["memory: %d bytes after %d turns, %d after %d" % (m["a"], case["turns"] / 4, m["b"], case["turns"])]
        return []

    def tags(self, case, res):
        return {"heap:" + o[:30] for o in case["ops"]} | {"end:" + res["end"]}


SCENARIOS = [Turns(), Heap()]
