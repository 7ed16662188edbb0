"""C27: a file holds exactly what was added to it until it is removed."""
import random

from common import *

LOADS = "(load '(io in out prin prinl print printl readline) '(std if prog let when list) '(logic =) '(unix fork wait unlink))\n"
NAMES = ["a", "b", "sub/c", "/work/a", "./b", "long" + "g" * 150, "n" * 255, "no/file", "e" * 256, "/" + "d/" * 2045 + "x", "p/" * 2050]
# The last ones are names no file can have.
VALID = 7


def full(n):
    return n if n[0] == "/" else "/work/" + n.replace("./", "")


class Files(Scenario):
    """One process works on a few files while opening, removing and writing them may fail."""
    name = "history"
    weight = 3
    list_keys = ("ops",)

    def gen(self, r, tier):
        k, f = delivery(r)
        f.pop("delay", None)
        f["short_write"] = {"p": r.choice([0, 2000, 8000]), "only": "/work/"}
        if r.random() < 0.5:
            for x in r.sample(["open", "unlink", "write_err"], r.choice([1, 2])):
                f[x] = {"p": r.choice([500, 2000, 5000]), "window": 1, "only": "/work/"}
        ops = []
        for i in range(r.choice([3, 6, 12, 20])):
            n = r.choice(NAMES[:r.choice([2, 4, 6, 7])] if r.random() < 0.9 else NAMES[VALID:])
            t = r.choice(["out", "out", "out", "unlink", "cat", "cat", "hold", "gone", "two", "nest", "dir"])
            ops.append({"t": t, "n": n, "m": r.choice(NAMES), "id": i, "len": r.choice([0, 1, 5, 30, 1023, 1024, 1025, 5000] if r.random() < 0.3 else [1, 5, 30]), "fn": r.choice(["prinl", "prin"])})
        pre = {full(n): "".join("old %d\n" % q for q in range(r.choice([0, 1, 3, 400]))) for n in r.sample(NAMES[:VALID], r.choice([0, 1, 2]))}
        return dict(ops=ops, pre=pre, knobs=k, faults=f, rs=r.randrange(1 << 30))

    def text(self, o, k=""):
        return "<%d%s>" % (o["id"], k) + "x" * o["len"]

    def job(self, case):
        prog = [mark("arm")]
        for o in case["ops"]:
            t, n = o["t"], o["n"]
            add = lambda k, name=n: '(out "%s" (%s "%s") %d)' % (name, o["fn"], self.text(o, k), o["id"])
            body = mark("body%d" % o["id"])
            e = {"out": add(""),
                 "unlink": '(unlink "%s")' % n,
                 # a directory is not a file
                 "dir": '(list (unlink "ed%d%s") (out "ed%d/x" (prin "y") %d))' % (o["id"], "/" if o["len"] == 5 else "", o["id"], o["id"]),
                 "cat": '(in "%s" %s (printl (readline) (readline)) %d)' % (n, body, o["id"]),
                 # a file that is open goes on being what it was when its name is removed
                 "hold": '(in "%s" %s (printl (readline)) (printl (unlink "%s")) (printl %s) (printl (readline)) %d)' % (n, body, n, add("h"), o["id"]),
                 "gone": '(out "%s" %s (prinl "%s") (out NIL (printl (unlink "%s"))) (prinl "%s") %d)' % (n, body, self.text(o, "g"), n, self.text(o, "G"), o["id"]),
                 "two": '(out "%s" %s (prinl "%s") (out "%s" (prinl "%s")) (prinl "%s") %d)' % (n, body, self.text(o, "1"), n, self.text(o, "2"), self.text(o, "3"), o["id"]),
                 "nest": '(out "%s" %s (prinl "%s") (out "%s" (prinl "%s")) (prinl "%s") %d)' % (n, body, self.text(o, "1"), o["m"], self.text(o, "2"), self.text(o, "3"), o["id"]),
                 }[t]
            prog.append("%s(printl (list '%d %s))" % (mark("op%d" % o["id"]), o["id"], e))
        files = {"/work/ed%d" % o["id"]: {"kind": "dir", "mode": 0o755} for o in case["ops"] if o["t"] == "dir"}
        files.update({"/work/sub/keep": "", "/work/p.l": LOADS + "\n".join(prog) + "\n(printl 'done)\n"})
        files.update(case["pre"])
        return dict(files=files, argv=["-d", "p.l"])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        if code(res) == 254:
            return ["leak: cells left"]
        out = sink(res, "out").split("\n")
        steps = [m["step"] for m in res["marks"] if m["name"].startswith("op")] + [1 << 60]
        fs = {k: {"d": x, "lost": False} for k, x in case["pre"].items()}
        pos = 0
        faults = [(f[1], f[0], f[4]) for f in res["faults"]]

        def nxt():
            nonlocal pos
            pos += 1
            return out[pos - 1] if pos <= len(out) else "(missing)"

        def line(d, i):
            ls = d.split("\n")
            if ls and ls[-1] == "":
                ls.pop()
            return L.literal(["str", ls[i]]) if i < len(ls) else "EOF"

        for i, o in enumerate(case["ops"]):
            here = [f for f in faults if steps[i] <= f[0] < steps[i + 1]]
            badw = [f for f in here if f[1] == "write_err"]
            badu = [f for f in here if f[1] == "unlink"]
            bado = [(f[0], f[2]) for f in here if f[1] == "open"]
            t, p, q = o["t"], full(o["n"]), full(o["m"])
            okv = "(%d %d)" % (o["id"], o["id"])
            nilv = "(%d NIL)" % o["id"]
            nl = "\n" if o["fn"] == "prinl" else ""
            name = "operation %d (%s %s)" % (o["id"], t, o["n"][:20])

            def want(w, what):
                g = nxt()
                if g != w:
                    return ["file: %s: %s: expected %r observed %r" % (name, what, w[:100], g[:100])]
                return None

            def add(path, s):
                x = fs.setdefault(path, {"d": "", "lost": False})
                x["d"] += s
                if badw:
                    x["lost"] = True
                return x

            inside = [m["step"] for m in res["marks"] if m["name"] == "body%d" % o["id"]]

            def opened(path, first=True):
                """Whether the next opening of path works: the first one does if it does not fail before the body begins."""
                if path in (full(x) for x in NAMES[VALID:]):
                    return False
                for x in bado:
                    if x[1] == path and (not first or not inside or x[0] < inside[0]):
                        bado.remove(x)
                        return False
                return True

            def unlinked(path):
                """What unlink answers now, and its effect."""
                if badu:
                    badu.pop()
                    return "NIL"
                return "T" if fs.pop(path, None) is not None else "NIL"

            e = None
            if t == "out":
                if opened(p):
                    add(p, self.text(o) + nl)
                    e = want(okv, "value")
                else:
                    e = want(nilv, "value of a failed out")
            elif t == "unlink":
                e = want("(%d %s)" % (o["id"], unlinked(p)), "value")
            elif t == "dir":
                p = "/work/ed%d/x" % o["id"]
                if opened(p):
                    add(p, "y")
                    e = want("(%d (NIL %d))" % (o["id"], o["id"]), "value")
                else:
                    e = want("(%d (NIL NIL))" % o["id"], "value of a failed out")
            elif t == "cat":
                if p not in fs or not opened(p):
                    e = want(nilv, "value for a file that cannot be opened")
                elif fs[p]["lost"]:
                    nxt()
                    e = want(okv, "value")
                else:
                    e = want(line(fs[p]["d"], 0) + " " + line(fs[p]["d"], 1), "contents") or want(okv, "value")
            elif t == "hold":
                if p not in fs or not opened(p):
                    e = want(nilv, "value for a file that cannot be opened")
                else:
                    old = dict(fs[p])
                    lost = old["lost"]
                    if lost:
                        nxt()
                    else:
                        e = want(line(old["d"], 0), "first line")
                    u = unlinked(p)
                    e = e or want(u, "unlink")
                    if opened(p, False):
                        add(p, self.text(o, "h") + nl)
                        e = e or want("%d" % o["id"], "out")
                        grown = u == "NIL"
                    else:
                        e = e or want("NIL", "out")
                        grown = False
                    if lost or grown:
                        # what is added to the file itself may or may not have been read already
                        nxt()
                    else:
                        e = e or want(line(old["d"], 1), "second line")
                    e = e or want(okv, "value")
            elif t == "gone":
                if opened(p):
                    x = add(p, self.text(o, "g") + "\n")
                    e = want(unlinked(p), "unlink")
                    x["d"] += self.text(o, "G") + "\n"
                    e = e or want(okv, "value")
                else:
                    e = want(nilv, "value of a failed out")
            else:
                q = p if t == "two" else q
                if opened(p):
                    add(p, self.text(o, "1") + "\n")
                    if opened(q, False):
                        add(q, self.text(o, "2") + "\n")
                    add(p, self.text(o, "3") + "\n")
                    e = want(okv, "value")
                else:
                    e = want(nilv, "value of a failed out")
            if e:
                return e
        if nxt() != "done":
            return ["file: the program did not reach its end: %r" % out[pos - 1][:100]]
        for p in sorted(set(fs) | {full(n) for n in NAMES}):
            if (p in fs) != (p in res["files"]):
                return ["file: %s %s at the end" % (p[:40], "is missing" if p in fs else "is still there")]
            if p in fs and not fs[p]["lost"] and fs[p]["d"] != res["files"][p]:
                return ["file: %s at the end: %s" % (p[:40], diff(fs[p]["d"], res["files"][p]))]
        return []

    def tags(self, case, res):
        t = {"op:" + o["t"] for o in case["ops"]}
        for f in res["faults"]:
            t.add("fault:" + f[0])
        return t


class Writers(Scenario):
    """Several processes add to the same files at the same time."""
    name = "writers"
    weight = 2
    list_keys = ("kids",)

    def gen(self, r, tier):
        k, f = delivery(r)
        k["sched"] = r.choice([1, 1, 2, 3])
        f["short_write"] = {"p": r.choice([0, 0, 3000]), "only": "/work/"}
        kids = [[{"n": r.choice(["a", "b"]), "k": r.choice([1, 1, 2, 4]), "len": r.choice([1, 5, 30, 1100]), "open": r.random() < 0.5} for _ in range(r.choice([1, 2, 4]))]
                for _ in range(r.choice([2, 2, 3, 5]))]
        return dict(kids=kids, knobs=k, faults=f, pre=r.choice(["", "", "old 1\nold 2\n"]))

    def line(self, i, j, q, o):
        return "%d.%d.%d.%s" % (i, j, q, chr(97 + i) * o["len"])

    def job(self, case):
        prog = LOADS
        ws = []
        for i, kid in enumerate(case["kids"]):
            body = ""
            for j, o in enumerate(kid):
                if o["open"]:
                    body += '(out "%s" %s)' % (o["n"], " ".join('(prinl "%s")' % self.line(i, j, q, o) for q in range(o["k"])))
                else:
                    body += " ".join('(out "%s" (prinl "%s"))' % (o["n"], self.line(i, j, q, o)) for q in range(o["k"]))
            ws.append(body)
        prog += "(def kid (N) (prog %s N))\n" % " ".join("(when (= N %d) %s)" % (i, b) for i, b in enumerate(ws))
        n = len(ws)
        # every process forks the next one and does its own part meanwhile
        prog += "(def go (N) (if (= N %d) T (let ((P . (fork))) (if (= P 0) (go (+ N 1)) (prog (kid N) (wait P) T)))))\n(go 0)\n" % n
        return dict(files={"/work/p.l": prog.replace("'(std if", "'(math +) '(std def if"), "/work/a": case["pre"], "/work/b": ""}, argv=["p.l"])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        shorts = bool(res["fired"].get("short_write"))
        for n in "ab":
            got = res["files"].get("/work/" + n, "")
            pre = case["pre"] if n == "a" else ""
            if not got.startswith(pre):
                return ["file: what was in %s before is altered: %s" % (n, diff(pre, got))]
            got = got[len(pre):]
            total = 0
            for i, kid in enumerate(case["kids"]):
                mine = [self.line(i, j, q, o) + "\n" for j, o in enumerate(kid) if o["n"] == n for q in range(o["k"])]
                total += sum(map(len, mine))
                if not shorts:
                    # a call's text is contiguous when the system takes it in one piece and it is no longer than a buffer
                    p = 0
                    for l in mine:
                        if len(l) < 1000:
                            x = got.find(l[:-1], p)
                            if x < 0:
                                return ["file: %r of process %d is missing in %s or out of order" % (l[:40], i, n)]
                            p = x + len(l) - 1
                if sum(l.count(chr(97 + i)) for l in mine) != got.count(chr(97 + i)):
                    return ["file: %s holds %d bytes of process %d instead of %d" % (n, got.count(chr(97 + i)), i, sum(l.count(chr(97 + i)) for l in mine))]
            if len(got) != total:
                return ["file: %s holds %d bytes instead of %d" % (n, len(got), total)]
        return []

    def tags(self, case, res):
        return ["processes:%d" % len(case["kids"])]


SCENARIOS = [Files(), Writers()]
