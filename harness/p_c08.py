"""C08: run returns exactly what the program wrote and how it ended."""
import random

from common import *
from p_c02 import gen_line

LOADS = ("(load '(io in out prin prinl print printl readline) '(std if prog let when list cons) '(unix wait unlink) \"@lib/run.l\")")


def gen_arg(r):
    k = r.randrange(6)
    if k == 0:
        return ""
    if k == 1:
        return "x" * r.choice([1, 119, 120, 255, 1000, 4095])
    t = "".join(r.choice(L.PRINT) for _ in range(r.choice([1, 3, 10, 30])))
    return t if L.str_ok(t) else "arg"


DAEMON = 10 ** 9   # ms


class Run(Scenario):
    list_keys = ("ops",)

    def __init__(self, name, weight, kind):
        self.name = name
        self.weight = weight
        self.kind = kind

    def gen(self, r, tier):
        k, f = delivery(r)
        k["maxsteps"] = 100000
        f.pop("short_read", None)
        if r.random() < 0.6:
            k["pipecap"] = r.choice([4096, 8192, 65536])
        if r.random() < 0.5:
            f["short_read"] = {"p": r.choice([1000, 6000]), "only": "pipe:"}
        if self.kind == "faulty":
            for x in r.sample(["fork", "pipe", "exec"], r.choice([1, 1, 2, 3])):
                f[x] = {"p": r.choice([2000, 6000, 10000]), "window": 1, "max": r.choice([1, 2, 100])}
        ops = []
        for i in range(r.choice([1, 2, 3, 5])):
            o = {"id": i, "args": [gen_arg(r) for _ in range(r.choice([0, 0, 1, 2, 5, 126 if r.random() < 0.1 else 3]))],
                 "env": [[r.choice(["K", "PATH", "HOME", "_x"]) + str(j), r.choice(["v", "a b", "", "x=y", "1"])] for j in range(r.choice([0, 0, 1, 126 if r.random() < 0.1 else 3]))],
                 "acts": [], "end": ["X", r.choice([0, 0, 1, 2, 3, 10, 77, 254, 255])],
                 "pre": r.choice(["", "", '(prin "p%d")' % i, '(prinl "q%d")' % i, '(print "r%d" 1)' % i]), "wrap": r.choice(["", "", "", "out", "in", "outfd"])}
            if r.random() < 0.15:
                o["end"] = ["K", r.choice([9, 15, 6, 11])]
            for _ in range(r.choice([0, 1, 2, 3, 6])):
                q = r.random()
                if q < 0.5:
                    lines = [gen_line(r) for _ in range(r.choice([1, 2, 5]))]
                    o["acts"].append(["W", "\n".join(lines) + r.choice(["\n", "\n", ""])])
                elif q < 0.6:
                    o["acts"].append(["W", "".join("%d\n" % x for x in range(r.choice([100, 600, 1500])))])
                elif q < 0.75:
                    o["acts"].append(["Z", r.choice([1, 50, 3000])])
                elif q < 0.85:
                    o["acts"].append(["A", 0])
                elif q < 0.95:
                    o["acts"].append(["A", 1])
                else:
                    o["acts"].append(["E", 0])
            if r.random() < 0.1:
                o["acts"] += [["C", 1], ["Z", 20]]
            if r.random() < 0.08:
                o["acts"].insert(r.randrange(len(o["acts"]) + 1), ["F", DAEMON])
            if r.random() < 0.2 and self.kind != "faulty":
                o["miss"] = r.choice(["none", "perm", "dir"])
            ops.append(o)
        c = dict(ops=ops, knobs=k, faults=f, top=r.choice(["script", "script", "expr"]), sig=[])
        if self.kind == "signals":
            c["top"] = "script"
            c["sig"] = [[r.choice([1, 100, 2000, 20000, 60000]), r.choice([15, 3])] for _ in range(r.choice([1, 2, 4]))]
        return c

    def script(self, o):
        s = ""
        for a in o["acts"]:
            if a[0] == "W":
                s += "W 1 %d\n%s" % (len(a[1]), a[1])
            else:
                s += "%s %d\n" % (a[0], a[1])
        return s + "%s %d\n" % tuple(o["end"])

    def job(self, case):
        files = {"/work/data": "first\nsecond\n"}
        prog = [LOADS, mark("arm")]
        for o in case["ops"]:
            i = o["id"]
            path = "/bin/p%d" % i
            if o.get("miss") != "none":
                files[path] = {"kind": "prog", "mode": 0o644 if o.get("miss") == "perm" else 0o755, "data": self.script(o)}
            if o.get("miss") == "dir":
                files[path] = {"kind": "dir", "mode": 0o755}
            args = "'(%s)" % " ".join(L.str_source(x) for x in o["args"]) if o["args"] else "NIL"
            env = "'(%s)" % " ".join("(%s . %s)" % (L.str_source(a), L.str_source(b)) for a, b in o["env"]) if o["env"] else "NIL"
            e = '(let ((V . (prog %s (run "%s" %s %s)))) %s %s (printl V))' % (mark("b%d" % i), path, args, env, mark("a%d" % i), o["pre"])
            if o["wrap"] == "out":
                e = '(out "o%d" %s)' % (i, e)
            elif o["wrap"] == "outfd":
                e = "(out 3 %s)" % e
            elif o["wrap"] == "in":
                e = '(in "data" (printl (readline)) %s (printl (readline)))' % e
            prog.append(o["pre"])
            prog.append(e)
            prog.append("(printl (wait -1))")
        prog += [mark("disarm"), '(prinl "end")', '"x"']
        j = dict(files=files, stdfd={0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"], 3: ["sink", "d3"]}, actors=[])
        if case["top"] == "script":
            files["/work/p.l"] = "\n".join(prog) + "\n"
            j["argv"] = ["p.l"]
        else:
            j["argv"] = ["-e", "(prog " + "\n".join(prog) + ")"]
        if case["sig"]:
            ops = [{"op": "mark", "a": [1], "data": "arm"}]
            for t, s in case["sig"]:
                ops += [{"op": "sleep", "a": [t]}, {"op": "sig", "a": [0, s]}]
            j["actors"] = [{"name": "s", "ops": ops}]
        return j

    def expected(self, o, envs):
        out = ""
        for a in o["acts"]:
            if a[0] == "W":
                out += a[1]
            elif a[0] == "C":
                break
            elif a[0] == "A" and a[1] == 0:
                out += "".join(x + "\n" for x in ["/bin/p%d" % o["id"]] + o["args"])
            elif a[0] == "A":
                out += "".join(x + "\n" for x in (["%s=%s" % (a, b) for a, b in o["env"]] if o["env"] else envs))
        lines = out.split("\n")
        if lines[-1] == "":
            lines.pop()
        return ["l", [["n", o["end"][1]] if o["end"][0] == "X" else ["nil"]] + [["str", x] for x in lines]]

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        top = res["procs"][0]["pid"]
        m = {x["name"]: x for x in res["marks"] if x["pid"] == top}
        if "arm" not in m:
            return []
        outs = {"out": "", "d3": ""}
        envs = ["HOME=/home/u", "MNML_SCRIPT_PATH=/usr/share/mnml", "PWD=/work"]
        pat = []   # (destination, text or callable)
        for o in case["ops"]:
            i = o["id"]
            b, a = m.get("b%d" % i), m.get("a%d" % i)
            if not b or not a:
                return ["stopped: the script did not get past run number %d" % i]
            if any(x[0] == "F" for x in o["acts"]) and a["t"] - b["t"] > DAEMON * 500:
                return ["late: run number %d waits for a process that the program left in the background" % i]
            if a["fds"] != b["fds"]:
                return ["descriptor: run number %d changed the open descriptors from %s to %s" % (i, b["fds"], a["fds"])]
            fl = [f for f in res["faults"] if b["step"] <= f[1] <= a["step"] and f[0] in ("fork", "pipe", "exec")]
            kinds = set(f[0] for f in fl)
            dst = {"": "out", "out": "/work/o%d" % i, "outfd": "d3", "in": "out"}[o["wrap"]]
            pre = self.pre(o)
            pat.append(("out", pre))
            if o["wrap"] == "in":
                pat.append((dst, L.literal(["str", "first"]) + "\n"))
            pat.append((dst, pre))
            if "pipe" in kinds:
                pat.append((dst, "NIL\n"))
            elif "fork" in kinds:
                pat.append((dst, None, i, "fork"))
            elif "exec" in kinds or o.get("miss"):
                en = [f[3] for f in fl if f[0] == "exec"]
                pat.append((dst, None, i, en[0] if en else {"none": 2, "perm": 13, "dir": 13}[o["miss"]]))
            else:
                pat.append((dst, L.literal(self.expected(o, envs)) + "\n", i))
            if o["wrap"] == "in":
                pat.append((dst, L.literal(["str", "second"]) + "\n"))
            pat.append(("out", "10\n"))
        pat.append(("out", "end\n"))
        pos = {}
        for p in pat:
            have = res["files"].get(p[0], "") if p[0].startswith("/") else sink(res, p[0])
            q = pos.get(p[0], 0)
            if p[1] is not None:
                if not have.startswith(p[1], q):
                    return ["result: " + ("run number %d " % p[2] if len(p) > 2 else "") + diff(have[:q] + p[1], have)]
                q += len(p[1])
            else:
                # a failed run: one line, NIL or a list; for a program that cannot be executed it starts with the error number
                nl = have.find("\n", q)
                line = have[q:nl] if nl >= 0 else have[q:]
                if nl < 0 or not (line == "NIL" or line.startswith("(")):
                    return ["result: run number %d failed and returned %r" % (p[2], line[:100])]
                if p[3] != "fork" and not (line == "(%d)" % p[3] or line.startswith("(%d " % p[3])):
                    return ["result: run number %d of a program that fails with error %d returned %r" % (p[2], p[3], line[:100])]
                q = nl + 1
            pos[p[0]] = q
        for d in list(pos) + ["out", "d3"]:
            have = res["files"].get(d, "") if d.startswith("/") else sink(res, d)
            if len(have) != pos.get(d, 0):
                return ["stray: unexpected output on %s: %r" % (d, have[pos.get(d, 0):][:100])]
        if sink(res, "err"):
            return ["stray: unexpected output on err: %r" % sink(res, "err")[:100]]
        return []

    def pre(self, o):
        i = o["id"]
        p = o["pre"]
        if not p:
            return ""
        return {"p": "p%d" % i, "q": "q%d\n" % i, "r": L.literal(["str", "r%d" % i]) + " 1"}[p.split('"')[1][0]]

    def tags(self, case, res):
        t = set()
        for o in case["ops"]:
            if o["end"][0] == "K":
                t.add("program ended by a signal")
            if sum(len(a[1]) for a in o["acts"] if a[0] == "W") > case["knobs"].get("pipecap", 65536):
                t.add("output larger than the pipe")
            if o.get("miss"):
                t.add("program missing or not executable")
        for f in res["faults"]:
            t.add("fault:" + f[0])
        if case["sig"]:
            t.add("signals to the caller")
        return t


SCENARIOS = [Run("plain", 3, "plain"), Run("faulty", 3, "faulty"), Run("signals", 1, "signals")]
