"""C14: a termination signal stops between expressions and loses nothing."""
import random

from common import *

LOADS = ("(load '(io in out prin prinl print printl readline) '(std \\ list let prog if quit) '(unix unlink select pipe close wait) \"@lib/run.l\")")


def lit(s):
    return L.literal(["str", s])


class Signal(Scenario):
    list_keys = ("forms",)

    def __init__(self, name, weight, top, pipes=False):
        self.name = name
        self.weight = weight
        self.top = top
        self.pipes = pipes

    def gen(self, r, tier):
        k, f = delivery(r)
        f.pop("clock_jump", None)
        k["wait_actors"] = 1
        k["p_sigbefore"] = r.choice([0, 5000])
        k["stdoutcap"] = r.choice([4096, 8192, 65536])
        if r.random() < 0.4:
            f["short_write"] = {"p": r.choice([1000, 8000])}
        kinds = ["say", "say", "say", "big", "read", "sel", "run", "dead", "stop"] if not self.pipes else ["say", "dead", "dead", "deadsock", "big"]
        forms = []
        quit_ = r.random() < 0.25
        for i in range(r.choice([1, 2, 4, 8])):
            ops = []
            for j in range(r.choice([0, 1, 2, 4])):
                q = r.choice(kinds)
                ops.append([q, r.choice([1, 10, 100, 3000, 50000]), r.choice([0, 10, 1500, 9000])])
            forms.append({"id": i, "ops": ops, "val": r.choice(["T", "T", "NIL", "7", "\"\""]), "gap": r.choice([" ", "\n", "\n", "\n\n"])})
        if quit_:
            fo = r.choice(forms)
            fo["ops"].insert(r.randrange(len(fo["ops"]) + 1), ["quit", 0, 0])
        sig = [[r.choice([0, 1, 5, 20, 50, 100, 200, 500, 1000, 5000, 20000]), r.choice([15, 15, 3, 13] if not self.pipes else [13])] for _ in range(r.choice([0, 1, 1, 1, 2, 4]))]
        return dict(forms=forms, sig=sig, knobs=k, faults=f, out=r.choice(["sink", "tty", "pipe"]), tty=r.random() < 0.3, rs=r.randrange(1 << 30))

    def form(self, i, fo, io, actors, files):
        body, out = mark("f%d" % fo["id"]) + (mark("arm") if i == 0 else ""), ""
        for j, (k, t, n) in enumerate(fo["ops"]):
            tag = "%d.%d" % (fo["id"], j)
            fd = 30 + len(actors)
            if k == "say":
                body += '(prinl "s%s")' % tag
                out += "s%s\n" % tag
            elif k == "big":
                body += '(prinl "b%s%s")' % (tag, "x" * n)
                out += "b%s%s\n" % (tag, "x" * n)
            elif k == "read":
                io[fd] = ["pipein", "p" + tag]
                actors.append({"name": "p" + tag, "ops": [{"op": "sleep", "a": [t]}, {"op": "push", "data": "r" + tag}, {"op": "sleep", "a": [t]}, {"op": "push", "data": "\n"}, {"op": "closew"}]})
                body += "(printl (in %d (readline)))" % fd
                out += lit("r" + tag) + "\n"
            elif k == "sel":
                io[fd] = ["pipein", "p" + tag]
                actors.append({"name": "p" + tag, "ops": [{"op": "sleep", "a": [t]}, {"op": "push", "data": "x\n"}, {"op": "closew"}]})
                body += "(select (list %d) (\\ (x) T) NIL)(prinl \"l%s\")" % (fd, tag)
                out += "l%s\n" % tag
            elif k == "run":
                files["/bin/p" + tag] = {"kind": "prog", "mode": 0o755, "data": "W 1 3\nab\nZ %d\nW 1 3\ncd\nX 3\n" % min(t // 10, 200)}
                body += '(printl (run "/bin/p%s" NIL NIL))' % tag
                out += "(3 (^a ^b) (^c ^d))\n"
            elif k == "dead":
                body += "(let (((a . b) . (pipe))) (close a) (out b (prinl \"gone%s\")) (out b (prinl 1)) (close b))(prinl \"d%s\")" % ("y" * n, tag)
                out += "d%s\n" % tag
            elif k == "deadsock":
                io[fd] = ["pipeout", "q" + tag]
                actors.append({"name": "q" + tag, "ops": [{"op": "sleep", "a": [t]}, {"op": "closer"}]})
                body += "(out %d (prinl \"gone%s\") (prinl 2))(prinl \"e%s\")" % (fd, "y" * n, tag)
                out += "e%s\n" % tag
            elif k == "stop":
                body += "(prin 1)(prin 2)(prin 3)(prinl 4)"
                out += "1234\n"
            elif k == "quit":
                body += "(quit)"
        return "(prog %s %s)" % (body, fo["val"]), out

    def build(self, case):
        io = {0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"]}
        actors, files = [], {}
        forms = [self.form(i, fo, io, actors, files) for i, fo in enumerate(case["forms"])]
        return io, actors, files, forms

    def job(self, case):
        io, actors, files, forms = self.build(case)
        r = random.Random(case["rs"])
        text = LOADS + "\n" + "".join(t + fo["gap"] for (t, _), fo in zip(forms, case["forms"]))
        j = dict(files=files, stdfd=io, actors=actors)
        if case["out"] == "tty":
            io[1] = ["sink", "out", "tty"]
        elif case["out"] == "pipe":
            io[1] = ["pipeout", "rd"]
            actors.append({"name": "rd", "ops": [{"op": "sleep", "a": [50]}, {"op": "drain"}]})
        if self.top == "expr":
            j["argv"] = ["-d", "-e", text]
        elif self.top == "script":
            files["/work/p.l"] = text
            j["argv"] = ["-d", "p.l"]
        elif self.top == "load":
            files["/work/p.l"] = text
            j["argv"] = ["-d", "-e", '(load "p.l")']
        else:
            io[0] = ["pipein", "user"] + (["tty"] if case["tty"] else [])
            actors.append({"name": "user", "ops": pieces(r, text + "\n")})
            j["argv"] = ["-d"]
        if case["sig"]:
            ops = [{"op": "mark", "a": [1], "data": "arm"}]
            for t, s in case["sig"]:
                ops += [{"op": "sleep", "a": [t]}, {"op": "sig", "a": [0, s]}]
            actors.append({"name": "s", "ops": ops})
        return j

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        io, actors, files, forms = self.build(case)
        n = len(forms)
        f = {m["name"]: m["step"] for m in res["marks"]}
        ids = [fo["id"] for fo in case["forms"]]
        done = [i for i in range(n) if "f%d" % ids[i] in f]
        K = len(done)
        if done != list(range(K)):
            return ["order: expressions evaluated: %s" % done]
        term = [s[0] for s in res["signals"] if s[1] == 100 and s[2] in (15, 3) and s[4] == "s"]
        quits = [i for i, fo in enumerate(case["forms"]) if any(o[0] == "quit" for o in fo["ops"])]
        if self.top in ("script", "load"):
            if K != n:
                return ["stop: a script of %d expressions stopped after %d" % (n, K)]
        else:
            if not term and not quits and K != n:
                return ["stop: %d of %d expressions evaluated although nothing asked to stop" % (K, n)]
            if quits and K > quits[0] + 1:
                return ["stop: expression %d evaluated after quit in %d" % (K - 1, quits[0])]
            if quits and not term and K != quits[0] + 1:
                return ["stop: %d expressions evaluated, quit is in %d" % (K, quits[0])]
            if term:
                late = [i for i in done if f["f%d" % ids[i]] > term[0]]
                if len(late) > 1:
                    return ["stop: expressions %s began after the signal at step %d" % (late, term[0])]
        obs = res["pipes"].get("rd", "") if case["out"] == "pipe" else sink(res, "out")
        val = lambda i: "NIL" if case["forms"][i]["val"] == '""' else case["forms"][i]["val"]
        if self.top == "repl":
            k = obs.find("\n")
            if not obs.startswith(": ") and not obs.startswith("> "):
                return ["output: starts with %r" % obs[:60]]
            e = repl_answers(obs[k + 1:], [forms[i][1] + "> " + val(i) + "\n" for i in range(K)])
            if e:
                return ["output: " + e]
        else:
            e = "".join(forms[i][1] for i in range(K))
            if obs != e:
                return ["output: " + diff(e, obs)]
        c = code(res)
        if c == 254:
            return ["leak: the interpreter ended with cells still allocated"]
        last = 255 if K and val(K - 1) == "NIL" else 0
        ok = (last,)
        if self.top == "repl":
            ok = (255,) if not term and not quits else (last, 255)
        if K and c not in ok:
            return ["status: %s expected %s" % (c, ok)]
        return []

    def tags(self, case, res):
        t = set()
        ran = [m for m in res["marks"] if m["name"].startswith("f")]
        t.add("stopped early" if len(ran) < len(case["forms"]) else "ran to the end")
        if res["fired"].get("eintr"):
            t.add("a wait was interrupted")
        for m in {o[0] for fo in case["forms"] for o in fo["ops"]}:
            t.add("form:" + m)
        return t


SCENARIOS = [Signal("repl", 3, "repl"), Signal("expr", 3, "expr"), Signal("script", 1, "script"), Signal("load", 1, "load"), Signal("sigpipe", 1, "repl", True), Signal("sigpipe-expr", 1, "expr", True)]
