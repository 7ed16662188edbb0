"""C01: reading is independent of how the bytes arrive."""
import random

from common import *


class Reading(Scenario):
    list_keys = ("forms",)

    def __init__(self, mode, weight=1):
        self.mode = mode
        self.name = "read-" + mode
        self.weight = weight

    def gen(self, r, tier):
        big = r.random() < 0.3
        style = r.choice([0, 1, 1, 2])
        forms = []
        n = r.choice([1, 2, 3, 5, 8, 15])
        for _ in range(n):
            k = r.random()
            if k < 0.12:
                v = ["str", L.gen_text(r, 200) + "x" * r.choice([0, 1000, 1020, 1023, 1024, 1025, 2047, 2049, 4090, 4096, 5000])]
            elif k < 0.18:
                v = ["l", [["n", L.gen_number(r)] for _ in range(r.choice([50, 200, 400]))]]
            elif k < 0.22:
                v = ["n", 1]
                for _ in range(r.choice([10, 60])):
                    v = ["l", [v]]
            else:
                v = L.gen_value(r, 3, 400 if big else 40)
            v = L.clean(v)
            src = L.source(v, r, style)
            sep = r.choice(["\n", "\n", "\n", " ", "\n\n", " # c\n", "\r\n", "\t"])
            if r.random() < 0.1:
                sep += "#" + "".join(r.choice(L.PRINT) for _ in range(r.choice([5, 1022, 1023, 1500]))) + "\n"
            if r.random() < 0.1:
                sep += " " * r.choice([10, 1000, 1022, 1023, 3000])
            forms.append({"v": v, "src": src, "sep": sep})
        k, f = delivery(r)
        last = r.choice(["", "\n", " ", "\n\n"])
        rs = r.randrange(1 << 30)
        return dict(forms=forms, knobs=k, faults=f, last=last, rs=rs, tty=r.random() < 0.3, lead=r.choice(["", "\n", "# x\n", "  "]),
                    path=r.choice(["/work/s.l", "s.l", "./s.l", "/work/d/s.l"]))

    def wrap(self, f):
        if self.mode in ("script", "load", "expr"):
            return "(printl '(" + f["src"] + "))"
        if self.mode == "repl":
            return "'(" + f["src"] + ")"
        return f["src"]

    def body(self, case):
        out = []
        fs = case["forms"]
        for i, f in enumerate(fs):
            out.append(self.wrap(f))
            out.append(f["sep"] if i + 1 < len(fs) else case["last"])
        return case["lead"] + "".join(out)

    def job(self, case):
        r = random.Random(case["rs"])
        body = self.body(case)
        io = dict(NULL_IO)
        j = dict(files={}, stdfd=io, actors=[])
        if self.mode == "script":
            p = case["path"]
            j["files"][p if p[0] == "/" else "/work/" + p.replace("./", "")] = "(load '(io printl))\n" + body
            j["argv"] = [p]
        elif self.mode == "expr":
            j["argv"] = ["-e", "(load '(io printl)) " + body]
        elif self.mode == "load":
            j["files"]["/work/m.l"] = "(load '(io printl))\n(load \"d/x.l\")\n(printl 'done)\n"
            j["files"]["/work/d/x.l"] = body
            j["argv"] = ["/work/m.l"]
        elif self.mode == "repl":
            j["argv"] = []
            io[0] = ["pipein", "u"] + (["tty"] if case["tty"] else [])
            j["actors"] = [{"name": "u", "ops": pieces(r, body)}]
        else:
            n = len(case["forms"])
            src = "NIL" if self.mode == "stdin" else '"data.l"'
            prog = "(load '(io in read printl))\n(in %s %s)\n" % (src, " ".join(["(printl (read))"] * (n + 2)))
            j["files"]["/work/p.l"] = prog
            j["argv"] = ["/work/p.l"]
            if self.mode == "stdin":
                io[0] = ["pipein", "u"] + (["tty"] if case["tty"] else [])
                j["actors"] = [{"name": "u", "ops": pieces(r, body)}]
            else:
                j["files"]["/work/data.l"] = body
        return j

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        out = sink(res, "out")
        lits = [L.literal(f["v"]) for f in case["forms"]]
        if self.mode == "repl":
            e = repl_answers(out, ["> " + L.text(("p", L.canon(f["v"]), None)) + "\n" for f in case["forms"]])
            return ["value: " + e] if e else []
        if self.mode in ("script", "load", "expr"):
            exp = "".join(L.text(("p", L.canon(f["v"]), None)) + "\n" for f in case["forms"])
            if self.mode == "load":
                exp += "done\n"
        else:
            exp = "".join(x + "\n" for x in lits) + "NIL\nNIL\n"
        if out != exp:
            return ["value: " + diff(exp, out)]
        return []

    def tags(self, case, res):
        t = ["mode:" + self.mode]
        b = self.body(case)
        if max(len(x) for x in b.split("\n")) > 1023:
            t.append("line over 1023 bytes")
        if len(b) > 4096:
            t.append("text over 4096 bytes")
        if any("\n" in f["src"] for f in case["forms"]):
            t.append("expression over several lines")
        return t


SCENARIOS = [Reading("script", 3), Reading("load", 1), Reading("repl", 4), Reading("file", 2), Reading("stdin", 3),
             Reading("expr", 1)]
