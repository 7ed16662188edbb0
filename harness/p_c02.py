"""C02: readline returns every line exactly once, byte for byte."""
import random

from common import *


def gen_line(r):
    k = r.randrange(12)
    if k == 0:
        return ""
    if k == 1:
        return "x" * r.choice([1, 119, 120, 121, 127, 128, 255, 1023, 1024, 1025, 4095, 4096, 4097, 6000])
    if k == 2:
        return "".join(chr(r.choice([x for x in range(256) if x != 10])) for _ in range(r.randrange(1, 60)))
    if k == 3:
        return r.choice(["\\", "\\n", "a\\tb", "\\\\", "\r", "abc\r", "\r\r", " ", "  x  ", "\t", "#", "\"", "(", "EOF", "NIL", "\0", "a\0b", "\0\0",
                         "\x1b[0m", "^a", "a\\", "\\\"", "\xff", "\x80\xfe"])
    if k == 4:
        return "".join(r.choice("ab\\\r\0 \t\"") for _ in range(r.randrange(1, 30)))
    return "".join(r.choice(L.PRINT) for _ in range(r.choice([1, 3, 10, 40, 80])))


class Lines(Scenario):
    list_keys = ("lines",)

    def __init__(self, mode, weight=1):
        self.mode = mode
        self.name = "lines-" + mode
        self.weight = weight

    def gen(self, r, tier):
        k, f = delivery(r)
        if self.mode in ("accept", "connect"):
            f["net_split"] = {"p": r.choice([0, 3000, 8000])}
            f["short_read"] = {"p": r.choice([0, 2000, 8000])}
        n = r.choice([0, 1, 2, 3, 5, 10, 30])
        return dict(lines=[gen_line(r) for _ in range(n)], term=r.random() < 0.6, knobs=k, faults=f, rs=r.randrange(1 << 30),
                    tty=r.random() < 0.25, extra=r.choice([1, 2, 3]), grow=self.mode == "file" and r.random() < 0.3)

    def data(self, case):
        d = "\n".join(case["lines"])
        if case["lines"] and (case["term"] or case["lines"][-1] == ""):
            d += "\n"
        return d

    def job(self, case):
        r = random.Random(case["rs"])
        d = self.data(case)
        n = len(case["lines"]) + case["extra"]
        reads = " ".join(["(printl (readline))"] * n)
        io = dict(NULL_IO)
        j = dict(files={}, stdfd=io, actors=[], argv=["/work/p.l"])
        pre = "(load '(io in readline printl prinl) '(std let) '(unix accept connect listen close))\n"
        if self.mode == "file":
            j["files"]["/work/data"] = d
            if case["grow"]:
                # the end was reached: what is added later is not part of the stream any more
                more = '(out "data" (prinl "more"))'
                reads = " ".join(["(printl (readline))"] * (n - case["extra"] + 1) + [more] + ["(printl (readline))"] * (case["extra"] - 1))
                pre = pre.replace("(io in ", "(io in out ")
            prog = '(in "data" %s)' % reads
        elif self.mode == "stdin":
            io[0] = ["pipein", "u"] + (["tty"] if case["tty"] else [])
            j["actors"] = [{"name": "u", "ops": pieces(r, d)}]
            prog = "(in NIL %s)" % reads
        elif self.mode == "expr":
            io[0] = ["pipein", "u"] + (["tty"] if case["tty"] else [])
            j["actors"] = [{"name": "u", "ops": pieces(r, d)}]
            j["argv"] = ["-e", pre.replace("\n", " ") + reads]
            prog = ""
        elif self.mode == "repl":
            io[0] = ["pipein", "u"] + (["tty"] if case["tty"] else [])
            t = "(load '(io readline))\n" + "".join("(readline)\n" + x + "\n" for x in case["lines"])
            if case["lines"] and case["lines"][-1] and not case["term"]:
                t = t[:-1]
            else:
                t += "(readline)\n"
            j["argv"] = []
            j["actors"] = [{"name": "u", "ops": pieces(r, t)}]
            return j
        elif self.mode == "fd":
            io[5] = ["pipein", "u"]
            j["actors"] = [{"name": "u", "ops": pieces(r, d)}]
            prog = "(in 5 %s)" % reads
        elif self.mode == "script":
            # readline on the script's own channel: the lines follow the expression that reads them
            j["files"]["/work/p.l"] = pre + "(in NIL %s)\n" % reads
            io[0] = ["file", "/work/data"]
            j["files"]["/work/data"] = d
            return j
        else:
            ops = [{"op": "connect", "a": [7000]}] if self.mode == "accept" else [
                {"op": "listen", "a": [7000]}, {"op": "push", "data": "go\n"}, {"op": "closew"}, {"op": "accept"}]
            for o in pieces(r, d):
                ops.append({"op": "send", "data": o["data"]} if o["op"] == "push" else o if o["op"] == "sleep" else {"op": "shutw"})
            ops += [{"op": "recveof"}, {"op": "close"}]
            j["actors"] = [{"name": "u", "ops": ops}]
            if self.mode == "accept":
                prog = "(let ((S . (listen 7000)) ((F . A) . (accept S))) (in F %s) (close F S))" % reads
            else:
                io[0] = ["pipein", "u"]
                prog = '(in NIL (readline)) (let ((F . (connect "localhost" "7000"))) (in F %s) (close F))' % reads
        if self.mode != "expr":
            j["files"]["/work/p.l"] = pre + prog + "\n"
        return j

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        out = sink(res, "out")
        exp = "".join(L.literal(["str", x]) + "\n" for x in case["lines"])
        if self.mode == "repl":
            ans = ["> (readline)\n"] + ["> " + L.literal(["str", x]) + "\n" for x in case["lines"]]
            if not (case["lines"] and case["lines"][-1] and not case["term"]):
                ans.append("> EOF\n")
            e = repl_answers(out, ans)
            return ["lines: " + e] if e else []
        exp += "EOF\n" * case["extra"]
        if out != exp:
            return ["lines: " + diff(exp, out)]
        return []

    def tags(self, case, res):
        t = ["source:" + self.mode]
        d = self.data(case)
        if d and not d.endswith("\n"):
            t.append("unterminated last line")
        if "\0" in d:
            t.append("NUL bytes")
        if "\\" in d:
            t.append("backslashes")
        if any(len(x) > 1000 for x in case["lines"]):
            t.append("line over 1000 bytes")
        return t


SCENARIOS = [Lines("file", 2), Lines("stdin", 3), Lines("expr", 1), Lines("fd", 2), Lines("script", 1), Lines("repl", 2), Lines("accept", 2),
             Lines("connect", 2)]
