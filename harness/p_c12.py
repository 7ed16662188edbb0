"""C12: http/get sends one request and delivers the response as sent, or nothing."""
import random

from common import *
from p_c11 import WS, gen_headers, header_text, header_value, sends, tok, truncated

LOADS = ("(load '(io prin prinl printl readline in) '(std \\ list let prog if while <-) '(logic = <>) '(unix unlink) \"@lib/http.l\")")
GOOD = ("plain", "body", "late", "slow")


def lit(s):
    return L.literal(["str", s])


def response(g):
    return "HTTP/1.1%s%s%s%s" % (g["sp"], g["code"], g["sp2"] + g["reason"] if g["reason"] is not None else "", g["nl"]) + header_text(g["hs"], g["nl"]) + g["nl"]


def request(g):
    return "GET %s HTTP/1.1\nHost: %s\nConnection: close\n\n" % (g["path"], g["addr"])


def called(g, i, hs=None):
    hs = g["hs"] if hs is None else hs
    v = ["l", [["s", "R%d" % i], ["str", g["code"]], ["str", (g["reason"] or "").strip(WS)] if (g["reason"] or "").strip(WS) else ["nil"], header_value(hs)]]
    return L.text(L.canon(v), True)


class Get(Scenario):
    list_keys = ("gets",)

    def __init__(self, name, weight, kind):
        self.name = name
        self.weight = weight
        self.kind = kind

    def get(self, r, good=False):
        k = r.choice(GOOD) if good else r.choice(["plain"] * 4 + ["body", "body", "slow", "late", "truncated", "truncated", "reset", "garbage", "garbage", "closed", "resetnow", "refused", "stall", "lateReset"])
        g = {"k": k, "addr": r.choice(["localhost", "localhost", "127.0.0.1"]), "path": r.choice(["/", "/x", "/" + tok(r, 40), "/a?b=c&d=e", "/'(", "/%20", "x y", "/" + tok(r, 1100)]),
             "code": r.choice(["200", "200", "404", "500", "301", "2", "abc", "99999999999999999999"]), "reason": r.choice(["OK", "Not Found", "", None, "a  b", "I'm a (teapot)", ":", "OK \t", tok(r, 30)]),
             "sp": r.choice([" ", " ", " ", "  "]), "sp2": r.choice([" ", " ", "  "]), "nl": r.choice(["\r\n", "\r\n", "\n"]), "hs": gen_headers(r), "cut": r.random(), "rs": r.randrange(1 << 30),
             "body": [], "eager": r.random() < 0.3}
        if k == "body":
            g["body"] = ["".join(r.choice(L.PRINT) for _ in range(r.choice([1, 5, 30, 1200] if r.random() < 0.1 else [1, 5]))) for _ in range(r.choice([0, 1, 3]))]
        if k == "garbage":
            g["text"] = r.choice(["\r\n", "\r\n\r\n", "HTTP/1.1\r\n\r\n", "HTTP/1.0 200 OK\r\n\r\n", "HTTP/2 200\r\n\r\n", "http/1.1 200 OK\r\n\r\n", "\x16\x03\x01\n", "200 OK\n\n", "HTTP/1.1200 OK\r\n\r\n",
                                  "x" * 1500 + "\n\n", "HTTP/1.1   \r\n\r\n", "EOF\n", "NIL\n\n", "HTTP/1.12 200 OK\r\n\r\n", " \t\n\n"])
        return g

    def gen(self, r, tier):
        k, f = delivery(r)
        f.pop("short_read", None)
        f["net_split"] = {"p": r.choice([0, 2000, 8000])}
        f["short_read"] = {"p": r.choice([0, 0, 2000, 8000]), "only": "sock"}
        f["short_write"] = {"p": r.choice([0, 0, 4000]), "only": "sock"}
        gets = [self.get(r) for _ in range(r.choice([1, 1, 2, 3]))]
        case = dict(gets=gets, probe=self.get(r, True), knobs=k, faults=f)
        if self.kind == "faulty":
            for x in r.sample(["socket", "setsockopt", "connect", "dup", "read_eio", "write_err"], r.choice([1, 1, 2])):
                f[x] = {"p": r.choice([500, 2000, 5000]), "max": r.choice([1, 3, 15]), "window": 1}
                if x in ("read_eio", "write_err", "dup"):
                    f[x]["only"] = "sock"
            for g in gets:
                g["eager"] = True
                g["body"] = []
                if g["k"] == "body":
                    g["k"] = "plain"
                g["hs"] = [[n.strip(WS), v] for n, v in g["hs"]]
        return case

    def job(self, case):
        io = dict(NULL_IO)
        actors, prog = [], ""
        gets = case["gets"] + [case["probe"]]
        for i, g in enumerate(gets):
            r = random.Random(g["rs"])
            k = g["k"]
            probe = g is case["probe"]
            ops = []
            if probe:
                ops += [{"op": "mark", "a": [1], "data": "g%d" % (i - 1)}, {"op": "disarm"}] if i else [{"op": "disarm"}]
            if k != "refused":
                ops += [{"op": "listen", "a": [7100 + i]}]
            ops += [{"op": "push", "data": "go\n"}, {"op": "closew"}]
            t = response(g)
            if k != "refused":
                # a client that could not connect leaves its server waiting; the next step of the program releases it
                ops += [{"op": "accept"}]
                if k == "resetnow":
                    ops += [{"op": "reset"}]
                elif k == "closed":
                    ops += [{"op": "close"}]
                else:
                    if not g["eager"]:
                        ops += [{"op": "recvpat", "a": [1], "data": "\n\n"}]
                    if k in ("plain", "body", "late", "slow", "lateReset"):
                        s = sends(r, t + "".join(b + g["nl"] for b in g["body"]))
                        if k == "slow":
                            s = [x for o in s[:30] for x in (o, {"op": "sleep", "a": [r.choice([1000, 300000])]})] + s[30:]
                        ops += s
                        if k == "lateReset":
                            ops += [{"op": "reset"}]
                        elif k == "late" and not g["body"]:
                            ops += [{"op": "recveof"}, {"op": "close"}]
                        else:
                            ops += [{"op": "shutw"}, {"op": "recveof"}, {"op": "close"}]
                    elif k in ("truncated", "reset"):
                        ops += sends(r, truncated(t, g["cut"], g["nl"])) + [{"op": "reset"}] if k == "reset" else sends(r, truncated(t, g["cut"], g["nl"])) + [{"op": "shutw"}, {"op": "recveof"}, {"op": "close"}]
                    elif k == "garbage":
                        ops += sends(r, g["text"]) + [{"op": "shutw"}, {"op": "recveof"}, {"op": "close"}]
                    elif k == "stall":
                        ops += sends(r, truncated(t, g["cut"], g["nl"])) + [{"op": "sleep", "a": [30000000]}, {"op": "close"}]
            actors.append({"name": "u%d" % i, "ops": ops})
            io[20 + i] = ["pipein", "u%d" % i]
            fn = "(\\ (c m h) (printl (list 'R%d c m h))" % i
            if k == "body":
                fn += " (let ((l . (readline))) (while (<> l 'EOF) (printl (list 'B l)) (<- 'l (readline))))"
            prog += "(in %d (readline))%s(http/get \"%s\" \"%d\" '%s %s))%s\n" % (20 + i, mark("b%d" % i) + (mark("arm") if i == 0 and not probe else ""), g["addr"], 7100 + i,
                                                                                 lit(g["path"]) if g["path"] else "NIL", fn, mark("g%d" % i) + "(printl 'E%d)" % i)
        return dict(files={"/work/p.l": LOADS + "\n" + prog + "(printl 'done)\n"}, argv=["-d", "p.l"], stdfd=io, actors=actors)

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        if not marks(res, "b0"):
            return []
        if code(res) != 0:
            return ["status: the program ended with %s" % code(res)]
        faulty = {}
        bm = {m["name"]: m for m in res["marks"]}
        acts = {}
        for s, a, pc, op, rr in res["acts"]:
            acts.setdefault(a, []).append((op, rr))
        lines = sink(res, "out").split("\n")
        pos = 0
        gets = case["gets"] + [case["probe"]]
        for i, g in enumerate(gets):
            k = g["k"]
            name = "request %d (%s)" % (i, k)
            if "b%d" % i not in bm or "g%d" % i not in bm:
                return ["progress: %s never returned" % name]
            if [f for f in bm["g%d" % i]["fds"] if f not in bm["b%d" % i]["fds"]]:
                return ["descriptor: %s left a descriptor open" % name]
            fl = {f[0] for f in res["faults"] if bm["b%d" % i]["step"] <= f[1] <= bm["g%d" % i]["step"]}
            hard = fl & {"socket", "setsockopt", "connect", "dup", "read_eio", "write_err"}
            mine = []
            while pos < len(lines) and not lines[pos].startswith("(R") and lines[pos] in ("Invalid HTTP response", "Connecting to %s on port %d failed" % (g["addr"], 7100 + i)):
                mine.append(lines[pos])
                pos += 1
            r = 0
            if pos < len(lines) and lines[pos] == called(g, i):
                r = 1
                mine.append("R")
                pos += 1
                for b in g["body"]:
                    w = b + ("\r" if g["nl"] == "\r\n" else "")
                    if pos >= len(lines) or lines[pos] != "(B %s)" % lit(w):
                        return ["body: %s expected line %r observed %r" % (name, w[:100], lines[pos][:200] if pos < len(lines) else None)]
                    pos += 1
            conn = "Connecting to %s on port %d failed" % (g["addr"], 7100 + i)
            if k in GOOD:
                ok = (["R"],)
            elif k == "lateReset":
                ok = (["R"], [], ["Invalid HTTP response"])
            elif k in ("refused",):
                ok = ([conn],)
            elif k in ("resetnow", "closed"):
                ok = ([], [conn], ["Invalid HTTP response"])
            elif k in ("truncated", "reset", "stall"):
                ok = ([], ["Invalid HTTP response"])
            else:
                ok = ([], ["Invalid HTTP response"])
            if hard:
                ok = ok + ([], [conn], ["Invalid HTTP response"])
                if fl & {"read_eio"} and k in GOOD:
                    ok = ok + (["R"],)
            if mine not in ok:
                return ["outcome: %s: observed %r, next line %r" % (name, mine, lines[pos][:300] if pos < len(lines) else None)]
            if pos >= len(lines) or lines[pos] != "E%d" % i:
                return ["outcome: %s: unexpected output %r" % (name, lines[pos][:300] if pos < len(lines) else None)]
            pos += 1
            sent = [rr for op, rr in acts.get("u%d" % i, []) if op in ("recvpat", "recveof")]
            if sent and not hard and k in GOOD and sent[-1].split(":", 1)[1] != request(g):
                return ["request: %s sent %r" % (name, sent[-1][:300])]
            if k == "refused" and any(op == "accept" for op, _ in acts.get("u%d" % i, [])):
                return ["request: %s connected" % name]
        if lines[pos:] != ["done", ""]:
            return ["outcome: unexpected output %r" % lines[pos:pos + 2]]
        return []

    def tags(self, case, res):
        t = {"server:" + g["k"] for g in case["gets"] + [case["probe"]]}
        for f in res["faults"]:
            t.add("fault:" + f[0])
        return t


SCENARIOS = [Get("get", 3, "plain"), Get("faulty", 2, "faulty")]
