"""C11: the HTTP server answers each valid request once and survives the rest."""
import random

from common import *

PROG = ("(load '(io prinl printl) '(std \\ list if car cdr prog) '(logic =) '(unix unlink) \"@lib/http.l\")" + mark("up") + mark("arm") +
        "(prog (http/serve 7000 (\\ (o p h b) (printl (list 'H o p h)) (if (= (car (cdr p)) ^n) 'NOT_FOUND 'OTHER)))" + mark("end") + "T)")
R404 = "HTTP/1.1 404 Not Found\nConnection: close\n\n"
R500 = "HTTP/1.1 500 Internal Server Error\nConnection: close\n\n"
WS = " \t\r\n"
TOKEN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_"


def tok(r, n):
    return "".join(r.choice(TOKEN) for _ in range(n))


def gen_value(r):
    k = r.randrange(10)
    if k == 0:
        return ""
    if k == 1:
        return r.choice(["a::b", ":x", "x:", "::", "12:30:00", "http://h:80/p?q=1&r=2", "a  b", "EOF", "NIL", "(x)", "\"q\"", "\\n", "a\tb", "'", "^a", "#c", "{}", "a\\"])
    if k == 2 and r.random() < 0.15:
        return tok(r, r.choice([100, 1000, 1023, 1024, 2000, 4100]))
    return "".join(r.choice(L.PRINT) for _ in range(r.choice([1, 3, 8, 25])))


def gen_headers(r):
    n = r.choice([0, 0, 1, 1, 2, 4])
    if r.random() < 0.004:
        return [[tok(r, 3), " " + tok(r, 2)] for _ in range(r.choice([200, 1800]))]
    hs = []
    for _ in range(n):
        name = tok(r, r.choice([1, 3, 6, 20]))
        v = gen_value(r)
        if r.random() < 0.06:
            hs.append([name, None])      # a line without colon
        else:
            hs.append([r.choice(["", "", "", " "]) + name + r.choice(["", "", "", " "]), r.choice([" ", " ", "", "  ", "\t"]) + v + r.choice(["", "", " ", " \t"])])
    return hs


def header_text(hs, nl):
    return "".join(n + (":" + v if v is not None else "") + nl for n, v in hs)


def header_value(hs):
    return ["l", [["d", [["str", n.strip(WS)]], ["str", v.strip(WS)]] if v is not None and v.strip(WS) else ["l", [["str", n.strip(WS)]]] for n, v in hs]] if hs else ["nil"]


def request(c):
    return "%s%s%s%s%s%s" % (c["op"], c["sp"], c["path"], c["sp2"], "HTTP/1.1", c["nl"]) + header_text(c["hs"], c["nl"]) + c["nl"]


def handler_line(c):
    v = ["l", [["s", "H"], ["str", c["op"]], ["str", c["path"]], header_value(c["hs"])]]
    return L.text(L.canon(v), True)


def sends(r, data):
    ops = []
    for o in pieces(r, data):
        if o["op"] == "push":
            ops.append({"op": "send", "data": o["data"]})
        elif o["op"] == "sleep":
            ops.append(o)
    return ops


def truncated(t, cut, nl):
    """A proper prefix of t; a last line of nothing but blanks would be taken for the empty line that ends the headers."""
    n = int(cut * (len(t) - 1 - len(nl)))
    while n > 0 and t[n - 1] != "\n" and not t[:n].split("\n")[-1].strip(WS):
        n -= 1
    return t[:n]


class Serve(Scenario):
    list_keys = ("clients",)

    def __init__(self, name, weight, kind):
        self.name = name
        self.weight = weight
        self.kind = kind

    def client(self, r, i, valid=False):
        k = "valid" if valid else r.choice(["valid"] * 5 + ["truncated", "truncated", "reset", "garbage", "closed", "resetnow", "idle", "lateReset", "slow", "two", "badver"])
        c = {"id": i, "k": k, "op": r.choice(["GET", "GET", "POST", "PUT", "X", "DELETE"]), "path": "/" + r.choice("nx") + "%d" % i + r.choice(
            ["", "", "/a/b", "?q=1:2", "%20", "#f", "/" + tok(r, 60), "'(", "\\x", "//"]), "sp": r.choice([" ", " ", " ", "  "]), "sp2": r.choice([" ", " ", " ", "   "]),
             "nl": r.choice(["\r\n", "\r\n", "\n"]), "hs": gen_headers(r), "cut": r.random(), "rs": r.randrange(1 << 30), "wait": r.choice([0, 0, 0, 1, 100, 5000]),
             "half": r.random() < 0.5}
        if k == "garbage":
            c["text"] = r.choice(["\r\n", "\r\n\r\n", "GET\r\n", "GET /\r\n\r\n", "GET / HTTP/1.0\r\n\r\n", "GET / HTTP/2\r\nA: b\r\n\r\n", "HTTP/1.1\r\n\r\n", "\0\1\2\xff\n", "a b c d e\n",
                                  "GET / / HTTP/1.1\r\n\r\n", "EOF\n", "NIL\n", "x" * 1500 + "\n", "a " * 700 + "\n", "GET /x HTTP/1.1x\r\n\r\n", "GET /x http/1.1\r\n\r\n",
                                  "(prog (http/serve 1 2)\n", "\"\n", "no newline", "\x16\x03\x01\x02\x00\x01\x00", " \t \r\n", "GET HTTP/1.1\r\n\r\n"])
        if k == "badver":
            c["text"] = "GET /%d HTTP/1.%d\r\nHost: x\r\n\r\n" % (i, r.choice([0, 2, 11]))
        return c

    def gen(self, r, tier):
        k, f = delivery(r)
        k["maxsteps"] = 300000
        k["wait_actors"] = 1
        f.pop("short_read", None)
        f.pop("clock_jump", None)
        f["net_split"] = {"p": r.choice([0, 2000, 8000])}
        f["short_read"] = {"p": r.choice([0, 0, 2000, 8000]), "only": "sock"}
        f["short_write"] = {"p": r.choice([0, 0, 4000]), "only": "sock"}
        if self.kind == "faulty":
            for x in r.sample(["accept", "read_eio", "write_err", "select"], r.choice([1, 1, 2])):
                f[x] = {"p": r.choice([500, 2000, 5000]), "max": r.choice([1, 3, 15]), "window": 1}
                if x in ("read_eio", "write_err"):
                    f[x]["only"] = "sock"
            f.pop("select", None)
        clients = [self.client(r, i) for i in range(r.choice([1, 2, 2, 3, 4, 8]))]
        if self.kind == "faulty" and r.random() < 0.3:
            # somebody is being served while another one's connection cannot be accepted
            f["accept"] = {"p": 4000, "max": r.choice([1, 2, 15]), "window": 1}
            for x in ("read_eio", "write_err"):
                f.pop(x, None)
            for i in range(2):
                c = self.client(r, 20 + i, True)
                c["k"] = "slow"
                clients.append(c)
        return dict(clients=clients, probe=self.client(r, 99, True), knobs=k, faults=f, fork=r.random() < 0.2)

    def job(self, case):
        actors = []
        for c in case["clients"] + [case["probe"]]:
            r = random.Random(c["rs"])
            ops = []
            if c is case["probe"]:
                ops += [{"op": "sleep", "a": [60000000]}, {"op": "disarm"}]
            elif c["wait"]:
                ops.append({"op": "sleep", "a": [c["wait"]]})
            ops.append({"op": "connect", "a": [7000]})
            t = request(c)
            k = c["k"]
            if k in ("valid", "slow"):
                s = sends(r, t)
                if k == "slow":
                    s = [x for o in s[:40] for x in (o, {"op": "sleep", "a": [r.choice([1000, 100000])]})] + s[40:]
                ops += s
                if c["half"]:
                    ops.append({"op": "shutw"})
                ops += [{"op": "recveof"}, {"op": "close"}]
            elif k == "two":
                ops += sends(r, t)
                ops += [{"op": "recveof"}, {"op": "close"}]
            elif k in ("truncated", "reset"):
                ops += sends(r, truncated(t, c["cut"], c["nl"]))
                ops += [{"op": "close"}] if k == "truncated" else [{"op": "reset"}]
            elif k in ("garbage", "badver"):
                ops += sends(r, c["text"]) + [{"op": "shutw"}, {"op": "recveof"}, {"op": "close"}]
            elif k == "closed":
                ops += [{"op": "close"}]
            elif k == "resetnow":
                ops += [{"op": "reset"}]
            elif k == "idle":
                ops += [{"op": "sleep", "a": [200000]}, {"op": "close"}]
            elif k == "lateReset":
                ops += sends(r, t) + [{"op": "reset"}]
            if c is case["probe"]:
                ops += [{"op": "sleep", "a": [1000000]}, {"op": "sig", "a": [0, 15]}]
            actors.append({"name": "c%d" % c["id"], "ops": ops})
        return dict(files={}, argv=["-d", "-e", PROG], actors=actors)

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        up, end = marks(res, "up"), marks(res, "end")
        if not up:
            return []
        if not end:
            return ["server: http/serve never returned, the interpreter ended with %s" % code(res)]
        if code(res) == 254:
            return ["leak: the server ended with cells still allocated"]
        extra = [f for f in end[0]["fds"] if f not in up[0]["fds"]]
        if len(extra) > 1:
            return ["descriptor: %d descriptors left behind after serving" % (len(extra) - 1)]
        lines = sink(res, "out").split("\n")
        handled = {}
        for l in lines:
            if l.startswith("(H "):
                handled[l] = handled.get(l, 0) + 1
            elif l and not l.startswith("Accepting connection from ") and l != "Invalid HTTP request":
                return ["server: unexpected output %r" % l[:200]]
        acts = {}
        late = False
        for s, a, pc, op, r in res["acts"]:
            acts.setdefault(a, []).append((op, r))
            # long after everything else the probe comes along: nobody else may still be waiting by then
            if a == "c99" and op == "disarm":
                late = True
            elif late and a != "c99" and op == "recveof":
                return ["stalled: client %s was not answered until another client connected" % a[1:]]
        faulty = set(f[0] for f in res["faults"])
        lossy = faulty & {"read_eio", "write_err", "select", "accept"}
        for c in case["clients"] + [case["probe"]]:
            n = handled.pop(handler_line(c), 0)
            k = c["k"]
            ok = {"valid": (1,), "slow": (1,), "two": (1,), "lateReset": (0, 1)}.get(k, (0,))
            name = "client %d (%s)" % (c["id"], k)
            probe = c is case["probe"]
            if lossy and not probe:
                ok = tuple(set(ok) | {0})
            if n not in ok:
                return ["handler: %s reached the handler %d times" % (name, n)]
            got = [r for op, r in acts.get("c%d" % c["id"], []) if op == "recveof"]
            if k in ("valid", "slow", "two") and not (lossy and not probe):
                want = "fin:" + (R404 if c["path"][1] == "n" else R500)
                if not got:
                    return ["response: %s never got the end of its connection" % name]
                if got[0] != want:
                    return ["response: %s expected %r observed %r" % (name, want, got[0][:200])]
            elif k in ("garbage", "badver", "truncated"):
                if got and len(got[0]) > 4:
                    return ["response: %s got %r" % (name, got[0][:100])]
        for c in case["clients"]:
            # a reset or a failed read can end the input inside the blanks that begin a header line
            if lossy or c["k"] in ("lateReset", "reset"):
                for i, (n, _) in enumerate(c["hs"]):
                    if n[:1] in tuple(WS):
                        handled.pop(handler_line(dict(c, hs=c["hs"][:i])), 0)
        if handled:
            return ["handler: called with something no client sent: %s" % list(handled)[0][:300]]
        return []

    def tags(self, case, res):
        t = {"client:" + c["k"] for c in case["clients"]}
        for f in res["faults"]:
            t.add("fault:" + f[0])
        return t


class Both(Scenario):
    """http/serve and http/get together: the clients are interpreters too."""
    name = "both"
    weight = 1
    list_keys = ("clients",)

    def gen(self, r, tier):
        k, f = delivery(r)
        k["maxsteps"] = 300000
        k["wait_actors"] = 1
        f.pop("clock_jump", None)
        for x in ("short_read", "short_write"):
            f[x] = {"p": r.choice([0, 0, 2000, 8000]), "only": "sock"}
        f["net_split"] = {"p": r.choice([0, 2000, 8000])}
        return dict(clients=[[r.choice("nx") + r.choice(["", "?a=b", "/c:d", "'(", "/" + tok(r, 50), "/" + tok(r, 1100)]) for _ in range(r.choice([1, 1, 2, 4]))] for _ in range(r.choice([1, 2, 3, 5]))],
                    wait=[r.choice([0, 0, 0, 1, 500, 20000]) for _ in range(5)], knobs=k, faults=f)

    def path(self, case, i, j):
        c = case["clients"][i][j]
        return "/%s%d.%d%s" % (c[0], i, j, c[1:])

    def job(self, case):
        io = {0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"]}
        actors = [{"name": "end", "ops": [{"op": "sleep", "a": [300000000]}, {"op": "sig", "a": [0, 15]}]}]
        pre = "(load '(io prinl printl in out readline) '(std \\ list if car cdr prog quit) '(logic =) '(unix fork unlink) \"@lib/http.l\")\n"
        for i, c in enumerate(case["clients"]):
            io[20 + i] = ["pipein", "u%d" % i]
            io[30 + i] = ["sink", "c%d" % i]
            actors.append({"name": "u%d" % i, "ops": [{"op": "sleep", "a": [60000000 + case["wait"][i]]}, {"op": "push", "data": "go\n"}, {"op": "closew"}]})
            gets = "".join("(http/get \"localhost\" \"7000\" '%s (\\ (c m h) (out %d (printl (list 'R c m h))))) (out %d (printl 'E))" % (
                L.literal(["str", self.path(case, i, j)]), 30 + i, 30 + i) for j in range(len(c)))
            pre += "(if (= (fork) 0) (prog (in %d (readline)) %s %s (quit)) 1)\n" % (20 + i, gets, mark("c%d" % i))
        pre += mark("up") + "(prog (http/serve 7000 (\\ (o p h b) (printl (list 'H o p h)) (if (= (car (cdr p)) ^n) 'NOT_FOUND 'OTHER))) " + mark("end") + " 1)\n"
        return dict(files={}, argv=["-d", "-e", pre], stdfd=io, actors=actors)

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        lines = [l for l in sink(res, "out").split("\n") if l and not l.startswith("Accepting connection from ")]
        want = []
        for i, c in enumerate(case["clients"]):
            got = sink(res, "c%d" % i)
            exp = ""
            for j in range(len(c)):
                want.append(handler_line(dict(op="GET", path=self.path(case, i, j), hs=[["Host", "localhost"], ["Connection", "close"]])))
                exp += L.text(L.canon(["l", [["s", "R"], ["str", "404"], ["str", "Not Found"], header_value([["Connection", "close"]])]] if c[j][0] == "n" else
                                      ["l", [["s", "R"], ["str", "500"], ["str", "Internal Server Error"], header_value([["Connection", "close"]])]]), True) + "\nE\n"
            if got != exp:
                return ["response: client %d expected %r observed %r" % (i, exp[:300], got[:300])]
        if sorted(want) != sorted(lines):
            d = [l for l in want if l not in lines] + [l for l in lines if l not in want]
            return ["handler: %d requests, %d calls, difference %r" % (len(want), len(lines), d[:3])]
        if not marks(res, "end") or code(res):
            return ["server: http/serve never returned, the interpreter ended with %s" % code(res)]
        return []

    def tags(self, case, res):
        return ["both"]


SCENARIOS = [Serve("clients", 3, "plain"), Serve("faulty", 2, "faulty"), Both()]
