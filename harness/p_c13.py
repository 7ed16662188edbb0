"""C13: sockets connect and carry all bytes, or fail cleanly and can be retried."""
import random
import re

from common import *

LOADS = ("(load '(io in out prin prinl print printl readline) '(std \\ list let prog if unless while when nil? <- cons def) '(logic = <> and or not) '(math + - <) "
         "'(unix unlink close connect listen accept fork wait select))\n")
STEPS = ("socket", "setsockopt", "connect", "bind", "listen", "accept")


def lit(s):
    return L.literal(["str", s])


def line(r):
    n = r.choice([1, 2, 5, 30, 200]) if r.random() < 0.93 else r.choice([1023, 1024, 1025, 3000, 4096, 5000])
    return "".join(r.choice(L.PRINT) for _ in range(n))


def say(lines):
    """Program text that prints these lines, in one or several calls."""
    return "".join("(prinl '%s)" % lit(x) for x in lines)


def fails(res, a, b, kinds):
    return sum(1 for f in res["faults"] if f[0] in kinds and a <= f[1] <= b)


def first_diff(e, o):
    for i in range(max(len(e), len(o))):
        x, y = e[i] if i < len(e) else None, o[i] if i < len(o) else None
        if x != y:
            return "line %d: expected %r observed %r" % (i, x and x[:160], y and y[:160])
    return None


def faults(r, f, kinds):
    f["net_split"] = {"p": r.choice([0, 2000, 8000])}
    f["short_read"] = {"p": r.choice([0, 0, 2000, 8000]), "only": "sock"}
    f["short_write"] = {"p": r.choice([0, 0, 4000]), "only": "sock"}
    for x in r.sample(kinds, min(len(kinds), r.choice([0, 1, 1, 2, 9]))):
        f[x] = {"p": r.choice([1000, 4000, 9000]), "max": r.choice([1, 2, 5])}


class Client(Scenario):
    """The program connects, possibly after failures, writes and reads; the peer is simulated."""
    name = "client"
    weight = 2
    list_keys = ("conns",)

    def gen(self, r, tier):
        k, f = delivery(r)
        k["wait_actors"] = 1
        faults(r, f, ["socket", "setsockopt", "connect"])
        conns = [{"up": [line(r) for _ in range(r.choice([0, 1, 2, 6]))], "down": [line(r) for _ in range(r.choice([0, 1, 2, 6]))], "late": r.choice([0, 0, 0, 1, 3]),
                  "addr": r.choice(["localhost", "127.0.0.1", "10.1.2.3"]), "first": r.choice(["write", "read"]), "rs": r.randrange(1 << 30)} for _ in range(r.choice([1, 1, 2, 4]))]
        return dict(conns=conns, knobs=k, faults=f)

    def job(self, case):
        io = dict(NULL_IO)
        actors, prog = [], ""
        for i, c in enumerate(case["conns"]):
            r = random.Random(c["rs"])
            ops = []
            if c["late"]:
                ops += [{"op": "push", "data": "go\n"}, {"op": "expect", "a": ["out", c["late"]], "data": "no%d\n" % i}, {"op": "listen", "a": [7200 + i]}, {"op": "push", "data": "up\n"}, {"op": "closew"}]
            else:
                ops += [{"op": "listen", "a": [7200 + i]}, {"op": "push", "data": "go\n"}, {"op": "closew"}]
            ops += [{"op": "accept"}]
            if c["first"] == "write" and c["up"] and r.random() < 0.5:
                ops += [{"op": "recvpat", "a": [len(c["up"])], "data": "\n"}]
            for o in pieces(r, "".join(x + "\n" for x in c["down"])):
                if o["op"] == "push":
                    ops.append({"op": "send", "data": o["data"]})
                elif o["op"] == "sleep":
                    ops.append(o)
            ops += [{"op": "shutw"}, {"op": "recveof"}, {"op": "close"}]
            actors.append({"name": "u%d" % i, "ops": ops})
            io[20 + i] = ["pipein", "u%d" % i]
            try_ = "(unless (connect \"%s\" \"%d\") (printl 'no%d))" % (c["addr"], 7200 + i, i)
            w = "(out fd %s)" % say(c["up"])
            rd = "(in fd (let ((l . (readline))) (while (<> l 'EOF) (printl (list 'L l)) (<- 'l (readline)))))"
            prog += ("(in %d (readline))%s(let ((fd . NIL)) %s (while (nil? fd) (<- 'fd (connect \"%s\" \"%d\")) (unless fd (printl 'no%d))) (printl 'up%d)%s %s %s %s (close fd))%s" % (
                20 + i, mark("a%d" % i), try_ * c["late"] + ("(in %d (readline))%s" % (20 + i, mark("l%d" % i)) if c["late"] else ""), c["addr"], 7200 + i, i, i, mark("c%d" % i), w if c["first"] == "write" else "", rd, w if c["first"] != "write" else "", mark("b%d" % i)))
        return dict(files={"/work/p.l": LOADS + prog + "(printl 'done)\n"}, argv=["-d", "p.l"], stdfd=io, actors=actors)

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        if code(res) != 0:
            return ["status: the program ended with %s" % code(res)]
        m = {x["name"]: x for x in res["marks"]}
        out = sink(res, "out").split("\n")
        exp = []
        for i, c in enumerate(case["conns"]):
            if "a%d" % i not in m or "b%d" % i not in m or "c%d" % i not in m:
                return ["progress: connection %d is missing" % i]
            a, b = m["a%d" % i], m["b%d" % i]
            if a["fds"] != b["fds"]:
                return ["descriptor: connection %d: descriptors before %s and after %s" % (i, sorted(a["fds"]), sorted(b["fds"]))]
            extra = [x for x in m["c%d" % i]["fds"] if x not in a["fds"]]
            if len(extra) != 1:
                return ["descriptor: connection %d holds %d descriptors once connected" % (i, len(extra))]
            got = sum(1 for x in out if x == "no%d" % i)
            lo = c["late"] + fails(res, m["l%d" % i]["step"] if c["late"] else a["step"], b["step"], STEPS)
            if got != lo:
                return ["failure: connection %d: %d attempts failed where %d should" % (i, got, lo)]
            exp += ["no%d" % i] * got + ["up%d" % i] + ["(L %s)" % lit(x) for x in c["down"]]
            rx = [z for s, a_, pc, op, z in res["acts"] if a_ == "u%d" % i and op == "recveof"]
            e = "fin:" + "".join(x + "\n" for x in c["up"])
            if rx != [e]:
                return ["bytes: connection %d: the peer got %s" % (i, diff(e, rx[0]) if rx else "nothing")]
        d = first_diff(exp + ["done", ""], out)
        return ["bytes: " + d] if d else []

    def tags(self, case, res):
        t = set("fault:" + f[0] for f in res["faults"])
        t |= {"refused %d" % c["late"] for c in case["conns"]}
        return t


class Server(Scenario):
    """The program listens, possibly after failures, and serves simulated clients one by one or side by side."""
    name = "server"
    weight = 2
    list_keys = ("clients",)

    def gen(self, r, tier):
        k, f = delivery(r)
        k["wait_actors"] = 1
        faults(r, f, ["socket", "setsockopt", "bind", "listen", "accept"])
        if "accept" in f:
            f["accept"]["window"] = 1
        clients = []
        for i in range(r.choice([1, 1, 2, 3, 5])):
            clients.append({"id": i, "ip": r.choice([0x7f000001, r.randrange(1 << 24, 0xdf000000), 0x0a000001, 0xc0a80101, 0x01020304, 0xfffefdfc]),
                            "port": r.choice([1, 80, 255, 256, 1024, 32767, 32768, 49152, 65534, 65535]) if r.random() < 0.5 else r.randrange(1, 65536),
                            "lines": [line(r) for _ in range(r.choice([0, 1, 2, 5]))], "reply": [line(r) for _ in range(r.choice([0, 1, 3]))],
                            "end": r.choice(["half", "half", "close", "reset"]), "wait": r.choice([0, 0, 10, 1000]), "rs": r.randrange(1 << 30)})
        return dict(clients=clients, knobs=k, faults=f, held=r.choice([0, 0, 0, 1, 3]), port=r.choice([7000, 1, 80, 65534, 12345]), again=r.random() < 0.5)

    def job(self, case):
        port = case["port"]
        io = dict(NULL_IO)
        io[20] = ["pipein", "h"]
        actors = []
        ops = [{"op": "push", "data": "go\n"}]
        if case["held"]:
            ops = [{"op": "listen", "a": [port, 5, 0]}] + ops + [{"op": "expect", "a": ["out", case["held"]], "data": "no\n"}, {"op": "unlisten"}, {"op": "push", "data": "up\n"}]
        ops += [{"op": "closew"}]
        actors.append({"name": "h", "ops": ops})
        table = ""
        for c in case["clients"]:
            r = random.Random(c["rs"])
            ops = [{"op": "mark", "a": [1], "data": "srv"}]
            if c["wait"]:
                ops.append({"op": "sleep", "a": [c["wait"]]})
            ops.append({"op": "connect", "a": [port, c["ip"], c["port"]]})
            for o in pieces(r, "c%d\n" % c["id"] + "".join(x + "\n" for x in c["lines"])):
                if o["op"] == "push":
                    ops.append({"op": "send", "data": o["data"]})
                elif o["op"] == "sleep":
                    ops.append(o)
            if c["end"] == "half":
                ops += [{"op": "shutw"}, {"op": "recveof"}, {"op": "close"}]
            else:
                ops += [{"op": c["end"]}]
            actors.append({"name": "c%d" % c["id"], "ops": ops})
            if c["reply"]:
                table += "(when (= id \"c%d\") (out fd %s))" % (c["id"], say(c["reply"]))
        actors.append({"name": "last", "ops": [{"op": "mark", "a": [1], "data": "srv"}, {"op": "sleep", "a": [60000000]}, {"op": "disarm"}, {"op": "connect", "a": [port, 0x7f000001, 5]},
                                               {"op": "send", "data": "quit\n"}, {"op": "recveof"}, {"op": "close"}]})
        lis = "(let ((s . NIL)) (while (nil? s) (<- 's (listen %d)) (unless s (printl 'no))) s)" % port
        try_ = "(unless (listen %d) (printl 'no))" % port
        prog = ("(in 20 (readline))%s(let ((srv . (prog \1 %s)) (go . T)) (printl 'up)%s%s "
                "(while go (let (((fd . (host . port)) . (accept srv))) (if fd (prog (printl (list 'A host port)) (in fd (let ((id . (readline)) (l . (readline))) "
                "(when (= id \"quit\") (<- 'go NIL)) (printl (list 'I id)) (while (<> l 'EOF) (printl (list 'L l)) (<- 'l (readline))) %s NIL)) (close fd)) (printl 'drop)))) (close srv))%s" % (
                    mark("a"), lis, mark("arm"), mark("srv"), table, mark("b")))
        prog = prog.replace("(let ((id . (readline)) (l . (readline)))", "(let ((id . (readline)) (l . (if (= id \"quit\") 'EOF (readline))))")
        prog = prog.replace("\1", try_ * case["held"] + ("(in 20 (readline))" + mark("l") if case["held"] else ""))
        if case["again"]:
            prog += "(let ((srv . %s)) (printl 'again) (close srv))%s" % (lis, mark("e"))
        return dict(files={"/work/p.l": LOADS + prog + "(printl 'done)\n"}, argv=["-d", "p.l"], stdfd=io, actors=actors)

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        if code(res) != 0:
            return ["status: the program ended with %s" % code(res)]
        m = {x["name"]: x for x in res["marks"]}
        for x in ("a", "srv", "b") + (("e",) if case["again"] else ()):
            if x not in m:
                return ["progress: the server never got to %s" % x]
            if x in ("b", "e") and m[x]["fds"] != m["a"]["fds"]:
                return ["descriptor: the server leaves %s open" % sorted(set(m[x]["fds"]) - set(m["a"]["fds"]))]
        if len(set(m["srv"]["fds"]) - set(m["a"]["fds"])) != 1:
            return ["descriptor: a listening server holds %d descriptors" % len(set(m["srv"]["fds"]) - set(m["a"]["fds"]))]
        out = sink(res, "out").split("\n")
        n = 0
        while n < len(out) and out[n] == "no":
            n += 1
        ff = case["held"] + fails(res, m["l" if case["held"] else "a"]["step"], m["srv"]["step"], STEPS)
        if n != ff:
            return ["failure: %d attempts to listen failed where %d should" % (n, ff)]
        if out[n:n + 1] != ["up"]:
            return ["failure: unexpected %r" % out[n:n + 1]]
        # split the output by connection
        conns, drops, i = [], 0, n + 1
        while i < len(out) and out[i] not in ("done", "no", "again"):
            if out[i] == "drop":
                drops += 1
            elif out[i].startswith("(A "):
                conns.append([out[i]])
            elif conns:
                conns[-1].append(out[i])
            else:
                return ["bytes: unexpected %r" % out[i][:100]]
            i += 1
        acc = sum(1 for f in res["faults"] if f[0] == "accept")
        if drops != acc:
            return ["failure: accept failed %d times but returned NIL %d times" % (acc, drops)]
        tail = out[i:]
        if case["again"]:
            k = fails(res, m["b"]["step"], m["e"]["step"], STEPS)
            if tail[:k + 1] != ["no"] * k + ["again"]:
                return ["failure: listening again: %r for %d failing calls" % (tail[:5], k)]
            tail = tail[k + 1:]
        if tail != ["done", ""]:
            return ["bytes: unexpected end %r" % tail[:3]]
        aborted = sum(1 for f in res["faults"] if f[0] == "accept" and f[3] == 103)
        missing = 0
        acts = {}
        for s, a, pc, op, z in res["acts"]:
            acts.setdefault(a, []).append((op, z))
        want = {"c%d" % c["id"]: c for c in case["clients"]}
        head = {}
        for c in case["clients"]:
            h = "(A %s %d)" % (lit("%d.%d.%d.%d" % (c["ip"] >> 24, c["ip"] >> 16 & 255, c["ip"] >> 8 & 255, c["ip"] & 255)), c["port"])
            head.setdefault(h, []).append(c)
        seen = set()
        for j, k in enumerate(conns):
            if len(k) < 2 or not k[1].startswith("(I "):
                return ["bytes: connection %d has no first line: %r" % (j, [x[:60] for x in k])]
            c = [w for w in want if k[1] == "(I %s)" % lit(w)]
            if j == len(conns) - 1:
                if k != ["(A %s 5)" % lit("127.0.0.1"), "(I %s)" % lit("quit")]:
                    return ["bytes: last connection shows %r" % [x[:60] for x in k]]
                continue
            cand = head.get(k[0], [])
            if not cand:
                return ["peer: accept reports %s which no client has" % k[0][:120]]
            if not c:
                # a client that reset its connection may have lost everything it sent
                if any(x["end"] == "reset" for x in cand):
                    continue
                return ["bytes: connection from %s starts with %s" % (k[0], k[1][:100])]
            c = want[c[0]]
            if c not in cand:
                return ["peer: accept reports %s for client %s" % (k[0][:120], c["id"])]
            if c["id"] in seen:
                return ["bytes: client %d served twice" % c["id"]]
            seen.add(c["id"])
            e = ["(L %s)" % lit(x) for x in c["lines"]]
            if c["end"] == "reset":
                o = k[2:]
                if len(o) > len(e):
                    return ["bytes: client %d: too many lines" % c["id"]]
                continue
            d = first_diff(e, k[2:])
            if d:
                return ["bytes: client %d: %s" % (c["id"], d)]
            if c["end"] == "half":
                rx = [z for op, z in acts.get("c%d" % c["id"], []) if op == "recveof"]
                e = "fin:" + "".join(x + "\n" for x in c["reply"])
                if rx != [e]:
                    return ["bytes: client %d got %s" % (c["id"], diff(e, rx[0]) if rx else "nothing")]
        for c in case["clients"]:
            ok = [z for op, z in acts.get("c%d" % c["id"], []) if op == "connect"]
            if ok == ["0"] and c["id"] not in seen and c["end"] != "reset":
                missing += 1
        if missing > aborted:
            return ["bytes: %d connected clients were never served (%d aborted)" % (missing, aborted)]
        return []

    def tags(self, case, res):
        t = set("fault:" + f[0] for f in res["faults"])
        t |= {"client:" + c["end"] for c in case["clients"]}
        if case["held"]:
            t.add("port in use")
        return t


class Side(Scenario):
    """Several connections open at once, served in turns."""
    name = "side"
    weight = 1

    def gen(self, r, tier):
        k, f = delivery(r)
        k["wait_actors"] = 1
        faults(r, f, ["socket"])
        n = r.choice([1, 2, 3, 5])
        rounds = r.choice([1, 2, 4])
        return dict(n=n, rounds=rounds, msgs=[[line(r)[:r.choice([3, 2000])] for _ in range(rounds)] for _ in range(n)], rs=r.randrange(1 << 30), knobs=k, faults=f, order=r.choice(["same", "rev"]))

    def job(self, case):
        actors = []
        for i in range(case["n"]):
            ops = [{"op": "mark", "a": [1], "data": "srv"}] + ([{"op": "expect", "a": ["out", i], "data": "conn\n"}] if i else []) + [{"op": "connect", "a": [7000]}]
            for j, x in enumerate(case["msgs"][i]):
                ops += [{"op": "send", "data": x + "\n"}, {"op": "recvpat", "a": [j + 1], "data": "\n"}]
            ops += [{"op": "recveof"}, {"op": "close"}]
            actors.append({"name": "c%d" % i, "ops": ops})
        binds = "".join("(f%d . (let (((c . a) . (accept srv))) (printl 'conn) c)) " % i for i in range(case["n"]))
        order = list(range(case["n"]))
        if case["order"] == "rev":
            order.reverse()
        body = ""
        for j in range(case["rounds"]):
            for i in order:
                body += "(let ((l . (in f%d (readline)))) (printl (list %d l)) (out f%d (prinl '%s l)))" % (i, i, i, lit("%d.%d:" % (i, j)))
        prog = "(let ((srv . NIL)) (while (nil? srv) (<- 'srv (listen 7000)))%s(let (%s) %s %s) (close srv))" % (
            mark("srv"), binds, body, "".join("(close f%d)" % i for i in range(case["n"])))
        return dict(files={"/work/p.l": LOADS + prog + mark("b") + "(printl 'done)\n"}, argv=["-d", "p.l"], actors=actors)

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        if code(res) != 0:
            return ["status: the program ended with %s" % code(res)]
        order = list(range(case["n"]))
        if case["order"] == "rev":
            order.reverse()
        exp = ["conn"] * case["n"] + ["(%d %s)" % (i, lit(case["msgs"][i][j])) for j in range(case["rounds"]) for i in order] + ["done", ""]
        d = first_diff(exp, sink(res, "out").split("\n"))
        if d:
            return ["bytes: " + d]
        for i in range(case["n"]):
            rx = [z for s, a, pc, op, z in res["acts"] if a == "c%d" % i and op == "recveof"]
            e = "fin:" + "".join("%d.%d:%s\n" % (i, j, case["msgs"][i][j]) for j in range(case["rounds"]))
            if rx != [e]:
                return ["bytes: client %d got %s" % (i, diff(e, rx[0]) if rx else "nothing")]
        if set(marks(res, "b")[0]["fds"]) - {"0", "1", "2", "3"}:
            return ["descriptor: left open: %s" % sorted(marks(res, "b")[0]["fds"])]
        return []


class Pair(Scenario):
    """Both ends are interpreters: the parent listens, forked children connect."""
    name = "pair"
    weight = 1

    def gen(self, r, tier):
        k, f = delivery(r)
        faults(r, f, ["connect"])
        n = r.choice([1, 2, 3])
        return dict(n=n, up=[[line(r) for _ in range(r.choice([0, 1, 3]))] for _ in range(n)], down=[[line(r) for _ in range(r.choice([0, 1, 3]))] for _ in range(n)], knobs=k, faults=f)

    def job(self, case):
        prog = "(let ((srv . (listen 7000)))"
        kids = ""
        for i in range(case["n"]):
            kids = ("(let ((p%d . (fork))) (if (<> p%d 0) (prog \2 (wait p%d)) (let ((fd . NIL)) (while (nil? fd) (<- 'fd (connect \"localhost\" \"7000\"))) (out fd (prinl \"k%d\") %s (prinl \"-e-n-d-\")) "
                    "(in fd (let ((l . (readline))) (while (<> l 'EOF) (out 10 (printl (list %d l))) (<- 'l (readline))))) (close fd))))" % (i, i, i, i, say(case["up"][i]), i)).replace("\2", kids or "\1")
        table = "".join("(when (= id \"k%d\") (out fd %s))" % (i, say(d)) for i, d in enumerate(case["down"]) if d)
        acc = ("(let ((n . 0)) (while (< n %d) (let (((fd . adr) . (accept srv))) (in fd (let ((id . (readline)) (l . (readline))) (printl (list 'K id)) (while (<> l \"-e-n-d-\") (printl (list 'L l)) (<- 'l (readline))) %s)) "
               "(close fd) (<- 'n (+ n 1)))))" % (case["n"], table))
        prog += kids.replace("\1", acc) + ")"
        return dict(files={"/work/p.l": LOADS + prog + "\n"}, argv=["-d", "p.l"], stdfd={0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"], 10: ["sink", "kids"]})

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        out = sink(res, "out").split("\n")
        got, cur = {}, None
        for l in out[:-1]:
            if l.startswith("(K "):
                if l in got:
                    return ["bytes: %s served twice" % l]
                cur = got[l] = []
            elif cur is not None and l.startswith("(L "):
                cur.append(l)
            else:
                return ["bytes: unexpected %r" % l[:80]]
        for i in range(case["n"]):
            d = first_diff(["(L %s)" % lit(x) for x in case["up"][i]], got.get("(K %s)" % lit("k%d" % i), ["missing"]))
            if d:
                return ["bytes: from child %d: %s" % (i, d)]
        ks = "".join(by_pid(res, "kids").values()).split("\n")
        for i in range(case["n"]):
            e = ["(%d %s)" % (i, lit(x)) for x in case["down"][i]]
            d = first_diff(e, [l for l in ks if l.startswith("(%d " % i)])
            if d:
                return ["bytes: to child %d: %s" % (i, d)]
        return []


class Invalid(Scenario):
    """Arguments that cannot work give NIL and hold nothing."""
    name = "invalid"
    weight = 1

    def gen(self, r, tier):
        k, f = delivery(r)
        faults(r, f, ["socket", "setsockopt"])
        return dict(exprs=[r.choice(['(connect "localhost" "abc")', '(connect "10.0.0.1" "99999x")', '(connect "localhost" 7)', "(connect NIL \"7\")", "(connect \"nohost.invalid\" \"7\")",
                                     "(listen -1)", "(listen 65536)", "(listen 'a)", "(listen NIL)", '(listen "7000")', "(accept -1)", "(accept 99)", "(accept 0)", "(accept 'x)", "(accept NIL)",
                                     "(accept (listen -1))", '(connect "localhost" "7999")', '(connect "1.2.3.4.5" "80")', "(listen 1000000000000)", "(accept 4294967296)",
                                     '(connect "%s" "80")' % ("h" * r.choice([64, 255, 1023, 1024, 1025, 9000])), '(connect "localhost" "%s")' % ("9" * r.choice([6, 20, 1023, 1024, 1025, 9000]))]) for _ in range(r.choice([1, 3, 8]))],
                    knobs=k, faults=f)
    list_keys = ("exprs",)

    def job(self, case):
        return dict(files={"/work/p.l": LOADS + "".join("%s(printl %s)%s\n" % (mark("a%d" % i), e, mark("b%d" % i)) for i, e in enumerate(case["exprs"])) + "(printl 'done)\n"}, argv=["-d", "p.l"])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        e = "NIL\n" * len(case["exprs"]) + "done\n"
        if sink(res, "out") != e or code(res) != 0:
            return ["invalid: status %s, %s" % (code(res), diff(e, sink(res, "out")))]
        m = {x["name"]: x for x in res["marks"]}
        for i, x in enumerate(case["exprs"]):
            if m["a%d" % i]["fds"] != m["b%d" % i]["fds"]:
                return ["descriptor: %s changes the open descriptors" % x]
        return []


SCENARIOS = [Client(), Server(), Side(), Pair(), Invalid()]
