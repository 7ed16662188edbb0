"""C10: select calls back exactly the ready descriptors and keeps the set right."""
import random
import re

from common import *

LOADS = ("(load '(io in out prin prinl print printl readline) '(std if prog let when while list cons \\ cond <- def setq) '(logic = <>) "
         "'(unix unlink close pipe select connect dup))")


def lit(s):
    return L.literal(["str", s])


class Own(Scenario):
    """The program fills and closes its own pipes, so which descriptors are ready at each select is known exactly."""
    name = "own"
    weight = 3
    list_keys = ("rounds",)

    def gen(self, r, tier):
        k, f = delivery(r)
        n = r.choice([1, 2, 3, 5, 8])
        extra = r.choice([0, 0, 1, 2])
        rounds = [[[r.randrange(n + extra), r.choice(["keep", "keep", "drop", "self", "str", "close", "add", "t", "big"])] for _ in range(r.choice([1, 2, 3, 6]))]
                  for _ in range(r.choice([1, 2, 4, 8]))]
        perm = list(range(n + extra))
        if r.random() < 0.5:
            r.shuffle(perm)
        return dict(n=n, extra=extra, perm=perm, rounds=rounds, knobs=k, faults=f, onerr=r.random() < 0.3, order=r.random() < 0.5, top=r.choice(["script", "expr"]),
                    fn=r.choice(["inline", "var", "def"]))

    def model(self, case):
        """Per round: writes that make sense, callbacks expected, resulting set."""
        n, tot = case["n"], case["n"] + case["extra"]
        S = list(range(n))
        if case["order"]:
            S.reverse()
        start = list(S)
        pend, closed, gone = {}, set(), set()
        plan = []
        for rd in case["rounds"]:
            if not S:
                break
            ws = []
            for p, m in rd + [[S[0], "keep"]]:
                if p in gone or p in pend or p in closed:
                    continue
                if (p, m) == (S[0], "keep") and any(q in pend or q in closed for q in S):
                    continue
                if m == "add" and p not in S:
                    m = "keep"
                if m == "close":
                    closed.add(p)
                else:
                    pend[p] = m
                ws.append((p, m))
            new, cbs = [], []
            outside = [q for q in range(n, tot) if q not in S and q not in gone]
            snap = list(S)
            for q in snap:
                if q in pend or q in closed:
                    m = pend.pop(q, None)
                    cbs.append((q, m))
                    if m is None or m == "drop":
                        gone.add(q)
                    elif m == "add" and outside:
                        new += [outside.pop(0), q]
                        cbs[-1] = (q, m, new[-2])
                    else:
                        new.append(q)
                else:
                    new.append(q)
            S = new
            plan.append((ws, cbs, list(S)))
        return start, plan

    def job(self, case):
        tot = case["n"] + case["extra"]
        start, plan = self.model(case)
        arms = ["(= L 'EOF) NIL", '(= L "drop") NIL', '(= L "self") fd', '(= L "str") "x"', '(= L "t") T'] + [
            '(= L "add%d") R%d' % (q, q) for q in range(case["n"], tot)]
        h = "(let ((L . (in fd (readline)))) (printl (list 'cb fd L)) %s 'kept%s)" % (" ".join("(if " + a for a in arms), ")" * len(arms))
        fn = "(\\ (fd) %s)" % h
        body = []
        for ws, cbs, S in plan:
            adds = {c[0]: c[2] for c in cbs if len(c) > 2}
            for p, m in ws:
                if m == "close":
                    body.append("(close W%d)" % p)
                else:
                    body.append('(out W%d (prinl "%s"))' % (p, "add%d" % adds[p] if p in adds else "b" * 3000 if m == "big" else m))
            body.append("(let (((r e) . (select fds %s %s))) (<- 'fds r) (printl (list 'set r)))" % (
                "H" if case["fn"] != "inline" else fn, "(\\ (x) (printl 'ERR) T)" if case["onerr"] else "NIL"))
        bind = "".join("((R%d . W%d) . (pipe)) " % (i, i) for i in case["perm"])
        hb = "(H . %s) " % fn if case["fn"] != "inline" else ""
        prog = "(let (%s%s(fds . (list %s))) (printl (list 'p %s)) %s %s)" % (
            bind, hb, " ".join("R%d" % i for i in start), " ".join("R%d" % i for i in range(tot)), " ".join(body), mark("end"))
        files = {}
        if case["top"] == "script":
            files["/work/p.l"] = LOADS + "\n" + prog + "\n"
            return dict(files=files, argv=["p.l"])
        return dict(files=files, argv=["-e", LOADS + prog])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        out = sink(res, "out").split("\n")
        m = re.match(r"\(p((?: \d+)+)\)$", out[0])
        if not m:
            return []
        R = [int(x) for x in m.group(1).split()]
        start, plan = self.model(case)
        exp = [out[0]]
        gone = set()
        for ws, cbs, S in plan:
            for c in cbs:
                msg = "EOF" if c[1] is None else lit("add%d" % c[2] if len(c) > 2 else "b" * 3000 if c[1] == "big" else c[1])
                exp.append("(cb %d %s)" % (R[c[0]], msg))
                if c[1] in (None, "drop"):
                    gone.add(c[0])
            exp.append("(set %s)" % ("(" + " ".join(str(R[q]) for q in S) + ")" if S else "NIL"))
        exp.append("")
        for i in range(max(len(exp), len(out))):
            e, o = exp[i] if i < len(exp) else None, out[i] if i < len(out) else None
            if e != o:
                return ["select: line %d: expected %r observed %r" % (i, e and e[:150], o and o[:150])]
        end = marks(res, "end")
        if end:
            for i, fd in enumerate(R):
                if (str(fd) in end[0]["fds"]) == (i in gone):
                    return ["select: descriptor %d is %s although its callback %s" % (fd, "open" if i in gone else "closed", "returned NIL" if i in gone else "kept it")]
        return []

    def tags(self, case, res):
        start, plan = self.model(case)
        t = set()
        for ws, cbs, S in plan:
            t.add("%d of %d ready" % (min(len(cbs), 4), min(len(S), 6)))
            for c in cbs:
                t.add("callback:" + str(c[1]))
        return t


class Served(Scenario):
    """Peers write into pipes and sockets while the program loops on select; signals and failing waits come in between."""
    name = "served"
    weight = 3
    list_keys = ("peers",)

    def gen(self, r, tier):
        k, f = delivery(r)
        k["maxsteps"] = 150000
        f.pop("short_read", None)
        if r.random() < 0.4:
            f["select"] = {"p": r.choice([1000, 4000]), "max": r.choice([1, 3, 10])}
        peers = []
        for i in range(r.choice([1, 2, 3, 5])):
            peers.append({"msgs": ["m%d.%d" % (i, j) + "x" * r.choice([0, 0, 5, 1020, 3000] if r.random() < 0.2 else [0, 3]) for j in range(r.choice([0, 1, 2, 4, 8]))],
                          "gap": r.choice([0, 0, 10, 1000, 1000, 90000000]), "end": r.choice(["close", "drop", "close"]), "fd": 10 + i, "kind": r.choice(["pipe", "pipe", "sock"])})
        sig = [[r.choice([1, 50, 500, 3000, 20000]), r.choice([15, 3])] for _ in range(r.choice([0, 0, 1, 3, 6]))]
        k["p_sigbefore"] = r.choice([0, 5000])
        return dict(peers=peers, sig=sig, knobs=k, faults=f, rs=r.randrange(1 << 30))

    def job(self, case):
        # listening peers announce themselves before the program connects
        pre = ""
        io = {0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"]}
        actors = []
        binds = ""
        rs = []
        ns = 0
        for p in case["peers"]:
            ops = []
            name = "u%d" % p["fd"]
            sock = p["kind"] == "sock"
            if sock:
                ns += 1
                ops += [{"op": "listen", "a": [7000 + p["fd"]]}, {"op": "push", "data": "go\n"}, {"op": "closew"}, {"op": "accept"}]
                io[p["fd"] + 30] = ["pipein", name]
                pre += "(in %d (readline))\n" % (p["fd"] + 30)
                binds += '(F%d . (connect "localhost" "%d")) ' % (p["fd"], 7000 + p["fd"])
                rs.append("F%d" % p["fd"])
            else:
                io[p["fd"]] = ["pipein", name]
                rs.append(str(p["fd"]))
            send = "send" if sock else "push"
            for m in p["msgs"]:
                if p["gap"]:
                    ops.append({"op": "sleep", "a": [p["gap"]]})
                ops.append({"op": send, "data": m + "\n"})
                ops.append({"op": "expect", "a": ["out", 1], "data": " " + lit(m) + ")"})
            if p["end"] == "drop":
                ops += [{"op": send, "data": "drop\n"}]
                if sock:
                    ops += [{"op": "recveof"}, {"op": "close"}]
            else:
                ops.append({"op": "close" if sock else "closew"})
            actors.append({"name": name, "ops": ops})
        if case["sig"]:
            ops = [{"op": "mark", "a": [1], "data": "loop"}]
            for t, s in case["sig"]:
                ops += [{"op": "sleep", "a": [t]}, {"op": "sig", "a": [0, s]}]
            actors.append({"name": "s", "ops": ops})
        h = "(\\ (fd) (let ((L . (in fd (readline)))) (printl (list 'cb fd L)) (if (= L 'EOF) NIL (if (= L \"drop\") NIL T))))"
        prog = pre + ("(let (%s(fds . (list %s)) (H . %s)) (printl (cons 'p fds)) %s (while fds (let ((v . (select fds H NIL))) (if v (let (((r e) . v)) (<- 'fds r) "
                "(printl (list 'set r))) (printl 'nil)))) %s)" % (binds, " ".join(rs), h, mark("loop"), mark("end")))
        return dict(files={"/work/p.l": LOADS + "\n" + prog + "\n"}, argv=["p.l"], stdfd=io, actors=actors)

    def check(self, case, res):
        if res["end"] == "budget" and res["fired"].get("select", 0) > 5:
            return []
        v = ended(res)
        if v:
            return v
        out = sink(res, "out").split("\n")
        m = re.match(r"\(p((?: \d+)+)\)$", out[0])
        if not m:
            return []
        fds = [int(x) for x in m.group(1).split()]
        S = list(fds)
        got = {f: [] for f in fds}
        seen, drop = [], set()
        nils = 0
        for i, l in enumerate(out[1:-1]):
            m = re.match(r"\(cb (\d+) (.*)\)$", l)
            if m:
                fd = int(m.group(1))
                if fd in seen or fd not in S:
                    return ["select: callback for %d which is %s (line %d)" % (fd, "not in the set" if fd not in S else "called back already", i)]
                seen.append(fd)
                got[fd].append(m.group(2))
                if m.group(2) in ("EOF", lit("drop")):
                    drop.add(fd)
            elif l == "nil":
                nils += 1
                if seen:
                    return ["select: failed wait called back %s" % seen]
            elif l.startswith("(set "):
                if not seen:
                    return ["select: returned without calling back (line %d)" % i]
                S = [f for f in S if f not in drop]
                e = "(set %s)" % ("(" + " ".join(map(str, S)) + ")" if S else "NIL")
                if l != e:
                    return ["select: set expected %s observed %s" % (e, l[:200])]
                seen, drop = [], set()
            else:
                return ["select: unexpected output %r" % l[:100]]
        failed = res["fired"].get("eintr", 0) + res["fired"].get("select", 0)
        if nils != failed:
            return ["select: %d waits failed or were interrupted, %d returned NIL" % (failed, nils)]
        for p, fd in zip(case["peers"], fds):
            e = [lit(x) for x in p["msgs"]] + ([lit("drop")] if p["end"] == "drop" else ["EOF"])
            if got[fd] != e:
                return ["data: descriptor %d expected %s observed %s" % (fd, e[:8], got[fd][:8])]
        end = marks(res, "end")
        if not end:
            return ["select: the loop did not end"]
        for fd in fds:
            if str(fd) in end[0]["fds"]:
                return ["select: descriptor %d still open" % fd]
        return []

    def tags(self, case, res):
        t = {"%d descriptors" % len(case["peers"])}
        if res["fired"].get("eintr"):
            t.add("a wait was interrupted")
        if res["fired"].get("select"):
            t.add("a wait failed")
        return t


class Bad(Scenario):
    """A set with a descriptor that is not open: NIL, nothing called, nothing closed."""
    name = "bad"
    weight = 1

    def gen(self, r, tier):
        k, f = delivery(r)
        return dict(knobs=k, faults=f, set=r.choice(["(list R 77)", "(list 77 R)", "'(77)", "5", "'a", "T", "(list R R2 99)"]), cb=r.choice(["H", "NIL"]))

    def job(self, case):
        prog = ("(let (((R . W) . (pipe)) ((R2 . W2) . (pipe)) (H . (\\ (x) (printl 'called) NIL))) (out W (prinl 1)) (out W2 (prinl 1)) %s (printl (select %s %s NIL)) %s "
                "(printl (in R (readline))) (printl (in R2 (readline))))" % (mark("b"), case["set"], case["cb"], mark("a")))
        return dict(files={"/work/p.l": LOADS + "\n" + prog + "\n"}, argv=["p.l"])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        e = "NIL\n%s\n%s\n" % (lit("1"), lit("1"))
        if sink(res, "out") != e:
            return ["select: " + diff(e, sink(res, "out"))]
        if marks(res, "a")[0]["fds"] != marks(res, "b")[0]["fds"]:
            return ["select: a failing wait changed the descriptors"]
        return []


SCENARIOS = [Own(), Served(), Bad()]
