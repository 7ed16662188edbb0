"""C06: no operation leaks or steals a descriptor, also when it fails."""
from common import *

LOADS = ("(load '(io in out prin prinl print printl read readline) '(std if prog car cdr quit let when unless cons list \\ def) '(logic =) "
         "'(unix fork wait exec unlink dup close pipe listen accept connect select) \"@lib/run.l\" \"@lib/http.l\")")

FAULTS = {"open": 3000, "dup": 2500, "read_eio": 1500, "write_err": 1500, "pipe": 4000, "fork": 3000, "exec": 3000, "socket": 3000,
          "setsockopt": 2500, "bind": 3000, "connect": 3000, "listen": 3000, "accept": 3000, "stat": 2000, "getcwd": 1000, "select": 3000,
          "short_read": 2000, "short_write": 2000, "eintr": 300}


class Fds(Scenario):
    list_keys = ("ops",)

    def __init__(self, name, weight, faulty, depth):
        self.name = name
        self.weight = weight
        self.faulty = faulty
        self.depth = depth

    def gen(self, r, tier):
        k, f = delivery(r)
        k["maxsteps"] = 60000
        f.pop("short_read", None)
        if self.faulty:
            for x in r.sample(sorted(FAULTS), r.choice([1, 2, 3, 6])):
                f[x] = {"p": r.choice([FAULTS[x] // 4, FAULTS[x], 10000 if x not in ("eintr", "short_read", "short_write") else FAULTS[x]]),
                        "window": 1}
                if r.random() < 0.3:
                    f[x]["max"] = r.choice([1, 2])
        self.n = 0
        self.eof4 = False
        return dict(ops=[self.op(r, 0) for _ in range(r.choice([1, 2, 4, 8]))], knobs=k, faults=f, top=r.choice(["script", "expr"]))

    def op(self, r, depth):
        self.n += 1
        i = self.n
        t = r.choice(["in", "inbad", "infd", "out", "outbad", "outfd", "load", "mod", "run", "run", "pipe", "listen", "accept", "connect", "connect",
                      "fork", "close", "closebad", "select", "get", "dup"])
        o = {"t": t, "id": i, "var": r.randrange(1000)}
        if t in ("in", "out", "outfd", "load") and depth < self.depth:
            o["body"] = [self.op(r, depth + 1) for _ in range(r.choice([0, 1, 2]))]
        return o

    def emit(self, ops, files, actors, stdfd):
        out = []
        for o in ops:
            i, t, v = o["id"], o["t"], o["var"]
            body = " ".join(self.emit(o.get("body", []), files, actors, stdfd))
            got = '(if F %s %s)' % (mark("o%d" % i), mark("n%d" % i))
            if t == "in":
                files["/work/in%d" % i] = ["", "one\n(two)\n", "(a b", '"xx', "a\n" * 900][v % 5]
                e = '(in "in%d" %s %s)' % (i, body, ["", "(readline)", "(read)", "(readline) (read)"][v % 4])
            elif t == "inbad":
                e = "(in %s (readline))" % ['"none"', '"/a/b"', "88", "-1", "'x", "T", '""', "(car NIL 1)"][v % 7]
            elif t == "infd":
                e = "(in 5 (readline))"
            elif t == "out":
                e = '(out %s %s (prinl "x%d"))' % (['"out%d"' % i, '"/work/o%d"' % i][v % 2], body, i)
            elif t == "outbad":
                e = "(out %s (prinl 1))" % ['"none/x"', '"/a/b"', "88", "-1", "'x", "T", "5"][v % 7]
            elif t == "outfd":
                e = '(out %d %s (prinl "x%d"))' % (3 + v % 2, body, i)
            elif t == "load":
                files["/work/l%d.l" % i] = body + "\n" + ["1", "(a b", ")", '"', "(load \"none\")", ""][v % 6] + "\n"
                e = '(load %s)' % ['"l%d.l"' % i, '"./l%d.l"' % i, '"none.l"', '"/a/b.l"', '"/work/l%d.l"' % i][v % 5]
            elif t == "mod":
                e = "(load %s)" % ["'(math + -)", "'(nomod x)", "'(math nosym)", "'std", "'nomod", '"@lib/rev.l"', '"@lib/none.l"', "'(logic = and none)",
                                   "'(http get)", "'math"][v % 10]
            elif t == "run":
                files["/bin/x%d" % i] = {"kind": "prog", "mode": 0o755 if v % 3 else 0o644, "data": ["W 1 4\nabc\nX 3\n", "X 0\n", "C 1\nX 1\n", "K 9\n", "E\nX 0\n",
                                         "Z 50\nW 1 2\na\nX 0\n"][v % 6]}
                e = '(run "/bin/%s%d" %s %s)' % ("x" if v % 5 else "none", i, ['NIL', '\'("a" "b")'][v % 2], ["NIL", '\'(("K" . "v"))'][v // 2 % 2])
            elif t == "pipe":
                mid = ["", '(out W (prinl "hey")) (close W) (in R (readline))', '(out W (prin "z"))', "(out R (prin 1))"][v % 4]
                e = "(let (((R . W) . (pipe)) (F . R)) (if F %s %s) (when F %s) (close R W))" % (mark("w%d" % i), mark("n%d" % i), mid)
            elif t == "listen":
                e = "(let ((F . (listen %s))) %s (close F))" % (["%d" % (7000 + i), "%d" % (7000 + i), "70000", "-1", "'x", "7999"][v % 6], got)
            elif t == "accept":
                actors.append({"name": "a%d" % i, "ops": [{"op": "connect", "a": [7000 + i]}] + [
                    [{"op": "send", "data": "hello\n"}, {"op": "close"}], [{"op": "reset"}], [{"op": "send", "data": "x"}, {"op": "recveof"}, {"op": "close"}],
                    [{"op": "shutw"}, {"op": "recveof"}, {"op": "close"}], [{"op": "sleep", "a": [1000]}, {"op": "close"}]][v % 5]})
                use = ["(in F (readline))", '(out F (prinl "hi"))', "", '(out F (prinl "hi")) (in F (readline))'][v % 4]
                if v % 5 == 2:
                    use = use.replace("(in F (readline))", "")
                e = "(let ((S . (listen %d))) (when S (let (((F . A) . (accept S))) %s (when F %s) (close F))) (close S))" % (7000 + i, got, use)
                e = e.replace(mark("o%d" % i), mark("s%d" % i)).replace(mark("n%d" % i), mark("t%d" % i))
            elif t == "connect":
                actors.append({"name": "a%d" % i, "ops": [{"op": "listen", "a": [8000 + i]}, {"op": "accept"}] + [
                    [{"op": "send", "data": "hello\n"}, {"op": "close"}], [{"op": "reset"}], [{"op": "recveof"}, {"op": "close"}],
                    [{"op": "shutw"}, {"op": "recveof"}, {"op": "close"}]][v % 4]})
                use = ["(in F (readline))", '(out F (prinl "hi"))', "", '(out F (prinl "hi")) (in F (readline))'][v // 4 % 4]
                if v % 4 == 2:
                    use = use.replace("(in F (readline))", "")
                tgt = ['"localhost" "%d"' % (8000 + i), '"127.0.0.1" "%d"' % (8000 + i), '"localhost" "%d"' % (9000 + i), '"nohost" "80"', '"localhost" "nosvc"', "1 2",
                       '"localhost" "%d"' % (8000 + i)][v // 16 % 7]
                e = "(let ((F . (connect %s))) %s (when F %s) (close F))" % (tgt, got, use)
            elif t == "fork":
                files["/bin/y"] = {"kind": "prog", "mode": 0o755, "data": "X 0\n"}
                e = '(let ((P . (fork))) (if (= P 0) (prog %s (exec "/bin/y" NIL NIL)) (wait P)))' % mark("c%d" % i)
            elif t == "close":
                # Descriptors that are open, mixed with values that are none.
                e = "(let ((D . (dup 3)) (E . (dup 4)) (F . (dup 3))) (close %s))" % [
                    "D E F", "F D E", "77 D E F", "D 77 E F", "D 'x E 78 F", "D E F 77", "D D E F", "D NIL E F", "D -1 \"ab\" F E"][v % 9]
            elif t == "closebad":
                e = "(close %s)" % ["NIL", "'x", "\"3\"", "77", "-1", "T", "'(3 4)", "", "NIL NIL", "78 'y"][v % 10]
            elif t == "select":
                e = "(let (((R . W) . (pipe))) (when R (out W (prinl 1)) (close W) (let ((H . (\\ (x) (in x (readline)) T))) (select (list R) H NIL))) (close R W))"
            elif t == "dup":
                e = "(let (((R . W) . (pipe))) (when R (dup 4 R) (close R W)))"
            elif t == "get":
                actors.append({"name": "a%d" % i, "ops": [{"op": "listen", "a": [8000 + i]}, {"op": "accept"}] + [
                    [{"op": "send", "data": "HTTP/1.1 200 OK\r\nA: b\r\n\r\nbody"}, {"op": "close"}], [{"op": "reset"}], [{"op": "close"}],
                    [{"op": "send", "data": "junk\r\n"}, {"op": "recveof"}, {"op": "close"}]][v % 4]})
                e = '(http/get "localhost" "%d" "/" (\\ (c m h) 1))' % (8000 + i)
            out.append("%s %s %s" % (mark("b%d" % i), e, mark("a%d" % i)))
        return out

    def job(self, case):
        files = {"/work/p5": "l1\nl2\n"}
        actors = []
        stdfd = {0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"], 3: ["sink", "d3"], 4: ["sink", "d4"], 5: ["file", "/work/p5"], 6: ["pipein", "u6"]}
        prog = LOADS + "\n" + mark("arm") + "\n" + "\n".join(self.emit(case["ops"], files, actors, stdfd)) + "\n" + mark("disarm") + "\n" + mark("end") + "\n"
        j = dict(files=files, stdfd=stdfd, actors=actors + [{"name": "u6", "ops": [{"op": "push", "data": "six\n"}, {"op": "closew"}]}])
        if case["top"] == "script":
            files["/work/p.l"] = prog
            j["argv"] = ["p.l"]
        else:
            j["argv"] = ["-e", "(prog " + prog + ")"]
        return j

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        top = res["procs"][0]["pid"]
        m = {}
        for x in res["marks"]:
            m[(x["pid"], x["name"])] = x["fds"]
        if (top, "end") not in m:
            return []   # a failing load of the libraries; nothing to judge
        for (pid, name), fds in sorted(m.items()):
            if name[0] not in "aonwcst" or not name[1:].isdigit():
                continue
            b = m.get((pid, "b" + name[1:])) or m.get((top, "b" + name[1:]))
            if b is None:
                return ["mark: %s without its beginning" % name]
            new = {f: o for f, o in fds.items() if b.get(f) != o}
            lost = {f: o for f, o in b.items() if f not in fds}
            extra = {"a": 0, "n": 0, "o": 1, "w": 2, "c": 0, "s": 2, "t": 1}[name[0]]
            if lost:
                return ["descriptor: %s at %s: closed %s" % (self.find(case, name), name, lost)]
            if len(new) != extra:
                return ["descriptor: %s at %s: %d new descriptors expected, observed %s" % (self.find(case, name), name, extra, new)]
        return []

    def find(self, case, name):
        st = list(case["ops"])
        while st:
            o = st.pop()
            if str(o["id"]) == name[1:]:
                return o["t"]
            st += o.get("body", [])

    def tags(self, case, res):
        t = set()
        names = {}
        for m in res["marks"]:
            names.setdefault(m["name"][:1], 0)
        st = list(case["ops"])
        done = set(m["name"][1:] for m in res["marks"])
        while st:
            o = st.pop()
            if str(o["id"]) in done:
                t.add("op:" + o["t"])
            st += o.get("body", [])
        for f in res["faults"]:
            t.add("fault:" + f[0])
        return t


class Table(Scenario):
    """close and dup on any descriptors, the standard ones included: the descriptor table follows exactly."""
    name = "table"
    weight = 1
    list_keys = ("ops",)
    N = 10      # descriptors 0 to 9 belong to the program

    def gen(self, r, tier):
        ops = []
        for i in range(r.choice([1, 3, 6, 12])):
            t = r.choice(["close", "close", "dup", "dup2", "dup2"])
            if t == "close":
                a = [r.choice([r.randrange(self.N), r.randrange(self.N), r.randrange(self.N), 77, -1, 1023, 1024, 5000, "NIL", "'x", '"3"', "T", "'(3 4)", "^5"])
                     for _ in range(r.choice([0, 1, 1, 2, 3, 5, 40]))]
            else:
                a = [r.randrange(self.N), r.randrange(self.N)]
            ops.append({"t": t, "a": a})
        return dict(ops=ops, knobs={"sched": 0}, faults={}, top=r.choice(["script", "expr"]))

    def job(self, case):
        prog = "(load '(std if prog) '(logic =) '(unix close dup unlink))\n" + mark("s")
        for i, o in enumerate(case["ops"]):
            e = "(close %s)" % " ".join(map(str, o["a"])) if o["t"] == "close" else "(= (dup %d %d) %d)" % (o["a"][0], o["a"][1], o["a"][1]) if o["t"] == "dup2" else "(dup %d)" % o["a"][0]
            prog += "(if %s %s %s)\n" % (e, mark("T%d" % i), mark("N%d" % i))
        # dup without a target takes the lowest free number: given back at once
        stdfd = {0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"]}
        stdfd.update({i: ["sink", "d%d" % i] for i in range(3, self.N)})
        if case["top"] == "script":
            return dict(files={"/work/p.l": prog + "1\n"}, argv=["p.l"], stdfd=stdfd)
        return dict(files={}, argv=["-e", prog], stdfd=stdfd)

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        m = {x["name"][1:]: x for x in res["marks"]}
        if "" not in m:
            return ["descriptor: the program did not start"]
        t = dict(m[""]["fds"])
        for i, o in enumerate(case["ops"]):
            x = m.get(str(i))
            if not x:
                return ["descriptor: operation %d is missing" % i]
            ok = True
            if o["t"] == "close":
                for a in o["a"]:
                    if isinstance(a, int) and str(a) in t:
                        del t[str(a)]
                    else:
                        ok = False
            elif o["t"] == "dup2":
                if str(o["a"][0]) in t:
                    t[str(o["a"][1])] = t[str(o["a"][0])]
                else:
                    ok = None
            else:
                if str(o["a"][0]) in t:
                    n = 0
                    while str(n) in t:
                        n += 1
                    t[str(n)] = t[str(o["a"][0])]
                ok = True
            if x["fds"] != t:
                lost = sorted(set(t) - set(x["fds"]))
                return ["descriptor: after operation %d %s %s: missing %s, unexpected %s" % (i, o["t"], o["a"], lost, sorted(f for f in x["fds"] if x["fds"][f] != t.get(f)))]
            if ok is not None and (x["name"][0] == "T") != ok:
                return ["descriptor: operation %d %s %s reports %s" % (i, o["t"], o["a"], x["name"][0])]
        return []

    def tags(self, case, res):
        return ["table:" + o["t"] for o in case["ops"]]


SCENARIOS = [Fds("plain", 1, False, 2), Fds("faulty", 4, True, 2), Table()]
