"""C20: the exit status tells how the program ended."""
from common import *

LOADS = "(load '(io in out prin prinl print printl read readline) '(std \\ list let prog if quote def load cons car cdr) '(math + <) '(logic = and or not) '(unix fork wait exec pipe close unlink kill) '(sys time) \"@lib/run.l\")\n"
ENOENT, EACCES = 2, 13

# Last expressions: (source, whether it yields a value).
LAST = [("1", 1), ("0", 1), ("'x", 1), ("'(1)", 1), ("^a", 1), ('"s"', 1), ("T", 1), ("_", 1), ("-1", 1), ("(+ 1 2)", 1), ("(list NIL)", 1), ("(cons NIL NIL)", 1),
        ("NIL", 0), ("()", 0), ("'()", 0), ("(cdr '(1))", 0), ("(car NIL)", 0), ("(if NIL 1)", 0), ("(= 1 2)", 0), ("(= 1 1)", 1), ("(prog 1 NIL)", 0), ("(prog NIL 1)", 1), ("unbound", 0),
        ("(not 1)", 0), ("(and T NIL)", 0), ("(or NIL 3)", 1), ("\"\"", 0), ("(load \"val.l\")", 1), ("(load \"nil.l\")", 0), ("(load \"gone.l\")", 0), ("(load \"empty.l\")", 0),
        ("(in \"gone.l\" 1)", 0), ("(in \"data\" (readline))", 1), ("(in \"empty.l\" (readline))", 1), ("(out \"/gone/x\" 1)", 0),
        ("(wait CHILD7)", 1), ("(wait CHILD0)", 1)]


class Status(Scenario):
    name = "status"
    weight = 4
    list_keys = ("ops",)

    def gen(self, r, tier):
        k, f = delivery(r)
        if r.random() < 0.4:
            f["short_write"] = {"p": r.choice([1000, 5000])}
        if r.random() < 0.5:
            f["write_err"] = {"p": r.choice([500, 3000, 10000]), "max": r.choice([1, 3, 1000])}
        ops = []
        for _ in range(r.choice([0, 1, 3, 6])):
            ops.append([r.choice(["print", "printerr", "file", "child", "killed", "val", "nil", "loadnil", "loadval", "run", "runbad", "read", "long", "badline"]), r.choice([0, 1, 7, 255])])
        return dict(ops=ops, last=r.randrange(len(LAST)), knobs=k, faults=f, top=r.choice(["script", "expr", "repl"]), out=r.choice(["sink", "tty", "full", "closed"]),
                    eol=r.random() < 0.5, rs=r.randrange(1 << 30), slab=r.random() < 0.3)

    def program(self, case):
        p = [LOADS]
        for k, n in case["ops"]:
            e = {"print": '(prinl "hello %d")' % n, "printerr": '(out 2 (printl %d))' % n, "file": '(out "o.txt" (prinl "x"))', "val": "%d" % n, "nil": "NIL",
                 "child": '(let ((c . (fork))) (if (= c 0) (exec "/bin/x%d" NIL NIL) (wait c)))' % n,
                 "killed": '(let ((c . (fork))) (if (= c 0) (exec "/bin/k" NIL NIL) (wait c)))',
                 "loadnil": '(load "nil.l")', "loadval": '(load "val.l")', "run": '(run "/bin/x%d" NIL)' % n, "runbad": '(run "/bin/gone" NIL)',
                 "read": '(in "data" (readline))', "long": '(prinl "%s")' % ("y" * 9000), "badline": "1 ) 2"}[k]
            p.append(e)
        e = LAST[case["last"]][0]
        for c in ("7", "0"):
            e = e.replace("CHILD" + c, '(let ((c . (fork))) (if (= c 0) (exec "/bin/x%s" NIL NIL) c))' % c)
        p.append(e)
        return "\n".join(p) + ("\n" if case["eol"] else "")

    def job(self, case):
        io = dict(NULL_IO)
        io[1] = {"sink": ["sink", "out"], "tty": ["sink", "out", "tty"], "full": ["pipeout", "o"], "closed": ["pipeout", "o"]}[case["out"]]
        actors = []
        if case["out"] == "full":
            actors.append({"name": "o", "ops": [{"op": "drain"}]})
        elif case["out"] == "closed":
            actors.append({"name": "o", "ops": [{"op": "closer"}]})
        files = {"/work/val.l": "NIL 5\n", "/work/nil.l": "5\nNIL\n", "/work/empty.l": "", "/work/data": "line\n",
                 "/bin/k": {"kind": "prog", "mode": 0o755, "data": "K 9\n"}}
        for n in (0, 1, 7, 255):
            files["/bin/x%d" % n] = {"kind": "prog", "mode": 0o755, "data": "X %d\n" % n}
        prog = self.program(case)
        d = ["-d"] if case["slab"] else []
        if case["top"] == "script":
            files["/work/p.l"] = prog
            return dict(files=files, argv=d + ["p.l", "arg"], stdfd=io, actors=actors)
        if case["top"] == "expr":
            return dict(files=files, argv=d + ["-e", prog], stdfd=io, actors=actors)
        io[0] = ["pipein", "in"]
        actors.append({"name": "in", "ops": pieces(random.Random(case["rs"]), prog)})
        return dict(files=files, argv=d, stdfd=io, actors=actors)

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        want = 0 if LAST[case["last"]][1] and case["top"] != "repl" else 255
        # What runs after a failing write to a file or a child's pipe may see less: only the destinations of prints fail here.
        if code(res) != want:
            return ["status: %s with last expression %s ended with %s instead of %d" % (case["top"], LAST[case["last"]][0], code(res), want)]
        return []

    def tags(self, case, res):
        return ["top:" + case["top"], "last:" + LAST[case["last"]][0][:20], "out:" + case["out"]] + (["a write failed"] if res["fired"].get("write_err") else [])


class Broken(Scenario):
    """Scripts that cannot be opened or read, programs that cannot be executed."""
    name = "broken"
    weight = 2

    def gen(self, r, tier):
        k, f = delivery(r)
        kind = r.choice(["gone", "nodir", "dir", "empty", "comment", "open", "eio", "eiomid", "stdin", "exec", "exec", "execlast", "usage", "help", "version", "link"])
        if kind == "open":
            f["open"] = {"p": 10000, "max": 1, "only": "/work/p.l"}
        elif kind in ("eio", "eiomid"):
            f["read_eio"] = {"p": 10000 if kind == "eio" else 3000, "max": 1, "only": "/work/p.l"}
        elif kind == "stdin":
            f["read_eio"] = {"p": r.choice([3000, 10000]), "max": 1, "only": "in"}
        elif kind == "exec":
            f["exec"] = {"p": 10000, "max": 1, "only": "/bin/x"}
        return dict(kind=kind, knobs=k, faults=f, n=r.choice([1, 50, 2000]), bad=r.choice(["/bin/gone", "/bin/noexec", "/gone/x", "/work"]), top=r.choice(["script", "expr"]), rs=r.randrange(1 << 30))

    def job(self, case):
        io = dict(NULL_IO)
        k = case["kind"]
        files = {"/bin/x": {"kind": "prog", "mode": 0o755, "data": "X 0\n"}, "/bin/noexec": {"kind": "file", "mode": 0o644, "data": "x"}}
        argv, actors = ["p.l"], []
        pre = "(load '(io prinl) '(unix exec) '(std prog))\n"
        if k == "gone":
            pass
        elif k == "nodir":
            argv = ["none/p.l"]
        elif k == "dir":
            argv = ["/work"]
        elif k == "empty":
            files["/work/p.l"] = ""
        elif k == "comment":
            files["/work/p.l"] = "# nothing\n" * case["n"]
        elif k in ("open", "eio", "eiomid"):
            files["/work/p.l"] = pre + '(prinl "s")\n' + "1234567\n" * case["n"]
        elif k == "stdin":
            argv = []
            io[0] = ["pipein", "in"]
            actors.append({"name": "in", "ops": pieces(random.Random(case["rs"]), "1\n" * case["n"])})
        elif k in ("exec", "execlast"):
            e = pre + '(prog (prinl "s") (exec "%s" NIL NIL)) (prinl "after") 1\n' % ("/bin/x" if k == "exec" else case["bad"])
            if case["top"] == "script":
                files["/work/p.l"] = e
            else:
                argv = ["-e", e]
        elif k == "usage":
            argv = ["-z"]
        elif k == "help":
            argv = ["-h"]
        elif k == "version":
            argv = ["-v"]
        elif k == "link":
            argv = ["p.l/"]
            files["/work/p.l"] = "1\n"
        return dict(files=files, argv=argv, stdfd=io, actors=actors)

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        k, c, out = case["kind"], code(res), sink(res, "out")
        fired = [f for f in res["faults"] if f[0] in ("open", "read_eio", "exec")]
        if k in ("exec", "execlast"):
            if k == "exec":
                if not fired:
                    return [] if c == 0 and out == "s\n" else ["status: exec without a failure ended with %s" % c]
                want = fired[0][3]
            else:
                want = {"/bin/gone": ENOENT, "/bin/noexec": EACCES, "/gone/x": ENOENT, "/work": EACCES}[case["bad"]]
            if c != want:
                return ["status: a process that could not execute %s (error %d) ended with %s" % (case["bad"] if k == "execlast" else "/bin/x", want, c)]
            if not out.startswith("s\n") or "after" in out:
                return ["output: %r" % out[:80]]
            return []
        if k in ("help", "version"):
            return [] if c == 0 else ["status: %s ended with %s" % (k, c)]
        if k == "usage":
            return [] if c not in (0,) else ["status: a wrong option ended with 0"]
        if k in ("open", "eio", "eiomid") and not fired:
            return [] if c == 0 else ["status: a script without failures ended with %s" % c]
        if c != 255:
            return ["status: %s ended with %s instead of 255" % (k, c)]
        return []

    def tags(self, case, res):
        return ["kind:" + case["kind"]]


class Start(Scenario):
    """The interpreter cannot get what it needs to start."""
    name = "start"
    weight = 2

    def gen(self, r, tier):
        k, f = delivery(r)
        kind = r.choice(["home", "homelong", "homenotdir", "homegone", "cachefile", "pwd", "pwdlong", "getcwd", "stat", "mkdir", "mkdir", "newhome", "rohome", "noaccess",
                         "nocwd", "nostat", "memory", "memory", "limit"])
        if kind in ("nocwd", "nostat"):
            f[kind[2:].replace("cwd", "getcwd")] = {"p": 10000}
            if kind == "nostat":
                f["stat"]["only"] = "/home/u"
        if kind in ("getcwd", "stat", "mkdir"):
            f[kind] = {"p": r.choice([3000, 10000]), "max": r.choice([1, 3])}
            if kind == "stat":
                f[kind]["only"] = "/home/u"
        elif kind == "memory":
            f["mmap"] = {"p": r.choice([1000, 5000, 10000]), "max": r.choice([1, 3])}
        elif kind == "limit":
            f["mprotect"] = {"p": r.choice([3000, 10000]), "max": r.choice([1, 3])}
        return dict(kind=kind, knobs=k, faults=f, top=r.choice(["script", "expr", "repl"]), n=r.choice([4000, 4080, 4090, 4095, 4096, 5000, 9000]), rs=r.randrange(1 << 30))

    def job(self, case):
        io = dict(NULL_IO)
        env = {}
        k = case["kind"]
        files = {}
        if k == "home":
            env["HOME"] = None
        elif k == "homelong":
            env["HOME"] = "/" + "h" * case["n"]
        elif k == "homegone":
            env["HOME"] = "/gone/far"
        elif k == "homenotdir":
            env["HOME"] = "/work/f"
            files["/work/f"] = "x"
        elif k == "cachefile":
            env["HOME"] = "/work/h"
            files["/work/h/.mnml"] = "x"
        elif k in ("mkdir", "newhome"):
            env["HOME"] = "/work"
        elif k == "rohome":
            env["HOME"] = "/work/h"
            files["/work/h"] = {"kind": "dir", "mode": 0o555}
        elif k == "noaccess":
            files["/home/u/.mnml"] = {"kind": "dir", "mode": 0}
        elif k == "pwd":
            env["PWD"] = None
        elif k == "pwdlong":
            env["PWD"] = "/" + "p" * case["n"]
        prog = "(load '(io prinl out))\n(out \"o.txt\" (prinl \"x\"))\n(prinl \"ran\")\n"
        if case["top"] == "script":
            files["/work/p.l"] = prog
            return dict(files=files, argv=["p.l"], stdfd=io, env=env)
        if case["top"] == "expr":
            return dict(files=files, argv=["-e", prog], stdfd=io, env=env)
        io[0] = ["pipein", "in"]
        return dict(files=files, argv=[], stdfd=io, env=env, actors=[{"name": "in", "ops": pieces(random.Random(case["rs"]), prog)}])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        ran = "ran" in sink(res, "out")
        c = code(res)
        if c is None:
            return ["status: killed"]
        want = 255 if case["top"] == "repl" else 0
        if ran and c != want:
            return ["status: the program ran to its end but the status is %s" % c]
        if not ran and c == 0:
            return ["status: nothing was evaluated but the status is 0"]
        if not ran and case["kind"] in ("pwd", "pwdlong", "newhome"):
            return ["start: the program did not run"]
        if case["kind"] in ("home", "homelong", "homegone", "homenotdir", "cachefile", "rohome", "noaccess", "nocwd", "nostat") or any(x[0] == "mkdir" for x in res["faults"]):
            # nothing is evaluated and nothing is said on the standard output
            if ran or sink(res, "out"):
                return ["start: the program ran although the interpreter could not start (%s)" % case["kind"]]
        if not ran and not res["faults"] and case["kind"] in ("getcwd", "stat", "mkdir", "memory", "limit"):
            return ["start: the program did not run although nothing failed"]
        return []

    def tags(self, case, res):
        return ["kind:" + case["kind"], "ran" if "ran" in sink(res, "out") else "did not start"]


SCENARIOS = [Status(), Broken(), Start()]
