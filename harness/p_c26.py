"""C26: arguments and environment arrive unchanged, in the interpreter and in the programs it starts."""
import random

from common import *

MNML = "@PREFIX/bin/mnml"
# all environments carry what the interpreter itself needs
FIXED = {"HOME": "/home/u", "PWD": "/work", "MNML_SCRIPT_PATH": "/usr/share/mnml"}
LOADS = "(load '(io in out prin prinl print printl) '(std \\ if prog let car cdr cons) '(logic =) '(unix fork wait exec) \"@lib/iter.l\" \"@lib/manips.l\" \"@lib/run.l\")\n"
SHOW = "(printl ARGV) (printl ENV)"


def gen_bytes(r, n):
    k = r.randrange(4)
    if k == 0:
        return "".join(chr(r.randrange(1, 256)) for _ in range(n))
    if k == 1:
        return "".join(r.choice("=\\\"'^#() \t\n;:-~@") for _ in range(n))
    return "".join(r.choice(L.PRINT) for _ in range(n))


def size(r, big):
    return r.choice([0, 1, 2, 5, 12, 12, 30]) if r.random() > 0.1 else r.choice([100, 255, 256, 1023, 1024, 1025] + ([4000, 4095, 4096, 5000, 9000] if big else [4000, 4040]))


def env_value(env):
    return ["l", [["d", [["str", k]], ["str", v]] for k, v in env if v]]


def show(argv, env):
    a = L.text(L.canon(["l", [["str", x] for x in argv]]), True) if argv else "NIL"
    return a + "\n" + L.text(L.canon(env_value(env)), True) + "\n"


class Started(Scenario):
    """What the interpreter is started with is what the program sees, from its start to its end and in its children."""
    list_keys = ("args", "env")

    def __init__(self, name, weight, kind):
        self.name = name
        self.weight = weight
        self.kind = kind

    def gen(self, r, tier):
        k, f = delivery(r)
        if self.kind != "direct":
            f["short_write"] = {"p": r.choice([0, 0, 3000])}
        big = self.kind == "direct"
        many = r.random() < 0.1
        args = [gen_bytes(r, size(r, big)) for _ in range(r.choice([0, 1, 2, 3, 6]) if not many else r.choice([30, 120, 125] + ([200] if big else [])))]
        names = set()
        while len(names) < (r.choice([0, 1, 3, 8]) if not many else r.choice([30, 110, 122])):
            names.add(r.choice(["V", "V_", "Z", "_v", "1", "é".encode("utf-8").decode("latin-1"), "a b", "ARGV", "ENV", "V(", "#"]) + ("%d" % r.randrange(1000)) + "x" * r.choice([0, 0, 0, 40]))
        env = [[n, r.choice(["", "=", "=x=", "a=b", "NIL", "T", "42"]) if r.random() < 0.3 else gen_bytes(r, size(r, big))] for n in sorted(names)]
        return dict(args=args, env=env, knobs=k, faults=f, top=r.choice(["script", "abs", "expr"]) if self.kind == "direct" else "script", end=r.random() < 0.5,
                    hop=r.choice(["exec", "fork", "run", "run2", "given"]), given=r.randrange(4), name=r.choice(["p.l", "p.l", "-", "a b.l"]))

    def environ(self, case):
        return sorted(dict(FIXED, **dict(case["env"])).items())

    def script(self, case):
        return "/work/p.l" if case["top"] == "abs" else case["name"] if case["name"] != "-" else "./-"

    def job(self, case):
        files = {}
        env = dict(case["env"])
        body = SHOW + "\n"
        if self.kind == "direct":
            body += "(load '(io in out printl) '(unix fork wait) '(std let if prog) '(logic =))\n"
            if case["end"]:
                body += '(out "o" (printl 1))\n(let ((P . (fork))) (if (= P 0) (prog %s T) (wait P)))\n' % SHOW
            if case["top"] == "expr":
                return dict(files=files, env=env, argv=["-e", "(load '(io printl)) " + body])
            if case["top"] == "abs":
                case = dict(case, name="p.l")
            files["/work/" + case["name"]] = "(load '(io printl))\n" + body
            return dict(files=files, env=env, argv=[self.script(case)] + case["args"])
        files["@PREFIX/bin/mnml"] = {"kind": "prog", "host": "mnml", "mode": 0o755}
        files["/work/c.l"] = "(load '(io printl))\n" + SHOW + "\n"
        envp = "(map (\\ ((k . v)) (append k (cons ^= v))) ENV)"
        args = "(cons \"c.l\" (cdr ARGV))"
        m = '(assoc "MNML_EXE" ENV)'
        env["MNML_EXE"] = MNML
        if case["hop"] == "exec":
            prog = "(exec %s %s %s)" % (m, args, envp)
        elif case["hop"] == "given":
            # an environment of its own: the first so many variables, and what the interpreter cannot do without
            prog = "(exec %s %s (cons \"HOME=/home/u\" (truncl %d %s)))" % (m, args, case["given"], envp)
        elif case["hop"] == "fork":
            prog = "(let ((P . (fork))) (if (= P 0) (exec %s %s NIL) (prog (wait P) (printl 'done))))" % (m, args)
        elif case["hop"] == "run":
            prog = "(iter prinl (cdr (run %s %s ENV)))" % (m, args)
        else:
            files["/work/d.l"] = LOADS + "(iter prinl (cdr (run %s %s ENV)))\n" % (m, args)
            prog = "(iter prinl (cdr (run %s %s ENV)))" % (m, args.replace("c.l", "d.l"))
        files["/work/" + case["name"]] = LOADS + prog + "\n"
        return dict(files=files, env=env, argv=[self.script(case)] + case["args"])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        out = sink(res, "out")
        if self.kind == "direct":
            env = self.environ(case)
            argv = [] if case["top"] == "expr" else [self.script(dict(case, name="p.l") if case["top"] == "abs" else case)] + case["args"]
            want = show(argv, env) * (2 if case["end"] else 1)
        else:
            env = [(k, x) for k, x in self.environ(dict(case, env=case["env"] + [["MNML_EXE", res["prefix"] + "/bin/mnml"]]))]
            if case["hop"] == "given":
                env = [("HOME", "/home/u")] + [x for x in env if x[1]][:case["given"]]
            want = show(["c.l"] + case["args"], env) + ("done\n" if case["hop"] == "fork" else "")
        if out != want:
            return ["start: " + diff(want, out)]
        return []

    def tags(self, case, res):
        return ["hop:" + (case["hop"] if self.kind != "direct" else case["top"])]


SCENARIOS = [Started("direct", 2, "direct"), Started("passed", 3, "passed")]
