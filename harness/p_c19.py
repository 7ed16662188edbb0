"""C19: the REPL answers before it waits for more."""
from common import *

LOADLINE = "(load '(io in out prin prinl print printl read readline) '(std \\ list let prog if quote def load) '(math +) '(unix fork wait exec pipe close unlink) '(logic =))"
LOADANS = ["(in out prin prinl print printl read readline)"]


class Talk(Scenario):
    list_keys = ("turns",)

    def __init__(self, name, weight, out):
        self.name = name
        self.weight = weight
        self.out = out

    def gen(self, r, tier):
        k, f = delivery(r)
        f.pop("short_read", None)
        if r.random() < 0.5:
            f["short_write"] = {"p": r.choice([500, 3000, 8000])}
        if self.out == "pipe" and r.random() < 0.4:
            k["stdoutcap"] = r.choice([4096, 5000])
        turns = []
        for i in range(r.choice([1, 2, 4, 8])):
            kind = r.choice(["val", "val", "many", "print", "print", "bad", "badpre", "open", "long", "blank", "readline", "readline", "prompted", "read", "other", "child", "big", "def", "tail"])
            turns.append({"k": kind, "n": r.choice([1, 2, 5, 30]), "size": r.choice([10, 900, 1010, 1023, 1024, 1025, 1030, 2047, 4096, 5000]), "id": i,
                          "w": r.choice([0, 0, 0, 1, 1000, 10 ** 7])})
        return dict(turns=turns, knobs=k, faults=f, tty=r.random() < 0.5, otty=r.random() < 0.5)

    def steps(self, case):
        """[(actor, bytes pushed, texts that have to show up before going on)] and the whole list of answers."""
        st = [("in", LOADLINE + "\n", ["\n: "])]
        for o in case["turns"]:
            i, k, n = o["id"], o["k"], o["n"]
            if k == "val":
                st.append(("in", "'(v%d)\n" % i, ["> (v%d)\n" % i, ": "]))
            elif k == "many":
                st.append(("in", " ".join("'(m%d %d)" % (i, x) for x in range(n)) + "\n", ["> (m%d %d)\n" % (i, x) for x in range(n)] + [": "]))
            elif k == "print":
                st.append(("in", '(prog (prin "p%d") (printl \'q%d) (prinl "r%d") \'(s%d)) (out 2 (prinl "e%d"))\n' % (i, i, i, i, i),
                           ["p%dq%d\nr%d\n" % (i, i, i), "> (s%d)\n" % i, "> (^e %s)\n" % " ".join("^" + c for c in str(i)), ": "]))
            elif k == "bad":
                st.append(("in", "'( . b%d)\n" % i, ["^ parse error\n", ": "]))
            elif k == "badpre":
                st.append(("in", "'(b%d 1) ) '(b%d 2)\n" % (i, i), [{"^ parse error\n", "> (b%d 1)\n" % i}, ": "]))
            elif k == "open":
                st += [("in", "'(o%d\n" % i, []), ("in", " ".join("x" * n) + "\n\n", []), ("in", ")\n", ["> (o%d%s)\n" % (i, " x" * n), ": "])]
            elif k == "long":
                st.append(("in", "'(l%d)" % i + " " * o["size"] + "'(l%d b) # %s\n" % (i, "c" * o["size"]), ["> (l%d)\n" % i, "> (l%d b)\n" % i, ": "]))
            elif k == "blank":
                st += [("in", "\n" * n, []), ("in", "  # comment\n", []), ("in", "'(n%d)\n" % i, ["> (n%d)\n" % i, ": "])]
            elif k == "readline":
                st += [("in", "'(a%d) (readline)\n" % i, ["> (a%d)\n" % i]), ("in", "t%d\n" % i, ["> (^t %s)\n" % " ".join("^" + c for c in str(i)), ": "])]
            elif k == "prompted":
                st += [("in", '(prog (prin "name%d? ") (readline))\n' % i, ["name%d? " % i]), ("in", "u%d\n" % i, ["> (^u %s)\n" % " ".join("^" + c for c in str(i)), ": "])]
            elif k == "read":
                st += [("in", "'(c%d) (list 'd%d (read))\n" % (i, i), ["> (c%d)\n" % i]), ("in", "(w%d)\n" % i, ["> (d%d (w%d))\n" % (i, i), ": "])]
            elif k == "other":
                st += [("in", "'(f%d) (in 9 (readline))\n" % i, ["> (f%d)\n" % i]), ("p9", "g%d\n" % i, ["> (^g %s)\n" % " ".join("^" + c for c in str(i)), ": "])]
            elif k == "child":
                st.append(("in", "'(h%d) (let ((c . (fork))) (if (= c 0) (exec \"/bin/x\" NIL NIL) (wait c)))\n" % i, ["> (h%d)\n" % i, "> 7\n", ": "]))
            elif k == "big":
                st.append(("in", "'(%s k%d)\n" % (" ".join(["z"] * o["size"]), i), ["> (%sk%d)\n" % ("z " * o["size"], i), ": "]))
            elif k == "def":
                st.append(("in", "(def dd%d (X) (prinl \"in%d\") (+ X %d)) (dd%d 1)\n" % (i, i, i * 10, i), ["> dd%d\n" % i, "in%d\n" % i, "> %d\n" % (i * 10 + 1), ": "]))
            elif k == "tail":
                # The end of one line and the begin of the next arrive together.
                st += [("in", "'(t%d 1)\n'(t%d" % (i, i), ["> (t%d 1)\n" % i, ": "]), ("in", " 2)\n", ["> (t%d 2)\n" % i, ": "])]
        return st

    def job(self, case):
        ops = {"in": [], "p9": []}
        st = self.steps(case)
        prev = None
        ws = {}
        turns = case["turns"]
        cnt = {}
        sinkname = "out" if self.out == "sink" else "o"
        for x, (who, data, wait) in enumerate(st):
            if who != "in":
                # handed over by a mark of the other actor's sink: wait for the answer it depends on
                ops[who].append({"op": "expect", "a": [sinkname, 1], "data": prev})
            ops[who].append({"op": "push", "data": data})
            flat = []
            for w in wait:
                flat += sorted(w) if isinstance(w, set) else [w]
            for w in flat:
                if w == ": ":
                    continue
                cnt[w] = cnt.get(w, 0) + 1
                ops["in"].append({"op": "expect", "a": [sinkname, cnt[w]], "data": w})
                prev = w
            if ": " in flat and not any(isinstance(w, set) for w in wait):
                ops["in"].append({"op": "expect", "a": [sinkname, 1], "data": (prev or "") + ": "} if cnt.get(prev, 0) == 1 else {"op": "sleep", "a": [0]})
            if x and x - 1 < len(turns) and turns[x - 1]["w"]:
                ops["in"].append({"op": "sleep", "a": [turns[x - 1]["w"]]})
        ops["in"].append({"op": "closew"})
        ops["p9"].append({"op": "closew"})
        io = {0: ["pipein", "in"] + (["tty"] if case["tty"] else []), 1: ["sink", "out"] + (["tty"] if case["otty"] else []), 2: ["sink", "err"], 9: ["pipein", "p9"]}
        actors = [{"name": "in", "ops": ops["in"]}, {"name": "p9", "ops": ops["p9"]}]
        if self.out == "pipe":
            io[1] = ["pipeout", "o"]
            actors.append({"name": "o", "ops": [{"op": "drain"}]})
        return dict(argv=[], knobs=dict(case["knobs"], wait_actors=1), stdfd=io, actors=actors, files={"/bin/x": {"kind": "prog", "mode": 0o755, "data": "X 7\n"}})

    def check(self, case, res):
        if res["end"] == "stuck":
            return ["answer: the interpreter waits for input while the user waits for an answer (%s)" % [p["blocked"] for p in res["procs"] if p["state"] == "run"]]
        v = ended(res)
        if v:
            return v
        out = sink(res, "out") if self.out == "sink" else res["pipes"].get("o", "")
        pos = 0

        def skip():
            nonlocal pos
            while out.startswith(": ", pos):
                pos += 2
        skip()
        e = out.find("\n: ", pos)
        if e < 0:
            return ["start: no answer to the first line: %r" % out[:80]]
        pos = e + 1
        for who, data, wait in self.steps(case)[1:]:
            for w in wait:
                if w == ": ":
                    if not out.startswith(": ", pos):
                        return ["prompt: expected a prompt, observed %r" % out[pos:pos + 60]]
                    skip()
                    continue
                alts = set(w) if isinstance(w, set) else {w}
                while alts:
                    skip()
                    for a in sorted(alts):
                        if out.startswith(a, pos):
                            pos += len(a)
                            alts.discard(a)
                            break
                    else:
                        return ["order: expected %r observed %r" % (sorted(alts)[0][:80], out[pos:pos + 80])]
        skip()
        if pos != len(out):
            return ["extra: %r" % out[pos:pos + 80]]
        return []

    def tags(self, case, res):
        return ["turn:" + o["k"] for o in case["turns"]] + ["tty" if case["tty"] else "pipe"]


SCENARIOS = [Talk("talk-sink", 3, "sink"), Talk("talk-pipe", 3, "pipe")]
