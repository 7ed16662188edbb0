"""C16: time is monotonic, immune to clock changes, and measures what the expression took."""
import random
import re

from common import *

LOADS = ("(load '(io in out prin prinl print printl readline) '(std \\ list let prog if while <- quote) '(math + - <) '(logic = <>) '(unix unlink fork wait exec) '(sys time))\n")


class Time(Scenario):
    name = "time"
    weight = 3
    list_keys = ("ops", "jumps")

    def gen(self, r, tier):
        k, f = delivery(r)
        k["uptime"] = r.choice([0, 1, 4, 5000, 10000000, 3000000000])
        f["clock_jump"] = {"p": r.choice([0, 300, 2000]), "max": r.choice([1, 5, 30])}
        if r.random() < 0.5:
            f["delay"] = {"p": r.choice([100, 1000]), "max": 100}
        ops = []
        for i in range(r.choice([1, 3, 6, 12])):
            ops.append({"id": i, "k": r.choice(["now", "now", "calc", "read", "read", "child", "nested", "nil", "print", "many"]),
                        "us": r.choice([0, 1, 999, 1000, 12345, 999999, 1000000, 2147484, 4294968, 60000000, 86400000000, 10000000000000]) if r.random() < 0.9 else r.randrange(10 ** 9), "n": r.choice([0, 1, 20])})
        jumps = [[r.choice([1, 20, 1000, 500000, 10 ** 7]), r.choice([-1, 1]) * r.choice([1, 1000, 10 ** 6, 3600 * 10 ** 6, 10 ** 15])] for _ in range(r.choice([0, 1, 3, 8]))]
        return dict(ops=ops, jumps=jumps, knobs=k, faults=f, top=r.choice(["script", "expr"]), fork=r.random() < 0.2)

    def job(self, case):
        io = dict(NULL_IO)
        actors, files, prog = [], {}, ""
        for o in case["ops"]:
            i, k = o["id"], o["k"]
            body = ""
            if k == "calc":
                body = "(let ((n . 0)) (while (< n %d) (<- 'n (+ n 1))) n)" % o["n"]
            elif k == "read":
                io[20 + i] = ["pipein", "p%d" % i]
                actors.append({"name": "p%d" % i, "ops": [{"op": "mark", "a": [1], "data": "x%d" % i}, {"op": "sleep", "a": [o["us"]]}, {"op": "push", "data": "l\n"}, {"op": "closew"}]})
                body = "(in %d (readline))" % (20 + i)
            elif k == "child":
                files["/bin/p%d" % i] = {"kind": "prog", "mode": 0o755, "data": "Z %d\nX 0\n" % min(o["us"] // 1000, 100000)}
                body = "(let ((c . (fork))) (if (= c 0) (exec \"/bin/p%d\" NIL NIL) (wait c)))" % i
            elif k == "print":
                body = '(out 2 (prinl "%s"))' % ("y" * o["n"] * 100)
            elif k == "many":
                body = "(prog (time) (time) (time) NIL)"
            if k == "now":
                e = "(time)"
            elif k == "nil":
                e = "(time (prog %s %s NIL))" % (mark("x%d" % i), mark("y%d" % i))
            elif k == "nested":
                e = "(time (prog %s (printl (list 'N%d (time (prog %s %s)))) %s))" % (mark("x%d" % i), i, mark("u%d" % i), mark("v%d" % i), mark("y%d" % i))
            else:
                e = "(time (prog %s (prinl \"once%d\") %s %s))" % (mark("x%d" % i), i, body, mark("y%d" % i))
            prog += "(let ((v . (prog %s %s))) %s (printl (list 'V%d v)))\n" % (mark("a%d" % i), e, mark("b%d" % i), i)
        if case["fork"]:
            prog += "(let ((t0 . (time)) (c . (fork))) (if (= c 0) (out 2 (printl (list 'C t0 (time)))) (prog (wait c) (printl (list 'P t0 (time))))))\n"
        if case["jumps"]:
            ops = []
            for t, j in case["jumps"]:
                ops += [{"op": "sleep", "a": [t]}, {"op": "jump", "a": [j]}]
            actors.append({"name": "clock", "ops": ops})
        if case["top"] == "expr":
            return dict(files=files, argv=["-e", LOADS + prog], stdfd=io, actors=actors)
        files["/work/p.l"] = LOADS + prog
        return dict(files=files, argv=["p.l"], stdfd=io, actors=actors)

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        m = {}
        for x in res["marks"]:
            if x["name"] in m:
                return ["once: %s happened twice" % x["name"]]
            m[x["name"]] = x["t"]
        out = sink(res, "out").split("\n")
        pos, last, base = 0, -1, 1000000 * case["knobs"]["uptime"]
        vals = []
        for o in case["ops"]:
            i, k = o["id"], o["k"]
            if "b%d" % i not in m:
                return ["progress: measurement %d did not end" % i]
            a, b = m["a%d" % i], m["b%d" % i]
            if k == "nested":
                mm = re.match(r"\(N%d (-?\d+)\)$" % i, out[pos])
                if not mm:
                    return ["value: %r" % out[pos][:100]]
                n = int(mm.group(1))
                u, w = m["u%d" % i], m["v%d" % i]
                if not (w - u - 1) * 1000 <= n <= (m["y%d" % i] - m["x%d" % i] + 1) * 1000:
                    return ["value: inner time of measurement %d is %d ns, the expression took between %d and %d us" % (i, n, w - u, m["y%d" % i] - m["x%d" % i])]
                pos += 1
            elif k not in ("now", "nil"):
                if out[pos] != "once%d" % i:
                    return ["once: measurement %d: expected its output, observed %r" % (i, out[pos][:100])]
                pos += 1
            mm = re.match(r"\(V%d (-?\d+)\)$" % i, out[pos] if pos < len(out) else "")
            if not mm:
                return ["value: measurement %d gives %r" % (i, out[pos][:100] if pos < len(out) else None)]
            pos += 1
            n = int(mm.group(1))
            vals.append(n)
            if k == "now":
                if n < last:
                    return ["monotonic: time went from %d back to %d" % (last, n)]
                last = n
                if not (base + a) * 1000 <= n <= (base + b + 1) * 1000:
                    return ["value: (time) is %d ns between %d and %d us" % (n, base + a, base + b)]
            else:
                x, y = m.get("x%d" % i), m.get("y%d" % i)
                if x is None or y is None:
                    return ["once: the expression of measurement %d was not evaluated" % i]
                if not (y - x - 1) * 1000 <= n <= (b - a + 1) * 1000:
                    return ["value: measurement %d is %d ns, the expression took between %d and %d us" % (i, n, y - x, b - a)]
        if case["fork"]:
            c = re.match(r"\(P (\d+) (\d+)\)$", out[pos] if pos < len(out) else "")
            d = re.search(r"\(C (\d+) (\d+)\)$", sink(res, "err").strip())
            if not c or not d:
                return ["value: fork: %r" % out[pos:pos + 1]]
            if not int(c.group(1)) <= int(d.group(2)) <= int(c.group(2)):
                return ["monotonic: %s then %s in the child then %s" % (c.group(1), d.group(2), c.group(2))]
            vals += [int(c.group(1)), int(c.group(2)), int(d.group(2))]
            pos += 1
        if out[pos:] != [""]:
            return ["output: unexpected %r" % out[pos:pos + 2]]
        if len([x for x in vals if x]) >= 5 and all(x % 1000 == 0 for x in vals):
            return ["value: none of %d times has a part below a microsecond" % len(vals)]
        return []

    def tags(self, case, res):
        return {"op:" + o["k"] for o in case["ops"]} | ({"clock jump"} if res["fired"].get("clock_jump") else set())


SCENARIOS = [Time()]
