"""C15: loading a module or file succeeds whole or returns NIL, and can be retried."""
import random

from common import *

BASE = "(load '(io prinl printl) '(std \\ cons def let prog if list) '(unix unlink))"
TESTS = {
    "math": {"+": ["(+ 5 3)", "8"], "-": ["(- 5 3)", "2"], "*": ["(* 5 3)", "15"], "/": ["(/ 15 3)", "5"], "%": ["(% 7 4)", "3"], ">": ["(> 5 3)", "T"], "<": ["(< 5 3)", "NIL"],
             ">=": ["(>= 5 5)", "T"], "<=": ["(<= 6 5)", "NIL"]},
    "logic": {"and": ["(and T NIL)", "NIL"], "=": ["(= 1 1)", "T"], "<>": ["(<> 1 1)", "NIL"], "not": ["(not NIL)", "T"], "or": ["(or NIL T)", "T"]},
    "std": {"car": ["(car '(1 2))", "1"], "cdr": ["(cdr '(1 2))", "(2)"], "cons": ["(cons 1 2)", "(1 . 2)"], "len": ["(len '(1 2 3))", "3"], "nil?": ["(nil? NIL)", "T"], "num?": ["(num? 1)", "T"],
            "when": ["(when T 4)", "4"], "unless": ["(unless NIL 4)", "4"], "sym?": ["(sym? 'a)", "T"]},
    # compiled from share/mnml by the transpiler
    "manips": {"caar": ["(caar '((1 2) 3))", "1"], "cddr": ["(cddr '(1 2 3))", "(3)"], "cadar": ["(cadar '((1 2) 3))", "2"], "caddr": ["(caddr '(1 2 3))", "3"], "cadr": ["(cadr '(1 2 3))", "2"],
               "cdar": ["(cdar '((1 2) 3))", "(2)"], "rep": ["(rep 3 'x)", "(x x x)"], "truncl": ["(truncl 2 '(1 2 3))", "(1 2)"]},
    "iterators": {"foldl": ["(foldl (\\ (a x) (cons x a)) NIL '(1 2))", "(2 1)"], "foldr": ["(foldr (\\ (x a) (cons x a)) '(1 2) NIL)", "(1 2)"], "map": ["(map (\\ (x) (list x)) '(1 2))", "((1) (2))"],
                  "map2": ["(map2 cons '(1 2) '(3 4))", "((1 . 3) (2 . 4))"]},
}
ALL = {"math": "+ / >= > <= < % * -", "logic": "and = <> not or", "io": "in out prin prinl print printl read readline", "sys": "slabinfo time", "manips": "assoc caar cddr cadar caddr cadr cdar last rep truncl", "iterators": "foldl foldr map map2 zip",
       "unix": "accept close connect dup exec fork listen pipe select unlink wait"}


class Module(Scenario):
    name = "module"
    weight = 2
    list_keys = ("loads",)

    def gen(self, r, tier):
        k, f = delivery(r)
        for x in r.sample(["open_so", "opendir", "read_eio", "mmap", "open", "stat"], r.choice([0, 1, 1, 2, 3])):
            f[x] = {"p": r.choice([300, 2000, 6000]), "max": r.choice([1, 2, 6]), "window": 1}
        loads = []
        for i in range(r.choice([1, 2, 4, 7])):
            m = r.choice(list(TESTS) * 3 + ["io", "sys", "unix", "nosuch", "file"])
            o = {"id": i, "m": m, "form": r.choice(["list", "list", "list", "all", "T"])}
            if m in TESTS:
                if m == "std":
                    o["form"] = "list"
                syms = r.sample(sorted(TESTS[m]), r.choice([1, 1, 2, len(TESTS[m])]))
                if r.random() < 0.2:
                    syms.insert(r.randrange(len(syms) + 1), r.choice(["nosuch", "x", "abcdefghijklmnop"]))
                if r.random() < 0.15:
                    syms = r.choice([["nosuch"], ["nosuch", "x"], ["zz"]])
                o["syms"] = syms
            elif o["form"] == "list":
                o["form"] = "all"
            loads.append(o)
        # Where the module is: with the interpreter, in the user's directory, in a directory of MNML_MODULE_PATH.
        place = {m: r.choice(["user", "p1", "p2", "p1 p2", "user p2"]) for m in ("math", "logic", "sys", "manips") if r.random() < 0.3}
        # A library of that name, but another module or no library at all, in a place that is searched later.
        decoy = {m: r.choice(["user", "p1", "p2", "p1 p2"]) for m in ("math", "logic", "sys", "std", "iterators") if r.random() < 0.2}
        return dict(loads=loads, knobs=k, faults=f, place=place, decoy=decoy, junk=r.random() < 0.5, mp=r.choice(["m1:/m2", "/m1:./m2/../m2", "/m1:/m2", "/m2:/m1", "/none:/m1:/m2", "/m1:/m2:/none", "/" + "x" * r.choice([255, 300, 4095, 4096, 8100, 8192, 20000, 100000]) + ":/m1:/m2", "/m1:/m2:" + "/y" * 3000]))

    def expr(self, o):
        if o["m"] == "file":
            return '(load "none.l")'
        if o["form"] == "all":
            return "(load '%s)" % o["m"]
        if o["form"] == "T":
            return "(load '(%s . T))" % o["m"]
        return "(load '(%s %s))" % (o["m"], " ".join(o["syms"]))

    def syms(self, o):
        if o["m"] in ("nosuch", "file"):
            return None
        if o["form"] in ("all", "T"):
            return ALL[o["m"]].split()
        return [s for s in o["syms"] if s in TESTS[o["m"]]]

    def tests(self, o):
        s = self.syms(o)
        return [TESTS[o["m"]][x] for x in s if x in TESTS.get(o["m"], {})] if s else []

    def job(self, case):
        def body(loads, done):
            if not loads:
                return ""
            o = loads[0]
            s = "(let ((v%d . (prog %s%s (let ((x . %s)) %s x)))) %s (printl (list 'v%d v%d))" % (o["id"], mark("a%d" % o["id"]), mark("arm"), self.expr(o), mark("disarm"), mark("b%d" % o["id"]), o["id"], o["id"])
            for d in done + [o]:
                t = self.tests(d)
                if t:
                    s += "(if v%d (printl (list 't%d %s)) NIL)" % (d["id"], d["id"], " ".join(x[0] for x in t))
            return s + " (printl (keep)) " + body(loads[1:], done + [o]) + ")"
        prog = BASE + "(def keep () 'kept)\n" + body(case["loads"], []) + "\n"
        for o in case["loads"]:
            t = self.tests(o)
            prog += "(printl (list 'v%d %s))" % (o["id"], self.expr(o)) + ("(printl (list 't%d %s))" % (o["id"], " ".join(x[0] for x in t)) if t else "") + "\n"
        files = {"/work/p.l": prog + "(printl 'done)\n", "/m1": {"kind": "dir", "mode": 0o755}, "/m2": {"kind": "dir", "mode": 0o755}}
        env = {}
        if case["place"] or case["decoy"]:
            env["MNML_MODULE_PATH"] = case["mp"]
        dirs = {"user": "/home/u/.mnml", "p1": "/m1", "p2": "/m2"}
        if "m1:" in case["mp"] and "/m1:" not in case["mp"]:
            dirs["p1"] = "/work/m1"
            files["/work/m1"] = {"kind": "dir", "mode": 0o755}
        if "./m2" in case["mp"]:
            dirs["p2"] = "/work/m2"
            files["/work/m2"] = {"kind": "dir", "mode": 0o755}
        order = ["user"] + sorted(["p1", "p2"], key=lambda x: case["mp"].rfind("m" + x[1]))
        for m, w in sorted(case["decoy"].items()):
            first = min([order.index(x) for x in case["place"][m].split()]) if m in case["place"] else -1
            for x in w.split():
                if order.index(x) > first:
                    p = "%s/lib%s.so" % (dirs[x], m)
                    files[p] = {"kind": "file", "mode": 0o755, "data": "not a library\n"} if case["junk"] else {"kind": "host", "mode": 0o755, "host": "@PREFIX/lib/mnml/libunix.so"}
        for m, w in sorted(case["place"].items()):
            files["@PREFIX/lib/mnml/lib%s.so" % m] = {"kind": "absent"}
            for x in w.split():
                files["%s/lib%s.so" % (dirs[x], m)] = {"kind": "host", "mode": 0o755, "host": "@PREFIX/lib/mnml/lib%s.so" % m}
        return dict(files=files, env=env, argv=["-d", "p.l"])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        out = sink(res, "out").split("\n")
        if code(res) == 254:
            return ["leak: cells left allocated"]
        m = {x["name"]: x for x in res["marks"]}
        pos = 0
        got = {}

        def val(o):
            s = self.syms(o)
            return "(v%d %s)" % (o["id"], "(" + " ".join(s) + ")" if s else "NIL")

        def same(line, o):
            if o["form"] in ("all", "T") and self.syms(o):
                return line.startswith("(v%d (" % o["id"]) and sorted(line[:-2].split("(")[2].split()) == sorted(self.syms(o))
            return line == val(o)

        def test(o):
            return "(t%d %s)" % (o["id"], " ".join(x[1] for x in self.tests(o)))
        seen = []
        for o in case["loads"]:
            i = o["id"]
            if "a%d" % i not in m or "b%d" % i not in m:
                return ["load: %s did not come to an end" % self.expr(o)]
            if m["a%d" % i]["fds"] != m["b%d" % i]["fds"]:
                return ["descriptor: %s changes the open descriptors" % self.expr(o)]
            fl = [f for f in res["faults"] if m["a%d" % i]["step"] <= f[1] <= m["b%d" % i]["step"]]
            l = out[pos] if pos < len(out) else ""
            pos += 1
            got[i] = same(l, o) and bool(self.syms(o))
            if not same(l, o) and not (fl and l == "(v%d NIL)" % i):
                return ["load: %s returned %r, expected %s, faults %s" % (self.expr(o), l[:200], val(o), [f[0] for f in fl])]
            seen.append(o)
            exp = [test(d) for d in seen if got[d["id"]] and self.tests(d)] + ["kept"]
            for e in exp:
                if pos >= len(out) or out[pos] != e:
                    return ["symbols: after %s expected %r observed %r" % (self.expr(o), e, out[pos][:200] if pos < len(out) else None)]
                pos += 1
        for o in case["loads"]:
            if pos >= len(out) or not same(out[pos], o):
                return ["retry: %s returned %r, expected %s" % (self.expr(o), out[pos][:200] if pos < len(out) else None, val(o))]
            pos += 1
            if self.tests(o):
                if pos >= len(out) or out[pos] != test(o):
                    return ["retry: after %s expected %r observed %r" % (self.expr(o), test(o), out[pos][:200] if pos < len(out) else None)]
                pos += 1
        if out[pos:] != ["done", ""]:
            return ["output: unexpected %r" % out[pos:pos + 2]]
        return []

    def tags(self, case, res):
        t = {"fault:" + f[0] for f in res["faults"]}
        t |= {"module:%s" % o["m"] for o in case["loads"]}
        t |= {"place:%s" % x for x in case["place"].values()}
        return t


class Files(Scenario):
    """Files that print, define and load one another by relative paths."""
    name = "files"
    weight = 3
    list_keys = ("plan",)

    def gen(self, r, tier):
        k, f = delivery(r)
        f.pop("short_read", None)
        f["short_read"] = {"p": r.choice([0, 3000, 9000]), "only": "/work/d"}
        for x in r.sample(["open", "stat", "getcwd", "read_eio"], r.choice([0, 1, 1, 2, 3])):
            f[x] = {"p": r.choice([300, 1500, 5000]), "max": r.choice([1, 2, 6]), "window": 1}
            if x != "getcwd":
                f[x]["only"] = "/work/d"
        n = r.choice([1, 2, 4, 6])
        dirs = ["/work/d", "/work/d/e", "/work/d/e/f", "/work/d2", "/work/d2"] + r.choice([[], ["/home/u/h", "LIB"]])
        files = []
        for i in range(n):
            items = []
            for j in range(r.choice([0, 1, 3, 6])):
                if i + 1 < n and r.random() < 0.35:
                    items.append(["load", r.randrange(i + 1, n), r.choice(["rel", "rel", "abs", "short"])])
                else:
                    items.append(["say", r.choice([0, 0, 0, 600, 5000])])
            files.append({"dir": r.choice(dirs), "items": items, "val": r.choice(["v%d" % i, "%d" % i, "NIL", "T"])})
        plan = [r.randrange(n) if r.random() < 0.9 else -1 for _ in range(r.choice([1, 2, 3]))]
        return dict(fs=files, plan=plan, knobs=k, faults=f, form=r.choice(["rel", "rel", "abs", "short"]), lib=r.choice(["/usr/share/mnml", "", "/my/lib", "/my/a:/my/b", "/none:/my/a:/my/b", "/my/a:/my/b:/none"]),
                    where=[r.choice(["/my/a", "/my/b", "/my/a", "/my/b", "both"]) for _ in range(n)])

    def path(self, case, i, frm, form):
        """File i as named in a file in the directory frm."""
        import os.path
        d = case["fs"][i]["dir"] if i >= 0 else "/work/d"
        n = "f%d.l" % i if i >= 0 else "none.l"
        if d == "LIB":
            return n if form == "rel" and frm == d and ":" not in case["lib"] else "@lib/" + n
        if form == "short" and d.startswith("/home/u/"):
            return "~" + d[7:] + "/" + n
        if form == "abs" or frm == "LIB":
            return d + "/" + n
        return os.path.relpath(d + "/" + n, frm)

    def job(self, case):
        libd = case["lib"] or "@PREFIX/share/mnml"
        files = {"/work/d": {"kind": "dir", "mode": 0o755}, "/work/d/e": {"kind": "dir", "mode": 0o755}, "/work/d/e/f": {"kind": "dir", "mode": 0o755}, "/work/d2": {"kind": "dir", "mode": 0o755}}
        for i, fi in enumerate(case["fs"]):
            s = "(def g%d () 'g%d)\n" % (i, i)
            for j, it in enumerate(fi["items"]):
                if it[0] == "say":
                    s += '(prinl "s%d.%d")%s\n' % (i, j, "# " + "x" * it[1] if it[1] else "")
                else:
                    s += '(printl (list \'V%d (load "%s")))\n' % (it[1], self.path(case, it[1], fi["dir"], it[2]))
            v = fi["val"]
            s += "(printl (g%d))\n" % i + ("'" if v[0] == "v" else "") + v + "\n"
            d = fi["dir"]
            if d == "LIB":
                # the first directory of the list that has the file counts
                w = case["where"][i]
                d = libd if ":" not in libd else "/my/a" if w == "both" else w
                if ":" in libd and w == "both":
                    files["/my/b/f%d.l" % i] = '(prinl "the wrong one")\n'
            files["%s/f%d.l" % (d, i)] = s
        prog = BASE + "(def keep () 'kept)" + mark("a") + "\n"
        for p in case["plan"]:
            prog += "%s(let ((x . (load \"%s\"))) %s (printl (list 'V%d x)))%s(printl (keep))\n" % (mark("arm"), self.path(case, p, "/work", case["form"]), mark("disarm"), p, mark("b"))
        prog += "(printl 'again)\n"
        for p in case["plan"]:
            prog += "(printl (list 'V%d (load \"%s\")))\n" % (p, self.path(case, p, "/work", case["form"]))
        return dict(files={**files, "/work/p.l": prog + mark("b") + "(printl 'done)\n"}, argv=["-d", "p.l"], env={"MNML_SCRIPT_PATH": case["lib"] or None})

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        if code(res) == 254:
            return ["leak: cells left allocated"]
        out = sink(res, "out").split("\n")
        pos, budget = 0, [len(res["faults"])]
        ms = res["marks"]
        a = [m for m in ms if m["name"] == "a"][0]
        for m in ms:
            if m["name"] == "b" and m["fds"] != a["fds"]:
                return ["descriptor: a load changes the open descriptors"]

        late = []

        def spent(i, l):
            """NIL for a file that did not end as planned: fits has put the fault to its account."""
            if late and late[-1] == (i, l):
                late.pop()
                return True
            return False

        def fits(i, pos, ok):
            """Positions and verdict after matching one load of file i whose value line is printed by the caller."""
            fail = "(V%d NIL)" % i
            if i < 0:
                return pos
            fi = case["fs"][i]
            for j, it in enumerate(fi["items"] + [["g"]]):
                l = out[pos] if pos < len(out) else None
                if it[0] == "say" and l == "s%d.%d" % (i, j) or it[0] == "g" and l == "g%d" % i:
                    pos += 1
                    continue
                if it[0] == "load":
                    # either the nested load is there or this file ended before it
                    if not (l == fail and budget[0] > 0):
                        q = fits(it[1], pos, ok)
                        if isinstance(q, str):
                            return q
                        vl = case["fs"][it[1]]["val"]
                        l = out[q] if q < len(out) else None
                        if l != "(V%d %s)" % (it[1], vl) and not (l == "(V%d NIL)" % it[1] and spent(it[1], l)):
                            return "after loading f%d from f%d: %r" % (it[1], i, l and l[:100])
                        pos = q + 1
                        continue
                if l == fail and budget[0] > 0:
                    budget[0] -= 1
                    late.append((i, l))
                    return pos
                return "f%d item %d: observed %r with %d faults left to blame" % (i, j, l and l[:100], budget[0])
            l = out[pos] if pos < len(out) else None
            if l != "(V%d %s)" % (i, fi["val"]):
                if l == fail and budget[0] > 0:
                    budget[0] -= 1
                    late.append((i, l))
                    return pos
                return "value of f%d: %r" % (i, l and l[:100])
            return pos
        for again in (0, 1):
            if again:
                if out[pos:pos + 1] != ["again"]:
                    return ["output: unexpected %r" % out[pos:pos + 1]]
                pos += 1
                budget[0] = 0
            for p in case["plan"]:
                q = fits(p, pos, True)
                if isinstance(q, str):
                    return ["load: " + q + (" (retry without faults)" if again else "")]
                want = "(V%d NIL)" % p if p < 0 else "(V%d %s)" % (p, case["fs"][p]["val"])
                if q >= len(out) or out[q] != want and not spent(p, out[q]):
                    return ["load: value of %d: %r" % (p, out[q][:100] if q < len(out) else None)]
                pos = q + 1
                if not again:
                    if out[pos:pos + 1] != ["kept"]:
                        return ["load: a definition is gone: %r" % out[pos:pos + 1]]
                    pos += 1
        if out[pos:] != ["done", ""]:
            return ["output: unexpected %r" % out[pos:pos + 2]]
        return []

    def tags(self, case, res):
        return {"fault:" + f[0] for f in res["faults"]} | {"%d nested loads" % min(5, sum(1 for f in case["fs"] for i in f["items"] if i[0] == "load"))}


class Start(Scenario):
    """Faults while the interpreter starts and loads its defaults: it runs the program, or ends without a crash."""
    name = "start"
    weight = 1

    def gen(self, r, tier):
        k, f = delivery(r)
        for x in r.sample(["open_so", "opendir", "open", "stat", "getcwd", "mkdir", "read_eio"], r.choice([1, 1, 2])):
            f[x] = {"p": r.choice([300, 1000, 3000]), "max": r.choice([1, 2])}
        return dict(knobs=k, faults=f, top=r.choice(["script", "expr", "repl"]))

    def job(self, case):
        prog = "(load '(io prinl))(prinl 1)(prinl 2)\n"
        if case["top"] == "script":
            return dict(files={"/work/p.l": prog}, argv=["-d", "p.l"])
        if case["top"] == "expr":
            return dict(files={}, argv=["-d", "-e", prog])
        return dict(files={}, argv=["-d"], stdfd={0: ["pipein", "u"], 1: ["sink", "out"], 2: ["sink", "err"]}, actors=[{"name": "u", "ops": [{"op": "push", "data": prog}, {"op": "closew"}]}])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        if code(res) == 254:
            return ["leak: cells left allocated"]
        o = sink(res, "out")
        if case["top"] != "repl" and o not in ("", "1\n2\n") and not (o == "1\n" and res["fired"].get("read_eio")):
            return ["output: %r" % o[:100]]
        return []


class Several(Scenario):
    """One load with several arguments: each is taken in turn whatever becomes of the others."""
    name = "several"
    weight = 1
    list_keys = ("items",)

    def gen(self, r, tier):
        k, f = delivery(r)
        if r.random() < 0.6:
            f["open"] = {"p": r.choice([1000, 4000]), "window": 1, "only": "/work/d/"}
        items = []
        for i in range(r.choice([1, 2, 3, 5, 9])):
            t = r.choice(["file", "file", "file", "none", "mod", "mod", "nomod", "num", "nil", "expr"])
            items.append({"t": t, "id": i, "val": r.choice(["'v%d" % i, "%d" % i, "NIL", "T", '"s%d"' % i]), "sym": r.choice(["+", "-", "*"])})
        return dict(items=items, knobs=k, faults=f)

    def job(self, case):
        files = {"/work/d/keep": ""}
        args = []
        for o in case["items"]:
            i = o["id"]
            if o["t"] in ("file", "expr"):
                files["/work/d/f%d.l" % i] = "(prinl \"l%d\")\n%s\n" % (i, o["val"])
            a = '"d/f%d.l"' % i
            args.append({"file": a, "none": a, "mod": "'(math %s)" % o["sym"], "nomod": "'(nomod x)", "num": "%d" % i, "nil": "NIL",
                         "expr": "(prog (prinl 'e%d) %s)" % (i, a)}[o["t"]])
        prog = BASE + "\n%s(let ((x . (load %s))) %s(printl (list 'R x)))\n(printl 'done)\n" % (mark("arm"), " ".join(args), mark("disarm"))
        return dict(files={**files, "/work/p.l": prog}, argv=["-d", "p.l"])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        if code(res) == 254:
            return ["leak: cells left allocated"]
        bad = {f[4] for f in res["faults"]}
        want = ""
        val = "NIL"
        for o in case["items"]:
            val = "NIL"
            if o["t"] == "expr":
                want += "e%d\n" % o["id"]
            if o["t"] in ("file", "expr") and "/work/d/f%d.l" % o["id"] not in bad:
                want += "l%d\n" % o["id"]
                val = L.literal(["str", o["val"].strip('"')]) if o["val"][0] == '"' else o["val"].replace("'", "")
            elif o["t"] == "mod":
                val = "(%s)" % o["sym"]
        want += "(R %s)\ndone\n" % val
        out = sink(res, "out")
        if out != want:
            return ["load: several arguments: " + diff(want, out)]
        return []

    def tags(self, case, res):
        return {"item:" + o["t"] for o in case["items"]}


SCENARIOS = [Module(), Files(), Several(), Start()]
