"""C05: in, out and load restore the previous channel, also when they fail."""
import json

from common import *


def too_long(r):
    """A name no file can have."""
    n = r.choice([256, 2000, 4070, 4080, 4090, 4095, 4096, 4097, 5000, 9000])
    return '"%s%s"' % (r.choice(["", "/", "@lib/", "~/", "./"]), (r.choice(["y", "y", "yz/"]) * n)[:n])


class Nest(Scenario):
    list_keys = ("body",)

    def __init__(self, name, weight, depth):
        self.name = name
        self.weight = weight
        self.depth = depth

    def gen(self, r, tier):
        self.n = 0
        k, f = delivery(r)
        k.pop("pipecap", None)
        self.used = set()
        if r.random() < 0.5:
            f["open"] = {"p": r.choice([500, 2000, 5000]), "only": "/x"}
        f["dup"] = {"p": 10000, "only": "dbad"}
        for x in ("short_read",):
            if x in f:
                f[x]["only"] = "/x"
        body = [self.node(r, 0, False, "/work") for _ in range(r.choice([2, 3, 5]))]
        return dict(body=body, knobs=k, faults=f, top=r.choice(["script", "expr"]), env=r.random() < 0.3,
                    dir=r.choice(["sub"] * 5 + ["a\\nb", "s b", "q\"t", "x\\", "\\", "'(", "#c", "^a", "\xe9", "d" * 200]))

    def ident(self):
        self.n += 1
        return self.n

    def node(self, r, depth, inp, cwd):
        k = r.random()
        i = self.ident()
        if k < 0.25 or depth >= self.depth:
            return {"t": "p", "id": i, "fn": r.choice(["prin", "prinl", "print", "printl"])}
        if k < 0.45 and inp:
            return {"t": "rl" if r.random() < 0.7 else "rd", "id": i}
        kids = lambda inp2, cwd2: [self.node(r, depth + 1, inp2, cwd2) for _ in range(r.choice([0, 1, 2, 3]))]
        if k < 0.65:
            q = r.random()
            if q < 0.35:
                dst = "/work/xo%d" % i
                ex = r.choice(['"xo%d"' % i, '"/work/xo%d"' % i, '"sub/../xo%d"' % i])
            elif q < 0.45:
                dst, ex = None, r.choice(['"nodir/xo%d"' % i, '"/none/a/xo%d"' % i, too_long(r)])
            elif q < 0.55:
                dst, ex = None, r.choice(["8", "77", "-1"])
            elif q < 0.62:
                dst, ex = None, r.choice(["T", "'a", "^a"])
            elif q < 0.7:
                dst, ex = "out", "NIL"
            else:
                fd = r.choice([3, 4, 5, 1])
                dst, ex = {3: "d3", 4: "d4", 5: "d5", 1: "out"}[fd], str(fd)
            return {"t": "out", "id": i, "dst": dst, "ex": ex, "body": kids(inp, cwd)}
        if k < 0.85:
            lines = [str(i * 100 + q) for q in range(r.choice([0, 1, 2, 5, 400] if r.random() < 0.2 else [0, 1, 2, 3, 5]))]
            q = r.random()
            path = None
            if q < 0.6:
                path = "%s/xi%d" % (cwd, i)
                ex = r.choice(['"xi%d"' % i, '"%s"' % path, '"./xi%d"' % i])
            elif q < 0.7:
                ex = r.choice(['"nofile%d"' % i, '"nodir/x"', '"/none/a"', too_long(r)])
            elif q < 0.8:
                ex = r.choice(["8", "99", "-1"])
            elif q < 0.85:
                ex = r.choice(["T", "'b", "'(1 2)", "^c"])
            elif "fd" not in self.used:
                self.used.add("fd")
                path, ex = "fd9", "9"
            elif "in0" not in self.used:
                self.used.add("in0")
                path, ex = "fd0", r.choice(["NIL", "0"])
            else:
                ex = '"missing"'
            return {"t": "in", "id": i, "path": path, "ex": ex, "lines": lines, "body": kids(True, cwd)}
        sub = r.choice(["", "", "sub", "sub/deep", ".."]) if cwd == "/work" else r.choice(["", "..", "more"])
        cwd2 = norm(cwd + "/" + sub) if sub else cwd
        if cwd2 == "/" or not cwd2.startswith("/work"):
            cwd2, sub = cwd, ""
        q = r.random()
        if q < 0.75:
            path = "%s/xl%d.l" % (cwd2, i)
            ex = '"%s"' % r.choice([(sub + "/" if sub else "") + "xl%d.l" % i, path])
        elif q < 0.85:
            path, ex = None, r.choice(['"nofile%d.l"' % i, '"nodir/z.l"', too_long(r)])
        elif q < 0.93:
            path, ex = "/usr/share/mnml/xlib%d.l" % i, '"@lib/xlib%d.l"' % i
            cwd2 = "/usr/share/mnml"
        else:
            path, ex = "/home/u/xh%d.l" % i, '"~/xh%d.l"' % i
            cwd2 = "/home/u"
        return {"t": "load", "id": i, "path": path, "ex": ex, "body": kids(False, cwd2)}

    # ---- program text
    def emit(self, nodes, files):
        out = []
        for n in nodes:
            t = n["t"]
            if t == "p":
                out.append("(%s '<%d>)" % (n["fn"], n["id"]))
            elif t == "rl":
                out.append("(prinl (readline))")
            elif t == "rd":
                out.append("(printl (read))")
            elif t in ("in", "out"):
                out.append("(printl (%s %s %s %d))" % (t, n["ex"], " ".join(self.emit(n["body"], files)), n["id"]))
                if t == "in" and n["path"]:
                    files[n["path"]] = "".join(x + "\n" for x in n["lines"])
            else:
                out.append("(printl (load %s))" % n["ex"])
                if n["path"]:
                    files[n["path"]] = "\n".join(self.emit(n["body"], files)) + "\n%d\n" % n["id"]
        return out

    def job(self, case):
        files = {"/work/sub/keep": "", "/work/sub/deep/keep": "", "/work/sub/more/keep": "", "/work/more/keep": "", "/work/sub/deep/more/keep": "",
                 "/home/u/more/keep": "", "/usr/share/mnml/more/keep": "", "/usr/share/keep": "", "/home/keep": ""}
        prog = "(load '(io in out prin prinl print printl read readline))\n" + "\n".join(self.emit(case["body"], files)) + "\n"
        # the directory called sub gets the name of this case
        name = case.get("dir", "sub")
        prog = prog.replace("sub/", L.str_source(name)[1:-1] + "/")
        files = {k.replace("/sub/", "/" + name + "/"): v.replace("sub/", L.str_source(name)[1:-1] + "/") for k, v in files.items()}
        fd9, fd0 = files.pop("fd9", ""), files.pop("fd0", "")
        j = dict(files=files, stdfd={0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"], 3: ["sink", "d3"], 4: ["sink", "d4"],
                                     5: ["sink", "d5"], 8: ["sink", "dbad"], 9: ["pipein", "u"]},
                 actors=[{"name": "u", "ops": [{"op": "push", "data": fd9}, {"op": "closew"}]}])
        files["/work/stdin.txt"] = fd0
        j["stdfd"][0] = ["file", "/work/stdin.txt"]
        if case["top"] == "script":
            files["/work/p.l"] = prog
            j["argv"] = ["p.l"]
        else:
            j["argv"] = ["-e", prog]
        return j

    # ---- reference
    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        failed = set(f[4].replace("/" + case.get("dir", "sub") + "/", "/sub/") for f in res["faults"] if f[0] == "open")
        outs = {}

        def put(d, s):
            outs[d] = outs.get(d, "") + s

        def run(nodes, out, inp):
            for n in nodes:
                t = n["t"]
                if t == "p":
                    put(out, "<%d>" % n["id"] + ("\n" if n["fn"].endswith("l") else ""))
                elif t in ("rl", "rd"):
                    if inp is None:
                        continue
                    if inp:
                        put(out, inp.pop(0) + "\n")
                    else:
                        put(out, "EOF\n" if t == "rl" else "NIL\n")
                elif t == "out":
                    if n["dst"] is None or n["dst"] in failed:
                        put(out, "NIL\n")
                    else:
                        run(n["body"], n["dst"], inp)
                        put(out, "%d\n" % n["id"])
                elif t == "in":
                    if n["path"] is None or n["path"] in failed:
                        put(out, "NIL\n")
                    else:
                        run(n["body"], out, list(n["lines"]))
                        put(out, "%d\n" % n["id"])
                else:
                    if n["path"] is None or n["path"] in failed:
                        put(out, "NIL\n")
                    else:
                        run(n["body"], out, None)
                        put(out, "%d\n" % n["id"])

        run(case["body"], "out", None)
        for d in ("out", "d3", "d4", "d5", "dbad"):
            e, o = outs.pop(d, ""), sink(res, d)
            if e != o:
                return ["channel: %s %s" % (d, diff(e, o))]
        for d in outs:
            if res["files"].get(d, "") != outs[d]:
                return ["channel: file %s %s" % (d, diff(outs[d], res["files"].get(d, "")))]
        for d in res["files"]:
            if d.startswith("/work/xo") and d not in outs and res["files"][d]:
                return ["channel: file %s should be empty, holds %r" % (d, res["files"][d][:80])]
        return []

    def shrink(self, case):
        yield from Scenario.shrink(self, case)

        def paths(nodes, pre):
            for i, n in enumerate(nodes):
                yield pre + [i]
                if "body" in n:
                    yield from paths(n["body"], pre + [i])

        for p in sorted(paths(case["body"], []), key=len):
            c = json.loads(json.dumps(case))
            l = c["body"]
            for i in p[:-1]:
                l = l[i]["body"]
            n = l.pop(p[-1])
            yield c
            if n.get("body"):
                l[p[-1]:p[-1]] = n["body"]
                yield c

    def tags(self, case, res):
        t = set()

        def walk(ns, d):
            for n in ns:
                if n["t"] in ("in", "out", "load"):
                    t.add("%s at depth %d" % (n["t"], d))
                    walk(n["body"], d + 1)
        walk(case["body"], 0)
        if any(f[0] == "open" for f in res["faults"]):
            t.add("an open failed")
        if res["fired"].get("dup"):
            t.add("a dup failed")
        return t


def norm(p):
    out = []
    for x in p.split("/"):
        if x == "..":
            out = out[:-1]
        elif x and x != ".":
            out.append(x)
    return "/" + "/".join(out)


SCENARIOS = [Nest("shallow", 2, 2), Nest("deep", 3, 5)]
