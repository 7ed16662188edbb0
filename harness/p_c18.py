"""C18: malformed input is confined to its line; no byte sequence crashes or hangs the reader."""
from common import *

# Tokens that cannot be read, outside any list.
LEX = [")", "^\\q", "^\x01", "^\x80", "' ", "` ", "~ ", "'\"s\"", "'^a", "\x01", "\x7f", "\x80", "\xff", "')", "'')", "~)", "'\t", "\x1b[A", "\xc3\xa9"]
# The same, also inside of a list.
LEXIN = ["^\\q", "^\x01", "' ", "` ", "~ ", "'\"s\"", "'^a", "\x01", "\x80", "\xff", "'')", "^\x80"]
# The same, when the line ends behind them.
EOL = ["'", "`", "~", "^", "^\\", "^\\q"]
# Expressions whose structure is wrong.
GRAM = [". ", "~1", "~x", "(. 1)", "(1 . )", "(1 . 2 3)", "'(1 . 2 3)", "'(a . b . c)", "'(~(quote 1))", "'((1 2) (3 . ))", "'(a (b (c . ) d) e)",
        "'(1 . 'a 'b)", "'(. .)", "'(1 . 2 (3))", "'(1 . 2 \"s\")", "'(1 . 2 ^c)", "'(1 . NIL T)", "'(1 . _ _)", "'(1 . 2 '(3))", "'(1 . 2 ~(quote 3))", "'(1 . (2 . (3 . )))"]
JUNK = "abcXYZ0129 ()'\"`~^.#\\\t\x01\x80\xff-+NIL"


def junk(r):
    n = r.choice([0, 0, 1, 5, 30, 200, 1000, 1023, 1024, 1025, 3000, 9000])
    if n > 200 and r.random() < 0.3:
        return r.choice([" 7", " (8)", " 'x", ")", " \"s\"", "\""]) * (n // 3)
    return "".join(r.choice(JUNK) for _ in range(n))


def good(r, n):
    """Expressions with known answers: [[source, answer], ...]."""
    out = []
    for _ in range(n):
        k = r.randrange(5)
        i = r.randrange(1, 10000)
        if k < 2:
            out.append([str(i), str(i)])
        elif k == 2:
            out.append(["'a%d" % i, "a%d" % i])
        elif k == 3:
            w = r.choice([1, 3, 50]) if r.random() < 0.95 else 700
            out.append(["'(%s)" % " ".join([str(i)] * w), "(%s)" % " ".join([str(i)] * w)])
        else:
            out.append(['"z%d"' % i, "(%s)" % " ".join("^" + c for c in "z%d" % i)])
    return out


class Lines(Scenario):
    name = "lines"
    weight = 4
    list_keys = ("lines",)

    def gen(self, r, tier):
        k, f = delivery(r)
        lines = []
        for _ in range(r.choice([1, 2, 4, 8])):
            kind = r.choice(["good", "good", "lex", "lex", "gram", "gram", "in", "span", "comment"])
            pre = good(r, r.choice([0, 0, 1, 2, 5]) if r.random() < 0.95 else 300)
            sp = " " * (r.choice([1, 1, 2]) if r.random() < 0.8 else r.choice([100, 1000, 1015, 1018, 1020, 1021, 1022, 1023, 1024]))
            o = {"k": kind, "pre": pre, "sp": sp}
            if kind == "lex":
                o["bad"], o["junk"] = r.choice(LEX), junk(r)
                if r.random() < 0.25:
                    o["bad"], o["junk"] = r.choice(EOL), ""
            elif kind == "gram":
                o["bad"], o["junk"] = r.choice(GRAM), junk(r)
            elif kind == "in":
                o["bad"], o["junk"] = r.choice(LEXIN), junk(r)
                if r.random() < 0.25:
                    o["bad"], o["junk"] = r.choice(EOL), ""
                o["a"], o["b"] = [r.choice([0, 1, 3]) for _ in range(2)]
                o["a"] += 1
            elif kind == "span":
                o["bad"], o["junk"] = r.choice([". ", "1 . ) ", "~x . ~x . "]), junk(r)
                o["a"] = r.choice([1, 2, 300])
            elif kind == "comment":
                o["junk"] = junk(r)
            lines.append(o)
        return dict(lines=lines, knobs=k, faults=f, tty=r.random() < 0.3, last=r.random() < 0.7, rs=r.randrange(1 << 30),
                    top=r.choice(["repl", "repl", "repl", "script", "load"]))

    def text(self, case):
        """The input and, per line, the answers and the number of reports."""
        repl = case["top"] == "repl"
        out, want = [], []

        def ex(p):
            return p[0] if repl else "(printl %s)" % (p[0],)
        for o in case["lines"]:
            s = " ".join(ex(p) for p in o["pre"])
            ans = [p[1] for p in o["pre"]]
            if s:
                s += o["sp"]
            k = o["k"]
            err = 0
            if k in ("lex", "gram"):
                s += o["bad"] + o["junk"]
                err = 1
            elif k == "in":
                # The list goes on behind the malformed part.
                lst = ["5"] * o["a"], ["6"] * o["b"]
                v = "(%s)" % " ".join(lst[0] + lst[1])
                e = "'(" + " ".join(lst[0]) + o["sp"] + o["bad"] + o["junk"] + "\n" + " ".join(lst[1]) + ")"
                s += ex([e])
                ans.append(v)
                err = 1
            elif k == "span":
                s += "'(" + "\n".join(["5"] * o["a"]) + " . 7\n" + o["bad"] + o["junk"]
                err = 1
            elif k == "comment":
                s += "# " + o["junk"]
            out.append(s)
            want.append([ans, err])
        return "\n".join(out) + ("\n" if case["last"] or case["lines"][-1].get("bad") in EOL else ""), want

    def job(self, case):
        data, _ = self.text(case)
        r = random.Random(case["rs"])
        if case["top"] == "repl":
            return dict(argv=["-d"], stdfd={0: ["pipein", "in"] + (["tty"] if case["tty"] else []), 1: ["sink", "out"], 2: ["sink", "err"]},
                        actors=[{"name": "in", "ops": pieces(r, data)}])
        pre = "(load '(io printl) '(std load quote))\n"
        if case["top"] == "script":
            return dict(files={"/work/p.l": pre + data}, argv=["p.l"], stdfd=dict(NULL_IO))
        return dict(files={"/work/p.l": pre + '(load "f.l")\n(printl \'END)\n', "/work/f.l": data}, argv=["p.l"], stdfd=dict(NULL_IO))

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        data, want = self.text(case)
        out = sink(res, "out")
        if case["top"] != "repl":
            exp = [a for w in want for a in w[0]] + (["END"] if case["top"] == "load" else [])
            got = out.split("\n")
            if got[-1] != "" or got[:-1] != exp:
                return ["values: %s" % diff("\n".join(exp), "\n".join(got[:-1]))]
            return []
        if code(res) != 255:
            return ["status: the REPL ended with %s" % code(res)]
        items = []
        for x in out.split("\n"):
            while x.startswith(": "):
                x = x[2:]
            items.append(x)
        if items.pop() != "":
            return ["end: the output ends with %r" % out[-40:]]
        pos = 0
        pend = 0
        for i, (ans, err) in enumerate(want):
            need = list(ans)
            while need or err:
                if pos >= len(items):
                    return ["missing: line %d lacks %s" % (i, ("the answer " + need[0][:60]) if need else "the report of its error")]
                if items[pos] == "^ parse error":
                    if not err:
                        return ["report: an error is reported %s" % ("twice on line %d" % i if case["lines"][i]["k"] not in ("good", "comment") else "on the well formed line %d" % i)]
                    err -= 1
                elif need and items[pos] == "> " + need[0]:
                    need.pop(0)
                else:
                    return ["answer: on line %d expected %r observed %r" % (i, ("> " + need[0])[:80] if need else "^ parse error", items[pos][:80])]
                pos += 1
        if pos != len(items):
            return ["extra: %r after the last line" % items[pos][:80]]
        return []

    def tags(self, case, res):
        return ["line:" + o["k"] for o in case["lines"]] + ["top:" + case["top"]]


def gen_bytes(r):
    mode = r.randrange(4)
    n = r.choice([1, 3, 10, 50, 300, 1023, 1024, 1025, 3000]) if r.random() < 0.8 else r.randrange(1, 9000)
    if mode == 0:
        s = "".join(chr(r.randrange(256)) for _ in range(n))
    elif mode == 1:
        s = "".join(r.choice("()'.\"^\\# \n\n a1T_N\0\xff~`") for _ in range(n))
    elif mode == 2:
        s = " ".join(r.choice(["'(", ")", ".", "1", "-", "-2", "'x", '"', '"s"', "^a", "^\\", "^\\n", "NIL", "T", "_", "\n", "#", "\0", "'", "~y", "`7", "abcdefghijklmnop", "abcdefghijklmnopqrs"]) for _ in range(n // 2 + 1))
    else:
        s = r.choice(["'(", "(", ")", "\"", "^", "'", "a", "1", "#", "\0", "\n", "~", "`", ".", "-", "\\", "\xff"]) * n
    # Evaluating a list that happens to look like a function is not reading it: quote every list.
    out = []
    for c in s:
        if c == "(":
            while out and out[-1] in "`~'(":
                out.pop()
            out.append(" '(")
        else:
            out.append(c)
    return "".join(out)


class Bytes(Scenario):
    name = "bytes"
    weight = 3
    str_keys = ("data",)

    def gen(self, r, tier):
        k, f = delivery(r)
        top = r.choice(["repl", "repl", "script", "load", "expr", "read"])
        d = gen_bytes(r)
        if top == "expr":
            d = d.replace("\0", "")[:8000] or " "
            if d[0] == "-":
                d = " " + d
        return dict(data=d, knobs=k, faults=f, tty=r.random() < 0.3, rs=r.randrange(1 << 30), top=top)

    def job(self, case):
        data = case["data"]
        pre = "(load '(io in read printl) '(std load quote))\n"
        if case["top"] in ("repl", "read"):
            io = {0: ["pipein", "in"] + (["tty"] if case["tty"] else []), 1: ["sink", "out"], 2: ["sink", "err"]}
            return dict(argv=["-d"] if case["top"] == "repl" else ["-d", "-e", pre + "(read) (read) (read) (printl 'END)"], stdfd=io,
                        actors=[{"name": "in", "ops": pieces(random.Random(case["rs"]), data)}])
        if case["top"] == "expr":
            return dict(argv=["-d", "-e", data], stdfd=dict(NULL_IO))
        if case["top"] == "script":
            return dict(files={"/work/p.l": data}, argv=["-d", "p.l"], stdfd=dict(NULL_IO))
        return dict(files={"/work/p.l": pre + '(load "f.l")\n(printl \'END)\n', "/work/f.l": data}, argv=["-d", "p.l"], stdfd=dict(NULL_IO))

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        c = code(res)
        t = case["top"]
        if t == "repl" and c != 255 or c not in (0, 255):
            return ["status: %s ended with %s" % (t, c)]
        out = sink(res, "out")
        if t in ("load", "read") and out != "END\n":
            return ["after: what follows the malformed input printed %r" % out[:60]]
        return []

    def tags(self, case, res):
        return ["top:" + case["top"]]


class Cut(Scenario):
    name = "cut"
    weight = 2
    list_keys = ("forms",)

    def gen(self, r, tier):
        k, f = delivery(r)
        forms = []
        for i in range(r.choice([1, 3, 6])):
            v = L.clean(L.gen_value(r, 3))
            src = "'(%s)" % L.source(v, r, r.choice([0, 1, 2]))
            # A string that ends in an escaped quote is complete when nothing follows it: leave those out.
            if '\\"' not in src:
                forms.append({"src": src, "ans": L.text(L.canon(["l", [v]])), "sep": r.choice([" ", "\n", "\n", "\n\n"])})
        n = sum(len(x["src"]) + len(x["sep"]) for x in forms)
        return dict(forms=forms, cut=r.randrange(n + 1), knobs=k, faults=f, tty=r.random() < 0.3, rs=r.randrange(1 << 30), eof=r.choice(["close", "close", "rst"]))

    def job(self, case):
        data = "".join(x["src"] + x["sep"] for x in case["forms"])[:case["cut"]]
        return dict(argv=["-d"], stdfd={0: ["pipein", "in"] + (["tty"] if case["tty"] else []), 1: ["sink", "out"], 2: ["sink", "err"]},
                    actors=[{"name": "in", "ops": pieces(random.Random(case["rs"]), data)}])

    def check(self, case, res):
        v = ended(res)
        if v:
            return v
        if code(res) != 255:
            return ["status: the REPL ended with %s" % code(res)]
        pos, want = 0, []
        for x in case["forms"]:
            pos += len(x["src"])
            if pos > case["cut"]:
                break
            want.append("> " + x["ans"] + "\n")
            pos += len(x["sep"])
        out = sink(res, "out")
        # What is cut may be a token that cannot be read: one report is due for it.
        out = out.replace("^ parse error\n", "", 1)
        e = repl_answers(out, want)
        return ["cut: " + e] if e else []


SCENARIOS = [Lines(), Bytes(), Cut()]
