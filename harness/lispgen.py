"""Values of the language, their literal and symbolic text, and random source text for them.

Values are JSON: ["n", int] ["s", symbol] ["c", byte] ["nil"] ["t"] ["w"] ["str", text] ["l", [items]] ["d", [items], tail]
["q", value].  Text is latin-1: one character is one byte.
"""

ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
MARKS = "!@$%&*_+-={}[]:;|<>?,/"
DIGITS = "0123456789"
PRINT = "".join(chr(c) for c in range(0x20, 0x7f))
I64 = (1 << 63) - 1


# ---- canonical structure: nested tuples (car, cdr); atoms are strings ready to print
class Ch(int):
    pass


def canon(v):
    k = v[0]
    if k == "n":
        return ("n", v[1])
    if k == "s":
        return ("s", v[1])
    if k == "c":
        return ("c", v[1])
    if k == "nil":
        return None
    if k == "t":
        return ("t",)
    if k == "w":
        return ("w",)
    if k == "str":
        r = None
        for c in reversed(v[1]):
            r = ("p", ("c", ord(c)), r)
        return r
    if k == "l":
        r = None
        for x in reversed(v[1]):
            r = ("p", canon(x), r)
        return r
    if k == "d":
        r = canon(v[2])
        for x in reversed(v[1]):
            r = ("p", canon(x), r)
        return r
    if k == "q":
        return ("p", ("s", "quote"), canon(v[1]))
    raise ValueError(k)


def _chr_lit(c):
    return "^" + {27: "\\e", 10: "\\n", 13: "\\r", 9: "\\t", 92: "\\\\"}.get(c, chr(c))


def text(c, lit=True):
    """Text of a canonical value: literal (print) or symbolic (prin)."""
    out = []

    def go(x):
        if x is None:
            if lit:
                out.append("NIL")
            return
        k = x[0]
        if k == "n":
            out.append(str(x[1]))
        elif k == "s":
            out.append(x[1])
        elif k == "c":
            out.append(_chr_lit(x[1]) if lit else chr(x[1]))
        elif k == "t":
            out.append("T")
        elif k == "w":
            out.append("_")
        else:
            if lit:
                out.append("(")
            first = True
            while True:
                if not first and lit:
                    out.append(" ")
                first = False
                go(x[1])
                x = x[2]
                if x is None:
                    break
                if x[0] != "p":
                    if lit:
                        out.append(" . ")
                    go(x)
                    break
            if lit:
                out.append(")")

    go(c)
    return "".join(out)


def literal(v):
    return text(canon(v), True)


def symbolic(v):
    return text(canon(v), False)


# ---- generation
def gen_symbol(r):
    while True:
        n = r.choice([1, 2, 3, 5, 8, 15, 16])
        s = r.choice(ALPHA + "!@$%&*+={}[]:;|<>?,/") + "".join(r.choice(ALPHA + MARKS + DIGITS) for _ in range(n - 1))
        if s not in ("T", "NIL", "_") and "." not in s:
            return s


def gen_number(r):
    k = r.randrange(6)
    if k == 0:
        return r.choice([0, 1, -1, 7, 10, 42])
    if k == 1:
        return r.choice([I64, -I64, -I64 - 1, 1 << 31, -(1 << 31), 1 << 32, (1 << 31) - 1])
    if k == 2:
        return r.randint(-I64, I64)
    return r.randint(-10000, 10000)


def gen_text(r, maxlen):
    k = r.randrange(10)
    n = r.choice([0, 1, 2, 3, 8, 20]) if k < 6 else r.randrange(0, maxlen + 1)
    if k == 9:
        pool = [chr(c) for c in range(1, 256)]
    elif k == 8:
        pool = list(" \t\n\r\\\"#()'^.~`;") + list("abc")
    else:
        pool = list(PRINT) + ["\n", "\t"]
    return "".join(r.choice(pool) for _ in range(n))


def gen_value(r, depth=3, maxstr=60):
    k = r.randrange(14)
    if depth <= 0:
        k = r.randrange(9)
    if k < 2:
        return ["n", gen_number(r)]
    if k < 4:
        return ["s", gen_symbol(r)]
    if k == 4:
        return ["c", r.choice([ord(x) for x in PRINT] + [27, 10, 13, 9])]
    if k == 5:
        return ["nil"]
    if k == 6:
        return ["t"]
    if k == 7:
        return ["w"]
    if k == 8:
        return ["str", gen_text(r, maxstr)]
    if k < 12:
        n = r.choice([0, 1, 2, 2, 3, 4, 6])
        return ["l", [gen_value(r, depth - 1, maxstr) for _ in range(n)]]
    if k == 12:
        return ["d", [gen_value(r, depth - 1, maxstr) for _ in range(r.choice([1, 1, 2, 3]))], gen_value(r, depth - 1, maxstr)]
    return ["q", r.choice([["s", gen_symbol(r)], ["n", gen_number(r)],
                           ["l", [gen_value(r, depth - 1, maxstr) for _ in range(r.randrange(1, 3))]]])]


def str_source(t):
    return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'


def str_ok(t):
    """Strings whose source text is unambiguous in the grammar: a backslash never ends up next to a quote."""
    s = t.replace("\\", "\\\\").replace('"', '\\"')
    return "\0" not in t and '\\\\"' not in s + '"'


def gap(r, style):
    """White space and comments between two tokens."""
    k = r.randrange(20)
    if style == 0 or k < 14:
        return " "
    if k < 16:
        return r.choice(["\n", "\t", "  ", "\r\n", "\n\n", " \t "])
    if k < 17:
        return "\n" + " " * r.randrange(40)
    if k == 17:
        return " # " + "".join(r.choice(ALPHA + " ()'\"^.") for _ in range(r.choice([0, 3, 30, 200]))) + "\n"
    return " " * r.choice([1, 2, 5, 100, 1000] if style > 1 else [1, 2, 5])


def source(v, r, style=1):
    k = v[0]
    if k == "n":
        return str(v[1])
    if k == "s":
        return v[1]
    if k == "c":
        c = v[1]
        return "^" + ("\\\\" if c == 92 else {27: "\\e", 10: "\\n", 13: "\\r", 9: "\\t", 92: "\\\\"}.get(c, chr(c)))
    if k == "nil":
        return r.choice(["NIL", "()"])
    if k == "t":
        return "T"
    if k == "w":
        return "_"
    if k == "str":
        s = v[1].replace("\\", "\\\\").replace('"', '\\"')
        if r.randrange(2):
            s = s.replace("\n", "\\n").replace("\t", "\\t")
        return '"' + s + '"'
    if k == "q":
        return "'" + source(v[1], r, style)
    items = v[1]
    if k == "l" and not items:
        return "()"
    parts = ["("]
    if style and r.randrange(8) == 0:
        parts.append(gap(r, style))
    for i, x in enumerate(items):
        if i:
            parts.append(gap(r, style))
        parts.append(source(x, r, style))
    if k == "d":
        parts += [gap(r, style), ".", gap(r, style), source(v[2], r, style)]
    if style and r.randrange(8) == 0:
        parts.append(gap(r, style))
    parts.append(")")
    return "".join(parts)


def clean(v):
    """Replace strings the grammar cannot express unambiguously."""
    k = v[0]
    if k == "str" and not str_ok(v[1]):
        return ["str", v[1].replace("\\", "/").replace("\0", "0")]
    if k == "l":
        return ["l", [clean(x) for x in v[1]]]
    if k == "d":
        return ["d", [clean(x) for x in v[1]], clean(v[2])]
    if k == "q":
        return ["q", clean(v[1])]
    return v


def lstr(t):
    """A string literal of the language for use in generated programs."""
    assert str_ok(t), t
    return str_source(t)
