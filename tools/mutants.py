"""Mutation campaign: mutants.py OUT.jsonl SEED COUNT [file-regex].

Small mechanical mutations of /repo's sources, each tried (in a scratch copy) against the checks with a short budget
until one reports it. Survivors are to be looked at by hand: most change nothing that a property speaks of."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    "lib/grammar/lexer.rl": "C18 C01 C07 C19", "lib/grammar/parser.y": "C18 C01 C07", "lib/core/read.c": "C01 C18 C19 C07",
    "lib/core/print.c": "C03 C04 C01", "lib/core/slab.c": "C17 C07", "lib/core/module.c": "C15 C06 C07 C20",
    "lib/core/utils.c": "C05 C15 C01 C08 C16 C07", "bin/mnml.c": "C14 C19 C20 C18 C07", "lib/mnml/std/load.c": "C15 C05",
    "lib/mnml/std/time.c": "C16", "lib/mnml/sys/time.c": "C16", "share/mnml/run.l": "C08", "share/mnml/http.l": "C11 C12",
    "share/mnml/trim.l": "C11 C12", "lib/core/lisp.c": "C17 C07 C01",
}
for d, p in (("lib/mnml/io", "C03 C05 C02 C01 C04"), ("lib/mnml/unix", "C06 C09 C10 C13 C08 C14")):
    for f in os.listdir("/repo/" + d):
        if f.endswith(".c"):
            FILES[d + "/" + f] = {"in.c": "C05 C06", "out.c": "C05 C06 C03", "readline.c": "C02", "read.c": "C01", "select.c": "C10 C11", "exec.c": "C08 C20",
                                  "wait.c": "C09 C08", "connect.c": "C13 C06", "listen.c": "C13 C06", "accept.c": "C13 C06", "time.c": "C16"}.get(f, p)
ALL = ["C%02d" % i for i in range(1, 21)] + ["C26", "C27", "C28", "C29", "C30", "C31"]
SUBS = [(r"(?<![<>=!-])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![->=<])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
        (r"\b1\b", "0"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\+ 1\b", ""), (r"- 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[A-Za-z(])", ""),
        (r"\+=", "-="), (r"\bIS_NULL\b", "!IS_NULL"), (r"lisp_car", "lisp_cdr"), (r"\bCAR\b", "CDR")]


def mutations(f):
    src = open("/repo/" + f).read().split("\n")
    lisp = f.endswith(".l")
    com = False
    for n, l in enumerate(src):
        s = l.strip()
        if s.startswith("/*"):
            com = True
        if com or not s or s.startswith(("*", "#", "//", "TRACE", "ERROR", "extern", "static const", "MAKE_")):
            if "*/" in s:
                com = False
            continue
        if lisp:
            for a, b in (("(close ", "(list "), ("(prinl)", "NIL"), ("(when ", "(prog "), ("(unless ", "(prog "), ("(rev ", "(prog "), ("(trim ", "(prog "), ("NIL", "T"),
                         ("(readline)", "NIL"), ("(cdr ", "(prog "), ("(cons ", "(list "), (" 0", " 1"), ("pin", "pout"), ("pout", "pin"), (" 1)", " 2)"), ("EOF", "EOX")):
                if a in l:
                    yield n, l, l.replace(a, b, 1)
            if s.count("(") == s.count(")") and s.startswith("(") and not s.startswith("(def"):
                yield n, l, ""
            continue
        if s.endswith(";") and not re.match(r"(const |char |int |size_t |atom_t |bool |FILE|struct |void |static |return|pid_t |ssize_t |lexer_t |uint|goto)", s):
            yield n, l, ";"
        if re.match(r"X\(lisp, ", s):
            continue
        for a, b in SUBS:
            m = list(re.finditer(a, l))
            for x in m[:2]:
                yield n, l, l[:x.start()] + b + l[x.end():]


def main():
    out, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rx = sys.argv[4] if len(sys.argv) > 4 else "."
    r = random.Random(seed)
    pool = [(f, n, a, b) for f in sorted(FILES) if os.path.exists("/repo/" + f) and re.search(rx, f) for n, a, b in mutations(f) if a != b]
    done = set()
    if os.path.exists(out):
        done = {(x["file"], x["line"], x["new"]) for x in map(json.loads, open(out))}
    r.shuffle(pool)
    d = tempfile.mkdtemp(prefix="mutants.", dir="/tmp")
    try:
        for f, n, a, b in pool[:count]:
            if (f, n, b) in done:
                continue
            m = d + "/m"
            shutil.rmtree(m, ignore_errors=True)
            shutil.rmtree(d + "/b", ignore_errors=True)
            subprocess.run("mkdir -p %s && git -C /repo archive HEAD | tar x -C %s" % (m, m), shell=True, check=True)
            p = m + "/" + f
            s = open(p).read().split("\n")
            s[n] = b
            open(p, "w").write("\n".join(s))
            env = dict(os.environ, VERIF_REPO=m, VERIF_BUILD=d + "/b", VERIF_EVID=d + "/e")
            first = FILES[f].split()
            got = None
            for i, q in enumerate(first + [x for x in ALL if x not in first]):
                env["VERIF_BUDGET"] = "12" if i < len(first) else "5"
                try:
                    x = subprocess.run([sys.executable, V + "/check.py", q], env=env, capture_output=True, text=True, errors="replace", timeout=900)
                except subprocess.TimeoutExpired:
                    got = q + " TIMEOUT"
                    break
                if x.returncode == 1 and "VIOLATION" in x.stdout:
                    got = q
                    break
                if x.returncode != 0:
                    got = "build" if "build" in (x.stdout + x.stderr) else "error " + (x.stdout + x.stderr)[-200:]
                    break
            with open(out, "a") as o:
                o.write(json.dumps({"file": f, "line": n, "old": a.strip(), "new": b, "by": got}) + "\n")
    finally:
        shutil.rmtree(d)


main()
