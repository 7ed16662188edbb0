"""Helpers shared by the scenarios."""
import random

from engine import Scenario  # noqa: F401
import lispgen as L
from simlib import sink

NULL_IO = {0: ["null"], 1: ["sink", "out"], 2: ["sink", "err"]}


def delivery(r, files=False, tty=None):
    """Random delivery conditions: scheduling mode, segmentation, short transfers, delays, buffer sizes."""
    k = {"sched": r.choice([0, 1, 1, 2, 3]), "maxsteps": 400000}
    f = {}
    if r.random() < 0.75:
        k["p_chunk"] = r.choice([500, 2000, 5000, 9000])
    if r.random() < 0.5:
        k["blksize"] = r.choice([512, 1024, 4096, 65536])
    if r.random() < 0.35:
        k["stdincap"] = r.choice([1, 7, 64, 512, 4096])
    if r.random() < 0.35:
        k["pipecap"] = r.choice([4096, 8192])
    if r.random() < 0.5:
        f["short_read"] = {"p": r.choice([500, 3000, 8000]), "only": "/work/"}
    if r.random() < 0.3:
        f["delay"] = {"p": r.choice([50, 500]), "max": 40}
    if r.random() < 0.2:
        f["clock_jump"] = {"p": 50, "max": 3}
    return k, f


def pieces(r, data, sleepy=True):
    """Actor operations that push data in random pieces."""
    ops = []
    i = 0
    mode = r.randrange(5)
    while i < len(data):
        n = {0: len(data), 1: r.randrange(1, 40), 2: r.randrange(1, 2000), 3: 1 if len(data) < 400 else r.randrange(1, 9),
             4: r.choice([1, 3, 1023, 1024, 1025, 4095, 4096, 4097])}[mode]
        ops.append({"op": "push", "data": data[i:i + n]})
        i += n
        if sleepy and r.random() < 0.2:
            ops.append({"op": "sleep", "a": [r.choice([1, 100, 5000])]})
        if len(ops) > 600:
            ops.append({"op": "push", "data": data[i:]})
            break
    ops.append({"op": "closew"})
    return ops


def ended(res, allow=()):
    """Violations of the basic demands on any run: it ends, by itself, without a crash."""
    out = []
    if res["end"] == "stuck":
        b = [(p["pid"], p["blocked"]) for p in res["procs"] if p["state"] == "run"]
        out.append("stuck: the run cannot make progress any more, blocked: %s" % b)
    elif res["end"] == "spin":
        out.append("spin: a process computes without end (%s)" % res.get("msg", ""))
    elif res["end"] == "budget":
        out.append("livelock: the run does not end within %d steps" % res["steps"])
    for p in res["procs"]:
        if p["sig"] and p["sig"] not in allow and p["prog"].endswith("/mnml"):
            out.append("crash: interpreter process %d killed by signal %d" % (p["pid"], p["sig"]))
    return out


def diff(a, b):
    """Short description of the first difference between expected a and observed b."""
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    return "at byte %d expected %r observed %r" % (n, a[max(0, n - 20):n + 40], b[max(0, n - 20):n + 40])


def code(res):
    return res["procs"][0]["code"]


def by_pid(res, name):
    d = {}
    for s, pid, data in res["sinks"].get(name, []):
        d[pid] = d.get(pid, "") + data
    return d


def mark(name):
    return '(unlink "/sim/mark/%s")' % name


def marks(res, name=None):
    return [m for m in res["marks"] if name is None or m["name"] == name]


def repl_answers(out, answers):
    """Match REPL output against the expected answers; prompts may come anywhere between them. Returns error or None."""
    pos = 0
    for i, a in enumerate(answers):
        while out.startswith(": ", pos):
            pos += 2
        if not out.startswith(a, pos):
            return "answer %d: expected %r observed %r" % (i, a[:120], out[pos:pos + 120])
        pos += len(a)
    while out.startswith(": ", pos):
        pos += 2
    if pos != len(out):
        return "unexpected output after the last answer: %r" % out[pos:pos + 120]
    return None
