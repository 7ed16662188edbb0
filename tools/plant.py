"""Confirm seeded bugs: plant.py ID... (demo passes, patch builds, tests pass, demo fails; then the property's check against it).

Works on /repo itself, one bug at a time, and restores it. -n: skip the check; -p P1,P2: check these instead."""
import json
import os
import re
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, t=600):
    r = subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", timeout=t)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def tests():
    sh("bash /opt/vp/test.sh /tmp/plant.json")
    return json.load(open("/tmp/plant.json"))


def names(j, k="passed"):
    for key in (k, "stable", "tests", "stable_passing"):
        if key in j:
            return set(map(str, j[key]))
    return set()


def original(diff):
    """Removed lines must be lines of the original repository."""
    bad = []
    f = None
    ln = 0
    for l in open(diff, errors="replace"):
        l = l.rstrip("\n")
        if l.startswith("--- a/"):
            f = l[6:]
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-s", f], capture_output=True, text=True).stdout.split("\n")
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            if not bl[ln - 1].startswith("^"):
                bad.append((f, ln, bl[ln - 1][:80]))
            ln += 1
        elif l.startswith(" ") or l == "":
            ln += 1
    return bad


args = sys.argv[1:]
nocheck = "-n" in args
props = None
if "-p" in args:
    props = args[args.index("-p") + 1].split(",")
    del args[args.index("-p"):args.index("-p") + 2]
ids = [a for a in args if a != "-n"]
for i in ids:
    d = V + "/seeded/" + i
    out = [i]
    bad = original(d + "/patch.diff")
    if bad:
        out.append("NOT-ORIGINAL %s" % bad)
    demo = "cd /repo && timeout -s KILL 300 bash %s/demo.sh" % d
    rc, o = sh(demo)
    out.append("clean=%d" % rc + ("" if rc == 0 else " " + o[-300:]))
    rc, o = sh("git -C /repo apply %s/patch.diff" % d)
    if rc:
        print(" ".join(out), "APPLY FAILED", o)
        continue
    try:
        rc, o = sh("bash /opt/vp/build.sh")
        out.append("build=%d" % rc + ("" if rc == 0 else o))
        t = tests()
        ok = len(t.get("passed", []))
        out.append("tests=%s" % ok)
        rc, o = sh(demo)
        out.append("demo=%d" % rc)
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
    print(" ".join(out), flush=True)
    if not nocheck:
        p = props or [json.load(open(d + "/meta.json"))["property"]]
        r = subprocess.run([sys.executable, V + "/tools/mut.py", d + "/patch.diff"] + p, capture_output=True, text=True)
        for l in (r.stdout + r.stderr).split("\n"):
            if "exit" in l or "VIOLATION" in l or "Error" in l:
                print("    ", l[:230], flush=True)
