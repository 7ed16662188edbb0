"""Try a mutation: mut.py '<file>' '<old>' '<new>' PROP... (in a scratch copy; old must occur exactly once, or give file as a .diff)."""
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = sys.argv[1]
d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
try:
    m = d + "/m"
    subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
    subprocess.run("mkdir -p %s && git -C /repo archive HEAD | tar x -C %s" % (m, m), shell=True, check=True)
    if f.endswith(".diff"):
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + m, os.path.abspath(f)], check=True, cwd="/")
        props = sys.argv[2:]
    else:
        p = os.path.join(m, f)
        s = open(p).read()
        old, new = sys.argv[2].encode().decode("unicode_escape"), sys.argv[3].encode().decode("unicode_escape")
        if s.count(old) != 1:
            sys.exit("old text occurs %d times" % s.count(old))
        open(p, "w").write(s.replace(old, new))
        props = sys.argv[4:]
    env = dict(os.environ, VERIF_REPO=m, VERIF_BUILD=d + "/b", VERIF_EVID=os.environ.get("VERIF_EVID", d + "/e"))
    for q in props:
        r = subprocess.run([sys.executable, V + "/check.py", q], env=env, capture_output=True, text=True)
        print(q, "exit", r.returncode, (r.stdout[-700:] if r.returncode else r.stdout.strip()[-100:]), r.stderr[-800:])
finally:
    shutil.rmtree(d)
