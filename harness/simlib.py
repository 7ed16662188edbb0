"""Build helpers and the client side of the simulator (simd)."""
import hashlib
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

CLEAN_PATH = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"


class BuildError(Exception):
    pass


def _sha(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def _tree(root, subs):
    out = []
    for s in subs:
        p = os.path.join(root, s)
        if os.path.isfile(p):
            out.append(p)
        for d, dirs, files in os.walk(p):
            dirs[:] = [x for x in dirs if x not in ("_build", ".git")]
            out += [os.path.join(d, f) for f in files if os.path.isfile(os.path.join(d, f))]
    return sorted(out)


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        import fcntl
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_sim():
    """Build the simulator; returns (simd, stub)."""
    src = os.path.join(VERIF, "sim")
    d = os.path.join(BUILD, "sim-" + _sha([os.path.join(src, "simd.cpp"), os.path.join(src, "stub.c")]))
    simd, stub = os.path.join(d, "simd"), os.path.join(d, "stub")
    with Lock("sim"):
        if not (os.path.exists(os.path.join(d, "ok"))):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for cmd in (["g++", "-std=c++17", "-O2", "-o", simd, os.path.join(src, "simd.cpp")],
                        ["gcc", "-O1", "-nostdlib", "-static", "-ffreestanding", "-fno-stack-protector", "-fno-builtin",
                         "-o", stub, os.path.join(src, "stub.c")]):
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode:
                    raise BuildError("simulator build failed:\n" + r.stderr)
            open(os.path.join(d, "ok"), "w").close()
    return simd, stub


def build_mnml():
    """Build mnml and its modules from REPO's working tree, out of tree; returns the build directory."""
    files = _tree(REPO, ["CMakeLists.txt", "cmake", "bin", "lib", "include", "share", "test"])
    d = os.path.join(BUILD, "mnml-" + _sha(files))
    with Lock("mnml"):
        if os.path.exists(os.path.join(d, ".ok")):
            return d
        for x in os.listdir(BUILD):
            if x.startswith("mnml-"):
                shutil.rmtree(os.path.join(BUILD, x), ignore_errors=True)
        os.makedirs(d)
        home = os.path.join(d, "home")
        os.makedirs(os.path.join(home, ".mnml"))
        env = {"PATH": CLEAN_PATH, "LANG": "C.UTF-8", "CC": "gcc", "HOME": home, "PWD": d}
        r = subprocess.run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-Wno-dev", "-DCMAKE_BUILD_TYPE=Debug",
                            "-DMNML_ENABLE_TESTS=OFF", "-DMNML_ENABLE_LISPY_TESTS=OFF", "-DMNML_WITH_MODULES=ON",
                            "-DMNML_WITH_TRANSFN=ON"], env=env, capture_output=True, text=True, cwd=d)
        if r.returncode:
            raise BuildError("cmake failed:\n" + r.stdout[-2000:] + r.stderr[-2000:])
        # The transpiled plugins are produced by running mnml itself; a tree whose mnml cannot do that is still checked
        # with the other modules.
        r = subprocess.run(["timeout", "-s", "KILL", "200", "ninja", "-C", d, "-k", "0"], env=env, capture_output=True,
                           text=True, cwd=d)
        subprocess.run(["pkill", "-9", "-f", "^" + d + "/bin/mnml"], capture_output=True)
        if not os.path.exists(os.path.join(d, "bin", "mnml")) or not os.path.exists(
                os.path.join(d, "lib", "mnml", "libstd.so")):
            raise BuildError("ninja failed:\n" + r.stdout[-3000:] + r.stderr[-2000:])
        open(os.path.join(d, ".ok"), "w").close()
    return d


def b(x):
    return x if isinstance(x, bytes) else x.encode("latin-1")


class Sim:
    """One simulator process serving jobs."""

    def __init__(self, simd, stub, bdir, libfiles=None):
        self.args = (simd, stub, bdir, libfiles)
        self.bdir = bdir
        self.start()

    def start(self):
        simd, stub, bdir, libfiles = self.args
        self.p = subprocess.Popen([simd, stub], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env={"PATH": CLEAN_PATH}, start_new_session=True)
        out = []
        ld = os.path.join(bdir, "lib", "mnml")
        for f in sorted(os.listdir(ld)):
            if f.endswith(".so"):
                out.append(self._file("base", "host", 0o755, os.path.join(ld, f), b"", os.path.join(ld, f)))
        for name, data in sorted((libfiles or repo_lib()).items()):
            # Found through MNML_SCRIPT_PATH, and where an installed interpreter looks for it.
            out.append(self._file("base", "file", 0o644, "/usr/share/mnml/" + name, data, ""))
            out.append(self._file("base", "file", 0o644, bdir + "/share/mnml/" + name, data, ""))
        out.append(self._file("base", "dir", 0o755, "/home/u/.mnml", b"", ""))
        out.append(self._file("base", "file", 0o644, "/etc/hosts", b"127.0.0.1 localhost sim.host\n", ""))
        out.append(self._file("base", "file", 0o644, "/etc/nsswitch.conf", b"hosts: files\n", ""))
        out.append(self._file("base", "file", 0o644, "/etc/services", b"http 80/tcp\n", ""))
        out.append(self._file("base", "file", 0o644, "/etc/host.conf", b"multi on\n", ""))
        out.append(self._file("base", "file", 0o644, "/etc/resolv.conf", b"", ""))
        self.p.stdin.write(b"".join(out))
        self.p.stdin.flush()

    @staticmethod
    def _file(cmd, kind, mode, path, data, host):
        path, data, host = b(path), b(data), b(host)
        return b"%s %s %o %d %d %d\n%s\n%s\n%s\n" % (b(cmd), b(kind), mode, len(path), len(data), len(host), path, data,
                                                    host)

    def prefix(self, s):
        """@PREFIX stands for the directory that holds bin/mnml and lib/mnml."""
        return s.replace("@PREFIX", self.bdir) if isinstance(s, str) else s

    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        self.p.kill()
        self.p.wait()

    def run(self, job, choices=None, trace=False):
        """job: dict(seed, argv, env, files, stdfd, actors, knobs, faults, cwd).  choices: replay list or None."""
        o = [b"job\n", b"seed %d\n" % job.get("seed", 1)]
        if choices is not None:
            o.append(b"replay\n")
            for i, v in choices:
                o.append(b"choice %d %d\n" % (i, v))
        if trace:
            o.append(b"trace\n")
        for k, v in job.get("knobs", {}).items():
            o.append(b"knob %s %d\n" % (b(k), v))
        for k, f in job.get("faults", {}).items():
            o.append(b"fault %s %d %d %d %s%s\n" % (b(k), f.get("p", 0), f.get("max", 1000000), f.get("window", 0),
                                                     b(f.get("only", "") or "-"),
                                                     b("".join(" %d" % n for n in f.get("nth", [])))))
        exe = b(os.path.join(self.bdir, "bin", "mnml"))
        o.append(b"exe %d\n%s\n" % (len(exe), exe))
        cwd = b(job.get("cwd", "/work"))
        o.append(b"cwd %d\n%s\n" % (len(cwd), cwd))
        for a in [exe] + [b(x) for x in job["argv"]]:
            o.append(b"arg %d\n%s\n" % (len(a), a))
        env = {"HOME": "/home/u", "PWD": job.get("cwd", "/work"), "MNML_SCRIPT_PATH": "/usr/share/mnml"}
        env.update(job.get("env", {}))
        for k, v in sorted(env.items()):
            if v is None:
                continue
            s = b(k + "=" + self.prefix(v))
            o.append(b"env %d\n%s\n" % (len(s), s))
        for path, f in sorted(job.get("files", {}).items()):
            if isinstance(f, (bytes, str)):
                f = {"data": f}
            host = exe if f.get("host") == "mnml" else f.get("host", "")
            o.append(self._file("file", f.get("kind", "file"), f.get("mode", 0o644), self.prefix(path), f.get("data", b""), self.prefix(host)))
        for a in job.get("actors", []):
            o.append(b"actor %s\n" % b(a["name"]))
            for op in a["ops"]:
                data = b(op.get("data", b""))
                o.append(b"op %s %d %s\n%s\n" % (b(op["op"]), len(data), b" ".join(b(str(x)) for x in op.get("a", [])),
                                                 data))
        for fd, v in sorted(job.get("stdfd", {}).items()):
            o.append(b"stdfd %d %s\n" % (int(fd), b" ".join(b(x) for x in v)))
        o.append(b"run\n")
        try:
            self.p.stdin.write(b"".join(o))
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b""
        if not line:
            rc = self.p.wait()
            self.start()
            raise SimError("simulator died (%s)" % rc)
        res = json.loads(line)
        res["prefix"] = self.bdir
        return res


class SimError(Exception):
    pass


def repo_lib():
    d = os.path.join(REPO, "share", "mnml")
    out = {}
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            with open(p, "rb") as fh:
                out[f] = fh.read()
    return out


def sink(res, name):
    return "".join(s[2] for s in res["sinks"].get(name, []))
