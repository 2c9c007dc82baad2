"""Builds the replay harness from /repo's current sources (content-hash cached) and drives it."""
import hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import xast
from xast import REPO, VERIF, WORK, fhash, sha

CXX = ["g++", "-std=gnu++14", "-w", "-O0", "-c"]
LIBS = ("-l:libmedC.so /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -lcrypto -lcurl -lpthread -lsz -lz -ldl -lm "
        "-lboost_thread -lboost_date_time -lboost_program_options -lboost_filesystem -lboost_system -lboost_regex -lboost_chrono -lboost_atomic").split()


class BuildError(Exception):
    pass


def flags():
    return xast.flags()


def parse_d(path):
    with open(path) as f:
        s = f.read().replace("\\\n", " ")
    return [p for p in s.split(":", 1)[1].split() if p.startswith(REPO + "/") or p.startswith(VERIF + "/replay") or p.startswith(WORK + "/gen")]


def compile_one(src, tag, extra=()):
    """object file for a source of /repo (or of /verif/replay) whose text and repo headers are as now"""
    odir = os.path.join(WORK, "obj")
    os.makedirs(odir, exist_ok=True)
    base = os.path.join(odir, tag)
    fl = sha(src, " ".join(flags()), " ".join(extra))
    try:
        with open(base + ".meta") as f:
            m = json.load(f)
        if m["fl"] == fl and xast.deps_ok(m["deps"]) and os.path.exists(base + ".o"):
            return base + ".o"
    except (OSError, ValueError, KeyError):
        pass
    t = "%s.%d" % (base, os.getpid())
    r = subprocess.run(CXX + flags() + list(extra) + ["-MD", "-MF", t + ".d", "-o", t + ".o", src], capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("%s does not compile: %s" % (src, r.stderr[-1500:]))
    deps = {p: fhash(p) for p in parse_d(t + ".d")}
    deps[src] = fhash(src)
    os.replace(t + ".o", base + ".o")
    os.unlink(t + ".d")
    with open(t + ".meta", "w") as f:
        json.dump({"fl": fl, "deps": deps}, f)
    os.replace(t + ".meta", base + ".meta")
    return base + ".o"


def repo_objects():
    srcs = [t for t in xast.ALL_TUS if not t.endswith("vegamain.cpp")]
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda t: compile_one(os.path.join(REPO, t), t.replace("/", "__")), srcs))


def harness_sources():
    d = os.path.join(VERIF, "replay")
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".cpp")]


_exe = None
missing_ops = []


def build():
    """link the harness; an ops file that no longer compiles against /repo is left out (its ops are then unavailable)"""
    global _exe
    if _exe:
        return _exe
    objs = repo_objects()
    hs = []
    import gendump
    gen = os.path.join(WORK, "gen")
    try:
        gendump.generate(os.path.join(gen, "gen_dump.h"))
    except Exception as e:
        missing_ops.append("model dump: %s" % e)

    def one(s):
        try:
            return compile_one(s, "replay__" + os.path.basename(s), ["-fno-access-control", "-I" + REPO, "-I" + os.path.join(VERIF, "replay"), "-I" + gen])
        except BuildError as e:
            missing_ops.append("%s: %s" % (os.path.basename(s), str(e)[:3000]))
            return None
    with ThreadPoolExecutor(8) as ex:
        hs = [o for o in ex.map(one, harness_sources()) if o]
    key = sha(*sorted(fhash_now(o) for o in objs + hs))[:16]
    exe = os.path.join(WORK, "bin", "vegaops-" + key)
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        t = exe + ".%d" % os.getpid()
        r = subprocess.run(["g++", "-no-pie", "-o", t] + hs + objs + LIBS, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("harness does not link: " + r.stderr[-1500:])
        for f in os.listdir(os.path.dirname(exe)):
            if f.startswith("vegaops-") and not f.startswith(os.path.basename(exe)):
                try:
                    os.unlink(os.path.join(os.path.dirname(exe), f))
                except OSError:
                    pass
        os.replace(t, exe)
    _exe = exe
    return exe


def fhash_now(p):
    with open(p, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


class Crash:
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "CRASH(%s)" % self.what


def run_ops(lines, timeout=120):
    """one result per op line; a crash of the real code is reported as Crash for the op that caused it"""
    exe = build()
    res = []
    i = 0
    scratch = os.path.join(WORK, "scratch", str(os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    while i < len(lines):
        try:
            p = subprocess.run([exe], input="\n".join(lines[i:]) + "\n", capture_output=True, text=True, timeout=timeout, cwd=scratch, errors="replace")
            out, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as e:
            out, rc = (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"
        got = [l[4:] for l in out.split("\n") if l.startswith("@@R ")]
        for g in got:
            try:
                res.append(json.loads(g))
            except ValueError:
                res.append(Crash("unparsable output " + g[:200]))
        i += len(got)
        if i < len(lines):
            if rc == 0 and not got:
                res.append(Crash("no output"))
            else:
                res.append(Crash("real code ended with %s" % rc))
            i += 1
    subprocess.run(["rm", "-r", "-f", scratch])
    return res
