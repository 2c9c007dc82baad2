"""Mechanical extraction of the code under contract from /repo (clang AST) and its loading.

Every run re-extracts every translation unit whose text (or any /repo header it includes) changed since the
cached extraction; the cache key is the content, so a stale body can never be used."""
import functools, hashlib, json, os, subprocess, sys, shlex, fcntl, threading
from concurrent.futures import ThreadPoolExecutor
from functools import lru_cache

REPO = os.environ.get("VEGA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("VEGA_WORK") or os.path.join(VERIF, ".work")

def list_tus():
    out = []
    for d in ("Abstract", "Nastran", "Optistruct", "Aster", "Systus", "ResultReaders", "Commandline"):
        p = os.path.join(REPO, d)
        if os.path.isdir(p):
            out += sorted(d + "/" + f for f in os.listdir(p) if f.endswith(".cpp"))
    return out


ALL_TUS = list_tus()

COMPAT = """#ifdef __cplusplus
#define make_unique vp_libstdcxx_make_unique
#include <memory>
#undef make_unique
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#endif
"""
PROPS = """#ifndef BUILD_PROPERTIES_H_
#define BUILD_PROPERTIES_H_
#define VEGA_VERSION_MAJOR 3
#define VEGA_VERSION_MINOR 1
#define VEGA_VERSION_PATCH 1
#define VEGA_VERSION_EXTRA ""
#define PROJECT_BASE_DIR "/repo"
#define PROJECT_BINARY_DIR "/repo/_build"
#define Backtrace_FOUND 0
#define LIBUNWIND_FOUND 0
#define VALGRIND_FOUND 1
#define TESTS_NIGHTLY_BUILD ""
#define BUILD_TYPE "Debug"
#define DOXYGEN_DOT_EXECUTABLE ""
#define RUN_ASTER 0
#define ENABLE_ASTER 1
#define RUN_SYSTUS 0
#define RUN_NASTRAN 1
#endif
"""


def write_if(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    tmp = path + ".%d.%d" % (os.getpid(), threading.get_ident())
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


@functools.lru_cache(None)
def support():
    inc = os.path.join(WORK, "inc")
    write_if(os.path.join(inc, "vp_compat.h"), COMPAT)
    write_if(os.path.join(inc, "build_properties.h"), PROPS)
    return inc


def flags():
    inc = support()
    return ["-std=gnu++14", "-w", "-include", inc + "/vp_compat.h", "-I" + inc, "-isystem", "/usr/include/hdf5/serial"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


_filehash = {}


def fhash(path):
    if path not in _filehash:
        try:
            with open(path, "rb") as f:
                _filehash[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _filehash[path] = "missing"
    return _filehash[path]


def extractor():
    src = os.path.join(VERIF, "extract", "vegaextract.cpp")
    h = fhash(src)[:12]
    out = os.path.join(WORK, "bin", "vegaextract-" + h)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        subprocess.run(["bash", os.path.join(VERIF, "extract", "build.sh"), out], check=True, stdout=subprocess.DEVNULL)
    return out


def deps_ok(deps):
    return all(fhash(p) == h for p, h in deps.items())


class ExtractError(Exception):
    pass


def extract_tu(tu):
    """returns parsed JSON for a TU of /repo's current tree"""
    src = os.path.join(REPO, tu)
    if not os.path.exists(src):
        raise ExtractError("no such file " + tu)
    ex = extractor()
    cdir = os.path.join(WORK, "ast")
    os.makedirs(cdir, exist_ok=True)
    base = os.path.join(cdir, tu.replace("/", "__"))
    tag = os.path.basename(ex)
    meta = base + ".meta"
    try:
        with open(meta) as f:
            m = json.load(f)
        if m["tag"] == tag and m["repo"] == REPO and deps_ok(m["deps"]) and os.path.exists(base + ".json"):
            return base + ".json"
    except (OSError, ValueError, KeyError):
        pass
    tmp = base + ".tmp%d" % os.getpid()
    r = subprocess.run([ex, REPO, tmp, src, "--", "-x", "c++"] + flags(), capture_output=True, text=True)
    if r.returncode != 0:
        raise ExtractError("extraction of %s failed: %s" % (tu, (r.stderr or r.stdout)[-2000:]))
    with open(tmp) as f:
        d = json.load(f)
    deps = {p: fhash(p) for p in d["deps"]}
    deps[src] = fhash(src)
    os.replace(tmp, base + ".json")
    with open(meta + ".tmp%d" % os.getpid(), "w") as f:
        json.dump({"tag": tag, "repo": REPO, "deps": deps}, f)
    os.replace(meta + ".tmp%d" % os.getpid(), meta)
    return base + ".json"


class Fn:
    __slots__ = ("tu", "ref", "d", "q", "u", "params", "body", "file", "line", "end", "inits")

    def __init__(self, tu, d):
        self.tu = tu
        self.d = d
        self.ref = tu.fnrefs[d["f"]]
        self.q = self.ref["q"]
        self.u = self.ref["u"]
        self.params = d["params"]
        self.body = d["body"]
        self.file, self.line, self.end = d["file"], d["line"], d["end"]
        self.inits = d.get("inits")


class TU:
    def __init__(self, name, d):
        self.name = name
        self.types = d["types"]
        self.fnrefs = d["fnrefs"]
        for r in self.fnrefs:
            if r:
                r["tu"] = self
        self.varrefs = d["varrefs"]


class Program:
    def __init__(self, tus):
        self.tus = []
        self.fns = {}      # usr -> Fn
        self.byq = {}      # qualified name -> [Fn]
        self.records = {}  # qname -> dict
        self.globals = {}  # usr -> (tu, init)
        self.enums = {}
        self.sub = {}
        self.cmpmemo = {}   # (comparator, text, text) -> result
        extractor()
        with ThreadPoolExecutor(8) as ex:
            paths = list(ex.map(extract_tu, tus))
        for t, p in zip(tus, paths):
            with open(p) as f:
                self.load(t, json.load(f))
        self.vt = {}

    def load(self, name, d):
        tu = TU(name, d)
        self.tus.append(tu)
        for fd in d["functions"]:
            f = Fn(tu, fd)
            old = self.fns.get(f.u)
            if old is not None:
                if "defs" in fd and "defs" not in old.d:    # an instantiation whose default arguments are used (elsewhere they are not instantiated)
                    self.fns[f.u] = f
                    self.byq[f.q] = [f if x is old else x for x in self.byq[f.q]]
                continue
            self.fns[f.u] = f
            self.byq.setdefault(f.q, []).append(f)
        for r in d["records"]:
            if r["q"] in self.records:
                continue
            r["tu"] = tu
            r["basenames"] = [tu.types[b] for b in r["bases"]]
            r["mrefs"] = [tu.fnrefs[m] for m in r["methods"]]
            self.records[r["q"]] = r
        for v, file, line, init in d["globals"]:
            ref = tu.varrefs[v]
            self.globals.setdefault(ref["u"], (tu, init, tu.types[ref["t"]], ref["q"], file, line))
        for q, vs in d["enums"]:
            self.enums[q] = {n: int(v) for n, v in vs}

    def bases(self, q):
        r = self.records.get(q)
        return r["basenames"] if r else []

    @lru_cache(None)
    def is_sub(self, q, base):
        if q == base:
            return True
        return any(self.is_sub(b, base) for b in self.bases(q))

    @lru_cache(None)
    def all_bases(self, q):
        out = [q]
        for b in self.bases(q):
            for x in self.all_bases(b):
                if x not in out:
                    out.append(x)
        return out

    @lru_cache(None)
    def overrides(self, u):
        """usrs transitively overridden by method usr"""
        return None

    def resolve_virtual(self, cls, ref):
        key = (cls, ref["u"])
        if key in self.vt:
            return self.vt[key]
        res = None

        def overrides(r, target, seen=None):
            if r["u"] == target:
                return True
            for o in r.get("ov", []):
                if overrides(r["tu"].fnrefs[o], target):
                    return True
            return False
        for c in self.all_bases(cls):
            rec = self.records.get(c)
            if not rec:
                continue
            for m in rec["mrefs"]:
                if overrides(m, ref["u"]):
                    res = m
                    break
            if res:
                break
        self.vt[key] = res or ref
        return self.vt[key]
