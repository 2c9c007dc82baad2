"""Authoring aid for planted bugs (never used by a check): makes the patch in a scratch copy of /repo bound over /repo in a
user namespace, validates build, stable tests and demonstration, and runs the property's check on the patched tree.
usage in a script: from seed import seed; seed(id, property, needs, breaks, [(file, old, new)...], demo_cpp or demo_sh_body)"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/seedrepo"
DEMO = r'''#!/bin/bash
# exit 0 when the property holds on this input, 1 when it does not
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap '/bin/rm -r "$t"' EXIT
L="-L_build/lib -Wl,--start-group -lnastran -laster -lsystus -loptistruct -lresultReaders -lcommandline -labstract -Wl,--end-group -l:libmedC.so /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -lcrypto -lcurl -lpthread -lsz -lz -ldl -lm -lboost_thread -lboost_date_time -lboost_program_options -lboost_filesystem -lboost_system -lboost_regex -lboost_chrono -lboost_atomic"
g++ -std=gnu++14 -w -O0 -no-pie -include _build/vp_compat.h -I. -I_build -isystem /usr/include/hdf5/serial -o "$t/demo" "$d/demo.cpp" $L || exit 3
cd "$t" && timeout 100 ./demo
'''


def sh(cmd, ns=True, timeout=2000):
    if ns:
        cmd = ["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo; %s" % (COPY, cmd)]
    else:
        cmd = ["bash", "-c", cmd]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors="replace")
    return r.returncode, r.stdout + r.stderr


def sync():
    subprocess.run("cd %s && git checkout -q -- . && git pull -q /repo HEAD 2>&1 | tail -1; git -C %s reset -q --hard $(git -C /repo rev-parse HEAD)" % (COPY, COPY), shell=True, check=True)


def check(pid, tier="quick"):
    rc, out = sh("cd %s && ./check %s %s" % (V, pid, tier))
    return rc, out


def edit(edits):
    for f, a, b in edits:
        p = os.path.join(COPY, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))


def seed(id, prop, needs, breaks, edits, demo, tests=True):
    sync()
    edit(edits)
    patch = subprocess.run(["git", "-C", COPY, "diff"], capture_output=True, text=True).stdout
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO if not demo.startswith("#!") else demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if not demo.startswith("#!"):
        open(os.path.join(d, "demo.cpp"), "w").write(demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    rc0, o0 = sh("cd /repo && bash %s/demo.sh" % d, ns=False)
    rcb, ob = sh("bash /opt/vp/build.sh")
    bad = []
    rc1 = None
    if rcb == 0:
        if tests:
            sh("bash /opt/vp/test.sh /tmp/seed_t.json")
            b = json.load(open("/opt/vp/BASELINE.json"))
            t = json.load(open("/tmp/seed_t.json"))
            bad = [x for x in b["stable"] if x not in t["passed"]]
        rc1, o1 = sh("cd /repo && bash %s/demo.sh" % d)
    rcc, oc = check(prop)
    ok = rc0 == 0 and rcb == 0 and not bad and rc1 not in (0, 3, None)
    print("%s %s valid=%s caught=%s | clean demo %s build %s broken tests %s patched demo %s" % (id, prop, ok, rcc == 1, rc0, rcb, bad[:3], rc1))
    if rc0: print(o0[-600:])
    if rcb: print(ob[-800:])
    print("   " + "\n   ".join(l[:200] for l in oc.strip().split("\n")[-4:]))
    sync()
    if not ok:
        subprocess.run(["rm", "-r", "-f", d])
    return ok, rcc == 1
