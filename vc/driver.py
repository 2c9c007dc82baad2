"""Decides one property: generates and discharges every proof obligation from /repo's current source, replays refuted
obligations on the real code, runs the bounded stand-ins, writes the evidence file."""
import importlib, json, multiprocessing as mp, os, random, sys, time, traceback, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs"))
sys.setrecursionlimit(20000)
import xast
from xast import VERIF, WORK, REPO
import engine as E

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Unit:
    """a contract: obligations generated by run(ctx) over every path.
    replay(model) -> list of Case built from a counterexample; bounded: text of the bound if the unit is only bounded"""

    def __init__(self, name, run, opts=None, replay=None, bounded=None, strict=True, max_time=None):
        self.name, self.run, self.opts, self.replay, self.bounded, self.strict = name, run, dict(opts or {}), replay, bounded, strict
        if max_time:
            self.opts["max_time"] = max_time


class Case:
    """concrete inputs for the real code with their oracle: check(results) returns None or a description of the disagreement"""
    __slots__ = ("key", "ops", "check", "group")

    def __init__(self, key, ops, check, group="suite"):
        self.key, self.ops, self.check, self.group = key, ops if isinstance(ops, list) else [ops], check, group


_MOD = None
_PROG = None


def _run_unit(i):
    u = _MOD.UNITS[i]
    S = E.Session(_PROG)
    t = time.time()
    try:
        st = E.explore(S, u.run, u.opts, u.name)
    except Exception as e:
        st = {"paths": 0, "infeasible": 0, "unsupported": ["internal: " + "".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + str(traceback.extract_tb(e.__traceback__)[-1])], "ub": [], "time": 0}
        S.obl(u.name + "/safety").unknown = [{"info": st["unsupported"][0]}]
    out = {}
    for k, o in S.obls.items():
        out[k] = {"status": o.status, "paths": o.paths, "failed": o.failed[:6], "unknown": o.unknown[:6], "time": o.time, "solver": sorted(o.solver)}
    return {"unit": u.name, "i": i, "stat": st, "obls": out, "functions": S.functions, "contracted": S.contracted, "contracts_used": sorted(S.contracts_used), "libs": sorted(S.libs),
            "assumptions": sorted(S.assumptions), "solver_time": S.solver_time, "covers": S.covers, "wall": time.time() - t}


def _run_cases(batch):
    import runner
    ops, idx = [], []
    for c in batch:
        idx.append((len(ops), len(c.ops)))
        ops += c.ops
    return idx, runner.run_ops(ops)


_CASES = None


def _run_slice(ab):
    a, b = ab
    batch = _CASES[a:b]
    idx, res = _run_cases(batch)
    out = []
    for c, (s, n) in zip(batch, idx):
        r = res[s:s + n]
        if any(isinstance(x, dict) and "noop" in x for x in r):
            out.append(("skip", None))
            continue
        try:
            m = c.check(r if n > 1 else r[0])
        except Exception as e:
            if any(not isinstance(x, dict) and not isinstance(x, list) for x in r):
                m = "real code crashed: %s" % r
            elif any(isinstance(x, dict) and "exc" in x for x in r):
                m = "unexpected exception: %s" % [x for x in r if isinstance(x, dict) and "exc" in x][0]
            else:
                m = "answer of the real code not of the expected form (%s: %s): %s" % (type(e).__name__, e, str(r)[:600])
        out.append(("ok", None) if m is None else ("bad", str(m)[:1500]))
    return out


def run_cases(cases):
    """[(case, message)] of the failing ones, number run, number skipped, oracle errors"""
    global _CASES
    import runner
    try:
        runner.build()
    except runner.BuildError as e:
        return [], 0, len(cases), ["harness unavailable: " + str(e)[:400]]
    _CASES = cases
    n = len(cases)
    step = max(1, min(400, (n + 15) // 16))
    sl = [(a, min(n, a + step)) for a in range(0, n, step)]
    with mp.get_context("fork").Pool(8) as pool:
        outs = pool.map(_run_slice, sl, chunksize=1)
    flat = [x for o in outs for x in o]
    bad = [(c, m) for c, (s, m) in zip(cases, flat) if s == "bad"]
    return bad, sum(1 for s, _ in flat if s in ("ok", "bad")), sum(1 for s, _ in flat if s == "skip"), sorted({m for s, m in flat if s == "err"})


def known(prop):
    out = []
    try:
        with open(KNOWN) as f:
            for l in f:
                l = l.strip()
                if l.startswith("finding: property=%s " % prop):
                    m = dict(p.split("=", 1) for p in l.split()[1:3])
                    out.append((m["key"], l.split(" ", 3)[3]))
    except OSError:
        pass
    return out


def save_replay(prop, tag, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(tag.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return p


def main(prop, tier, seed):
    global _MOD, _PROG
    t0 = time.time()
    _MOD = importlib.import_module(prop.lower())
    budget = 780 if tier == "quick" else 3000
    violations, notes, findings = [], [], []
    results = []
    err = None
    try:
        _PROG = xast.Program([t for t in _MOD.TUS if os.path.exists(os.path.join(REPO, t))])
    except (xast.ExtractError, Exception) as e:
        err = "extraction: %s" % str(e)[-600:]
        notes.append(err)
    if _PROG is not None:
        setup = getattr(_MOD, "setup", None)
        if setup:
            setup(_PROG)
        os.environ["VEGA_TIER"] = tier
        order = sorted(range(len(_MOD.UNITS)), key=lambda i: -_MOD.UNITS[i].opts.get("weight", 1))
        with mp.get_context("fork").Pool(min(8, max(1, len(order)))) as pool:
            for r in pool.imap_unordered(_run_unit, order, chunksize=1):
                results.append(r)
    results.sort(key=lambda r: r["i"])
    # ---- concrete runs: counterexample replay + bounded stand-ins
    cases = []
    from_obl = {}
    failed, unknown = [], []
    for r in results:
        u = _MOD.UNITS[r["i"]]
        for name, o in r["obls"].items():
            if o["status"] == "failed":
                failed.append((u, name, o))
                if u.replay:
                    for f in o["failed"]:
                        if "model" in f:
                            try:
                                for c in u.replay(f["model"]):
                                    c.group = "replay:" + name
                                    cases.append(c)
                            except Exception as e:
                                notes.append("replay of %s could not be built: %s" % (name, e))
            elif o["status"] == "unknown":
                unknown.append((u, name, o))
    rng = random.Random(seed * 7919 + 13)
    suite = _MOD.suite(rng, tier) if hasattr(_MOD, "suite") else []
    cases += suite
    bad, nrun, nskip, errs = run_cases(cases) if cases else ([], 0, 0, [])
    if nskip:
        notes.append("%d concrete cases unavailable (harness operation missing)" % nskip)
    notes += ["oracle error: " + e for e in errs[:5]]
    kn = known(prop)
    seen = set()
    for c, m in bad:
        k = next(((key, txt) for key, txt in kn if c.key == key or (key.endswith("*") and c.key.startswith(key[:-1]))), None)
        if k:
            if k[0] not in seen:
                seen.add(k[0])
                findings.append((k[0], k[1]))
            continue
        violations.append((c, m))
    confirmed = bool(violations)
    lines = []
    for c, m in violations[:5]:
        obl = [n for _, n, _ in failed]
        p = save_replay(prop, c.key, {"property": prop, "kind": "concrete input on the real code", "case": c.key, "origin": c.group, "ops": c.ops, "disagreement": m,
                                      "failed_obligations": obl[:20], "how": "feed the ops lines to the harness built by setup (see /verif/DESIGN.md), compare with the oracle in /verif/specs/%s.py" % prop.lower()})
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        print("# %s: %s" % (c.key, m[:300]))
    if not confirmed:
        for u, name, o in failed:
            k = next(((key, txt) for key, txt in kn if key == name), None)
            if k:
                if k[0] not in seen:
                    seen.add(k[0])
                    findings.append(k)
                continue
            if not u.strict:
                notes.append("obligation %s refuted in an over-approximated context, no concrete input: undecided" % name)
                continue
            p = save_replay(prop, name, {"property": prop, "kind": "failed obligation", "obligation": name, "unit": u.name, "verifier_output": o["failed"][:3]})
            lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, p))
            print("# obligation %s refuted: %s" % (name, str(o["failed"][0].get("what") or o["failed"][0].get("info") or o["failed"][0].get("goal"))[:300]))
    for k, txt in findings:
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k, txt))
    for u, name, o in unknown:
        print("# undecided obligation %s: %s" % (name, str(o["unknown"][0].get("info") or o["unknown"][0].get("goal"))[:220]))
    nobl = sum(len(r["obls"]) for r in results)
    ndis = sum(1 for r in results for o in r["obls"].values() if o["status"] == "discharged")
    bounded_units = [u for u in _MOD.UNITS if u.bounded]
    bnames = {u.name for u in bounded_units}
    pr = [(n, o) for r in results if r["unit"] not in bnames for n, o in r["obls"].items()]
    fun, con, libs, ass, cu = {}, {}, set(), set(), set()
    for r in results:
        fun.update(r["functions"])
        con.update(r["contracted"])
        libs.update(r["libs"])
        ass.update(r["assumptions"])
        cu.update(r["contracts_used"])
    backends = {}
    for r in results:
        for o in r["obls"].values():
            for b in o["solver"]:
                backends[b] = backends.get(b, 0) + 1
    level = getattr(_MOD, "LEVEL", "proof")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": len(pr), "discharged": sum(1 for n, o in pr if o["status"] == "discharged"),
            "refuted": sum(1 for n, o in pr if o["status"] == "failed"), "undecided": sum(1 for n, o in pr if o["status"] == "unknown"),
            "checker_cmd": "./check %s %s" % (prop, tier),
            "trusted_base": ["clang 18 front end and the AST extraction /verif/extract/vegaextract.cpp", "VC generator /verif/vc (interp.py, engine.py)", "z3 (python bindings) back end",
                             "assumed contracts of library functions: " + ", ".join(sorted(libs))],
            "bounded_obligations": {"count": nobl - len(pr), "discharged": ndis - sum(1 for n, o in pr if o["status"] == "discharged"), "bounds": {u.name: u.bounded for u in bounded_units}},
            "functions_under_contract": con, "functions_executed_symbolically": fun, "contracts_assumed_at_calls": sorted(cu),
            "obligation_list": {n: {"status": o["status"], "paths": o["paths"], "solver": o["solver"], "time_s": round(o["time"], 3)} for r in results for n, o in r["obls"].items()},
            "units": {r["unit"]: {"paths": r["stat"]["paths"], "infeasible": r["stat"]["infeasible"], "unsupported": r["stat"]["unsupported"][:3], "wall_s": round(r["wall"], 2)} for r in results},
            "backend_use": backends, "solver_time_s": round(sum(r["solver_time"] for r in results), 2),
            "vacuity_covers": {k: v for r in results for k, v in r["covers"].items()},
            "evaluations": nrun, "distinct_nontrivial": len({c.key for c in cases}), "rule": getattr(_MOD, "RULE", "bounded stand-in: concrete inputs on the real code against the executable specification; distinct by input"),
            "samples": [{"key": c.key, "ops": c.ops[:2]} for c in cases[:3]],
            "notes": notes,
        },
        "assumptions": sorted(set(getattr(_MOD, "ASSUMPTIONS", []) + ["double arithmetic is treated as exact real arithmetic in the proofs", "signed int arithmetic does not overflow"] + list(ass))),
        "wall_s": round(time.time() - t0, 2), "violations": len(lines),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (prop, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for n in notes:
        print("# note: " + str(n)[:400])
    for l in lines:
        print(l)
    print("# %s: %d/%d obligations discharged (%d bounded), %d concrete cases, %.1fs" % (prop, ndis, nobl, nobl - len(pr), nrun, time.time() - t0))
    return 1 if lines else 0


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        import runner
        xast.Program(xast.ALL_TUS)
        print("extracted", len(xast.ALL_TUS), "translation units; building harness")
        print(runner.build(), runner.missing_ops)
        sys.exit(0)
    sys.exit(main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1"))))
