"""Generates the C++ dump of every model class from the record layouts extracted from /repo's current headers (so a renamed or new field never breaks the harness)."""
import os, re
import xast

ROOTS = ["Loading", "Constraint", "Objective", "Analysis", "NamedValue", "Target", "ElementSet", "Nature", "CoordinateSystem", "Value"]
SKIP = {"model", "mesh", "inputContext", "written", "id", "original_id", "cellPositions", "cellGroupNames", "nodePositions", "nodeGroupNames", "inverseMatrix", "type", "previousAnalysis", "modelType"}


VALUEOF = [("vega::FrequencySearch", "getValue"), ("vega::FrequencyExcit", "getValue"), ("vega::ModalDamping", "getFunctionTable")]


def classes(P):
    recs = {q: r for q, r in P.records.items() if q.startswith("vega::")}
    anc = {}

    def ancestors(q):
        if q not in anc:
            anc[q] = {q}
            for b in recs.get(q, {"basenames": []})["basenames"]:
                anc[q] |= ancestors(b)
        return anc[q]
    roots = {"vega::" + r for r in ROOTS}
    out = [q for q in recs if ancestors(q) & roots]
    out.sort(key=lambda q: len(ancestors(q)))
    return recs, out, ancestors


def cname(q):
    return re.sub(r"\W+", "_", q)


def generate(path):
    P = xast.Program(["Nastran/NastranParser.cpp"])
    recs, cls, ancestors = classes(P)
    L = ["// generated from the current headers"]
    for q in cls:
        L.append("static void F_%s(Ob &o, const %s &x);" % (cname(q), q))
    for q in cls:
        L.append("static void F_%s(Ob &o, const %s &x) {" % (cname(q), q))
        for b in recs[q]["basenames"]:
            if b in cls:
                L.append("  F_%s(o, static_cast<const %s &>(x));" % (cname(b), b))
        if "vega::NodeContainer" in recs[q]["basenames"]:
            L.append("  nodesOf(o, x, x.mesh);")
        if "vega::CellContainer" in recs[q]["basenames"]:
            L.append("  cellsOf(o, x, x.mesh);")
        for f in recs[q]["fields"]:
            if f[0] and f[0] not in SKIP:
                L.append('  put(o, "%s", x.%s);' % (f[0], f[0]))
        if q == "vega::DynamicExcitation":
            for f, k in (("dynaDelay", "delay"), ("dynaPhase", "phase")):
                if any(x[0] == f for x in recs[q]["fields"]):
                    L.append('  refval(o, "%s", x.model, x.%s);' % (k, f))
        for c, g in VALUEOF:
            if q == c:
                L.append('  valueAt(o, x.model, x.%s());' % g)
        L.append("}")
    for r in ROOTS:
        fam = [q for q in cls if "vega::" + r in ancestors(q)]
        if not fam:
            continue
        L.append("static Raw dumpObj(const vega::%s &x) { Ob o;" % r)
        for q in fam:
            L.append('  if (typeid(x) == typeid(%s)) { o("class", "%s"); F_%s(o, dynamic_cast<const %s &>(x)); return o.end(); }' % (q, q[6:], cname(q), q))
        L.append('  o("class", typeid(x).name()); return o.end(); }')
    txt = "\n".join(L) + "\n"
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == txt:
            return
    except OSError:
        pass
    with open(path + ".tmp%d" % os.getpid(), "w") as f:
        f.write(txt)
    os.replace(path + ".tmp%d" % os.getpid(), path)
