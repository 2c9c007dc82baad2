"""P13  Analyses: what the case control and the method cards select."""
from cards import *
from p09 import distinct, ANY

BL = None
FREQ, METHOD, CMETHOD, SDAMP, NONLIN = 1, 2, None, 6, 7
UN = None


def oset(t, sid, n):
    return {"type": t, "oid": sid.v, "refs": [], "members": Bag(range(n))}


def nroots(F, up, nd):
    """number of roots looked for: one when neither it nor the upper bound is given"""
    return 1 if nd.blank and up.blank else INT_MIN if nd.blank else nd.v


def band(F, lo, up, nd):
    return {"class": "BandRange", "start": lo.v, "end": up.v, "maxsearch": nroots(F, up, nd)}


def search(F, sid, norm, values):
    return {"objectives": [{"class": "FrequencySearch", "norm": norm, "frequencyType": 0, "valueAt": 0}], "objectiveSets": [oset(METHOD, sid, 1)], "values": values}


def fnorm(F, default=0):
    n = F.os("norm", "MASS", ["MASS", "MAX"])
    return n, default if n.blank else 1 if n.v == "MAX" else 0


def EIGR(F):
    sid, lo, up, nd = F.i("sid"), F.od("lower", None), F.od("upper", None), F.oi("nd", None)
    n, norm = fnorm(F)
    return [("EIGR", [sid, F.s("LAN"), lo, up, F.oi("ne", None), nd, BL, BL, n])], search(F, sid, norm, [band(F, lo, up, nd)])


def EIGRPOINT(F):
    """a norm that is not supported: the default one is used, as the message says"""
    sid, lo, up, nd = F.i("sid"), F.d("lower"), F.d("upper"), F.i("nd")
    return [("EIGR", [sid, F.s("LAN"), lo, up, BL, nd, BL, BL, F.s("POINT")])], search(F, sid, 0, [band(F, lo, up, nd)])


def EIGRL(F):
    sid, lo, up, nd = F.i("sid"), F.od("lower", None), F.od("upper", None), F.oi("nd", None)
    n, norm = fnorm(F)
    return [("EIGRL", [sid, lo, up, nd, F.oi("msglvl", None), BL, BL, n])], search(F, sid, norm, [band(F, lo, up, nd)])


def EIGB(F):
    sid, lo, up, nd = F.i("sid"), F.d("lower"), F.od("upper", None), F.i("ndp")
    n, norm = fnorm(F, ANY)
    return [("EIGB", [sid, F.s("SINV"), lo, up, F.oi("nep", None), nd, F.oi("ndn", None), BL, n])], search(F, sid, norm, [band(F, lo, up, nd)])


def EIGC(F):
    sid, nd = F.i("sid"), F.i("nd", 1, 1000)
    m = F.pick("method", [None, "ARNO", "HESS", "CLAN"])
    return [("EIGC", [sid, BL if m is None else F.s(m), F.os("norm", "MAX", ["MAX"]), BL, BL, F.od("e", 1e-6), nd])], {
        "objectives": [{"class": "ComplexFrequencySearch", "numRoots": nd.v, "norm": 1, "method": {None: 0, "ARNO": 0, "HESS": 1, "CLAN": 2}[m]}], "objectiveSets": [{"oid": sid.v, "members": [0]}]}


def excit(sid, ft, spread, values):
    return {"objectives": [{"class": "FrequencyExcit", "frequencyType": ft, "spread": spread, "valueAt": 0}], "objectiveSets": [oset(FREQ, sid, 1)], "values": values}


def FREQC(F):
    sid, n = F.i("sid"), F.pick("n", [1, 3, 7, 8])
    fs = [F.d("f%d" % k) for k in range(n)]
    return [("FREQ", [sid] + fs)], excit(sid, 2, 0, [{"class": "ListValue<double>", "alist": [f.v for f in fs]}])


def FREQ1(F):
    sid, a, d, n = F.i("sid"), F.d("f1"), F.d("df", pos=True), F.oi("ndf", 1, lo=1, hi=10000)
    return [("FREQ1", [sid, a, d, n])], excit(sid, 1, 0, [{"class": "StepRange", "start": a.v, "step": d.v, "count": n.v, "end": F.add(a.v, F.mul(d.v, F.real(n.v)))}])


def FREQ3(F):
    sid, a, b, n = F.i("sid"), F.d("f1"), F.d("f2"), F.oi("nef", 10, lo=1, hi=10000)
    return [("FREQ3", [sid, a, b, F.os("type", "LINEAR", ["LINEAR"]), n])], excit(sid, 3, 0, [{"class": "BandRange", "start": a.v, "end": b.v, "maxsearch": n.v}])


def FREQ4(F):
    sid, a, b, s, n = F.i("sid"), F.d("f1"), F.d("f2"), F.od("spread", .1), F.oi("nfm", 3, lo=1, hi=10000)
    return [("FREQ4", [sid, a, b, s, n])], excit(sid, 4, s.v, [{"class": "BandRange", "start": a.v, "end": b.v, "maxsearch": n.v}])


def FREQTWO(F):
    """two frequency cards of one set: each keeps its own range"""
    sid, a, d, n, b = F.i("sid"), F.d("f1"), F.d("df", pos=True), F.i("ndf", 1, 10000), F.d("f")
    cards = [("FREQ1", [sid, a, d, n]), ("FREQ", [sid, b])]
    o = F.pick("order", [0, 1])
    cs = [{"class": "FrequencyExcit", "frequencyType": 1, "valueAt": o}, {"class": "FrequencyExcit", "frequencyType": 2, "valueAt": 1 - o}]
    vs = [{"class": "StepRange", "start": a.v, "count": n.v}, {"class": "ListValue<double>", "alist": [b.v]}]
    k = (1, -1)[o]
    return cards[::k], {"objectives": cs[::k], "objectiveSets": [oset(FREQ, sid, 2)], "values": vs[::k]}


def TABDMP1(F):
    sid = F.i("sid")
    ty = F.pick("type", [None, "G", "CRIT", "Q"])
    n = F.pick("n", [1, 2, 4, 5])
    f, xy = [], []
    for k in range(n):
        x, y = F.d("x%d" % k), F.d("y%d" % k)
        sk = F.pick("skip%d" % k, [0, 1]) if k == 1 else 0
        if sk:
            f += [F.s("SKIP"), F.s("SKIP")]
        else:
            f += [x, y]
            xy.append([x.v, y.v])
    return [("TABDMP1", [sid, BL if ty is None else F.s(ty)] + [BL] * 6 + f + [F.s("ENDT")])], {
        "objectives": [{"class": "ModalDamping", "valueAt": 0, "dampingType": {None: 0, "G": 0, "CRIT": 1, "Q": 2}[ty]}], "objectiveSets": [oset(SDAMP, sid, 1)],
        "values": [{"class": "FunctionTable", "valuesXY": xy, "parameter": 0, "value": 0, "left": 3, "right": 2, "paraX": 1, "paraY": 5}]}


def NLPARM(F):
    sid, n = F.i("sid"), F.oi("ninc", 10)
    return [("NLPARM", [sid, n])], {"objectives": [{"class": "NonLinearStrategy", "number_of_increments": n.v}], "objectiveSets": [oset(NONLIN, sid, 1)]}


# ---------------------------------------------------------------- case control
CSET = {"SPC": 0, "MPC": 1, "BCONTACT": 3}
LSET = {"LOAD": 0, "DLOAD": 1, "LOADSET": 2}
SOLS = [("101", "LinearMecaStat"), ("SESTATIC", "LinearMecaStat"), ("STATICS", "LinearMecaStat")]


def refs(sel, table):
    return Bag([[table[k], v.v] for k, v in sel if k in table])


def analysis(cls, aid, label, sel, previous, **kw):
    d = {"class": cls, "oid": aid, "label": label, "loadSet_references": refs(sel, LSET), "constraintSet_references": refs(sel, CSET), "previous": previous}
    d.update(kw)
    return d


COMBOS = [("101", " = ", ("SPC", "LOAD")), ("SESTATIC", "=", ("MPC", "LOAD")), ("STATICS", " ", ("SPC", "DLOAD")), ("1", "=", ("BCONTACT", "LOADSET"))]


def static_like(F, head, kinds, style, n, mk):
    """selections above the subcases and in them; mk(aid, selections, previous) the analysis expected"""
    lines, glob = list(head), []
    for k in kinds:
        if F.pick("global " + k, [0, 1]):
            v = F.i("g" + k)
            glob.append((k, v))
            lines.append([k + (style if style != " " else " = "), v])
    out, prev = [], "none"
    ids = distinct(F, "sub", n)
    for j, a in enumerate(ids):
        lines.append(["SUBCASE ", a])
        sel = dict(glob)
        for k in kinds:
            if F.pick("own%d %s" % (j, k), [0, 1]):
                sel[k] = F.i("s%d%s" % (j, k))
                lines.append(["  " + k + style, sel[k]])
        out.append(mk(a.v, list(sel.items()), prev))
        prev = a.v
    if n == 0:
        out.append(mk(None, glob, "none"))
    return lines, {"analyses": out, "constraintSets": ANY, "loadSets": ANY}


def STATIC(F):
    """selections made in a subcase supersede the ones made above the subcases; each subcase is one analysis, in order"""
    sol, style, kinds = F.pick("combo", COMBOS)
    ns = [0, 1, 2] if sol in ("101", "STATICS") else [0, 1]
    return static_like(F, ["SOL " + sol, "CEND"], kinds, style, F.pick("subcases", ns), lambda a, sel, prev: analysis("LinearMecaStat", a, ANY if a is not None else "", sel, prev))


def FORCES(F):
    """output requests on reaction forces select no set; neither do TITLE, ECHO, displacement requests with ALL"""
    req = F.pick("request", ["SPCFORCES = ALL", "MPCFORCES = ALL", "SPCFORCES(PRINT) = ALL", "DISP = ALL", "DISPLACEMENT(SORT1,REAL) = ALL", "ECHO = NONE", "ELFORCE = NONE"])
    where = F.pick("where", [0, 1])
    lab = F.pick("label", [None, "LABEL = PRELOAD"])
    spc, load, a = F.i("spc"), F.i("load"), F.i("sub")
    lines = ["SOL 101", "CEND"] + ([req] if where == 0 else []) + [["SPC=", spc], ["SUBCASE ", a], ["LOAD = ", load]] + ([req] if where else []) + ([lab] if lab else [])
    return lines, {"analyses": [analysis("LinearMecaStat", a.v, "PRELOAD" if lab else ANY, [("SPC", spc), ("LOAD", load)], "none", objectiveSet_references=[])], "constraintSets": [{"type": 0, "oid": spc.v}], "loadSets": [{"type": 0, "oid": load.v}]}


def MODAL(F):
    sol, kw = F.pick("sol", [("103", "METHOD"), ("SEMODES", "METHOD(STRUCTURE)"), ("3", "METHOD")])
    own, glob = F.pick("where", [(1, 0), (0, 1), (1, 1), (0, 2)])
    a, b, g, s, spc, cm = F.i("sub"), F.i("sub2"), F.i("gmethod"), F.i("smethod"), F.i("spc"), F.i("cmethod")
    F.assume(a.v != b.v)
    lines = ["SOL " + sol, "CEND", ["SPC = ", spc]]
    if glob == 2:
        lines += [["CMETHOD = ", cm]]
    if glob:
        lines += [[kw + " = ", g]]
    lines += [["SUBCASE ", a]]
    if own:
        lines += [["  " + kw + " = ", s]]
    out = [analysis("LinearModal", a.v, ANY, [("SPC", spc)], "none", frequencySearchRef=[2, s.v if own else g.v])]
    if glob:
        lines += [["SUBCASE ", b]]
        out += [analysis("LinearModal", b.v, ANY, [("SPC", spc)], a.v, frequencySearchRef=[2, g.v])]
    return lines, {"analyses": out, "constraintSets": [{"type": 0, "oid": spc.v}]}


def COMPLEX(F):
    sol = F.pick("sol", ["110", "SEMCEIG"])
    m, cm, spc = F.i("method"), F.i("cmethod"), F.i("spc")
    body = [["METHOD = ", m], ["CMETHOD = ", cm], ["SPC = ", spc]]
    if F.pick("order", [0, 1]):
        body.reverse()
    return ["SOL " + sol, "CEND"] + body, {"analyses": [analysis("LinearModalComplex", None, "", [("SPC", spc)], "none", frequencySearchRef=[2, m.v], complexMethodRef=[3, cm.v])], "constraintSets": ANY}


def BUCKLING(F):
    """the first subcase is the static preload; the others look for buckling modes, on the subcase STATSUB names"""
    sol = F.pick("sol", ["105", "SEBUCKL", "5"])
    st = F.pick("statsub", [None, "STATSUB", "STATSUB(BUCKLING)"])
    a, b, m, load, spc, pre = F.i("sub", 1), F.i("sub2", 1), F.i("method", 1), F.i("load"), F.i("spc"), F.i("other", 1)
    F.assume(a.v != b.v)
    lines = ["SOL " + sol, "CEND", ["SPC = ", spc], ["SUBCASE ", a], ["LOAD = ", load], ["SUBCASE ", b], ["METHOD = ", m]] + ([[st + " = ", a]] if st else [])
    return lines, {"analyses": [analysis("LinearMecaStat", a.v, ANY, [("SPC", spc), ("LOAD", load)], "none"),
                                analysis("LinearBuckling", b.v, ANY, [("SPC", spc)], a.v, frequencySearchRef=[2, m.v], staticSubAnalysisRef=[1, a.v] if st else None)],
                   "constraintSets": ANY, "loadSets": ANY}


def PRELOADED(F):
    """the buckling subcase names the subcase its geometric stiffness comes from, and possibly a preload besides"""
    order = F.pick("order", [0, 1])
    a, b, c = distinct(F, "sub", 3)
    m, load, m2 = F.i("method", 1), F.i("load"), F.i("gmethod", 1)
    own = F.pick("own", [0, 1])
    st = [["  STATSUB(BUCKLING) = ", a], ["  STATSUB(PRELOAD) = ", b]]
    if order:
        st.reverse()
    for x in (a, b, c):
        F.assume(x.v >= 1)
    lines = ["SOL 105", "CEND", ["METHOD = ", m2], ["SUBCASE ", a], ["LOAD = ", load], ["SUBCASE ", b], ["  STATSUB = ", a], ["SUBCASE ", c]] + st + ([["  METHOD = ", m]] if own else [])
    return lines, {"analyses": [analysis("LinearMecaStat", a.v, ANY, [("LOAD", load)], "none"),
                                analysis("LinearBuckling", b.v, ANY, [], a.v, frequencySearchRef=[2, m2.v], staticSubAnalysisRef=[1, a.v]),
                                analysis("LinearBuckling", c.v, ANY, [], b.v, frequencySearchRef=[2, m.v if own else m2.v], staticSubAnalysisRef=[1, a.v])], "loadSets": ANY}


def DESIGN(F):
    """each subcase of a design optimisation is of the kind ANALYSIS names, or its selections call for"""
    sol = F.pick("sol", ["200", "DESOPT"])
    kind, named = F.pick("kind", [("STATICS", 1), ("STATICS", 0), ("MODES", 1), ("MODES", 0), ("MFREQ", 1), ("MFREQ", 0), ("DFREQ", 1), ("MCEIG", 1), ("MCEIG", 0), ("NLSTATIC", 0), ("BUCK", 1)])
    a, z, l0 = F.i("sub"), F.i("first"), F.i("load0")
    F.assume(a.v != z.v)
    damp = not named or F.pick("damping", [0, 1]) if kind == "MFREQ" else 1
    m, f, d, cm, sd, n = [F.i(k, 1) for k in ("method", "freq", "load", "cmethod", "sdamping", "nlparm")]
    body, sel, ex, cls = {"STATICS": lambda: ([["LOAD = ", d]], [("LOAD", d)], {}, "LinearMecaStat"),
                          "MODES": lambda: ([["METHOD = ", m]], [], {"frequencySearchRef": [2, m.v]}, "LinearModal"),
                          "BUCK": lambda: ([["METHOD = ", m], ["STATSUB = ", z]], [], {"frequencySearchRef": [2, m.v], "staticSubAnalysisRef": [1, z.v]}, "LinearBuckling"),
                          "MFREQ": lambda: ([["METHOD = ", m], ["FREQ = ", f], ["DLOAD = ", d]] + ([["SDAMPING = ", sd]] if damp else []), [("DLOAD", d)], {"frequencySearchRef": [2, m.v], "frequencyExcitationRef": [1, f.v], "modal_damping_reference": [6, sd.v if damp else 0], "residual_vector": False}, "LinearDynaModalFreq"),
                          "DFREQ": lambda: ([["FREQ = ", f], ["DLOAD = ", d]], [("DLOAD", d)], {"frequencyExcitationRef": [1, f.v]}, "LinearDynaDirectFreq"),
                          "MCEIG": lambda: ([["METHOD = ", m], ["CMETHOD = ", cm]], [], {"frequencySearchRef": [2, m.v], "complexMethodRef": [3, cm.v]}, "LinearModalComplex"),
                          "NLSTATIC": lambda: ([["NLPARM = ", n], ["LOAD = ", d]], [("LOAD", d)], {"strategy_reference": [7, n.v]}, "NonLinearMecaStat")}[kind]()
    F.assume(z.v >= 1)
    lines = ["SOL " + sol, "CEND", ["SUBCASE ", z]] + F.pick("first", [["  ANALYSIS = STATICS"], []]) + [["  LOAD = ", l0], ["SUBCASE ", a]] + (["  ANALYSIS = " + kind] if named else []) + body
    return lines, {"analyses": [analysis("LinearMecaStat", z.v, ANY, [("LOAD", l0)], "none"), analysis(cls, a.v, ANY, sel, z.v, **ex)], "loadSets": ANY, "constraintSets": ANY}


def NONLINEAR(F):
    sol = F.pick("sol", ["106", "NLSTATIC"])
    a, b, g, s, l1, l2, spc = F.i("sub"), F.i("sub2"), F.i("gparm"), F.i("sparm"), F.i("load1"), F.i("load2"), F.i("spc")
    F.assume(a.v != b.v)
    own = F.pick("own", [0, 1])
    lines = ["SOL " + sol, "CEND", ["SPC = ", spc], ["NLPARM = ", g], ["SUBCASE ", a], ["  LOAD = ", l1], ["SUBCASE ", b]] + ([["  NLPARM = ", s]] if own else []) + [["  LOAD = ", l2]]
    cls = "NonLinearMecaStat"
    return lines, {"analyses": [analysis(cls, a.v, ANY, [("SPC", spc), ("LOAD", l1)], "none", strategy_reference=[7, g.v]),
                                analysis(cls, b.v, ANY, [("SPC", spc), ("LOAD", l2)], a.v, strategy_reference=[7, s.v if own else g.v])], "constraintSets": ANY, "loadSets": ANY}


def HARMONIC(F):
    """direct and modal frequency response"""
    sol = F.pick("sol", ["108", "SEDFREQ", "111", "SEMFREQ"])
    modal = sol in ("111", "SEMFREQ")
    a, f, d, me, sd = F.i("sub"), F.i("freq", 1), F.i("dload"), F.i("method", 1), F.i("sdamping", 1)
    kw = F.pick("kw", ["FREQ", "FREQUENCY"])
    body, head, ex = [[kw + " = ", f], ["DLOAD = ", d]], [], {"frequencyExcitationRef": [1, f.v]}
    cls = "LinearDynaDirectFreq"
    if modal:
        cls = "LinearDynaModalFreq"
        body += [["METHOD = ", me]]
        rv = F.pick("resvec", [None, "RESVEC = YES", "RESVEC=YES", "RESVEC = NO", "RESVEC(NOINRLO) = YES"])
        gl = F.pick("resvec above", [0, 1]) if rv else 0
        damp = F.pick("damping", [0, 1])
        if damp:
            body += [["SDAMPING = ", sd]]
        if rv:
            (head if gl else body).append(rv)
        ex.update(frequencySearchRef=[2, me.v], modal_damping_reference=[6, sd.v if damp else 0], residual_vector=bool(rv and "YES" in rv))
    return ["SOL " + sol, "CEND"] + head + [["SUBCASE ", a]] + body, {"analyses": [analysis(cls, a.v, ANY, [("DLOAD", d)], "none", **ex)], "loadSets": ANY}


def SUBCOM(F):
    """a SUBCOM combines the preceding subcases, each with the coefficient SUBSEQ gives it"""
    n = F.pick("n", [1, 2, 3])
    sep = F.pick("sep", [", ", ",", " "])
    ids = distinct(F, "sub", n + 1)
    lines = ["SOL 101", "CEND"]
    out, prev, coefs = [], "none", []
    for k in range(n):
        l = F.i("load%d" % k)
        lines += [["SUBCASE ", ids[k]], ["  LOAD = ", l]]
        out.append(analysis("LinearMecaStat", ids[k].v, ANY, [("LOAD", l)], prev))
        prev = ids[k].v
        coefs.append(F.i("c%d" % k, 0, 99))
    text = ["  SUBSEQ = "]
    for k, x in enumerate(coefs):
        text += ([sep] if k else []) + [x] + [F.pick("dot", [".", ".0"]) if not k else "."]
    lines += [["SUBCOM ", ids[n]], text]
    out.append({"class": "Combination", "oid": ids[n].v, "coefByAnalysis": Bag([[[1, ids[k].v], F.real(coefs[k].v)] for k in range(n)])})
    return lines, {"analyses": out, "loadSets": ANY}


def OUTPUTS(F):
    """requests naming a set of nodes, elements or frequencies: an objective of the analysis, on the set named"""
    kw, cls, ty, extra = F.pick("request", [("DISP", "NodalDisplacementOutput", 0, {"complexOutput": 0}), ("DISPLACEMENT", "NodalDisplacementOutput", 0, {"complexOutput": 0}),
                                            ("DISPLACEMENT(SORT1,PHASE)", "NodalDisplacementOutput", 0, {"complexOutput": 1}), ("DISP(PHASE)", "NodalDisplacementOutput", 0, {"complexOutput": 1}),
                                            ("OFREQUENCY", "FrequencyOutput", OFREQ, {}), ("STRESS(VMIS)", "VonMisesStressOutput", 5, {}), ("STRESS(SORT1,VMIS)", "VonMisesStressOutput", 5, {})])
    where = F.pick("where", [0, 1])
    n, a, load = F.i("set", 1), F.i("sub"), F.i("load")
    req = [[kw + " = ", n]]
    lines = ["SOL 101", "CEND"] + (req if where == 0 else []) + [["SUBCASE ", a], ["LOAD = ", load]] + (req if where else [])
    return lines, {"analyses": [analysis("LinearMecaStat", a.v, ANY, [("LOAD", load)], "none", objectiveSet_references=[[ty, n.v]])], "loadSets": ANY,
                   "objectives": [dict({"class": cls, "objectiveset": [ty, n.v], "collection": [8, n.v]}, **extra)], "objectiveSets": [{"type": ty, "oid": n.v, "members": [0]}]}


OFREQ = 4


def SETS(F):
    """a set of the case control: exactly the integers it lists, ranges included, on one or several lines, above the subcases or in one"""
    n, a, load = F.i("set", 1), F.i("sub"), F.i("load")
    form = F.pick("form", ["one", "two", "lines", "range", "range and one", "one and range", "spaces", "ALL"])
    eq = F.pick("eq", [" = ", "="] + ([" "] if form in ("one", "ALL") else []))
    sep = F.pick("sep", [", ", ","])
    v, lo, x = F.i("v", 1), F.i("lo", 1), F.i("x", 1)
    hi = [Fld("i", lo.v + k, *([] if is_z(lo.v) else [str(lo.v + k)])) for k in (1, 2, 3)] if "range" in form else []
    if form == "one":
        lines, e = [[v]], [v.v]
    elif form == "ALL":
        lines, e = [["ALL"]], None
    elif form in ("two", "spaces"):
        F.assume(v.v != x.v)
        lines, e = [[v, " " if form == "spaces" else sep, x]], [v.v, x.v]
    elif form == "lines":
        F.assume(v.v != x.v)
        lines, e = [[v, ","], ["      ", x]], [v.v, x.v]
    else:
        r = [lo, " THRU ", hi[2]]
        e = [lo.v] + [h.v for h in hi]
        if form != "range":
            F.assume(z3.Or(v.v < lo.v, v.v > hi[2].v) if is_z(v.v) or is_z(lo.v) else not lo.v <= v.v <= hi[2].v)
            e.append(v.v)
            r = r + [sep, v] if form == "range and one" else [v, sep] + r
        lines = [r]
    lines[0] = ["SET ", n, eq] + lines[0]
    where = F.pick("where", [0, 1])
    lines = ["SOL 101", "CEND"] + (lines if where == 0 else []) + [["SUBCASE ", a]] + (lines if where else []) + [["LOAD = ", load]]
    return lines, {"analyses": [analysis("LinearMecaStat", a.v, ANY, [("LOAD", load)], "none")], "loadSets": ANY,
                   "values": [dict({"class": "SetValueAll" if e is None else "SetValue<int>", "oid": n.v}, **({} if e is None else {"aset": Bag(e)}))]}


CARDS = [EIGR, EIGRPOINT, EIGRL, EIGB, EIGC, FREQC, FREQ1, FREQ3, FREQ4, FREQTWO, TABDMP1, NLPARM]
CASES = [STATIC, FORCES, MODAL, COMPLEX, BUCKLING, PRELOADED, DESIGN, NONLINEAR, HARMONIC, SUBCOM, OUTPUTS, SETS]
UNITS = [card_unit("P13", f.__name__, f) for f in CARDS] + [case_unit("P13", f.__name__, f) for f in CASES]


def suite(rng, tier):
    out = []
    for f in CARDS:
        out += card_cases("P13", f.__name__, f, rng, 12 if tier == "quick" else 300)
    for f in CASES:
        out += case_cases("P13", f.__name__, f, rng, 16 if tier == "quick" else 300)
    return out
