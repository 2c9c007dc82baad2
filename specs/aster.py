"""The code_aster translation of a deck: the deck is read, the model finished and the command file written by the real code; the
command file is then read as what it is (vc/comm.py) and resolved to what code_aster is told about each element, node and analysis."""
from cards import *
import ast
import comm as CM

TUS_A = TUS + ["Aster/AsterWriter.cpp", "Aster/AsterModel.cpp"]
AW = "vega::aster::AsterWriter"
CP = "vega::ConfigurationParameters"
DOFN = ["DX", "DY", "DZ", "DRX", "DRY", "DRZ"]
FN = ["FX", "FY", "FZ", "MX", "MY", "MZ"]


class Told:
    """what the command file says, by position of the nodes and elements in the mesh"""
    def __init__(s, cmds, groups, ngroups, conn, nnodes, coords=()):
        s.cmds, s.groups, s.ngroups, s.conn, s.ncells, s.nnodes, s.coords = cmds, groups, ngroups, conn, len(conn), nnodes, coords
        s.by = {}
        for c in cmds:
            if c.target:
                s.by[c.target] = c
        fin = [k for k, c in enumerate(cmds) if c.fn == "FIN"]
        if len(fin) != 1 or fin[0] != len(cmds) - 1 or cmds[0].fn != "DEBUT":
            raise CM.Bad("no DEBUT/FIN")
        seen = set()
        for c in cmds:
            s.scoped(c.kw, seen, c.fn)
            if c.target:
                seen.add(c.target)
            if c.fn == "DETRUIRE":
                seen -= {f["NOM"] for f in CM.as_list(c.kw["CONCEPT"])}
            for f in CM.as_list(c.kw.get("VECT_ASSE_GENE") if c.fn == "PROJ_BASE" else None):
                s.by[f["VECTEUR"].kw["*"][0]] = CM.Cmd(None, "PROJ", {"of": f["VECT_ASSE"], "base": c.kw["BASE"], "type": f.get("TYPE_VECT")})
            for f in CM.as_list(c.kw.get("MATR_ASSE_GENE") if c.fn == "PROJ_BASE" else None):
                s.by[f["MATRICE"].kw["*"][0]] = CM.Cmd(None, "PROJ", {"of": f["MATR_ASSE"], "base": c.kw["BASE"]})

    def scoped(s, v, seen, fn):
        """every concept is produced before it is used"""
        if isinstance(v, CM.Name):
            if v not in seen:
                raise CM.Bad("concept %s used in %s before it exists" % (v, fn))
        elif isinstance(v, dict):
            for x in v.values():
                s.scoped(x, seen, fn)
        elif isinstance(v, CM.Cmd):
            if v.fn == "CO":
                seen.add(v.kw["*"][0])
        elif isinstance(v, (list, tuple)):
            for x in v:
                s.scoped(x, seen, fn)

    def all(s, fn):
        return [c for c in s.cmds if c.fn == fn]

    def one(s, fn):
        r = s.all(fn)
        if len(r) != 1:
            raise CM.Bad("%d commands %s" % (len(r), fn))
        return r[0]

    def pos(s, name, letter):
        if not (isinstance(name, str) and name[:1] == letter and name[1:].isdigit()):
            raise CM.Bad("not a mesh name: %s" % (name,))
        return int(name[1:]) - 1

    def cells(s, f):
        """positions of the elements designated by an occurrence"""
        if f.get("TOUT") == "OUI":
            return list(range(s.ncells))
        out = []
        for g in CM.as_list(f.get("GROUP_MA")):
            if g not in s.groups:
                raise CM.Bad("group %s is not in the mesh" % (g,))
            out += s.groups[g]
        for m in CM.as_list(f.get("MAILLE")):
            out.append(s.pos(m, "M"))
        return out

    def nodes(s, f):
        out = []
        for g in CM.as_list(f.get("GROUP_NO")):
            if g not in s.ngroups:
                raise CM.Bad("group %s is not in the mesh" % (g,))
            out += s.ngroups[g]
        for m in CM.as_list(f.get("NOEUD")):
            out.append(s.pos(m, "N"))
        if "GROUP_MA" in f or "MAILLE" in f or "TOUT" in f:
            raise CM.Bad("nodes of elements")
        return out

    def model(s):
        out = {}
        for f in CM.as_list(s.one("AFFE_MODELE").kw.get("AFFE")):
            for k in s.cells(f):
                out[k] = f["MODELISATION"]
        return out

    def material(s, name):
        c = s.by[name]
        if c.fn == "DEFI_COMPOSITE":
            return {"COUCHE": [{"EPAIS": f["EPAIS"], "ORIENTATION": f["ORIENTATION"], "MATER": s.material(f["MATER"])} for f in CM.as_list(c.kw["COUCHE"])]}
        return {k: dict(v) if isinstance(v, dict) else v for k, v in c.kw.items()}

    def materials(s):
        out = {}
        for c in s.all("AFFE_MATERIAU"):
            for f in CM.as_list(c.kw.get("AFFE")):
                for k in s.cells(f):
                    out[k] = s.material(f["MATER"])
        return out

    def cara(s, what):
        out = {}
        for c in s.all("AFFE_CARA_ELEM"):
            for f in CM.as_list(c.kw.get(what)):
                for k in s.cells(f):
                    d = {x: y for x, y in f.items() if x not in ("GROUP_MA", "MAILLE", "TOUT")}
                    if "CARA" in d:
                        ca, va = CM.as_list(d.pop("CARA")), CM.as_list(d.pop("VALE"))
                        if what == "DISCRET":
                            d = {ca[0][0]: discrete(ca[0], va, d.pop("SYME", "OUI") == "OUI")}
                        elif what == "ORIENTATION":
                            d[ca[0]] = va
                        elif len(ca) != len(va):
                            raise CM.Bad("%d characteristics, %d values" % (len(ca), len(va)))
                        else:
                            d.update(zip(ca, va))
                    if what == "DISCRET":
                        out.setdefault(k, {}).update(d)
                    else:
                        out[k] = d
        return out

    def charge(s, name, out):
        """adds the content of a charge"""
        c = s.by[name]
        if c.fn not in ("AFFE_CHAR_MECA", "AFFE_CHAR_MECA_F"):
            raise CM.Bad("charge %s is a %s" % (name, c.fn))
        num = (lambda v: s.func(v)) if c.fn.endswith("_F") else lambda v: v
        for key, v in c.kw.items():
            if key in ("MODELE", "VERI_NORM"):
                continue
            for f in CM.as_list(v):
                if key == "DDL_IMPO":
                    for n in s.nodes(f):
                        for d in DOFN:
                            if d in f:
                                out["ddl"].append([n, d, num(f[d])])
                elif key == "FORCE_NODALE":
                    for n in s.nodes(f):
                        w = out["forces"].setdefault(n, [0] * 6)
                        for k, d in enumerate(FN):
                            if d in f:
                                w[k] = plus(w[k], num(f[d]))
                elif key in ("PRES_REP", "FORCE_COQUE"):
                    for k in s.cells(f):
                        out["pressures"][k] = plus(out["pressures"].get(k, 0), num(f["PRES"]))
                elif key in ("FORCE_POUTRE", "FORCE_FACE"):
                    for k in s.cells(f):
                        w = out["lines" if key == "FORCE_POUTRE" else "faces"].setdefault(k, {})
                        for d in FN:
                            if d in f:
                                w[d] = plus(w[d], num(f[d])) if d in w else num(f[d])
                elif key == "PESANTEUR":
                    out["gravity"].append([f["GRAVITE"], f["DIRECTION"]])
                elif key == "ROTATION":
                    out["rotation"].append([f["VITESSE"], f["AXE"], f["CENTRE"]])
                elif key == "LIAISON_SOLIDE":
                    out["solid"].append(Bag(s.nodes(f)))
                elif key == "LIAISON_RBE3":
                    out["rbe3"].append([s.pos(f["NOEUD_MAIT"], "N"), CM.as_list(f["DDL_MAIT"]), Bag([list(x) for x in same(*[CM.as_list(f[x]) for x in ("NOEUD_ESCL", "DDL_ESCL", "COEF_ESCL")])])])
                    for x in out["rbe3"][-1][2]:
                        x[0] = s.pos(x[0], "N")
                elif key == "LIAISON_DDL":
                    out["relations"].append([Bag([[s.pos(n, "N"), d, co] for n, d, co in same(CM.as_list(f["NOEUD"]), CM.as_list(f["DDL"]), CM.as_list(f["COEF_MULT"]))]), f["COEF_IMPO"]])
                else:
                    raise CM.Bad("charge with " + key)

    def tractions(s):
        """per static analysis: the load per area on the elements over a set of (flat, constant) nodes; PRES acts against the normal"""
        out = []
        for c in s.all("MECA_STATIQUE"):
            d = {}
            for k, p in s.excit(c)["pressures"].items():
                n = s.normal(s.conn[k])
                w = d.setdefault(tuple(sorted(s.conn[k])), [0, 0, 0])
                for j in range(3):
                    if n[j]:
                        w[j] = plus(w[j], (-p if n[j] > 0 else p) if not is_z(p) else (toz(p) * Fraction(-1 if n[j] > 0 else 1)))
            out.append(d)
        return out

    def onfaces(s):
        """per static analysis: the forces per area on the elements over a set of nodes"""
        out = []
        for c in s.all("MECA_STATIQUE"):
            d = {}
            for k, f in s.excit(c)["faces"].items():
                w = d.setdefault(tuple(sorted(s.conn[k])), {})
                for x, v in f.items():
                    w[x] = plus(w[x], v) if x in w else v
            out.append(d)
        return out

    def kept(s):
        """the filters of modes: search, lower and upper frequencies"""
        f = lambda c: c.kw["FILTRE_MODE"]
        return [[s.base(f(c)["MODE"])["modes"], f(c).get("FREQ_MIN"), f(c).get("FREQ_MAX")] for c in s.all("EXTR_MODE")]

    def normal(s, conn):
        """the axis along which the normal of a face parallel to the axes of coordinates points"""
        a, b, c = [[float(x) for x in s.coords[k]] for k in conn[:3]]
        u, v = [y - x for x, y in zip(a, b)], [y - x for x, y in zip(b, c)]
        n = [u[(k + 1) % 3] * v[(k + 2) % 3] - u[(k + 2) % 3] * v[(k + 1) % 3] for k in range(3)]
        if sum(abs(x) > 1e-9 for x in n) != 1:
            raise CM.Bad("oblique face")
        return [0 if abs(x) < 1e-9 else (1 if x > 0 else -1) for x in n]

    def modes(s):
        """what each search of modes is about"""
        out = []
        for c in s.all("CALC_MODES"):
            f = c.kw.get("CALC_FREQ") or c.kw.get("CALC_CHAR_CRIT") or {}
            e = {"option": c.kw.get("OPTION"), "norm": (c.kw.get("NORM_MODE") or {}).get("NORME"), "freq": CM.as_list(f.get("FREQ")), "nmax": f.get("NMAX_FREQ", f.get("NMAX_CHAR_CRIT"))}
            if "MATR_RIGI" in c.kw:
                e["rigi"], e["mass"] = s.matrix(c.kw["MATR_RIGI"]), s.matrix(c.kw["MATR_MASS"]) if "MATR_MASS" in c.kw else s.matrix(c.kw["MATR_RIGI_GEOM"])
            out.append(e)
        return out

    def matrix(s, name):
        """an assembled matrix: its option and the constraints it is assembled with"""
        c = s.by[name]
        if c.fn == "COMB_MATR_ASSE":
            return {"comb": Bag([[f.get("COEF_R"), s.matrix(f["MATR_ASSE"])] for f in CM.as_list(c.kw["COMB_R"])])}
        e = s.by[c.kw["MATR_ELEM"]]
        out = dict(blank_case())
        nd = s.by[c.kw["NUME_DDL"]]
        for x in CM.as_list(nd.kw.get("CHARGE")):
            s.charge(x, out)
        r = {"option": e.kw["OPTION"], "ddl": Bag(out["ddl"])}
        if "SIEF_ELGA" in e.kw:
            f = s.by[e.kw["SIEF_ELGA"]]
            r["stress"] = [k for k, x in enumerate(s.all("MECA_STATIQUE")) if x.target == f.kw["RESULTAT"]]
        else:
            o2 = dict(blank_case())
            for x in CM.as_list(e.kw.get("CHARGE")):
                s.charge(x, o2)
            if sorted(map(str, o2["ddl"])) != sorted(map(str, out["ddl"])):
                raise CM.Bad("elementary matrix and numbering with different constraints")
        return r

    def static_index(s, name):
        return [k for k, x in enumerate(s.all("MECA_STATIQUE")) if x.target == name]

    def combined(s):
        """combinations of static analyses: coefficient of each"""
        out = []
        for c in s.all("CREA_RESU"):
            if c.kw["OPERATION"] != "AFFE" or c.kw["NOM_CHAM"] != "DEPL":
                raise CM.Bad("CREA_RESU")
            e = []
            (a,) = CM.as_list(c.kw["AFFE"])
            for f in CM.as_list(s.by[a["CHAM_GD"]].kw["ASSE"]):
                x = s.by[f["CHAM_GD"]]
                if f.get("TOUT") != "OUI" or f.get("CUMUL", "NON") != "OUI" or x.kw["OPERATION"] != "EXTR" or x.kw["NOM_CHAM"] != "DEPL":
                    raise CM.Bad("CREA_CHAMP")
                e.append([s.static_index(x.kw["RESULTAT"]), f["COEF_R"]])
            out.append(Bag(e))
        return out

    def nonlinear(s):
        """nonlinear static analyses: what is applied at the start and at the end of each, steps, state it starts from, behaviour"""
        out, ends = [], {}
        for c in s.all("STAT_NON_LINE"):
            steps = s.by[s.by[c.kw["INCREMENT"]["LIST_INST"]].kw["DEFI_LIST"]["LIST_INST"]]
            r = s.reals(steps.target)
            first = blank_case(), blank_case()
            for f in CM.as_list(c.kw["EXCIT"]):
                v = [1, 1]
                if "FONC_MULT" in f:
                    q = dict(s.function(f["FONC_MULT"])["points"])
                    v = [q[r["from"]], q[r["to"]]]
                for o, k in zip(first, v):
                    if k not in (0, 1):
                        raise CM.Bad("factor of a load")
                    if k:
                        s.charge(f["CHARGE"], o)
            be = {}
            for f in CM.as_list(c.kw["COMPORTEMENT"]):
                for k in s.cells(f):
                    be[k] = {x: y for x, y in f.items() if x not in ("GROUP_MA", "MAILLE", "TOUT")}
            init = (c.kw.get("ETAT_INIT") or {}).get("EVOL_NOLI")
            fix = lambda o: {k: Bag(v) if isinstance(v, list) else v for k, v in o.items()}
            out.append({"start": fix(first[0]), "end": fix(first[1]), "steps": r["number"], "from": r["from"], "to": r["to"], "behaviour": be, "after": None if init is None else [k for k, x in enumerate(s.all("STAT_NON_LINE")) if x.target == init]})
        return out

    def contact(s):
        """the contact conditions of each nonlinear analysis"""
        return [s.contacts(c.kw["CONTACT"]) if "CONTACT" in c.kw else None for c in s.all("STAT_NON_LINE")]

    def contacts(s, name):
        c = s.by[name]
        if c.fn != "DEFI_CONTACT":
            raise CM.Bad("contact from " + c.fn)
        out = []
        side = lambda f, k: Bag([list(s.conn[x]) for g in CM.as_list(f[k]) for x in s.groups[g]])
        for f in CM.as_list(c.kw["ZONE"]):
            if c.kw.get("FORMULATION") == "LIAISON_UNIL":
                (n,) = s.nodes(f)
                out.append([n, s.func(f["COEF_IMPO"]), {k: s.func(x) for k, x in same(CM.as_list(f["NOM_CMP"]), CM.as_list(f["COEF_MULT"]))}])
            else:
                out.append({"master": side(f, "GROUP_MA_MAIT"), "slave": side(f, "GROUP_MA_ESCL"), "friction": f.get("COULOMB") if c.kw.get("FROTTEMENT") == "COULOMB" else None})
        return {"formulation": c.kw.get("FORMULATION", "DISCRETE"), "zones": Bag(out)}

    def projected(s, name):
        c = s.by[name]
        return (c.kw["of"], s.base(c.kw["base"]), c.kw.get("type")) if c.fn == "PROJ" else (name, None, None)

    def base(s, name):
        """the modal base: the searches of modes it is made of, static modes"""
        c = s.by[name]
        if c.fn == "alias":
            return s.base(c.kw["of"][0])
        if c.fn == "DEFI_BASE_MODALE":
            out = {"modes": [], "static": []}
            for f in CM.as_list(c.kw["RITZ"]):
                if "MODE_MECA" in f:
                    out["modes"] += s.base(f["MODE_MECA"])["modes"]
                else:
                    m = s.by[f["MODE_INTF"]]
                    out["static"] += [[n, x] for g in CM.as_list(m.kw["FORCE_NODALE"]) for n in s.nodes(g) for x in CM.as_list(g["AVEC_CMP"])]
            return out
        if c.fn == "EXTR_MODE":
            return s.base(c.kw["FILTRE_MODE"]["MODE"])
        if c.fn != "CALC_MODES":
            raise CM.Bad("modal base from a " + c.fn)
        return {"modes": [k for k, x in enumerate(s.all("CALC_MODES")) if x.target == name], "static": []}

    def harmonic(s):
        """harmonic responses: matrices, modal base, frequencies, excitations, damping"""
        out = []
        for c in s.all("DYNA_VIBRA"):
            ex, bases = [], []
            for f in CM.as_list(c.kw["EXCIT"]):
                o = dict(blank_case())
                v, b, ty = s.projected(f.get("VECT_ASSE") or f["VECT_ASSE_GENE"])
                bases.append(b)
                for x in CM.as_list(s.by[s.by[v].kw["VECT_ELEM"]].kw["CHARGE"]):
                    s.charge(x, o)
                ex.append({"forces": o["forces"], "function": s.function(f["FONC_MULT"]), "phase": f.get("PHAS_DEG", 0), "type": ty or "FORC"})
            m = {}
            for k in ("MATR_RIGI", "MATR_MASS", "MATR_AMOR"):
                if k in c.kw:
                    x, b, _ = s.projected(c.kw[k])
                    bases.append(b)
                    m[k] = s.matrix(x)
            if any(b != bases[0] for b in bases):
                raise CM.Bad("matrices and vectors on different bases")
            out.append({"calculation": [c.kw["TYPE_CALCUL"], c.kw["BASE_CALCUL"]], "matrices": m, "base": bases[0], "frequencies": s.reals(c.kw["LIST_FREQ"]), "excitations": Bag(ex), "damping": s.damping((c.kw.get("AMOR_MODAL") or {}).get("AMOR_REDUIT"))})
        return out

    def reals(s, name):
        """a list of reals: given, steps, or refined around the modes"""
        c = s.by[name]
        if c.fn == "DEFI_LIST_REEL" and isinstance(c.kw.get("VALE"), CM.Name):
            return {"sampled": [s.evaluated(c.kw["VALE"], m) for m in s.SAMPLES]}
        if c.fn == "DEFI_LIST_REEL" and "VALE" in c.kw:
            return CM.as_list(c.kw["VALE"])
        if c.fn in ("DEFI_LIST_REEL", "DEFI_LIST_FREQ"):
            (f,) = CM.as_list(c.kw["INTERVALLE"])
            r = {"from": c.kw["DEBUT"], "to": f["JUSQU_A"], "number": f["NOMBRE"]}
            for f in CM.as_list(c.kw.get("RAFFINEMENT")):
                r["around"] = [s.modesof(f["LIST_RAFFINE"]), f["CRITERE"], f["DISPERSION"]]
            return r
        raise CM.Bad("list from " + c.fn)

    SAMPLES = ([.5, 3., 7.25, 30.], [], [2., 10., 4.])

    def evaluated(s, name, modes):
        """a list that the command file computes in python, the frequencies of the modes being given"""
        c = s.by[name]
        if c.fn == "python" and c.kw["src"].endswith(".LIST_VARI_ACCES()['FREQ']"):
            return list(modes)
        if c.fn not in ("python", "alias"):
            raise CM.Bad("%s is no list" % name)
        allowed = {"zip": zip, "range": range, "sorted": sorted, "min": min, "max": max, "set": set, "list": list, "len": len, "float": float}
        t = ast.parse(c.kw["src"], mode="eval")
        for x in ast.walk(t):
            if isinstance(x, (ast.Attribute, ast.Lambda)) or isinstance(x, ast.Name) and x.id.startswith("_") and not CM.VRE.fullmatch(x.id) or isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id in allowed):
                raise CM.Bad("python: " + c.kw["src"][:200])
        env = dict(allowed, __builtins__={})
        for k in CM.VRE.findall(c.kw["src"]):
            v = c.kw["vals"][int(k)]
            v = z3.simplify(v) if is_z(v) else v
            env["__v%s__" % k] = float(v.as_fraction()) if is_z(v) and z3.is_rational_value(v) else v.as_long() if is_z(v) and z3.is_int_value(v) else float(v)
        for k in map(str, c.kw["of"]):
            if k in s.by:
                env[k] = s.evaluated(k, modes)
        try:
            return eval(compile(t, "comm", "eval"), env)
        except Exception as e:
            raise CM.Bad("python: %s: %s" % (c.kw["src"][:200], e))

    def modesof(s, name):
        """the search whose frequencies a list of the command file is"""
        c = s.by[name]
        if c.fn != "python" or not c.kw["src"].endswith(".LIST_VARI_ACCES()['FREQ']"):
            raise CM.Bad("%s is no list of frequencies" % name)
        return s.base(c.kw["of"][0])["modes"]

    def damping(s, name, k=1):
        """the modal damping ratios: a function of the frequency (and factor) at the frequencies of the modes"""
        if name is None or not isinstance(name, CM.Name):
            return name
        c = s.by[name]
        if c.fn == "python" and c.kw["src"].endswith(".EXTR_TABLE().values()['TOUTRESU']") or c.fn == "alias":
            return s.damping(c.kw["of"][0], k)
        if c.fn == "CREA_TABLE":
            return s.damping(c.kw["FONCTION"]["FONCTION"], k)
        if c.fn == "CALC_FONCTION":
            return s.damping(c.kw["COMB"]["FONCTION"], k * c.kw["COMB"]["COEF"])
        if c.fn == "CALC_FONC_INTERP":
            return [k, s.function(c.kw["FONCTION"]), s.modesof(c.kw["VALE_PARA"])]
        raise CM.Bad("damping from " + c.fn)

    def function(s, n):
        c = s.by[n]
        if c.fn != "DEFI_FONCTION":
            raise CM.Bad("function from " + c.fn)
        v = CM.as_list(c.kw["VALE"])
        return {"points": [list(x) for x in zip(v[::2], v[1::2])], "scales": c.kw.get("INTERPOL"), "outside": [c.kw.get("PROL_GAUCHE", "EXCLU"), c.kw.get("PROL_DROITE", "EXCLU")]}

    def assembled(s):
        """stiffness, mass and damping of all the discrete elements together: per pair of (node, component), upper triangle, zeros left out"""
        out = {"K": {}, "M": {}, "A": {}}
        for k, d in s.cara("DISCRET").items():
            for x, m in d.items():
                if isinstance(m, dict):
                    raise CM.Bad("mass with an offset")
                at = [(n, DOFN[j]) for n in s.conn[k] for j in range(6)]
                if len(at) != len(m):
                    raise CM.Bad("matrix on %d nodes" % len(s.conn[k]))
                for i in range(len(m)):
                    for j in range(len(m)):
                        if not is_z(m[i][j]) and m[i][j] == 0:
                            continue
                        a, b = (at[i][0], DOFN.index(at[i][1])), (at[j][0], DOFN.index(at[j][1]))
                        if a <= b:
                            out[x][(a, b)] = plus(out[x][(a, b)], m[i][j]) if (a, b) in out[x] else m[i][j]
        return out

    def superposed(s):
        """the materials of the elements on the same nodes (together they make one element of the deck)"""
        out, m = {}, s.materials()
        for k, v in m.items():
            out.setdefault(tuple(s.conn[k]), []).append(v)
        return {k: Bag(v) for k, v in out.items()}

    def func(s, v):
        if isinstance(v, CM.Name):
            c = s.by[v]
            if c.fn == "DEFI_CONSTANTE":
                return c.kw["VALE"]
            return {c.fn: {k: x for k, x in c.kw.items() if k != "NOM_PARA"}}
        return v

    def excit(s, c):
        out = blank_case()
        for f in CM.as_list(c.kw.get("EXCIT")):
            if set(f) - {"CHARGE"}:
                raise CM.Bad("EXCIT with " + ",".join(f))
            s.charge(f["CHARGE"], out)
        for k in list(out):
            if isinstance(out[k], list):
                out[k] = Bag(out[k])
        return out

    def statics(s):
        return [s.excit(c) for c in s.all("MECA_STATIQUE")]


def blank_case():
    return {"ddl": [], "forces": {}, "pressures": {}, "lines": {}, "faces": {}, "gravity": [], "rotation": [], "solid": [], "rbe3": [], "relations": []}


def discrete(cara, v, syme):
    """the matrix of a discrete element (6 degrees of freedom per node) from the values of its keyword"""
    nn = 2 if cara.endswith("_L") else 1
    nd = 6 if "_TR_" in cara else 3
    diag = "_D_" in cara
    if cara == "M_T_D_N":
        return sym6({(k, k): v[0] for k in range(3)}, 1) if len(v) == 1 else wrong(cara, v)
    if cara == "M_TR_D_N":
        return {"mass": v[0], "inertia": v[1:7], "eccentricity": v[7:]} if len(v) == 10 else wrong(cara, v)
    e = {}
    at = lambda i: (i // nd) * 6 + i % nd
    if diag:
        if len(v) != nd:
            wrong(cara, v)
        for k in range(nd):
            e[(k, k)] = v[k]
            if nn == 2:
                e[(k, k + 6)], e[(k + 6, k + 6)] = neg(v[k]), v[k]
    elif syme:
        if len(v) != nn * nd * (nn * nd + 1) // 2:
            wrong(cara, v)
        it = iter(v)
        for j in range(nn * nd):
            for i in range(j + 1):
                e[(at(i), at(j))] = next(it)
    else:
        if len(v) != (nn * nd) ** 2:
            wrong(cara, v)
        r = [[0] * (6 * nn) for _ in range(6 * nn)]
        for k, x in enumerate(v):
            r[at(k % (nn * nd))][at(k // (nn * nd))] = x
        return r
    return sym6(e, nn)


def wrong(cara, v):
    raise CM.Bad("%d values for %s" % (len(v), cara))


def neg(x):
    return -x if not is_z(x) else -toz(x)


def sym6(e, nn):
    r = [[0] * (6 * nn) for _ in range(6 * nn)]
    for (i, j), x in e.items():
        r[i][j] = r[j][i] = x
    return r


def same(*ls):
    if len({len(x) for x in ls}) != 1:
        raise CM.Bad("lists of different lengths %s" % [len(x) for x in ls])
    return list(zip(*ls))


def plus(a, b):
    if not is_z(a) and not is_z(b):
        return a + b
    return toz(a) + toz(b)


def along(F, v, axis=(1, 0, 0)):
    """acceptable as the vector that gives the second axis of an element along axis: the plane and the side of v"""
    def cr(a, b):
        m = lambda x, y: F.mul(x, y)
        return [F.add(m(a[(k + 1) % 3], b[(k + 2) % 3]), F.neg(m(a[(k + 2) % 3], b[(k + 1) % 3]))) for k in range(3)]
    ax = [F.c(x) for x in axis]

    def ok(g):
        if not isinstance(g, (list, tuple)) or len(g) != 3:
            return False
        a, b = cr(ax, list(v)), cr(ax, [F.c(x) if not is_z(x) else x for x in g])
        par, dot = cr(a, b), F.add(F.add(F.mul(a[0], b[0]), F.mul(a[1], b[1])), F.mul(a[2], b[2]))
        if F.sym:
            return AND(*[EQ(x, 0) for x in par], toz(dot) > 0)
        return dot > 0 and all(abs(x) <= 1e-5 * dot for x in par)
    return ok


VIEWS = {"conn": lambda t: dict(enumerate(t.conn)), "model": lambda t: t.model(), "materials": lambda t: t.materials(), "superposed": lambda t: t.superposed(), "assembled": lambda t: t.assembled(),
         "excentrement": lambda t: {k: d.get("EXCENTREMENT", 0) for k, d in t.cara("COQUE").items()}, "statics": lambda t: t.statics(), "tractions": lambda t: t.tractions(), "modes": lambda t: t.modes(), "harmonic": lambda t: t.harmonic(), "combined": lambda t: t.combined(), "nonlinear": lambda t: t.nonlinear(), "contact": lambda t: t.contact(), "onfaces": lambda t: t.onfaces(), "kept": lambda t: t.kept()}
for _k in ("POUTRE", "BARRE", "COQUE", "DISCRET", "MASSIF", "ORIENTATION"):
    VIEWS[_k.lower()] = lambda t, k=_k: t.cara(k)


def exact(v):
    if isinstance(v, dict):
        return Exact({k: exact(x) for k, x in v.items()})
    if isinstance(v, Bag):
        return Bag([exact(x) for x in v])
    return [exact(x) for x in v] if isinstance(v, list) else v


def view(t, key):
    return exact(VIEWS[key](t))


def amodel(I, cp):
    if not hasattr(I.P, "celltypes"):
        I.P.celltypes = [(u, g[3]) for u, g in sorted(I.P.globals.items(), key=lambda x: (x[1][4], x[1][5])) if bare(g[2]) == "vega::CellType" and g[3].startswith("vega::CellType::")]
    for u, q in I.P.celltypes:
        I.global_cell({"u": u, "q": q}, None)
    f = [f for f in I.P.byq["vega::Model::Model"] if len(f.params) > 1][0]
    mc = I.callq(CP + "::getModelConfiguration", Cell(cp), [])
    return I.new_object(MODEL, f.ref, [Cell("m"), Cell("u"), Cell(3), Cell(rv(mc)), Cell(0)])


def parameters(I, mode=0):
    """configuration parameters of a translation to code_aster in best effort mode, as the command line builds them"""
    solver = I.new_object("vega::Solver", next(f for f in I.P.byq["vega::Solver::Solver"] if len(f.params) == 1).ref, [Cell(2)])
    f = next(f for f in I.P.byq[CP + "::" + "ConfigurationParameters"] if len(f.params) > 5)
    args = [Cell("deck.nas"), Cell(solver), Cell(""), Cell("out"), Cell("."), Cell(0), Cell(mode)]
    return I.new_object(CP, f.ref, args)


def inverse3(I, this, args):
    """contract of vega::InvertMatrix (LU factorisation of the library): the inverse, when there is one"""
    a, out = L.matrix_get(I, rv(args[0])), rv(args[1])
    m = lambda x, y: arith("*", x, y)
    cof = lambda i, j: arith("-", m(a[(i + 1) % 3][(j + 1) % 3], a[(i + 2) % 3][(j + 2) % 3]), m(a[(i + 1) % 3][(j + 2) % 3], a[(i + 2) % 3][(j + 1) % 3]))
    det = arith("+", arith("+", m(a[0][0], cof(0, 0)), m(a[0][1], cof(0, 1))), m(a[0][2], cof(0, 2)))
    if I.c.branch(EQ(det, 0)):
        return False
    L.matrix_set(I, out, [[I.numop("/", cof(j, i), det, parse_type("double"), None, None) for j in range(3)] for i in range(3)])
    return True


def aster_unit(prop, name, spec, opts=None):
    """unit: the deck built by spec, read, finished and written for code_aster by the real code, says to code_aster exactly what is expected"""
    def run(c):
        I = begin(c)
        c.contracts["vega::InvertMatrix"] = inverse3
        F = common_fields(SymF(I))
        lines, cards, exp = spec(F)
        cp = parameters(I)
        m = amodel(I, cp)
        t = RealTok(I, "".join(line_text(F, x, I) + "\n" for x in lines) + "BEGIN BULK\n")
        p = parser(I)
        I.callq(NP + "::parseExecutiveSection", Cell(p), [Cell(t.obj), Cell(m), Cell(MapV("map", "std::string", "std::string"))])
        t = Tok(I, [(k, [afield(f) for f in fs]) for k, fs in cards])
        I.callq(NP + "::parseBULKSection", Cell(p), [Cell(t.obj), Cell(m)])
        if t.errors:
            c.prove("%s.%s.accepted" % (prop, name), False, info=str(t.errors)[:200])
            return
        I.callq(MODEL + "::finish", Cell(m))
        w = I.new_object(AW, None, [])
        am = I.new_object("vega::aster::AsterModel", next(f for f in I.P.byq["vega::aster::AsterModel::AsterModel"] if len(f.params) == 2).ref, [Cell(m), Cell(cp)])
        w.f[AW + "::asterModel"].v = Ptr(Cell(am))
        I.callq(AW + "::writeComm", Cell(w))
        told = None
        cn = Canon(I, m)
        pieces = rv(w.f[AW + "::comm_file_ofs"]).pieces
        try:
            told = Told(CM.parse(pieces), *mesh_of(I, cn))
            views = {k: view(told, k) for k in exp}
        except (CM.Bad, KeyError) as e:
            c.prove("%s.%s.well formed" % (prop, name), False, info=repr(e)[:300])
            return
        c.prove("%s.%s.well formed" % (prop, name), True)
        for k in exp:
            c.prove("%s.%s.%s" % (prop, name, k), match(exp[k], views[k]))
    return Unit(name, run, opts or {}, replay=lambda m: aster_cases(prop, name, spec, random.Random(7), 1, fields=ModF(m)))


def mesh_of(I, cn):
    M_ = "vega::Mesh"
    nc = rv(I.callq(M_ + "::countCells", cn.mesh, sig=[]))
    nn = rv(I.callq(M_ + "::countNodes", cn.mesh))
    gs, ns = {}, {}
    for q, out in (("CellGroup", gs), ("NodeGroup", ns)):
        for p in cn.seq(rv(I.callq("%s::get%ss" % (M_, q), cn.mesh))):
            g = pt(p)
            nm = rv(I.callq("vega::Group::getName", Cell(g)))
            out[nm] = [rv(x) if isinstance(x, Cell) else x for x in cn.seq(rv(I.callq("vega::%s::%s" % (q, "cellPositions" if q == "CellGroup" else "nodePositions"), Cell(g))))]
    conn = [list(cn.seq(rv(pt(I.callq(M_ + "::findCell", cn.mesh, [p])).f["vega::Cell::nodePositions"]))) for p in range(nc)]
    xs = []
    for p in range(nn):
        n = pt(I.callq(M_ + "::findNode", cn.mesh, [p]))
        xs.append([rv(n.f["vega::Node::" + k]) if not isinstance(n.f["vega::Node::" + k], (int, float, Fraction)) else n.f["vega::Node::" + k] for k in "xyz"])
    return gs, ns, conn, nn, xs


def told_of_dump(r):
    cpos = {c["id"]: k for k, c in enumerate(r["cells"])}
    npos = {n["id"]: k for k, n in enumerate(r["nodes"])}
    return Told(CM.parse(r["comm"]), {g["name"]: [cpos[x] for x in g["cells"]] for g in r["cellGroups"]}, {g["name"]: [npos[x] for x in g["nodes"]] for g in r["nodeGroups"]}, [[npos[x] for x in c["nodes"]] for c in r["cells"]], len(npos), [n["x"] for n in r["nodes"]])


def aster_cases(prop, name, spec, rng, n, fields=None):
    out = []
    for k in range(n):
        try:
            lines, cards, exp = spec(common_fields(fields or ConF(rng)))
        except Reject:
            continue
        text = deck_text(rng, cards, "free" if fields else None, "".join(line_text(None, x) + "\n" for x in lines) + "BEGIN BULK\n")

        def check(r, exp=exp, text=text, name=name):
            if not isinstance(r, dict) or "exc" in r:
                return "%s: %s for deck %r" % (name, r, text)
            try:
                told = told_of_dump(r)
                for key in exp:
                    d = cdiff(exp[key], view(told, key), key)
                    if d:
                        return "%s: %s; deck %r" % (name, d, text)
            except (CM.Bad, KeyError) as e:
                return "%s: command file: %r; deck %r" % (name, e, text)
            return None
        out.append(Case("%s:%d" % (name, k), "comm best " + esc(text), check))
    return out
