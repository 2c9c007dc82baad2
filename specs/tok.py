"""Units on the real tokenizer: a spec F -> (text of the deck, calls, answers expected), run symbolically (every number of the text is a symbolic
integer of the stated number of digits) and concretely (replay op tok)."""
from cards import *

TUS = ["Nastran/NastranTokenizer.cpp", "Abstract/SolverInterfaces.cpp", "Abstract/Utility.cpp", "Abstract/Value.cpp"]
REFUSED = {"refused": 1}
CALL = {"i": ("nextInt", []), "I": ("nextInt", [True, -7]), "d": ("nextDouble", []), "D": ("nextDouble", [True, Fraction(-15, 2)]), "s": ("nextString", []), "S": ("nextString", [True, "DFLT"]),
        "is": ("nextInts", []), "ds": ("nextDoubles", []), "?i": ("isNextInt", []), "?d": ("isNextDouble", []), "?t": ("isNextTHRU", []), "?b": ("isNextBY", []), "?u": ("isEmptyUntilNextKeyword", []),
        "xe": ("skipToNotEmpty", []), "xk": ("skipToNextKeyword", []), "t": ("remainingTextUntilNextKeyword", []), "L": ("nextLine", []), "V": ("currentDataLine", [])}


def dg(F, name, w, nz=False):
    """(text, value) of w digits; nz: the first one is not 0 (in any case when w > 1 in the symbolic runs: leading zeros are covered by literal text)"""
    f = F.i(name, 1 if nz and w == 1 else 0 if w == 1 else 10 ** (w - 1), 10 ** w - 1)
    if is_z(f.v):
        return TX.atom(F.I.c, f.v, w, exact=True), f.v
    return str(f.v), f.v


def call(I, t, x):
    n = int(x[2:]) if len(x) > 2 else None
    q, args = ("isNextEmpty", [n]) if x[:2] == "?e" else ("skip", [n]) if x[:2] == "x_" else CALL[x]
    return rv(I.callq(NT + "::" + q, Cell(t.obj), args, defaults=True) if False else I.callq(NT + "::" + q, Cell(t.obj), args))


def plain(v):
    if isinstance(v, Seq):
        return [plain(rv(x)) for x in v.cells]
    if isinstance(v, tuple):
        return v
    return v


def same(e, g):
    if e is REFUSED or isinstance(g, dict):
        return e is REFUSED and isinstance(g, dict) and g == REFUSED
    if callable(e):
        return e(g)
    if isinstance(e, list):
        return isinstance(g, list) and len(e) == len(g) and AND(True, *[same(a, b) for a, b in zip(e, g)])
    if isinstance(e, bool):
        return EQ(e, g) if is_z(g) else e == bool(g)
    if isinstance(e, str) or isinstance(g, str):
        return isinstance(e, str) and isinstance(g, str) and e == g
    if is_z(e) or is_z(g):
        return EQ(e, g)
    if isinstance(g, dict) or g is None or e is None:
        return e is None and g is None
    return abs(float(e) - float(g)) <= 1e-14 * max(abs(float(e)), abs(float(g)))


def tok_unit(prop, name, spec, opts=None):
    def run(c):
        I = begin(c)
        F = common_fields(SymF(I))
        F.I = I
        text, steps = spec(F)
        t = RealTok(I, text)
        I.callq(NT + "::bulkSection", Cell(t.obj), [])
        for x, exp in steps:
            n = len(t.errors)
            if x == "H":
                r = [[rv(rv(k).first), rv(rv(k).second), rv(val)] for k, val in rv(t.obj.f[NT + "::labelByCommentTypeAndId"]).ents]
            elif x == "K":
                r = rv(t.obj.f[NT + "::nextSymbolType"])
            else:
                try:
                    r = plain(call(I, t, x))
                except CppThrow:
                    r = REFUSED if len(t.errors) > n else {"thrown": 1}
            if exp is not ANYTHING:
                if x == "V":
                    ok = data_line(exp)(r)
                elif callable(exp):
                    ok = exp(r)
                elif exp is None:
                    ok = not isinstance(r, dict)
                else:
                    ok = same(exp, r)
                c.prove("%s.%s.%s" % (prop, name, LABEL.get(x, LABEL.get(x[:2], x))), ok, info="%s of %r: expected %s, got %s" % (x, text, exp, r))
    return Unit(name, run, opts or {}, replay=lambda m: tok_cases(prop, name, spec, random.Random(7), 1, fields=ModF(m)))


ANYTHING = object()
LABEL = {"i": "integer", "I": "integer or default", "d": "real", "D": "real or default", "s": "word", "S": "word or default", "is": "integers", "ds": "reals", "?i": "predicates", "?d": "predicates",
         "?t": "predicates", "?b": "predicates", "?e": "blank", "?u": "blank", "x_": "skip", "xe": "skip", "xk": "skip", "t": "remaining", "L": "line", "V": "fields", "H": "labels", "K": "position"}


def data_line(exp):
    """the fields are exp, up to blanks around them and blank fields at the end"""
    def ok(r):
        if not isinstance(r, list) or not all(isinstance(x, str) for x in r):
            return False
        r = [x.strip() for x in r]
        while r and r[-1] == "":
            r.pop()
        e = list(exp)
        while e and e[-1] == "":
            e.pop()
        return r == e
    return ok


def tok_cases(prop, name, spec, rng, n, fields=None):
    out = []
    for k in range(n):
        try:
            F = common_fields(fields or ConF(rng))
            text, steps = spec(F)
        except Reject:
            continue

        def check(r, text=text, steps=steps):
            if not isinstance(r, list) or len(r) != len(steps):
                return "%s on %r: %s" % (name, text, r)
            for (x, e), g in zip(steps, r):
                if isinstance(g, dict) and "thrown" in g:
                    return "%s: call %s on %r threw %s" % (name, x, text, g)
                if e is ANYTHING:
                    continue
                ok = data_line(e)(g) if x == "V" else e(g) if callable(e) else g != REFUSED if e is None else same(e, g)
                if not ok:
                    return "%s: %s on %r gave %r, expected %s" % (name, LABEL.get(x, x), text, g, e if not callable(e) else "otherwise")
        out.append(Case("%s:%s" % (name, text), "tok best 1 %s %s" % (esc(text), " ".join(x for x, _ in steps)), check))
    return out
