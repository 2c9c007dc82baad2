"""P07  Fields are read as the numbers, words and lists they spell."""
from tok import *

KW, FLD = 0, 1


def pad(F, x):
    """the text of a field anywhere in its columns"""
    return {"left": x, "right": "  " + x, "both": " " + x + "  "}[F.pick("pad", ["left", "right", "both"])]


def place(F, x, follow=True):
    """a free-format line where the field is first, in the middle or the last: (text, position, a field follows)"""
    k = F.pick("position", [0, 1, 6]) if follow else 0
    last = F.pick("last", [0, 1])
    return "KEY," + "".join("%d," % (j + 1) for j in range(k)) + x + ("" if last else ",77") + "\n", k, last


def reader(F, field, op, val, preds):
    """the answers of the predicates on the field, then its value; exactly one field is consumed"""
    text, k, last = place(F, field)
    return text, [("L", None), ("K", KW), ("s", "KEY")] + [("i", j + 1) for j in range(k)] + [("K", FLD)] + preds + [(op, val)] + (
        [("K", KW)] if last else [("K", FLD), ("i", 77), ("K", KW)])


def INTEGERS(F):
    sign = F.pick("sign", ["", "-", "+"])
    w = F.pick("digits", [1, 2, 4, 7, 9])
    t, v = dg(F, "n", w)
    z = F.pick("zeros", ["", "0", "000"])
    v = F.neg(v) if sign == "-" else v
    op = F.pick("op", ["i", "I", "s"])
    x = sign + z + t
    return reader(F, pad(F, x), op, x if op == "s" else v, [("?i", True), ("?d", True), ("?t", False), ("?b", False), ("?e1", False), ("?u", False)])


def RANGE(F):
    """integers out of the range of the machine are refused, the ones at its ends are not"""
    n = F.pick("n", ["2147483647", "-2147483648", "2147483648", "-2147483649", "99999999999", "4294967297"])
    good = -2 ** 31 <= int(n) < 2 ** 31
    return "KEY,%s,5\n" % n, [("L", None), ("s", "KEY"), ("i", int(n) if good else REFUSED), ("i", 5)]


def real_text(F, p=""):
    """(text, value) of a real number in any of the Nastran forms"""
    sign = F.pick("sign" + p, ["", "-", "+"])
    form = F.pick("form" + p, ["d.", ".d", "d.d", "0.d", "d"])
    a, va = dg(F, "a" + p, 2) if form[0] == "d" else ("0" if form[0] == "0" else "", 0)
    b, vb = dg(F, "b" + p, 3) if form.endswith(".d") else ("", 0)
    lead = F.pick("lead" + p, ["", "0"]) if form.endswith(".d") else ""
    ex = F.pick("exp" + p, ["E", "e", "D", "d", "sign"] + ([""] if form != "d" else []))
    es = "" if ex == "" else F.pick("esign" + p, ["+", "-"] + ([""] if ex != "sign" else []))
    ed = "" if ex == "" else F.pick("edigits" + p, ["0", "3", "05", "12"])
    text = sign + a + ("." if "." in form else "") + lead + b + ("" if ex == "sign" else ex) + es + ed
    v = F.add(F.real(va), F.mul(F.real(vb), F.c(Fraction(1, 10 ** (3 + len(lead))))))
    e = int(ed or "0") * (-1 if es == "-" else 1)
    v = F.mul(v, F.c(Fraction(10) ** e))
    return text, F.neg(v) if sign == "-" else v


def REALS(F):
    text, v = real_text(F)
    return "KEY,%s,77\n" % text, [("L", None), ("s", "KEY"), ("?i", ANYTHING), ("?d", True), ("?t", False), ("?b", False), ("?e1", False), ("?u", False), ("d", v), ("K", FLD), ("i", 77), ("K", KW)]


def REALPLACE(F):
    t, v = dg(F, "a", 2)
    sign = F.pick("sign", ["", "-"])
    v = F.mul(F.real(v), F.c(Fraction(1, 10)))
    op = F.pick("op", ["d", "D"])
    x = t[:1] + t[1:]
    f = pad(F, sign + "." + x + "+1")
    v = F.mul(v, F.c(1))
    return reader(F, f, op, F.neg(v) if sign else v, [("?i", False), ("?d", True), ("?e1", False)])


def WRONG(F):
    """a real number or a word where an integer is wanted, a word where a number is wanted: refused, and the next field is the next one"""
    x, ops = F.pick("x", [("1.", "iI"), ("-3.5E2", "iI"), ("1.+2", "iI"), (".5", "iI"), ("ALPHA", "iIdD"), ("1A", "iIdD"), ("A1", "iIdD"), ("1..2", "dDiI"), ("--1", "dDiI"), ("1.E", "dDiI"), ("1 2", "iI"), ("THRU", "idID")])
    op = F.pick("op", list(ops))
    t, k, last = place(F, pad(F, x))
    return t, [("L", None), ("s", "KEY")] + [("i", j + 1) for j in range(k)] + [(op, REFUSED)] + ([("K", KW)] if last else [("K", FLD), ("i", 77), ("K", KW)])


def BLANKS(F):
    """a blank field gives the default when there is one and is refused otherwise; an absent one likewise"""
    op = F.pick("op", ["i", "I", "d", "D", "s", "S"])
    exp = {"I": -7, "D": F.c(Fraction(-15, 2)), "S": "DFLT"}.get(op, REFUSED)
    how = F.pick("how", ["", " ", "        ", "absent"])
    if how == "absent":
        return "KEY,1\n", [("L", None), ("s", "KEY"), ("i", 1), ("K", KW), ("?i", False), ("?d", False), ("?t", False), ("?b", False), ("?u", True), (op, exp), ("K", KW)]
    text, k, last = place(F, how)
    preds = [("?i", False), ("?d", False), ("?t", False), ("?b", False), ("?e1", True), ("?u", bool(last))]
    return text, [("L", None), ("s", "KEY")] + [("i", j + 1) for j in range(k)] + preds + [(op, exp)] + ([("K", KW)] if last else [("K", FLD), ("i", 77), ("K", KW)])


def WORDS(F):
    w = F.pick("w", ["ALPHA", "alpha", "Bar2", "THRU", "thru", "BY", "by", "B-A", "YES", "a", "G", "X1/Y"])
    op = F.pick("op", ["s", "S"])
    u = w.upper()
    return reader(F, pad(F, w), op, u, [("?i", False), ("?d", False), ("?t", u == "THRU"), ("?b", u == "BY"), ("?e1", False), ("?u", False)])


def NUMWORDS(F):
    """a number read as a word keeps its text"""
    t, _ = dg(F, "n", 3)
    w = F.pick("w", ["%s", "-%s", "1.%s", "A%s", "%s-1"]) % t
    return reader(F, pad(F, w), F.pick("op", ["s", "S"]), w, [])


def LISTS(F):
    """integers until the first field that is no integer"""
    n = F.pick("n", [0, 1, 2, 3, 7])
    xs = [dg(F, "n%d" % k, (1, 4, 8)[k % 3]) for k in range(n)]
    end = F.pick("end", ["", ",", ",,5", ",ALPHA", ",1.5,4", ",,"])
    text = "KEY" + "".join("," + t for t, _ in xs) + end + "\n"
    after = {"": [("K", KW)], ",": [("K", FLD), ("?e1", True)], ",,5": [("?e1", True), ("S", "DFLT"), ("i", 5)], ",ALPHA": [("s", "ALPHA")], ",1.5,4": [("d", F.c(Fraction(3, 2))), ("i", 4)], ",,": [("?e2", True)]}[end]
    return text, [("L", None), ("s", "KEY"), ("is", [v for _, v in xs])] + after


def THRU(F):
    """first THRU last: every integer between, in whichever order the ends are given; alone, after others, before others"""
    w = F.pick("digits", [1, 4, 8])
    a, va = dg(F, "a", w)
    d = F.pick("span", [0, 1, 2, 4, -1, -3])
    b = F.i("b", 0 if w == 1 else 10 ** (w - 1), 10 ** w - 1)
    F.assume(EQ(b.v, F.add(va, d)) if is_z(b.v) else True)
    if is_z(b.v):
        tb = TX.atom(F.I.c, b.v, w, exact=True)
    else:
        tb = str(va + d)
        if va + d < 0 or len(tb) != w:
            raise Reject()
    lo = va if d >= 0 else F.add(va, d)
    between = [F.add(lo, k) for k in range(abs(d) + 1)]
    th = F.pick("thru", ["THRU", "thru"])
    where = F.pick("where", ["alone", "after", "before", "twice"])
    pre, post = (["5"], [5]) if where == "after" else ([], []), (["9"], [9]) if where == "before" else (["20", "THRU", "22"], [20, 21, 22]) if where == "twice" else ([], [])
    fs = pre[0] + [a, th, tb] + post[0]
    return "KEY," + ",".join(fs) + "\n", [("L", None), ("s", "KEY"), ("is", pre[1] + between + post[1]), ("K", KW)]


def THRUBY(F):
    """first THRU last BY step: first, first + step... up to the last one"""
    w = F.pick("digits", [2, 5])
    a, va = dg(F, "a", w)
    st = F.pick("step", [1, 2, 3])
    n = F.pick("n", [0, 1, 3])
    b = F.i("b", 10 ** (w - 1), 10 ** w - 1)
    if is_z(b.v):
        F.assume(EQ(b.v, F.add(va, st * n)))
        tb = TX.atom(F.I.c, b.v, w, exact=True)
    else:
        tb = str(va + st * n)
        if len(tb) != w:
            raise Reject()
    return "KEY,%s,THRU,%s,%s,%d,ALPHA\n" % (a, tb, F.pick("by", ["BY", "by"]), st), [("L", None), ("s", "KEY"), ("is", [F.add(va, st * k) for k in range(n + 1)]), ("s", "ALPHA")]


def THRUBAD(F):
    """a range without beginning, without end or with a null step is refused"""
    t = F.pick("t", ["THRU,5", "3,THRU", "3,THRU,", "3,THRU,ALPHA", "3,THRU,9,BY,0", "3,THRU,9,BY,-1", "3,THRU,9,BY,ALPHA"])
    return "KEY,%s\n" % t, [("L", None), ("s", "KEY"), ("is", REFUSED)]


def DOUBLES(F):
    n = F.pick("n", [0, 1, 2, 3])
    xs = [dg(F, "n%d" % k, 2) for k in range(n)]
    end = F.pick("end", ["", ",,5", ",ALPHA"])
    text = "KEY" + "".join("," + (t + ".", "." + t + "+2", t)[k] for k, (t, _) in enumerate(xs)) + end + "\n"
    return text, [("L", None), ("s", "KEY"), ("ds", [F.real(v) for _, v in xs])] + {"": [("K", KW)], ",,5": [("S", "DFLT"), ("i", 5)], ",ALPHA": [("s", "ALPHA")]}[end]


def SKIPS(F):
    """skipping fields, up to the end of the card and not beyond"""
    n, k = F.pick("fields", [1, 2, 5, 9]), F.pick("skip", [0, 1, 2, 4, 8, 20])
    left = max(0, n - k)
    text = "KEY" + "".join(",%d" % (j + 1) for j in range(min(8, n))) + ("\n,9" if n > 8 else "") + "\n"
    how = F.pick("from", ["first", "second"])
    pre = [("s", "KEY")]
    if how == "second":
        pre, left = pre + [("i", 1)], max(0, n - 1 - k)
    return text, [("L", None)] + pre + [("x_%d" % k, None), ("K", FLD if left else KW)] + ([("i", n - left + 1), ("i", n - left + 2) if left > 1 else ("K", KW)] if left else [("I", -7)])


def EMPTY(F):
    """which of the next fields are blank"""
    n = F.pick("n", [1, 2, 3, 4])
    bits = [F.pick("blank%d" % k, [1, 0]) for k in range(n)]
    fs = [F.pick("how", ["", "  "]) if b else str(k + 1) for k, b in enumerate(bits)]
    t = "KEY," + ",".join(fs) + "\n"
    steps = [("L", None), ("s", "KEY")] + [("?e%d" % k, all(bits[:k])) for k in range(1, n + 1)] + [("?u", all(bits)), ("t", "".join("," + x.strip() for x in fs if x.strip()))]
    first = next((k for k, b in enumerate(bits) if not b), n)
    how = F.pick("then", ["nonblank", "keyword", "one"])
    if how == "nonblank":
        steps += [("xe", None), ("K", FLD if first < n else KW)] + ([("i", first + 1)] if first < n else [])
    elif how == "keyword":
        steps += [("xk", None), ("K", KW), ("?u", True), ("t", ""), ("?e1", False)]
    else:
        steps += [("x_1", None)] + ([("?e%d" % k, all(bits[1:k + 1])) for k in range(1, n)] + [("?u", all(bits[1:]))] if n > 1 else [("K", KW)])
    return t, steps


SPECS = [INTEGERS, RANGE, REALS, REALPLACE, WRONG, BLANKS, WORDS, NUMWORDS, LISTS, THRU, THRUBY, THRUBAD, DOUBLES, SKIPS, EMPTY]
UNITS = [tok_unit("P07", f.__name__, f) for f in SPECS]


def suite(rng, tier):
    n = 40 if tier == "quick" else 600
    return [x for f in SPECS for x in tok_cases("P07", f.__name__, f, rng, n)]
