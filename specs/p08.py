"""P08  Cards: the same fields whatever the layout of the lines."""
from tok import *

KW, FLD, EOF = 0, 1, 2


def pattern(F, n, name="blanks"):
    """which of the n fields are blank"""
    p = F.pick(name, ["none", "first", "last", "middle", "one"])
    if n == 1 or p == "none":
        return [0] * n
    return {"first": [1] + [0] * (n - 1), "last": [0] * (n - 1) + [1], "middle": [int(0 < k < n - 1 and k % 2) for k in range(n)], "one": [int(k != n // 2) for k in range(n)]}[p]


def fill(F, n, widths, name="f", blanks=None):
    """n field texts"""
    blanks = blanks or [0] * n
    return ["" if blanks[k] else dg(F, "%s%d" % (name, k), widths[k % len(widths)])[0] for k in range(n)]


def just(x, w, how, k=0):
    if how == "mixed":
        how = ("left", "right", "centre")[k % 3]
    return x.ljust(w) if how == "left" else x.rjust(w) if how == "right" else (" " * ((w - len(x)) // 2) + x).ljust(w)


def fixed(head, fields, w, how, cut, marker=None):
    t = head.ljust(8) + "".join(just(x, w, how, k) for k, x in enumerate(fields))
    if marker is not None:
        t = t.ljust(72) + marker
    elif cut and (cut == 2 or fields and fields[-1]):
        t = t.rstrip()
    else:
        t = t.ljust(72)
    return t + "\n"


def card(F, head, fields, per, w, cont, how, cut, star=""):
    """the lines of a card in fixed columns; cont: how a line is said to continue the previous one"""
    out, n = "", 0
    for k in range(0, max(1, len(fields)), per):
        more = k + per < len(fields)
        mark = {"+": None, "blank": None, "named": star + "A%d" % n, "plus": (star or "+") + "A%d" % n}[cont] if more else None
        h = head + star if k == 0 else {"+": star or "+", "blank": "", "named": star + "A%d" % (n - 1), "plus": (star or "+") + "A%d" % (n - 1)}[cont]
        out += fixed(h, fields[k:k + per], w, how, cut, mark)
        n += 1
    return out


def read(*cards):
    """the cards are read one after the other, then the end of the file is found"""
    out = []
    for kw, fs in cards:
        out += [("L", None), ("K", KW), ("V", [kw] + fs)]
    return out + [("L", None), ("K", EOF)]


AFTER = "NEXT    5\n"
NEXT = ("NEXT", ["5"])
STYLE = [("left", 1, (8, 3)), ("right", 0, (1, 8, 5)), ("centre", 0, (2, 4)), ("mixed", 1, (7, 8, 1))]


def SHORT(F):
    """eight fields of eight columns per line"""
    n = 8 * F.pick("lines", [0, 1, 2]) + F.pick("more", [1, 3, 8])
    cont = F.pick("cont", ["+", "blank", "named", "plus"])
    how, cut, widths = F.pick("style", STYLE)
    fs = fill(F, n, widths, blanks=pattern(F, n))
    return card(F, "KEY1", fs, 8, 8, cont, how, cut) + AFTER, read(("KEY1", fs), NEXT)


def SHORTGAP(F, conts=("blank", "tabs")):
    """a line that stops before its eighth field, then a continuation: the fields left out are blank"""
    m = F.pick("first", [0, 1, 3, 7])
    cont = F.pick("cont", list(conts))
    a, b = fill(F, m, (8, 3), "a"), fill(F, F.pick("second", [1, 2, 8]), (5, 8), "b")
    h = {"+": "+", "blank": "", "tabs": "\t"}[cont]
    return fixed("KEY1", a, 8, "left", 2) + (fixed(h, b, 8, "left", 1) if cont != "tabs" else "\t" + "".join(x.ljust(8) for x in b) + "\n") + AFTER, read(("KEY1", a + [""] * (8 - m) + b), NEXT)


def LONG(F):
    """four fields of sixteen columns per line, marked by a star"""
    n = 4 * F.pick("lines", [0, 1, 2]) + F.pick("more", [1, 2, 4])
    cont = F.pick("cont", ["+", "plus"])
    how, cut, widths = F.pick("style", [("left", 1, (16, 3)), ("right", 0, (1, 16, 9)), ("mixed", 1, (15, 8, 1))])
    fs = fill(F, n, widths, blanks=pattern(F, n))
    return card(F, "KEY1", fs, 4, 16, cont, how, cut, star="*") + AFTER, read(("KEY1", fs), NEXT)


def LONGGAP(F):
    """a long line that stops before its fourth field, then a continuation"""
    m = F.pick("first", [0, 1, 3])
    a, b = fill(F, m, (16, 3), "a"), fill(F, F.pick("second", [1, 4]), (5, 16), "b")
    return fixed("KEY1*", a, 16, "left", 2) + fixed("*", b, 16, "left", 1) + AFTER, read(("KEY1", a + [""] * (4 - m) + b), NEXT)


def MIXED(F):
    """a short line continued by a long one, a long line continued by a short one"""
    which = F.pick("which", ["short-long", "short-long named", "long-short", "short-long-short"])
    if which.startswith("short"):
        m = 8 if "named" in which else F.pick("first", [8, 3])
        a, b = fill(F, m, (8, 3), "a"), fill(F, F.pick("second", [1, 4]), (16, 2), "b")
        t = fixed("KEY1", a, 8, "right", 1, "*A1" if "named" in which else None) + fixed("*A1" if "named" in which else "*", b, 16, "right", 1)
        fs = a + [""] * (8 - m) + b
        if which.endswith("short"):
            c = fill(F, 2, (8, 1), "c")
            fs = fs + [""] * (4 - len(b)) + c
            t += fixed("", c, 8, "left", 1)
        return t + AFTER, read(("KEY1", fs), NEXT)
    m = F.pick("first", [4, 2])
    a, b = fill(F, m, (16, 2), "a"), fill(F, F.pick("second", [1, 8]), (8, 3), "b")
    return fixed("KEY1*", a, 16, "left", 1) + fixed("", b, 8, "left", 1) + AFTER, read(("KEY1", a + [""] * (4 - m) + b), NEXT)


def FREE(F):
    """fields separated by commas, eight per line"""
    n = 8 * F.pick("lines", [0, 1, 2]) + F.pick("more", [1, 3, 8])
    cont = F.pick("cont", [",", "+,", "*,", "marked", "named"])
    fs = fill(F, n, (1, 9, 4), blanks=pattern(F, n))
    sp = F.pick("blanks between", ["", " ", "   "])
    out = "KEY1,"
    for k in range(0, n, 8):
        more = k + 8 < n
        if k:
            out += {",": ",", "+,": "+,", "*,": "*,", "marked": "+,", "named": "+A%d," % (k // 8 - 1)}[cont]
        out += ",".join(sp + x + sp for x in fs[k:k + 8]) + ({"marked": ",+", "named": ",+A%d" % (k // 8)}.get(cont, "") if more else "") + "\n"
    return out + AFTER, read(("KEY1", fs), NEXT)


def FREEGAP(F):
    """a free line that stops before its eighth field, then a continuation: the fields left out are blank"""
    m = F.pick("first", [1, 3, 7])
    a, b, c = fill(F, m, (8, 3), "a"), fill(F, F.pick("second", [1, 2, 8]), (5, 8), "b"), fill(F, F.pick("third", [0, 1]), (2,), "c")
    h = F.pick("cont", ["", "+", "*", "+A1"])
    t = "KEY1," + ",".join(a) + "\n" + h + "," + ",".join(b) + "\n" + (h + "," + ",".join(c) + "\n" if c else "")
    return t + AFTER, read(("KEY1", a + [""] * (8 - m) + b + ([""] * (8 - len(b)) + c if c else [])), NEXT)


def FREESIGN(F):
    """a number with a plus sign is a number, in whichever field it is"""
    n = F.pick("n", [1, 4, 8, 9, 12])
    fs = ["+" + dg(F, "f%d" % k, 2)[0] if k % 3 == 0 or k == 8 else "%d" % k for k in range(n)]
    return "KEY1," + ",".join(fs[:8]) + (",+\n+," + ",".join(fs[8:]) if n > 8 and F.pick("marked", [0, 1]) else "\n," + ",".join(fs[8:]) if n > 8 else "") + "\n" + AFTER, read(("KEY1", fs), NEXT)


def COMMENTS(F):
    """comment lines, comments after the text and blank lines change nothing"""
    a, b = fill(F, 8, (8, 2), "a"), fill(F, 2, (3,), "b")
    pre = F.pick("before", ["", "$ text\n", "\n", "   \n", "$\n\n$x\n"])
    form = F.pick("form", ["short", "long", "free"])
    mid = F.pick("between", ["", "$ text\n", "$ text, with = signs + and *\n$\n"])
    tail = F.pick("tail", ["", " $ end of line", "$"])
    post = F.pick("after", ["", "$ text\n", "\n"])
    if form == "short":
        t = fixed("KEY1", a, 8, "left", 1) + mid + fixed("+", b, 8, "left", 1)[:-1] + tail + "\n"
        fs = a + b
    elif form == "long":
        t = fixed("KEY1*", a[:4], 16, "left", 1) + mid + fixed("*", b, 16, "left", 1)[:-1] + tail + "\n"
        fs = a[:4] + b
    else:
        t = "KEY1," + ",".join(a) + "\n" + mid + "," + ",".join(b) + tail + "\n"
        fs = a + b
    return pre + t + post + AFTER, read(("KEY1", fs), NEXT)


def TABS(F):
    """a tabulation goes to the next column of fields"""
    n = F.pick("n", [1, 2, 5, 8])
    long = F.pick("long", [0, 1])
    n = min(n, 4) if long else n
    fs = fill(F, n, (3, 7, 1), blanks=[int(k % 3 == 1) for k in range(n)])
    return "KEY1" + ("*" if long else "") + "\t" + "\t".join(fs) + "\n" + AFTER, read(("KEY1", fs), NEXT)


def KEYWORDS(F):
    """the keyword, in lower case or not, with its blanks"""
    kw = F.pick("kw", ["GRID", "grid", "Cquad4", "TABDMP1", "x"])
    form = F.pick("form", ["short", "long", "free", "free blank"] if len(kw) < 7 else ["short", "long", "free"])
    a = fill(F, 2, (3, 5))
    t = {"short": fixed(kw, a, 8, "left", 1), "long": fixed(kw + "*", a, 16, "left", 1), "free": kw + "," + ",".join(a) + "\n", "free blank": kw + " , " + ",".join(a) + "\n"}[form]
    return t + AFTER, [("L", None), ("K", KW), ("s", kw.upper()), ("s", a[0]), ("s", a[1]), ("K", KW), ("L", None), ("s", "NEXT"), ("i", 5), ("L", None), ("K", EOF)]


def UNFINISHED(F):
    """a card that says it goes on at the end of the file is read as it is"""
    n = F.pick("n", [8, 3, 16])
    fs = fill(F, n, (8, 2))
    form = F.pick("form", ["short", "long", "free"])
    if form == "short":
        t = card(F, "KEY1", fs, 8, 8, "plus", "left", 1)[:-1].ljust(72 + 81 * ((n - 1) // 8)) + "+A9" + F.pick("end", ["\n", ""])
    elif form == "long":
        fs = fs[:4]
        t = fixed("KEY1*", fs, 16, "left", 0, "*A1")
    else:
        fs = (fs + [""] * 5)[:8]
        t = "KEY1," + ",".join(fs) + ",+A1\n"
    return t, read(("KEY1", fs))


def LABELS(F):
    """the names given by the comments of the preprocessor, wherever they are"""
    t, v = dg(F, "id", F.pick("digits", [1, 3, 8]), nz=True)
    kind = F.pick("kind", ["COMP", "LOADSTEP", "LOADCOL"])
    line = "$HMNAME %s %s\"Part_%s\"\n" % (kind.ljust(16), t.rjust(8) if F.pick("right", [0, 1]) else t, kind)
    form = F.pick("form", ["short", "long", "free"])
    where = F.pick("where", ["before", "after", "inside"])
    a = fill(F, 5 if form == "long" else 9, (3, 2), "a")
    n = 4 if form == "long" else 8
    ls = {"short": [fixed("KEY1", a[:n], 8, "left", 1), fixed("+", a[n:], 8, "left", 1)], "long": [fixed("KEY1*", a[:n], 16, "left", 1), fixed("*", a[n:], 16, "left", 1)], "free": ["KEY1," + ",".join(a[:n]) + "\n", "," + ",".join(a[n:]) + "\n"]}[form]
    t = {"before": line + "".join(ls), "after": "".join(ls) + line, "inside": ls[0] + line + ls[1]}[where]
    return t + AFTER, read(("KEY1", a), NEXT) + [("H", lambda g: isinstance(g, list) and len(g) == 1 and AND(g[0][0] == {"COMP": 2, "LOADSTEP": 9, "LOADCOL": 7}[kind], EQ(g[0][1], v), g[0][2] == "Part_" + kind))]


def SEQUENCE(F):
    """several cards of different layouts; the last line may lack its end; lines may end as on Windows"""
    a, b, c = fill(F, 9, (8, 2), "a"), fill(F, 5, (11, 3), "b"), fill(F, 9, (4, 1), "c")
    t = {"a": card(F, "KEY1", a, 8, 8, F.pick("cont", ["+", "blank", "plus"]), "left", 1), "b": card(F, "KEY2", b, 4, 16, "+", "left", 1, star="*"), "c": "KEY3," + ",".join(c[:8]) + "\n," + c[8] + "\n"}
    k = {"a": ("KEY1", a), "b": ("KEY2", b), "c": ("KEY3", c)}
    order = F.pick("order", ["abc", "bca", "cab", "acb", "bac", "cba"])
    text = "".join(t[x] for x in order)
    end = F.pick("end", ["line", "none", "blank line", "windows"])
    text = {"line": text, "none": text[:-1], "blank line": text + "\n", "windows": text.replace("\n", "\r\n")}[end]
    return text, read(*[k[x] for x in order])


SPECS = [SHORT, SHORTGAP, LONG, LONGGAP, MIXED, FREE, FREEGAP, FREESIGN, COMMENTS, TABS, KEYWORDS, UNFINISHED, LABELS, SEQUENCE]
UNITS = [tok_unit("P08", f.__name__, f) for f in SPECS]


def SHORTGAPPLUS(F):
    return SHORTGAP(F, ("+",))


def suite(rng, tier):
    n = 40 if tier == "quick" else 600
    out = [x for f in SPECS for x in tok_cases("P08", f.__name__, f, rng, n)]
    for x in tok_cases("P08", "SHORTGAPPLUS", SHORTGAPPLUS, rng, 4):
        x.key = "layout:short-line-plus"
        out.append(x)
    return out
