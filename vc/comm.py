"""code_aster command files: the text (literal, or pieces of a stream with symbolic numbers) parsed as what it is, Python keyword commands."""
import ast
import re
from fractions import Fraction


class Bad(Exception):
    pass


class Name(str):
    """an identifier of the command file (a concept)"""
    def __repr__(self):
        return "@" + str.__repr__(self)


class F(dict):
    """_F(...)"""


class Cmd:
    def __init__(s, target, fn, kw):
        s.target, s.fn, s.kw = target, fn, kw


def text_of(pieces):
    """(text, values): symbolic numbers become __v<k>__"""
    out, vals = [], []
    for p in [pieces] if isinstance(pieces, str) else pieces:
        if isinstance(p, str):
            out.append(p)
        elif p[0] in ("d", "i"):
            out.append("__v%d__" % len(vals))
            vals.append(p[1])
        else:
            out.append("__o%d__" % len(vals))
            vals.append(None)
    return "".join(out), vals


VRE = re.compile(r"__v(\d+)__")


def conv(n, vals):
    if isinstance(n, ast.Constant):
        if isinstance(n.value, str):
            m = VRE.search(n.value)
            if m:
                return tuple(x if k % 2 == 0 else vals[int(x)] for k, x in enumerate(VRE.split(n.value)) if not (k % 2 == 0 and x == ""))
            return n.value
        return n.value
    if isinstance(n, ast.Name):
        m = VRE.fullmatch(n.id)
        if m:
            return vals[int(m.group(1))]
        if n.id in ("None",):
            return None
        return Name(n.id)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.UAdd)):
        v = conv(n.operand, vals)
        return -v if isinstance(n.op, ast.USub) else v
    if isinstance(n, (ast.Tuple, ast.List)):
        return [conv(x, vals) for x in n.elts]
    if isinstance(n, ast.Call):
        fn = n.func.id if isinstance(n.func, ast.Name) else ast.dump(n.func)
        kw = {}
        for k in n.keywords:
            if k.arg in kw:
                raise Bad("keyword %s repeated" % k.arg)
            kw[k.arg] = conv(k.value, vals)
        if n.args:
            kw["*"] = [conv(x, vals) for x in n.args]
        if fn == "_F":
            return F(kw)
        return Cmd(None, fn, kw)
    if isinstance(n, (ast.BinOp, ast.Subscript, ast.Attribute, ast.GeneratorExp, ast.ListComp)):
        return ("expr", ast.dump(n))
    raise Bad("construct " + type(n).__name__)


PYTHON = {"np", "zip", "range", "sorted", "min", "max", "set", "list", "len", "float"}


def own(n):
    """names that are not concepts"""
    return n in PYTHON or VRE.fullmatch(n)


def parse(pieces):
    text, vals = text_of(pieces)
    try:
        t = ast.parse(text)
    except SyntaxError as e:
        raise Bad("%s line %s: %s" % (e.msg, e.lineno, (text.split("\n") + [""] * 3)[(e.lineno or 1) - 1][:200]))
    out = []
    for st in t.body:
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and isinstance(st.targets[0], ast.Name):
            c = conv(st.value, vals)
            if isinstance(c, Cmd) and not c.fn.startswith(("Attribute(", "Subscript(")):
                c.target = st.targets[0].id
                out.append(c)
            else:
                out.append(Cmd(st.targets[0].id, "python", {"of": [Name(x.id) for x in ast.walk(st.value) if isinstance(x, ast.Name) and not own(x.id)], "src": ast.unparse(st.value), "vals": vals}))
        elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            c = conv(st.value, vals)
            if isinstance(c, Cmd):
                out.append(c)
        elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            used = {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)} - {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            out.append(Cmd(st.targets[0].id, "alias" if isinstance(st.value, ast.Name) else "python", {"of": [Name(x) for x in sorted(used) if not own(x)], "src": ast.unparse(st.value), "vals": vals}))
        else:
            out.append(Cmd(None, "stmt", {"src": ast.dump(st)[:200]}))
    return out


def as_list(v):
    return [] if v is None else v if isinstance(v, list) else [v]
