"""Shared vocabulary of the specifications."""
import os, sys, math, struct
from fractions import Fraction
import z3
import engine as E
from engine import *
import interp
from interp import Interp, rv, start
import lib as L
from driver import Unit, Case

DBL_MAX = L.DBL_MAX
UNAV = -DBL_MAX
INT_MIN, INT_MAX = -2 ** 31, 2 ** 31 - 1


def begin(c):
    c.atoms = []
    return start(c)


def dofs(I, n):
    """an arbitrary DOF set: 6 independent membership bits"""
    v, bs = I.sym_bits(n, 6)
    return dofs_of(I, v), bs


def dofs_of(I, v):
    o = Obj("vega::DOFS")
    o.f["vega::DOFS::dofsCode"] = Cell(v)
    return o


def code(I, o):
    return rv(I.field(o, "dofsCode"))


def dof(I, k):
    return I.c.globals[next(u for u, g in I.P.globals.items() if g[3] == "vega::DOF::" + ["DX", "DY", "DZ", "RX", "RY", "RZ"][k])]


def anydof(I):
    """an arbitrary DOF (all six are explored)"""
    k = I.c.choose(6, "dof")
    return dof(I, k), k


def real(I, name):
    return I.c.input(name, "real")


def integer(I, name, lo=None, hi=None):
    return I.c.input(name, "int", lo, hi)


def count(bs):
    return z3.Sum([z3.If(toz(b), z3.IntVal(1), z3.IntVal(0)) for b in bs])


def mask_of_model(m, n):
    return sum(1 << k for k in range(6) if m.get("%s_b%d" % (n, k)))


def num(m, k, default=0):
    v = m.get(k, default)
    if isinstance(v, dict):
        return Fraction(v["n"], v["d"])
    if isinstance(v, bool) or isinstance(v, int):
        return v
    return default


def fl(x):
    """double nearest to a rational, as a harness token"""
    return float(x).hex() if not isinstance(x, float) else x.hex()


def close(a, b, rel=1e-9, ab=1e-12):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def closev(a, b, rel=1e-9, ab=1e-12):
    return len(a) == len(b) and all(close(x, y, rel, ab) for x, y in zip(a, b))


def esc(s):
    if s == "":
        return "%"
    return "".join(ch if ch.isalnum() or ch in "_-+.,;:/*$=()" else "%%%02x" % ord(ch) for ch in s)


def diff(exp, got):
    for k in exp:
        if k not in got:
            continue
        a, b = exp[k], got[k]
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b) or any(not close(x, y) if not isinstance(x, list) else x != y for x, y in zip(a, b)):
                return "%s: expected %s, real code gave %s" % (k, a, b)
        elif isinstance(a, float) or (isinstance(b, float) and not isinstance(a, bool)):
            if not close(a, b):
                return "%s: expected %s, real code gave %s" % (k, a, b)
        elif a != b:
            return "%s: expected %s, real code gave %s" % (k, a, b)
    return None
