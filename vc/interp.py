"""Symbolic executor for the extracted AST.  One Interp per path (Ctx).

Conventions: glvalue expressions evaluate to Cell, prvalues to values; class objects are Obj whose fields are Cells
keyed "Class::field" (reference members alias the Cell they are bound to)."""
import z3
from fractions import Fraction
from engine import *
from engine import _Ret, _Break, _Cont
import engine as E
import lib as L


def rv(x):
    while isinstance(x, Cell):
        x = x.v
    return x


FLOATC = {}


def fconst(s):
    v = FLOATC.get(s)
    if v is None:
        v = FLOATC[s] = Fraction(float.fromhex(s)) if "inf" not in s.lower() and "nan" not in s.lower() else Fraction(float.fromhex("0x1.fffffffffffffp+1023"))
    return v


class Interp:
    def __init__(self, ctx):
        self.c = ctx
        self.P = ctx.prog
        self.S = ctx.S
        ctx.I = self
        self.nomerge = ctx.S.__dict__.setdefault("nomerge", set())

    # ------------------------------------------------------------ helpers
    def unsupported(self, what, fr=None, node=None):
        where = ""
        if fr is not None and fr.fn is not None:
            where = " at %s:%s" % (fr.fn.file, node[1] if node else "?")
        raise Unsupported("%s%s" % (what, where))

    def ty(self, fr, i):
        return parse_type(fr.types[i])

    def default_value(self, t):
        """value-initialised object of type t"""
        t = noref(t)
        if t.k == "int":
            return 0
        if t.k == "bool":
            return False
        if t.k == "double":
            return Fraction(0)
        if t.k in ("ptr", "func"):
            return NULL
        if t.k == "array":
            return Arr([Cell(self.default_value(t.elem)) for _ in range(t.n)])
        if t.k == "class":
            q = bare(t.s)
            if q in self.P.enums or t.name in self.P.enums:
                return 0
            v = L.default(self, t)
            if v is not None:
                return v
            if q in self.P.records:
                return self.new_object(q, None, [])
        raise Unsupported("default value of %s" % t.s)

    def uninit_value(self, t):
        """default-initialised local: class types are constructed, scalars indeterminate"""
        t = noref(t)
        if t.k == "array":
            return Arr([Cell(self.uninit_value(t.elem)) for _ in range(t.n)])
        if t.k == "class":
            q = bare(t.s)
            if q in self.P.enums:
                return None
            return self.default_value(t)
        return None

    def copyval(self, v):
        """C++ copy of a value"""
        if isinstance(v, Obj):
            r = self.P.records.get(v.cls)
            if r:
                for m in r["mrefs"]:
                    if m.get("cc") == 1 and not m.get("def") and m["u"] in self.P.fns:
                        return self.new_object(v.cls, m, [Cell(v)])
            o = Obj(v.cls)
            o.lazy = v.lazy
            for k, c in v.f.items():
                o.f[k] = c if self.is_ref_field(k) else Cell(self.copyval(c.v) if isinstance(c, Cell) else c)
            return o
        if isinstance(v, Seq):
            return Seq([Cell(self.copyval(c.v)) for c in v.cells], v.kind, v.et)
        if isinstance(v, Arr):
            return Arr([Cell(self.copyval(c.v)) for c in v.cells])
        if isinstance(v, MapV):
            m = MapV(v.kind, v.kt, v.vt, v.cmp)
            m.ents = [(Cell(self.copyval(k.v)), Cell(self.copyval(x.v)) if x is not None else None) for k, x in v.ents]
            if getattr(v, "lazy", None) is not None:
                raise Unsupported("copy of a symbolic map")
            return m
        if isinstance(v, PairV):
            return PairV(Cell(self.copyval(v.first.v)), Cell(self.copyval(v.second.v)))
        if hasattr(v, "copy_value"):
            return v.copy_value()
        return v

    def is_ref_field(self, key):
        cls, n = key.rsplit("::", 1)
        r = self.P.records.get(cls)
        if not r:
            return False
        rf = r.get("_reff")
        if rf is None:
            rf = r["_reff"] = {f[0] for f in r["fields"] if r["tu"].types[f[1]].endswith("&")}
        return n in rf

    # ------------------------------------------------------------ objects
    def new_object(self, cls, ref, args, fr=None):
        cell = Cell(Obj(cls))
        self.init_object(cell, cls, ref, args)
        return cell.v

    def init_object(self, cell, cls, ref, args):
        rec = self.P.records.get(cls)
        if rec is None:
            # library base class (std::exception ...)
            return L.init_base(self, cell, cls, ref, args)
        if ref is None:
            for m in rec["mrefs"]:
                if m.get("k") == "ctor" and m.get("dc"):
                    ref = m
                    break
        if ref is not None and ref["q"] in self.c.contracts:
            return self.c.contracts[ref["q"]](self, cell, args)
        fn = self.P.fns.get(ref["u"]) if ref is not None else None
        if fn is None:
            if ref is not None and ref.get("cc") and args:
                src = rv(args[0])
                if isinstance(src, Obj):
                    for k, c in src.f.items():
                        cell.v.f[k] = c if self.is_ref_field(k) else Cell(self.copyval(c.v))
                return
            if ref is not None and not ref.get("dc") and not ref.get("def") and not ref.get("imp"):
                raise Unsupported("no body for constructor %s" % ref["q"])
            # implicit/defaulted default constructor
            for b in rec["basenames"]:
                self.init_object(cell, b, None, [])
            self.implicit_fields(cell, rec)
            return
        self.run_ctor(cell, cls, rec, fn, args)

    def implicit_fields(self, cell, rec, only=None):
        fr = Frame(None, cell, rec["tu"])
        for n, ti, init in rec["fields"]:
            key = rec["q"] + "::" + n
            if only is not None and n not in only:
                continue
            t = self.ty(fr, ti)
            if init is not None:
                self.init_field(cell, key, t, init, fr)
            else:
                cell.v.f[key] = Cell(self.uninit_value(t))

    def init_field(self, cell, key, t, init, fr):
        v = self.ev(init, fr)
        if t.k == "ref":
            cell.v.f[key] = v if isinstance(v, Cell) else Cell(v)
        else:
            cell.v.f[key] = Cell(self.coerce(rv(v), t))

    def coerce(self, v, t):
        if isinstance(v, Arr) and t.k == "class":
            return v
        return v

    def run_ctor(self, cell, cls, rec, fn, args):
        c = self.c
        self.note_fn(fn)
        fr = Frame(fn, cell, fn.tu)
        c.stack.append(fn.q)
        if len(c.stack) > 150:
            raise Unsupported("call depth")
        try:
            self.bind_params(fr, fn, args)
            inits = fn.inits or []
            if any(i[0] == "deleg" for i in inits):
                i = inits[0]
                self.construct_into(cell, cls, i[2], fr)
            else:
                done = set()
                for i in inits:
                    if i[0] == "base":
                        bq = bare(fr.types[i[1]])
                        self.construct_into(cell, bq, i[2], fr)
                # fields in declaration order
                byname = {i[1]: i[2] for i in inits if i[0] == "field"}
                for n, ti, _ in rec["fields"]:
                    key = rec["q"] + "::" + n
                    rfr = Frame(None, cell, rec["tu"])
                    t = self.ty(rfr, ti)
                    if n in byname:
                        self.init_field(cell, key, t, byname[n], fr)
                    elif key not in cell.v.f:
                        if _ is not None:
                            self.init_field(cell, key, t, _, rfr)
                        else:
                            cell.v.f[key] = Cell(self.uninit_value(t))
            try:
                self.st(fn.body, fr)
            except _Ret:
                pass
        finally:
            c.stack.pop()

    def construct_into(self, cell, cls, node, fr):
        """node is a constructor-call expression initialising base class sub-object (or delegating)"""
        k = node[0]
        if k == "construct":
            ref = fr.tu.fnrefs[node[3]]
            args = [self.ev(a, fr) for a in node[4]]
            return self.init_object(cell, cls, ref, args)
        if k == "inhctor":
            ref = fr.tu.fnrefs[node[3]]
            # inherited constructor: forward the enclosing ctor's params
            args = [fr.loc[p[0]] for p in fr.fn.params]
            return self.init_object(cell, cls, ref, args)
        if k == "init" or k == "zero":
            return self.init_object(cell, cls, None, [])
        if k == "cast":
            return self.construct_into(cell, cls, node[4], fr)
        raise Unsupported("base initialiser " + k)

    def note_fn(self, fn):
        if fn.q not in self.S.functions:
            self.S.functions[fn.q] = "%s:%d" % (fn.file, fn.line)

    # ------------------------------------------------------------ calls
    def bind_params(self, fr, fn, args):
        for i, (lid, name, ti) in enumerate(fn.params):
            t = self.ty(fr, ti)
            if i >= len(args):
                ds = fn.d.get("defs")
                if not ds or i >= len(ds) or ds[i] is None:
                    raise Unsupported("missing argument for %s" % fn.q)
                args = list(args) + [Cell(rv(self.ev(ds[i], fr)))]
            a = args[i]
            if t.k == "ref":
                fr.loc[lid] = a if isinstance(a, Cell) else Cell(a)
            else:
                v = rv(a)
                fr.loc[lid] = Cell(self.conv_scalar(v, t))

    def conv_scalar(self, v, t):
        if t.k == "double" and isinstance(v, int) and not isinstance(v, bool):
            return Fraction(v)
        return v

    def call(self, ref, this, args, virtual=False, fr=None, node=None):
        c = self.c
        if virtual and this is not None:
            o = rv(this)
            if isinstance(o, Obj) and o.cls in self.P.records:
                ref = self.P.resolve_virtual(o.cls, ref)
            elif isinstance(o, Obj) is False and hasattr(o, "vcall"):
                return o.vcall(self, ref, args)
        q = ref["q"]
        h = c.contracts.get(q)
        if h is None and "<" in q:
            h = c.contracts.get(strip_tmpl(q))
        if h is not None:
            self.S.contracts_used.add(strip_tmpl(q)) if hasattr(self.S, "contracts_used") else None
            return h(self, this, args)
        fn = self.P.fns.get(ref["u"])
        if fn is None:
            if ref.get("ca") and this is not None and isinstance(rv(this), Obj) and args:
                src = rv(args[0])
                o = rv(this)
                if isinstance(src, Obj):
                    bases = set(self.P.all_bases(ref["c"])) if ref["c"] in self.P.records else None
                    for k, cc in src.f.items():
                        if bases is not None and k.rsplit("::", 1)[0] not in bases:
                            continue
                        if k in o.f:
                            if self.is_ref_field(k):
                                raise Unsupported("assignment of reference member")
                            c.set(o.f[k], self.copyval(cc.v))
                        else:
                            c.touch(o)
                            o.f[k] = Cell(self.copyval(cc.v))
                    return this
            return L.call(self, ref, this, args, fr, node)
        return self.invoke(fn, this, args)

    def invoke(self, fn, this, args):
        c = self.c
        self.note_fn(fn)
        key = ("fn", fn.u)
        if c.opts.get("merge_calls", False) and key not in self.nomerge and self.any_symbolic(args, this):
            try:
                try:
                    return c.merged(lambda: self.invoke0(fn, this, args), limit=c.opts.get("merge_limit", 40))
                except _Ret as r:
                    return r.v
            except NeedFork:
                self.nomerge.add(key)
        return self.invoke0(fn, this, args)

    def any_symbolic(self, args, this):
        return True

    def invoke0(self, fn, this, args):
        c = self.c
        if len(c.stack) > 150:
            raise Unsupported("call depth (recursion?)")
        fr = Frame(fn, this, fn.tu)
        c.stack.append(fn.q)
        try:
            self.bind_params(fr, fn, args)
            try:
                self.st(fn.body, fr)
            except _Ret as r:
                t = self.ty(fr, fn.ref["r"])
                if t.k == "double":
                    return self.conv_scalar(r.v, t)
                return r.v
            t = self.ty(fr, fn.ref["r"])
            if t.k != "void" and fn.q != "main":
                raise UB("control reaches the end of non-void function %s" % fn.q)
            return None
        finally:
            c.stack.pop()

    def call_lambda(self, lam, args):
        fr = Frame(lam.tu[0], lam.this, lam.tu[1])
        fr.loc = dict(lam.caps)
        node = lam.e
        for i, (lid, name, ti) in enumerate(node[4]):
            t = self.ty(fr, ti)
            a = args[i]
            if t.k == "ref":
                fr.loc[lid] = a if isinstance(a, Cell) else Cell(a)
            else:
                fr.loc[lid] = Cell(self.copyval(rv(a)))
        try:
            self.st(node[5], fr)
        except _Ret as r:
            rt = self.ty(fr, node[6])
            return r.v if rt.k == "ref" else rv(r.v)
        return None

    def call_callable(self, f, args):
        f = rv(f)
        if isinstance(f, Lam):
            return self.call_lambda(f, args)
        if isinstance(f, FnRef):
            return self.call(f.ref, None, args)
        if callable(f):
            return f(*args)
        if isinstance(f, Obj):
            r = self.P.records.get(f.cls)
            if r:
                for m in r["mrefs"]:
                    if m["n"] == "operator()":
                        return self.call(m, Cell(f), args)
        raise Unsupported("call of %r" % (f,))

    # ------------------------------------------------------------ statements
    def st(self, n, fr):
        if n is None:
            return
        c = self.c
        c.steps += 1
        if c.steps > c.max_steps:
            raise Unsupported("step limit")
        m = getattr(self, "s_" + n[0], None) if n[0][0].isalpha() and "-" not in n[0] else None
        if n[0] == "{}":
            for x in n[2:]:
                self.st(x, fr)
            return
        if m:
            return m(n, fr)
        if n[0] == "unsupported-stmt":
            self.unsupported(n[2], fr, n)
        self.ev(n, fr)

    def s_null(self, n, fr):
        pass

    def s_decl(self, n, fr):
        for v in n[2:]:
            self.declare(v, fr)

    def declare(self, v, fr):
        if v[0] == "svar":
            ref = fr.tu.varrefs[v[1]]
            if ref["u"] not in self.c.statics:
                t = self.ty(fr, v[3])
                x = self.ev(v[4], fr) if v[4] is not None else self.default_value(t)
                self.c.statics[ref["u"]] = (x if isinstance(x, Cell) else Cell(x)) if t.k == "ref" else Cell(rv(x))
            return
        _, lid, name, ti, init = v
        t = self.ty(fr, ti)
        if init is None:
            fr.loc[lid] = Cell(self.uninit_value(t))
            return fr.loc[lid]
        x = self.ev(init, fr)
        if t.k == "ref":
            fr.loc[lid] = x if isinstance(x, Cell) else Cell(x)
        else:
            x = rv(x)
            if t.k == "array" and isinstance(x, str):
                pass
            fr.loc[lid] = Cell(self.conv_scalar(x, t))
        return fr.loc[lid]

    def cond_value(self, n, fr):
        return as_bool(rv(self.ev(n, fr)))

    def s_if(self, n, fr):
        c = self.c
        if n[2] is not None:
            self.st(n[2], fr)
        if n[3] is not None:
            self.declare(n[3], fr)
        cond = self.cond_value(n[4], fr)
        if isinstance(cond, bool):
            return self.st(n[5] if cond else n[6], fr)
        key = id(n)
        if key not in self.nomerge and c.opts.get("merge_if", True):
            try:
                def th():
                    if c.branch(cond):
                        self.st(n[5], fr)
                    else:
                        self.st(n[6], fr)
                c.merged(th)
                return
            except NeedFork:
                self.nomerge.add(key)
                self.S.__dict__.setdefault("keep", []).append(n)
        if c.branch(cond):
            self.st(n[5], fr)
        else:
            self.st(n[6], fr)

    def loop_guard(self, fr, n, k):
        if k > self.c.opts.get("max_loop", 4000):
            raise Unsupported("loop bound exceeded at %s:%s" % (fr.fn.file if fr.fn else "?", n[1]))

    def test(self, n, fr):
        """loop condition: decide on this path"""
        v = self.cond_value(n, fr)
        return v if isinstance(v, bool) else self.c.branch(v)

    def s_while(self, n, fr):
        k = 0
        h = self.c.hooks.get("loop")
        if h and h(self, n, fr):
            return
        while True:
            if n[2] is not None:
                self.declare(n[2], fr)
            if not self.test(n[3], fr):
                break
            k += 1
            self.loop_guard(fr, n, k)
            try:
                self.st(n[4], fr)
            except _Break:
                break
            except _Cont:
                continue

    def s_do(self, n, fr):
        k = 0
        while True:
            k += 1
            self.loop_guard(fr, n, k)
            try:
                self.st(n[3], fr)
            except _Break:
                break
            except _Cont:
                pass
            if not self.test(n[2], fr):
                break

    def s_for(self, n, fr):
        if n[2] is not None:
            self.st(n[2], fr)
        h = self.c.hooks.get("loop")
        if h and h(self, n, fr):
            return
        k = 0
        while n[3] is None or self.test(n[3], fr):
            k += 1
            self.loop_guard(fr, n, k)
            try:
                self.st(n[5], fr)
            except _Break:
                break
            except _Cont:
                pass
            if n[4] is not None:
                self.ev(n[4], fr)

    def s_rfor(self, n, fr):
        rng = self.ev(n[3], fr)
        v = n[2]
        t = self.ty(fr, v[3])
        obj = rv(rng)
        it = L.iterate(self, rng)
        if hasattr(it, "foreach"):
            return it.foreach(self, n, fr, t)
        init = v[4]
        for x in it:
            # loop variable: by value (copy) or by reference
            if t.k == "ref":
                fr.loc[v[1]] = x if isinstance(x, Cell) else Cell(x)
            else:
                fr.loc[v[1]] = Cell(self.copyval(rv(x)))
            try:
                self.st(n[4], fr)
            except _Break:
                break
            except _Cont:
                continue

    def s_break(self, n, fr):
        raise _Break()

    def s_continue(self, n, fr):
        raise _Cont()

    def s_return(self, n, fr):
        if n[2] is None:
            raise _Ret(None)
        v = self.ev(n[2], fr)
        if fr.fn is not None and isinstance(fr.fn, object):
            rt = None
        # by-value returns decay
        if fr.fn is None or isinstance(fr.fn, type(None)):
            raise _Ret(v)
        raise _Ret(v)

    def s_switch(self, n, fr):
        if n[2] is not None:
            self.declare(n[2], fr)
        v = rv(self.ev(n[3], fr))
        flat = []

        def flatten(x):
            if x is None:
                return
            if x[0] == "case":
                flat.append(("case", x[2]))
                flatten(x[3])
            elif x[0] == "default":
                flat.append(("default", None))
                flatten(x[2])
            else:
                flat.append(("st", x))
        body = n[4]
        for x in (body[2:] if body[0] == "{}" else [body]):
            flatten(x)
        start = None
        for i, (k, x) in enumerate(flat):
            if k == "case":
                cv = rv(self.ev(x, fr))
                e = EQ(v, cv)
                if e if isinstance(e, bool) else self.c.branch(e):
                    start = i
                    break
        if start is None:
            for i, (k, x) in enumerate(flat):
                if k == "default":
                    start = i
        if start is None:
            return
        try:
            for k, x in flat[start:]:
                if k == "st":
                    self.st(x, fr)
        except _Break:
            pass

    def s_try(self, n, fr):
        depth = len(self.c.stack)
        try:
            self.st(n[2], fr)
        except CppThrow as e:
            del self.c.stack[depth:]
            for h in n[3:]:
                var, body = h
                if var is None:
                    return self.st(body, fr)
                t = noref(self.ty(fr, var[3]))
                q = bare(t.s)
                if L.exc_match(self, e.tname, q):
                    fr.loc[var[1]] = Cell(e.val)
                    return self.st(body, fr)
            raise

    # ------------------------------------------------------------ expressions
    def ev(self, n, fr):
        c = self.c
        c.steps += 1
        if c.steps > c.max_steps:
            raise Unsupported("step limit")
        return getattr(self, "e_" + n[0])(n, fr)

    def val(self, n, fr):
        return rv(self.ev(n, fr))

    def e_unsupported(self, n, fr):
        self.unsupported("expression " + str(n[3]), fr, n)

    def e_mat(self, n, fr):
        v = self.ev(n[3], fr)
        return v if isinstance(v, Cell) else Cell(v)

    def e_int(self, n, fr):
        return int(n[3])

    def e_float(self, n, fr):
        return fconst(n[3])

    def e_str(self, n, fr):
        return n[3]

    def e_bool(self, n, fr):
        return bool(n[3])

    def e_nullptr(self, n, fr):
        return NULL

    def e_this(self, n, fr):
        return Ptr(fr.this)

    def e_enum(self, n, fr):
        return int(n[3])

    def e_fn(self, n, fr):
        return FnRef(fr.tu.fnrefs[n[3]])

    def e_typeid(self, n, fr):
        return Opaque("typeid")

    def e_local(self, n, fr):
        try:
            return fr.loc[n[3]]
        except KeyError:
            self.unsupported("unbound local %s" % n[4], fr, n)

    def e_global(self, n, fr):
        ref = fr.tu.varrefs[n[3]]
        return self.global_cell(ref, fr)

    def global_cell(self, ref, fr):
        u = ref["u"]
        c = self.c
        if u in c.statics:
            return c.statics[u]
        if u in c.globals:
            return c.globals[u]
        q = ref["q"]
        h = c.opts.get("globals", {}).get(q)
        if h is not None:
            cell = c.globals[u] = Cell(None)
            cell.v = h(self)
            return cell
        g = self.P.globals.get(u)
        if g is None:
            v = L.global_value(self, q)
            if v is None:
                raise Unsupported("global %s" % q)
            cell = c.globals[u] = Cell(v)
            return cell
        tu, init, ts, q, file, line = g
        cell = c.globals[u] = Cell(None)
        cell.b = 0
        j, loc = c.journal, c.local_dec
        c.journal = None if j is None else []
        try:
            f2 = Frame(None, None, tu)
            t = parse_type(ts)
            if init is None:
                cell.v = self.default_value(t)
            else:
                v = self.ev(init, f2)
                if t.k == "ref":
                    c.globals[u] = v
                    return v
                cell.v = rv(v)
        finally:
            c.journal = j
        return cell

    def e_field(self, n, fr):
        b = self.ev(n[3], fr)
        if n[4]:
            p = rv(b)
            cell = self.deref(p, fr, n)
        else:
            cell = b
        o = rv(cell)
        return self.get_field(o, n[6] + "::" + n[5], fr, n)

    def get_field(self, o, key, fr=None, n=None):
        if isinstance(o, Obj):
            x = o.f.get(key)
            if x is None:
                lz = o.lazy
                if lz is not None:
                    x = lz(self, o, key)
                    if x is not None:
                        o.f[key] = x
                        return x
                x = self.find_field(o, key)
            return x
        if isinstance(o, PairV):
            return o.first if key.endswith("::first") else o.second
        if hasattr(o, "get_field"):
            return o.get_field(self, key)
        if o is None:
            raise UB("use of uninitialised object (field %s)" % key)
        self.unsupported("field %s of %r" % (key, type(o)), fr, n)

    def find_field(self, o, key):
        # template instantiation name differences: fall back to short name
        short = key.rsplit("::", 1)[1]
        for k in o.f:
            if k.rsplit("::", 1)[1] == short and strip_tmpl(k) == strip_tmpl(key):
                return o.f[k]
        raise Unsupported("no field %s in %s" % (key, o.cls))

    def deref(self, p, fr=None, n=None):
        p = rv(p)
        if isinstance(p, Ptr):
            if p.c is None:
                raise UB("null pointer dereference at %s:%s" % (fr.fn.file if fr and fr.fn else "?", n[1] if n else "?"))
            if isinstance(p.c, tuple):
                a, i = p.c
                return self.arr_at(a, i, fr, n)
            return p.c
        if isinstance(p, It):
            return L.it_deref(self, p)
        if hasattr(p, "deref"):
            return p.deref(self)
        if p is None:
            raise UB("use of uninitialised pointer at %s:%s" % (fr.fn.file if fr and fr.fn else "?", n[1] if n else "?"))
        self.unsupported("dereference of %r" % (p,), fr, n)

    def lseq_at(self, a, i):
        for k, cell in a.known:
            if k is i or (isinstance(i, int) and isinstance(k, int) and i == k):
                return cell
        if not self.c.branch(AND(cmpop(">=", i, 0), cmpop("<", i, a.n))):
            raise UB("index out of bounds of a sequence of symbolic length")
        for k, cell in a.known:
            if is_z(k) or is_z(i):      # k - i a constant?
                d = z3.simplify(k - i)
                if z3.is_int_value(d):
                    if d.as_long() == 0:
                        return cell
                    continue
            e = EQ(k, i)
            if e is True or (e is not False and self.c.branch(e)):
                return cell
        if self.c.journal is not None:
            raise NeedFork()
        cell = Cell(a.factory(self, i))
        a.known.append((i, cell))
        return cell

    def arr_at(self, a, i, fr=None, n=None):
        if isinstance(a, LSeq):
            return self.lseq_at(a, i)
        cells = a.cells
        if isinstance(i, bool):
            i = int(i)
        if isinstance(i, int):
            if not 0 <= i < len(cells):
                raise UB("index %d out of bounds (size %d) at %s:%s" % (i, len(cells), fr.fn.file if fr and fr.fn else "?", n[1] if n else "?"))
            return cells[i]
        if is_z(i):
            ok = AND(i >= 0, i < len(cells))
            if not self.c.branch(ok):
                raise UB("index out of bounds (size %d) at %s:%s" % (len(cells), fr.fn.file if fr and fr.fn else "?", n[1] if n else "?"))
            for k in range(len(cells) - 1):
                if self.c.branch(i == k):
                    return cells[k]
            self.c.branch(i == len(cells) - 1)
            return cells[-1]
        self.unsupported("array index", fr, n)

    def e_method(self, n, fr):
        # bound static or member function name used as value
        return FnRef(fr.tu.fnrefs[n[5]])

    def args(self, ns, fr):
        return [self.ev(a, fr) for a in ns]

    def e_mcall(self, n, fr):
        ref = fr.tu.fnrefs[n[3]]
        b = self.ev(n[4], fr)
        if ref.get("s"):
            return self.call(ref, None, self.args(n[7], fr), False, fr, n)
        if n[5]:
            this = self.deref(b, fr, n)
        else:
            this = b if isinstance(b, Cell) else Cell(b)
        args = self.args(n[7], fr)
        r = self.call(ref, this, args, n[6], fr, n)
        return self.ret(r, ref, fr)

    def ret(self, r, ref, fr):
        t = self.ty(Frame(None, None, ref["tu"]), ref["r"])
        if t.k == "ref":
            return r if isinstance(r, Cell) else Cell(r)
        return rv(r)

    def e_call(self, n, fr):
        ref = fr.tu.fnrefs[n[3]]
        return self.ret(self.call(ref, None, self.args(n[4], fr), False, fr, n), ref, fr)

    def e_opcall(self, n, fr):
        ref = fr.tu.fnrefs[n[3]]
        if ref.get("c") and not ref.get("s"):   # member operator: first arg is the object
            this = self.ev(n[4][0], fr)
            this = this if isinstance(this, Cell) else Cell(this)
            lam = rv(this)
            args = self.args(n[4][1:], fr)
            if isinstance(lam, Lam):
                return self.call_lambda(lam, args)
            return self.ret(self.call(ref, this, args, bool(ref.get("v")), fr, n), ref, fr)
        return self.ret(self.call(ref, None, self.args(n[4], fr), False, fr, n), ref, fr)

    def e_icall(self, n, fr):
        f = self.val(n[3], fr)
        return self.call_callable(f, self.args(n[4], fr))

    def e_ptmcall(self, n, fr):
        # [.., lhs, isArrow, rhs, args]
        b = self.ev(n[3], fr)
        this = self.deref(b, fr, n) if n[4] else (b if isinstance(b, Cell) else Cell(b))
        f = self.val(n[5], fr)
        if not isinstance(f, FnRef):
            self.unsupported("pointer to member %s" % (f,), fr, n)
        return self.ret(self.call(f.ref, this, self.args(n[6], fr), bool(f.ref.get("v")), fr, n), f.ref, fr)

    def e_construct(self, n, fr):
        ref = fr.tu.fnrefs[n[3]]
        t = self.ty(fr, n[2])
        cls = bare(t.s)
        if n[5] and len(n[4]) == 1:       # elidable copy
            v = self.ev(n[4][0], fr)
            x = rv(v)
            return x if not isinstance(v, Cell) or True else self.copyval(x)
        if t.k == "array":
            return Arr([Cell(self.construct(t.elem, ref, [], fr, n)) for _ in range(t.n)])
        args = self.args(n[4], fr)
        return self.construct(t, ref, args, fr, n)

    def construct(self, t, ref, args, fr=None, n=None):
        cls = bare(t.s)
        if noref(t).k == "array":
            t0 = noref(t)
            return Arr([Cell(self.construct(t0.elem, ref, [], fr, n)) for _ in range(t0.n)])
        if cls in self.P.records:
            if ref.get("cc") and (ref["u"] not in self.P.fns) and len(args) == 1:
                src = rv(args[0])
                if isinstance(src, Obj):
                    if src.cls == cls:
                        if ref["cc"] == 2:
                            return self.copyval_shallow(src)
                        return self.copyval(src)
                    o = Obj(cls)     # slicing
                    bases = self.P.all_bases(cls)
                    for k, cc in src.f.items():
                        if k.rsplit("::", 1)[0] in bases:
                            o.f[k] = cc if self.is_ref_field(k) else Cell(self.copyval(cc.v))
                    return o
                if hasattr(src, "copy_value"):
                    return src.copy_value()
            return self.new_object(cls, ref, args, fr)
        return L.construct(self, noref(t), ref, args, fr, n)

    def copyval_shallow(self, o):
        return self.copyval(o)

    def e_inhctor(self, n, fr):
        self.unsupported("inherited constructor", fr, n)

    def e_initlist(self, n, fr):
        v = self.val(n[3], fr)
        if isinstance(v, Arr):
            return Seq(v.cells, "initializer_list")
        return v

    def e_init(self, n, fr):
        t = self.ty(fr, n[2])
        t = noref(t)
        xs = n[3]
        if t.k == "array":
            cells = []
            for x in xs:
                cells.append(Cell(self.conv_scalar(self.val(x, fr), t.elem)))
            while t.n is not None and len(cells) < t.n:
                cells.append(Cell(self.val(n[4], fr) if n[4] is not None else self.default_value(t.elem)))
            return Arr(cells)
        if t.k in ("int", "double", "bool", "ptr"):
            return self.val(xs[0], fr) if xs else self.default_value(t)
        cls = bare(t.s)
        if cls in self.P.records:
            o = Obj(cls)
            rec = self.P.records[cls]
            rf = Frame(None, Cell(o), rec["tu"])
            for i, (fn_, ti, init) in enumerate(rec["fields"]):
                key = cls + "::" + fn_
                ft = self.ty(rf, ti)
                if i < len(xs):
                    v = self.ev(xs[i], fr)
                    o.f[key] = (v if isinstance(v, Cell) else Cell(v)) if ft.k == "ref" else Cell(rv(v))
                elif init is not None:
                    self.init_field(Cell(o), key, ft, init, rf)
                else:
                    o.f[key] = Cell(self.default_value(ft))
            return o
        return L.init_aggregate(self, t, [self.ev(x, fr) for x in xs])

    def e_zero(self, n, fr):
        t = self.ty(fr, n[2])
        return None if t.k == "void" else self.default_value(t)

    def e_cast(self, n, fr):
        k = n[3]
        t = self.ty(fr, n[2])
        if k == "LValueToRValue":
            c = self.ev(n[4], fr)
            v = rv(c)
            if v is None:
                raise UB("read of an uninitialised variable at %s:%s" % (fr.fn.file if fr.fn else "?", n[1]))
            return v
        if k in ("ConstructorConversion", "UserDefinedConversion", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "NoOp", "FunctionToPointerDecay", "LValueBitCast", "MemberPointerToBoolean", "ToUnion", "Dependent"):
            return self.ev(n[4], fr)
        if k == "ArrayToPointerDecay":
            v = self.ev(n[4], fr)
            x = rv(v)
            if isinstance(x, Arr):
                return Ptr((x, 0))
            return x        # string literal
        if k == "ToVoid":
            self.ev(n[4], fr)
            return None
        if k == "NullToPointer" or k == "NullToMemberPointer":
            return NULL
        v = self.val(n[4], fr)
        if k == "IntegralCast":
            if t.k == "class":
                return v
            if t.k == "bool":
                return as_bool(v)
            if isinstance(v, bool):
                return int(v)
            if is_z(v):
                pass
            return wrap(v, t)
        if k == "IntegralToBoolean" or k == "FloatingToBoolean" or k == "PointerToBoolean":
            if isinstance(v, str):
                return True
            return as_bool(v)
        if k == "BooleanToSignedIntegral":
            return wrap(v, t)
        if k == "IntegralToFloating":
            if isinstance(v, bool):
                return Fraction(int(v))
            if isinstance(v, int):
                return Fraction(v)
            if z3.is_bool(v):
                return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            return z3.ToReal(v)
        if k == "FloatingToIntegral":
            if isinstance(v, Fraction):
                q = int(v) if v >= 0 else -int(-v)
                m = 1 << t.bits
                lo, hi = (-(m // 2), m // 2 - 1) if t.signed else (0, m - 1)
                if not lo <= q <= hi:
                    raise UB("floating value %s out of range of %s at %s:%s" % (float(v), t.s, fr.fn.file if fr.fn else "?", n[1]))
                return q
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if k == "FloatingCast":
            return v
        if k in ("BitCast", "Dynamic"):
            if k == "Dynamic":
                p = v
                if isinstance(p, Ptr) and p.c is not None:
                    o = rv(p.c)
                    if isinstance(o, Obj):
                        want = bare(t.elem.s) if t.elem else None
                        return p if self.P.is_sub(o.cls, want) else NULL
                    self.unsupported("dynamic_cast", fr, n)
                if not isinstance(p, Ptr):
                    self.unsupported("dynamic_cast", fr, n)
                return p
            return v
        if k == "PointerToIntegral" or k == "IntegralToPointer":
            self.unsupported("cast " + k, fr, n)
        self.unsupported("cast " + k, fr, n)

    def e_un(self, n, fr):
        op = n[3]
        if op == "&":
            v = self.ev(n[5], fr)
            if isinstance(v, Cell):
                return Ptr(v)
            if isinstance(v, FnRef):
                return v
            self.unsupported("address of prvalue", fr, n)
        if op == "*":
            p = self.val(n[5], fr)
            if isinstance(p, FnRef) or isinstance(p, Lam):
                return p
            if isinstance(p, str):
                return Cell(L.T.code(p[0]) if p else 0)
            return self.deref(p, fr, n)
        if op in ("++", "--"):
            cell = self.ev(n[5], fr)
            v = rv(cell)
            if v is None:
                raise UB("use of uninitialised variable")
            t = noref(self.ty(fr, n[2]))
            if isinstance(v, Ptr):
                if not isinstance(v.c, tuple):
                    self.unsupported("pointer arithmetic", fr, n)
                nv = Ptr((v.c[0], arith("+" if op == "++" else "-", v.c[1], 1)))
            else:
                nv = arith("+" if op == "++" else "-", v, Fraction(1) if t.k == "double" else 1)
                if t.k == "int" and not t.signed:
                    nv = wrap(nv, t)
            self.c.set(cell, nv)
            return v if n[4] else cell
        v = self.val(n[5], fr)
        t = self.ty(fr, n[2])
        if op == "-":
            if isinstance(v, bool):
                v = int(v)
            r = -v if not is_z(v) else -v
            return wrap(r, t) if t.k == "int" and not t.signed else r
        if op == "+":
            return v
        if op == "!":
            return NOT(as_bool(v))
        if op == "~":
            e = BITREG.get(v.get_id()) if is_z(v) else None
            if e is not None and isinstance(e[2], bool):
                return self.from_bits([NOT(x) for x in e[1]], not e[2])
            if isinstance(v, int):
                return wrap(~v, t)
            return wrap(-v - 1, t) if t.signed else wrap((1 << t.bits) - 1 - v, t)
        self.unsupported("unary " + op, fr, n)

    def assign(self, cell, v, t):
        if not isinstance(cell, Cell):
            raise Unsupported("assignment to non-lvalue")
        self.c.set(cell, v)
        return cell

    def e_bin(self, n, fr):
        op = n[3]
        c = self.c
        if op == "=":
            # C++14: order unspecified; evaluate rhs then lhs
            r = self.val(n[5], fr)
            l = self.ev(n[4], fr)
            t = self.ty(fr, n[2])
            return self.assign(l, self.conv_scalar(r, noref(t)), t)
        if op in ("&&", "||"):
            a = self.cond_value(n[4], fr)
            if isinstance(a, bool):
                if op == "&&" and not a:
                    return False
                if op == "||" and a:
                    return True
                return self.cond_value(n[5], fr)
            key = id(n)
            if key not in self.nomerge:
                try:
                    def th():
                        d = c.branch(a)
                        if op == "&&":
                            return self.cond_value(n[5], fr) if d else False
                        return True if d else self.cond_value(n[5], fr)
                    return c.merged(th)
                except NeedFork:
                    self.nomerge.add(key)
                    self.S.__dict__.setdefault("keep", []).append(n)
            d = c.branch(a)
            if op == "&&":
                return self.cond_value(n[5], fr) if d else False
            return True if d else self.cond_value(n[5], fr)
        if op == ",":
            self.ev(n[4], fr)
            return self.ev(n[5], fr)
        a, b = self.val(n[4], fr), self.val(n[5], fr)
        t = self.ty(fr, n[2])
        return self.binop(op, a, b, t, fr, n)

    def binop(self, op, a, b, t, fr, n):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if isinstance(a, (Ptr, FnRef)) or isinstance(b, (Ptr, FnRef)):
                if op == "==":
                    return self.ptr_eq(a, b)
                if op == "!=":
                    return NOT(self.ptr_eq(a, b))
                self.unsupported("pointer ordering", fr, n)
            if a is None or b is None:
                raise UB("comparison with an uninitialised value at %s:%s" % (fr.fn.file if fr.fn else "?", n[1]))
            if (isinstance(a, str) or isinstance(b, str)):
                self.unsupported("pointer comparison", fr, n)
            return cmpop(op, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(b, Ptr) and isinstance(a, int):
                a, b = b, a
            if isinstance(b, Ptr):
                if op == "-" and isinstance(a.c, tuple) and isinstance(b.c, tuple) and a.c[0] is b.c[0]:
                    return arith("-", a.c[1], b.c[1])
                self.unsupported("pointer difference", fr, n)
            if isinstance(a.c, tuple) and op in "+-":
                return Ptr((a.c[0], arith(op, a.c[1], b)))
            self.unsupported("pointer arithmetic", fr, n)
        if isinstance(a, str) or isinstance(b, str):
            if op == "+" and (isinstance(a, str)) != (isinstance(b, str)):
                s, k = (a, b) if isinstance(a, str) else (b, a)
                if isinstance(k, int) and not isinstance(k, bool) and 0 <= k <= len(s):
                    return s[k:]
                if isinstance(k, int) and not isinstance(k, bool):
                    raise UB("pointer arithmetic past the end of a string literal at %s:%s" % (fr.fn.file if fr.fn else "?", n[1]))
                if is_z(k):
                    if self.c.branch(AND(k >= 0, k <= len(s))):
                        self.unsupported("symbolic offset into literal", fr, n)
                    raise UB("pointer arithmetic past the end of a string literal at %s:%s" % (fr.fn.file if fr.fn else "?", n[1]))
            self.unsupported("pointer arithmetic on string literal", fr, n)
        return self.numop(op, a, b, t, fr, n)

    def ptr_eq(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a == b
        if isinstance(a, FnRef) and isinstance(b, FnRef):
            return a.ref["u"] == b.ref["u"]
        for x, y in ((a, b), (b, a)):
            if isinstance(x, FnRef) and isinstance(y, Ptr):
                return False
            if isinstance(x, str) and isinstance(y, Ptr) and y.c is None:
                return False
        if hasattr(a, "ptr_eq"):
            return a.ptr_eq(self, b)
        if hasattr(b, "ptr_eq"):
            return b.ptr_eq(self, a)
        raise Unsupported("pointer comparison %r %r" % (a, b))

    def numop(self, op, a, b, t, fr, n):
        if a is None or b is None:
            raise UB("arithmetic on an uninitialised value at %s:%s" % (fr.fn.file if fr is not None and fr.fn else "?", n[1] if n else "?"))
        dbl = t.k == "double"
        if a is NANV or b is NANV:
            return NANV
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if op in "+-*":
            r = arith(op, a, b)
            if dbl and isinstance(r, int):
                r = Fraction(r)
            if not dbl and t.k == "int" and not t.signed:
                r = wrap(r, t)
            return r
        if op == "/":
            if dbl:
                if is_num(b):
                    if b == 0:
                        if is_num(a) and a == 0:
                            return NANV
                        raise Unsupported("floating division by zero")
                    return Fraction(a) / Fraction(b) if is_num(a) else a / toz(Fraction(b))
                za = toz(a, b)
                return za / b
            if is_num(b):
                if b == 0:
                    raise UB("integer division by zero at %s:%s" % (fr.fn.file if fr.fn else "?", n[1]))
                if is_num(a):
                    q = abs(a) // abs(b)
                    return q if (a >= 0) == (b >= 0) else -q
            else:
                if not self.c.branch(b != 0):
                    raise UB("integer division by zero at %s:%s" % (fr.fn.file if fr.fn else "?", n[1]))
            qr = self.c.divmod(a, b, t.signed) if is_num(b) else None
            if qr is not None:
                return qr[0]
            za, zb = toz(a), toz(b)
            q = z3.If(za >= 0, z3.If(zb > 0, za / zb, -(za / -zb)), z3.If(zb > 0, -(-za / zb), (-za) / (-zb)))
            if is_num(b) and b > 0 and not t.signed:
                q = za / zb
            return q
        if op == "%":
            if is_num(b) and b == 0:
                raise UB("integer modulo by zero")
            if is_num(a) and is_num(b):
                r = abs(a) % abs(b)
                return r if a >= 0 else -r
            if is_num(b) and b > 0:
                za = toz(a)
                qr = self.c.divmod(a, b, t.signed)
                if qr is not None:
                    return qr[1]
                return za % b if not t.signed else z3.If(za >= 0, za % b, -((-za) % b))
            self.unsupported("symbolic modulo", fr, n)
        if op in ("|", "&", "^"):
            return self.bitop(op, a, b, t, fr, n)
        if op in ("<<", ">>"):
            if is_num(b):
                if is_num(a):
                    return wrap(a << b if op == "<<" else a >> b, t)
                r = a * (1 << b) if op == "<<" else a / (1 << b)
                return wrap(r, t)
            if is_num(a) and op == "<<":
                # small symbolic shift
                r = None
                for k in range(t.bits):
                    if self.c.branch(b == k):
                        return wrap(a << k, t)
                raise UB("shift count out of range")
            self.unsupported("symbolic shift", fr, n)
        self.unsupported("operator " + op, fr, n)

    def bitop(self, op, a, b, t, fr, n):
        if is_num(a) and is_num(b):
            return wrap({"|": a | b, "&": a & b, "^": a ^ b}[op], t)
        # values known as bit lists; numbers; otherwise symbolic integers split in 0..2^bits-1 (negative = all ones above)
        bits = min(t.bits, self.c.opts.get("bits", 8))

        def tobits(x):
            if is_num(x):
                return [bool((x >> k) & 1) for k in range(bits)], x < 0
            e = BITREG.get(x.get_id())
            if e is not None:
                return (list(e[1]) + [e[2]] * bits)[:bits], e[2]
            if not self.c.branch(AND(x >= 0, x < (1 << bits))):
                self.unsupported("bit operation on wide symbolic values", fr, n)
            return [(x / (1 << k)) % 2 == 1 for k in range(bits)], False
        A, ha = tobits(a)
        B, hb = tobits(b)

        def comb(p, q):
            if op == "|":
                return OR(p, q)
            if op == "&":
                return AND(p, q)
            return p != q if isinstance(p, bool) and isinstance(q, bool) else z3.Xor(toz(p), toz(q))
        return self.from_bits([comb(p, q) for p, q in zip(A, B)], comb(ha, hb))

    def from_bits(self, terms, high=False):
        return E.from_bits(terms, high)

    def zbits(self, x, n):
        e = BITREG.get(x.get_id())
        if e is not None:
            return (list(e[1]) + [e[2]] * n)[:n]
        return [(x / (1 << k)) % 2 == 1 for k in range(n)]

    def sym_bits(self, name, n):
        bs = [self.c.input("%s_b%d" % (name, k), "bool") for k in range(n)]
        return self.from_bits(bs), bs

    def e_cassign(self, n, fr):
        op = n[3][:-1]
        r = self.val(n[5], fr)
        cell = self.ev(n[4], fr)
        l = rv(cell)
        if l is None:
            raise UB("use of an uninitialised value in %s at %s:%s" % (n[3], fr.fn.file if fr.fn else "?", n[1]))
        ct = self.ty(fr, n[6])
        t = noref(self.ty(fr, n[2]))
        if isinstance(l, Ptr):
            v = self.binop(op, l, r, t, fr, n)
        else:
            if ct.k == "double":
                l = Fraction(l) if isinstance(l, int) else (z3.ToReal(l) if is_z(l) and z3.is_int(l) else l)
            v = self.numop(op, l, r, ct, fr, n)
            if t.k == "int" and ct.k == "double":
                v = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)) if is_z(v) else int(v)
            elif t.k == "int" and (t.bits != ct.bits or t.signed != ct.signed):
                v = wrap(v, t)
            elif t.k == "bool":
                v = as_bool(v)
        self.c.set(cell, v)
        return cell

    def e_cond(self, n, fr):
        cond = self.cond_value(n[3], fr)
        if isinstance(cond, bool):
            return self.ev(n[4] if cond else n[5], fr)
        key = id(n)
        c = self.c
        if key not in self.nomerge:
            try:
                def th():
                    return rv(self.ev(n[4], fr)) if c.branch(cond) else rv(self.ev(n[5], fr))
                return c.merged(th)
            except NeedFork:
                self.nomerge.add(key)
                self.S.__dict__.setdefault("keep", []).append(n)
        return self.ev(n[4] if c.branch(cond) else n[5], fr)

    def e_index(self, n, fr):
        b = self.val(n[3], fr)
        i = self.val(n[4], fr)
        if isinstance(b, str):
            if isinstance(i, int):
                return Cell(L.T.code(b[i]) if i < len(b) else 0)
            self.unsupported("symbolic index into literal", fr, n)
        if isinstance(b, Ptr) and isinstance(b.c, tuple):
            return self.arr_at(b.c[0], arith("+", b.c[1], i), fr, n)
        if isinstance(b, Arr):
            return self.arr_at(b, i, fr, n)
        if isinstance(b, Ptr) and b.c is not None and i == 0:
            return b.c
        self.unsupported("index of %r" % (b,), fr, n)

    def e_throw(self, n, fr):
        if n[3] is None:
            raise Unsupported("rethrow")
        v = self.val(n[3], fr)
        t = noref(self.ty(fr, n[3][2]))
        raise CppThrow(v, v.cls if isinstance(v, Obj) else bare(t.s))

    def e_new(self, n, fr):
        t = self.ty(fr, n[3])
        if n[5]:
            self.unsupported("array new", fr, n)
        v = self.val(n[4], fr) if n[4] is not None else self.uninit_value(t)
        return Ptr(Cell(v))

    def e_delete(self, n, fr):
        self.val(n[3], fr)
        return None

    def e_lambda(self, n, fr):
        lam = Lam()
        lam.e = n
        lam.tu = (fr.fn, fr.tu)
        lam.this = fr.this
        lam.caps = {}
        for cap in n[3]:
            if cap[0] == "this":
                continue
            cell = fr.loc.get(cap[1])
            if cell is None:
                continue
            lam.caps[cap[1]] = cell if cap[0] == "ref" else Cell(self.copyval(cell.v))
        return lam


    # ------------------------------------------------------------ entry points for specifications
    def fn(self, q, sig=None, const=None):
        """function under contract: by qualified name and (stripped) parameter types"""
        c = self.P.byq.get(q) or []
        if sig is not None:
            c = [f for f in c if [bare(f.tu.types[p]) for p in f.ref["p"]] == list(sig)]
        if not c:
            raise Unsupported("function under contract not found: %s%s" % (q, sig or ""))
        return c[0]

    def callq(self, q, this=None, args=(), sig=None, virtual=False):
        f = self.fn(q, sig) if not virtual else None
        ref = f.ref
        self.S.contracted.setdefault(q, "%s:%d" % (f.file, f.line))
        args = [a if isinstance(a, Cell) else Cell(a) for a in args]
        r = self.invoke(f, this, args)
        return r

    def callm(self, obj, name, args=(), sig=None):
        """virtual method call by name on an object cell"""
        o = rv(obj)
        for q in self.P.all_bases(o.cls):
            r = self.P.records.get(q)
            for m in (r["mrefs"] if r else []):
                if m["n"] == name and len(m["p"]) == len(args) and (sig is None or [bare(m["tu"].types[p]) for p in m["p"]] == list(sig)):
                    ref = self.P.resolve_virtual(o.cls, m) if m.get("v") else m
                    f = self.P.fns.get(ref["u"])
                    if f:
                        self.S.contracted.setdefault(f.q, "%s:%d" % (f.file, f.line))
                    return self.call(ref, obj if isinstance(obj, Cell) else Cell(obj), [a if isinstance(a, Cell) else Cell(a) for a in args])
        raise Unsupported("method %s::%s not found" % (o.cls, name))

    def make(self, cls, *args):
        """construct an object of a repo class (overload resolution as for make_shared)"""
        v = L.make_obj(self, cls, [a if isinstance(a, Cell) else Cell(a) for a in args], None)
        return v

    def global_of(self, q):
        """the cell of a global or static variable, by qualified name"""
        u = next((u for u, g in self.P.globals.items() if g[3] == q), None)
        if u is None:
            raise Unsupported("no global %s" % q)
        return self.global_cell({"u": u, "q": q}, None)

    def field(self, obj, name):
        o = rv(obj)
        for k, c in o.f.items():
            if k.rsplit("::", 1)[1] == name:
                return c
        raise Unsupported("object of class %s has no member %s" % (o.cls, name))

    def static_init(self):
        for u, (tu, init, ts, q, file, line) in sorted(self.P.globals.items(), key=lambda x: (x[1][4], x[1][5])):
            if bare(ts) == "vega::DOF" and "DOF::" in q:
                self.global_cell({"u": u, "q": q}, None)


def start(ctx):
    I = Interp(ctx)
    I.static_init()
    return I
