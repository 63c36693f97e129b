"""Descriptions of the arguments user code passes to the public entry points.

A parameter description is a callable (interp, name) -> abstract value.  All
buffers of an argument live in regions called 'P:<parameter>...'."""
import ast
from fractions import Fraction
from .values import *
from .interp import Obj, Frame, State
from .project import ClassInfo, FuncInfo, AnalysisBroken
from . import npmodel as N

Fr = Fraction
ONE, ZERO = Fr(1), Fr(0)


def U(**kw):
    return tuple(sorted((k, Fr(v)) for k, v in kw.items() if v))


SAMP_RATE = U(samp=1, s=-1)
SYM_RATE = U(sym=1, s=-1)
OS = U(samp=1, sym=-1)
HZ = U(s=-1)
SEC = U(s=1)
SYM_PERIOD = U(s=1, sym=-1)
METRE = U(m=1)
SAMP = U(samp=1)
SYM = U(sym=1)


class P:
    """base: a described parameter"""
    desc = "?"

    def __call__(self, I, name):
        raise NotImplementedError


SCALES = {"dB": ("dB", Fr(1)), "lin": ("lin", Fr(1))}


class Arr(P):
    def __init__(self, shape=("modes", "L"), kind="c", prec="S", deg=1, chg=1, mx=("A", 0), unit=(), scale=None, rng=None, idx=None):
        scale = SCALES.get(scale, scale)
        self.f = F(kind, prec, unit, scale, None if deg is None else (deg if deg == "Z" else Fr(deg)),
                   chg if chg is None or isinstance(chg, tuple) else Fr(chg), mx, shape, None, idx, rng)
        self.desc = ("real" if kind == "f" and "L" in (shape or ()) else "") + "array(%s)" % ",".join(map(str, shape)) if shape is not None else "array"
        self.desc += {("dB", 1): "[dB]", ("lin", 1): "[linear]"}.get(scale, "")

    def __call__(self, I, name):
        return V("num", None, self.f, frozenset(["P:" + name]), frozenset([name]))


class Num(P):
    """a scalar"""
    def __init__(self, unit=None, kind="f", scale=None, deg=0, chg=0, idx=None, mx="C"):
        scale = SCALES.get(scale, scale)
        self.f = F(kind, "W", unit, scale, None if deg is None else Fr(deg), None if chg is None else Fr(chg), mx, (), None, idx)
        self.desc = "scalar" + ("[%s]" % unit_str(unit) if unit else "") + ("[dB]" if scale == ("dB", 1) else "")

    def __call__(self, I, name):
        return V("num", None, self.f, EMPTY, frozenset([name]))


class Bool(P):
    desc = "bool"

    def __call__(self, I, name):
        return V("num", None, F("b", "W", (), None, ZERO, ZERO, "C", ()), dp=frozenset([name]))


class K(P):
    """a fixed constant (an option value)"""
    def __init__(self, v):
        self.v = v
        self.desc = repr(v)

    def __call__(self, I, name):
        return const(self.v, frozenset([name]))


class StrOther(P):
    """a string that is none of the given (recognised) ones"""
    def __init__(self, *known):
        self.known = known
        self.desc = "unknown option string"

    def __call__(self, I, name):
        return V("strother", frozenset(self.known), dp=frozenset([name]))


class Tup(P):
    def __init__(self, *els):
        self.els = els
        self.desc = "(" + ", ".join(e.desc for e in els) + ")"

    def __call__(self, I, name):
        return tup([e(I, name) for e in self.els], dp=frozenset([name]))


class Lst(P):
    """list of fixed elements or homogeneous of unknown length (one element description with n=None)"""
    def __init__(self, *els, many=False):
        self.els, self.many = els, many
        self.desc = "[" + ", ".join(e.desc for e in els) + ("..." if many else "") + "]"

    def __call__(self, I, name):
        rid = "P:" + name
        if self.many:
            I.st.heap[rid] = Obj("list", elem=self.els[0](I, name))
        else:
            I.st.heap[rid] = Obj("list", elts=[e(I, name) for e in self.els])
        return V("list", rid, dp=frozenset([name]))


class Dct(P):
    def __init__(self, **items):
        self.items = items
        self.desc = "{" + ", ".join(items) + "}"

    def __call__(self, I, name):
        rid = "P:" + name
        I.st.heap[rid] = Obj("dict", items={k: e(I, name) for k, e in self.items.items()})
        return V("dict", rid, dp=frozenset([name]))


class DType(P):
    desc = "dtype"

    def __init__(self, name="numpy.complex64"):
        self.name = name

    def __call__(self, I, name):
        return V("dtype", N.DTYPES[self.name] + (self.name,), dp=frozenset([name]))


class Cls(P):
    def __init__(self, dotted):
        self.dotted = dotted
        self.desc = dotted

    def __call__(self, I, name):
        return V("class", I.p.cls(self.dotted), dp=frozenset([name]))


class Top(P):
    desc = "any"

    def __call__(self, I, name):
        return top(frozenset([name]))


class Opaque(P):
    """any object, tracked for mutation"""
    desc = "object"

    def __call__(self, I, name):
        return top(frozenset([name]), frozenset(["P:" + name]))


def getter_attr(ci, prop):
    """name of the private attribute a property returns"""
    r = ci.lookup(prop)
    if r is None or not isinstance(r[1], FuncInfo) or r[1].kind != "prop":
        raise AnalysisBroken("%s has no property %s" % (ci.fullname, prop))
    return _returned_attr(ci, r[1], 0, 0)


def _returned_attr(ci, fi, k, level):
    """name of the attribute of its k-th argument the function returns"""
    fn = fi.node
    selfn = fi.pos[k]
    env = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            env.setdefault(n.targets[0].id, n.value)

    def isself(e, depth=0):
        return isinstance(e, ast.Name) and (e.id == selfn or depth < 10 and isinstance(env.get(e.id), ast.Name) and isself(env[e.id], depth + 1))

    def attr(e, depth=0):
        if isinstance(e, ast.Name) and depth < 10 and e.id in env:
            return attr(env[e.id], depth + 1)
        if isinstance(e, ast.Attribute) and isself(e.value):
            r = ci.lookup(e.attr)
            if r is not None and isinstance(r[1], FuncInfo) and r[1].kind == "prop" and level < 5:
                return _returned_attr(ci, r[1], 0, level + 1)
            return e.attr
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "getattr" and len(e.args) >= 2 and isself(e.args[0]) and isinstance(e.args[1], ast.Constant):
            return e.args[1].value
        if isinstance(e, ast.Call) and level < 5 and not e.keywords:
            f = None
            if isinstance(e.func, ast.Name):
                f = fi.module.lookup(e.func.id)
                j = [i for i, x in enumerate(e.args) if isself(x)]
            elif isinstance(e.func, ast.Attribute) and isself(e.func.value):
                r = ci.lookup(e.func.attr)
                f = r[1] if r is not None else None
                j = [0]
            if isinstance(f, FuncInfo) and j and j[0] < len(f.pos):
                return _returned_attr(ci, f, j[0], level + 1)
        return None
    for n in ast.walk(fn):
        if isinstance(n, ast.Return) and n.value is not None:
            a = attr(n.value)
            if a:
                return a
    return None


class Sig(P):
    """an instance of a signal class as its constructor makes it, at an arbitrary sampling rate"""
    CACHE = {}

    def __init__(self, cls="qampy.signals.SignalQAMGrayCoded", extra=None, nmodes=None, shape=("modes", "L"), rate=SAMP_RATE, prec="S", **ctor):
        self.prec = prec
        self.cls, self.ctor, self.extra, self.nmodes, self.shape, self.rate = cls, ctor, extra or {}, nmodes, shape, rate
        self.desc = cls.split(".")[-1]

    def __call__(self, I, name):
        snap = self.snapshot(I)
        v, heap, content = snap
        deps = frozenset([name])
        ren = {}

        def region(r, path):
            if r.startswith(("G:", "C:", "DEF:")):
                return r
            if r not in ren:
                ren[r] = "P:%s%s" % (name, path)
            return ren[r]

        def conv(x, path, depth=0):
            if depth > 8:
                return top(deps)
            if x.k in ("tuple", "union"):
                return V(x.k, tuple(conv(e, path, depth + 1) for e in x.c), None, EMPTY, deps)
            al = frozenset(region(r, path) for r in x.al)
            if x.k in ("list", "dict", "inst") and x.c is not None:
                old = x.c
                if str(old).startswith(("G:", "C:", "DEF:")):
                    if old in heap:
                        I.st.heap.setdefault(old, heap[old])
                    return x.cp(dp=deps)
                nid = region(str(old), path)
                if x.k == "inst" and path == "":
                    nid = "P:" + name
                    ren[str(old)] = nid
                if nid not in I.st.heap and old in heap:
                    o = heap[old].copy()
                    I.st.heap[nid] = o
                    if o.elts is not None:
                        o.elts = [conv(e, path + "[]", depth + 1) for e in o.elts]
                    if o.elem is not None:
                        o.elem = conv(o.elem, path + "[]", depth + 1)
                    if o.other is not None:
                        o.other = conv(o.other, path + "[]", depth + 1)
                    if o.items is not None:
                        o.items = {k: conv(e, path + "[%s]" % k, depth + 1) for k, e in o.items.items()}
                    if o.attrs is not None:
                        o.attrs = {k: conv(e, path + "." + k, depth + 1) for k, e in o.attrs.items()}
                        o.maybe = set()
                return x.cp(c=nid, al=al, dp=deps)
            return x.cp(al=al, dp=deps)

        out = conv(v, "")
        out = out.cp(al=frozenset(["P:" + name]), f=self.facets())
        o = I.st.heap[out.c]
        ci = o.cls
        for prop, val in self.setters(ci):
            a = getter_attr(ci, prop)
            if a is not None:
                o.attrs[a] = val(I, name + "." + a).cp(dp=deps)
        # reference data: not scaled or rotated together with the received field
        for k, a in list(o.attrs.items()):
            if a.k in ("num", "inst") and a.f is not None and (a.f.shape is None or a.f.shape != ()):
                mx = a.f.mx
                if mx is None and a.f.ndim not in (None, 2):
                    mx = "C"          # constellation tables
                o.attrs[k] = a.cp(f=a.f.cp(deg=ZERO, chg=ZERO, mx=mx))
        self.refine(I, out, deps, 0)
        for k, pd in self.extra.items():
            o.attrs[k] = pd(I, name)
        for k, a in list(o.attrs.items()):
            o.attrs[k] = a.dep(frozenset([name + "." + k]))
        return out

    def refine(self, I, v, deps, depth):
        """what the constructor analysis leaves open about the reference data"""
        o = I.st.heap[v.c]
        for k, a in list(o.attrs.items()):
            if a.k == "inst" and isinstance(a.cls, ClassInfo) and depth < 3 and str(a.c).startswith("P:"):
                f = a.f or F()
                o.attrs[k] = a.cp(f=F("c", self.prec, (), None, ZERO, ZERO, ("A", 0), ("modes", "N" + k)))
                if a.c in I.st.heap and a.c != v.c:
                    self.refine(I, a, deps, depth + 1)
        ci = o.cls
        for prop, f in (("coded_symbols", F("c", "S", (), None, ZERO, ZERO, "C", ("M",))),):
            r = ci.lookup(prop)
            if r is None or not isinstance(r[1], FuncInfo):
                continue
            k = getter_attr(ci, prop)
            a = o.attrs.get(k)
            if a is not None and a.k == "num":
                o.attrs[k] = a.cp(f=f)

    def facets(self):
        return F("c", self.prec, (), None, ONE, ONE, ("A", 0), self.shape)

    def setters(self, ci):
        yield "fs", Num(self.rate)
        yield "fb", Num(SYM_RATE)

    def snapshot(self, I):
        key = (id(I.p), self.cls, tuple(sorted((k, v.desc, getattr(v, "name", "")) for k, v in self.ctor.items())), self.shape)
        if key in Sig.CACHE:
            return Sig.CACHE[key]
        from .interp import Interp
        J = Interp(I.p)
        ci = I.p.cls(self.cls)
        fr = Frame(None, ci.module)
        fr.st = State()
        J.stack = [fr]
        kw = {k: v(J, k) for k, v in self.ctor.items()}
        call = ast.Call(func=ast.Name(id=ci.name, ctx=ast.Load()), args=[], keywords=[])
        ast.fix_missing_locations(call)
        call.lineno = call.col_offset = 0
        v = J.construct(ci, call, [], kw)
        if v.k == "union":
            v = ([a for a in v.c if a.k == "inst"] or [v])[-1]
        if v.k != "inst":
            raise AnalysisBroken("constructing %s does not yield an instance (%s)" % (self.cls, v.k))
        content = fr.st.content

        def fold(x):
            if x.k in ("num", "inst") and x.f is not None:
                return N.overlay(J, x)
            return x
        v = fold(v)
        for o in fr.st.heap.values():
            if o.attrs is not None:
                o.attrs = {k: fold(a) for k, a in o.attrs.items()}
        snap = (v, dict(fr.st.heap), dict(content))
        Sig.CACHE[key] = snap
        return snap


class PilotSig(Sig):
    def __init__(self, synced=True, **kw):
        ctor = dict(M=Num((), "i"), frame_len=Num((), "i"), pilot_seq_len=Num((), "i"), pilot_ins_rat=Num((), "i"),
                    nframes=Num((), "i"), Mpilots=Num((), "i"), nmodes=Num((), "i"), dtype=DType(), fb=Num(SYM_RATE))
        Sig.__init__(self, "qampy.signals.SignalWithPilots", **ctor, **kw)
        self.synced = synced
        self.desc = "SignalWithPilots(%s)" % ("synced" if synced else "not synced")

    def setters(self, ci):
        yield from Sig.setters(self, ci)
        if self.synced:
            yield "shiftfctrs", Arr(("modes",), "i", "I", deg=0, chg=0, mx=("A", 0), unit=())
            yield "synctaps", Num((), "i")


QAM = lambda **kw: Sig("qampy.signals.SignalQAMGrayCoded", M=Num((), "i"), N=Num((), "i"), nmodes=Num((), "i"),
                       fb=Num(SYM_RATE), dtype=DType(), **kw)
