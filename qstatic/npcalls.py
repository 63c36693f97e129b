"""Transfer functions for calls of builtins, numpy/scipy functions and array/list/dict methods."""
import ast
import math
from fractions import Fraction
from .values import *
from .project import FuncInfo, ClassInfo, Module
from . import npmodel as N

Z0 = Fraction(0)
SEC = (("s", Fraction(1)),)


class Args:
    def __init__(self, pos, kw, star=None, dstar=None):
        self.pos, self.kw, self.star, self.dstar = pos, kw, star, dstar

    def get(self, i, name=None, default=None):
        if i is not None and i < len(self.pos):
            return self.pos[i]
        if name is not None and name in self.kw:
            return self.kw[name]
        return default

    def deps(self, I):
        d = I.args_deps(self.pos, self.kw)
        if self.star is not None:
            d |= I.deep_deps(self.star)
        if self.dstar is not None:
            d |= I.deep_deps(self.dstar)
        return d


def scalar(kind="f", prec="W", dp=EMPTY, unit=(), **kw):
    d = dict(deg=Z0, chg=Z0, mx="C")
    d.update(kw)
    return V("num", None, F(kind, prec, unit, d.pop("scale", None), d["deg"], d["chg"], d["mx"], ()), dp=dp)


def arr(I, e, f, dp=EMPTY):
    return I.fresh_num(e, f, dp)


def keep(I, e, a, f, dp, sub=True):
    """fresh elementwise result"""
    if f is not None and f.shape == ():
        return V("num", None, f.cp(idx=None, dim=None), EMPTY, dp)
    al = frozenset([I.site(e, "A")])
    I.st.content.pop(next(iter(al)), None)
    if f is not None:
        f = f.cp(idx=None, dim=None)
    return N.mk(I, e, a if sub else None, f, al, dp)


def dtype_of(I, v):
    """(kind, prec) of a dtype argument"""
    if v is None:
        return None
    if v.k == "dtype":
        return v.c[0], v.c[1]
    if v.k == "ext" and v.c in N.DTYPES:
        return N.DTYPES[v.c][:2]
    if v.k == "const" and isinstance(v.c, str):
        t = {"c8": ("c", "S"), "c16": ("c", "D"), "f4": ("f", "S"), "f8": ("f", "D"), "complex64": ("c", "S"),
             "complex128": ("c", "D"), "float32": ("f", "S"), "float64": ("f", "D"), "int": ("i", "I"), "bool": ("b", "B")}.get(v.c)
        return t or (None, None)
    if v.k == "const" and v.c is None:
        return None
    return (None, None)


def strong(f):
    """facets of a python number turned into an array of default dtype"""
    if f is None:
        return None
    if f.prec == "W":
        return f.cp(prec={"b": "B", "i": "I", "f": "D", "c": "D"}.get(f.kind))
    return f


def shape_arg(I, v):
    """shape tuple from a shape/size argument"""
    if v is None:
        return None
    if v.k == "const" and isinstance(v.c, int):
        return (v.c,)
    if v.k == "num" and v.f is not None and v.f.shape == ():
        return (v.f.dim,)
    if v.k == "num" and v.f is not None and v.f.shape is None:
        return None
    if v.k in ("tuple", "list"):
        it = N.exact_items(I, v)
        if it is None:
            return None
        out = []
        for x in it:
            if x.k == "const" and isinstance(x.c, int):
                out.append(x.c)
            elif x.k == "num" and x.f is not None:
                out.append(x.f.dim)
            else:
                out.append(None)
        return tuple(out)
    if v.k == "shapeof":
        return v.c.f.shape if v.c.f is not None else None
    return None


H = {}


def h(*names):
    def deco(fn):
        for n in names:
            H[n] = fn
        return fn
    return deco


def sub_or_num(a):
    return a


# ---------------------------------------------------------------- builtins
@h("builtins.len")
def _len(I, e, A):
    v = A.get(0)
    outs = []
    for a in alts(v):
        it = N.exact_items(I, a)
        if it is not None:
            outs.append(const(len(it), EMPTY))
        elif a.k in ("num", "inst"):
            if a.f is not None and a.f.shape == ():
                pass
            outs.append(N.dimv(I, a, a.f, 0).dep(a.dp))
        elif a.k == "const" and a.c is None:
            I.ev("badcall", e, callee="len", why="len(None)")
        else:
            outs.append(scalar("i", dp=I.deep_deps(a)))
    if not outs:
        return V("never")
    r = outs[0]
    for o in outs[1:]:
        r = join(r, o)
    return r


@h("builtins.range")
def _range(I, e, A):
    if all(p.k == "const" and isinstance(p.c, int) for p in A.pos) and A.pos:
        try:
            r = range(*[p.c for p in A.pos])
            if len(r) <= 40:
                return V("exactiter", tuple(const(x) for x in r))
        except Exception:
            pass
    b = A.pos[-1] if len(A.pos) < 3 else A.pos[1]
    return V("rangeiter", (b.f.dim if b.f is not None else None, None), dp=A.deps(I))


@h("builtins.zip")
def _zip(I, e, A):
    its = [N.exact_items(I, p) for p in A.pos]
    if its and all(i is not None for i in its):
        return V("exactiter", tuple(tup(x) for x in zip(*its)))
    return V("zipiter", tuple(A.pos), dp=A.deps(I))


@h("builtins.enumerate")
def _enum(I, e, A):
    it = N.exact_items(I, A.pos[0])
    if it is not None:
        return V("exactiter", tuple(tup([const(i), x]) for i, x in enumerate(it)))
    return V("enumiter", A.pos[0], dp=A.deps(I))


@h("builtins.reversed", "builtins.sorted", "builtins.iter")
def _rev(I, e, A):
    it = N.exact_items(I, A.pos[0])
    if it is not None:
        return I.newlist(e, it)
    return V("iter", N.elem_of(I, A.pos[0], e), dp=A.deps(I))


@h("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset")
def _list(I, e, A):
    if not A.pos:
        return I.newlist(e, [])
    v = A.pos[0]
    it = N.exact_items(I, v)
    if it is not None:
        return I.newlist(e, it)
    return I.newlist(e, None, N.elem_of(I, v, e).dep(A.deps(I)))


@h("builtins.dict")
def _dict(I, e, A):
    items, other = dict(A.kw), None
    if A.pos:
        for a in alts(A.pos[0]):
            o = I.obj(a) if a.k == "dict" else None
            if o is not None:
                for k, v in o.items.items():
                    items.setdefault(k, v)
                other = o.other
            else:
                other = top(I.deep_deps(a))
    return I.newdict(e, items, other)


@h("builtins.print")
def _print(I, e, A):
    I.used |= A.deps(I) | I.pc
    return NONE


@h("builtins.isinstance", "builtins.issubclass")
def _isinst(I, e, A):
    v, c = A.get(0), A.get(1)
    cs = list(c.c) if c is not None and c.k == "tuple" else [c]
    rs = []
    for a in alts(v):
        r = None
        for cc in cs:
            if cc is None:
                continue
            if a.k == "inst" and isinstance(a.cls, ClassInfo) or a.k == "class":
                k = a.cls if a.k == "inst" else a.c
                if cc.k == "class":
                    t = k.is_sub(cc.c)
                elif cc.k == "ext" and cc.c == "numpy.ndarray":
                    t = True
                else:
                    t = None
            elif a.k == "ext" and a.c == "numpy.ndarray" and cc.k in ("class", "ext"):
                t = cc.k == "ext" and cc.c == "numpy.ndarray"
            elif a.k == "num":
                if cc.k == "class":
                    t = False
                elif cc.k == "ext" and cc.c == "numpy.ndarray":
                    t = None if a.f is None or a.f.shape is None else (a.f.shape != () or None)
                else:
                    t = None
            elif a.k in ("list", "tuple", "dict", "const", "str"):
                if cc.k == "ext" and cc.c in ("builtins.list", "builtins.tuple", "builtins.dict", "builtins.str"):
                    kind = "str" if a.k == "str" or a.k == "const" and isinstance(a.c, str) else a.k
                    t = cc.c == "builtins." + kind
                elif cc.k == "dtype" and a.k == "const":
                    t = isinstance(a.c, {"builtins.int": int, "builtins.float": float, "builtins.complex": complex,
                                         "builtins.bool": bool}.get(cc.c[2], ())) if cc.c[2].startswith("builtins") else None
                elif cc.k == "class":
                    t = False
                else:
                    t = None
            else:
                t = None
            if t:
                r = True
                break
            if t is None:
                r = "?"
            elif r is None:
                r = False
        rs.append(r)
    if all(r is True for r in rs):
        return const(True, v.dp)
    if all(r is False for r in rs):
        return const(False, v.dp)
    return scalar("b", dp=A.deps(I))


@h("builtins.getattr")
def _getattr(I, e, A):
    b, n = A.get(0), A.get(1)
    if n.k == "const" and isinstance(n.c, str):
        return I.getattr(b, n.c, e, default=A.get(2))
    return top(A.deps(I), frozenset(x for a in alts(b) for x in a.al))


@h("builtins.hasattr")
def _hasattr(I, e, A):
    b, n = A.get(0), A.get(1)
    rs = set()
    for a in alts(b):
        if a.k == "inst" and n.k == "const":
            o = I.obj(a)
            if o is None or o.aux == "open":
                rs.add(None)
            elif n.c in o.attrs:
                rs.add(None if n.c in o.maybe else True)
            elif isinstance(o.cls, ClassInfo) and o.cls.lookup(n.c) is not None and not isinstance(o.cls.lookup(n.c)[0], tuple):
                rs.add(True)
            elif N.is_nd_attr(n.c):
                rs.add(True)
            elif isinstance(o.cls, ClassInfo) and o.cls.lookup("__getattr__") is not None and isinstance(o.cls.lookup("__getattr__")[1], FuncInfo):
                rs.add(None)
            else:
                rs.add(False)
        elif a.k == "num" and n.k == "const":
            rs.add(N.is_nd_attr(n.c) if a.f is not None and a.f.shape is not None else None)
        elif a.k == "const" and n.k == "const" and isinstance(n.c, str):
            rs.add(hasattr(a.c, n.c))
        else:
            rs.add(None)
    if len(rs) == 1 and None not in rs:
        return const(rs.pop(), b.dp)
    return scalar("b", dp=A.deps(I))


@h("builtins.setattr")
def _setattr(I, e, A):
    b, n, v = A.get(0), A.get(1), A.get(2)
    ns = [x.c for x in alts(n) if x.k == "const" and isinstance(x.c, str)]
    if ns and len(ns) == len(alts(n)):
        if len(ns) == 1:
            I.setattr(b, ns[0], v, e)
        else:
            for x in ns:
                # weak update
                cur = None
                for a in alts(b):
                    if a.k == "inst" and I.obj(a) is not None and x in I.obj(a).attrs:
                        cur = I.obj(a).attrs[x]
                I.setattr(b, x, v if cur is None else join(cur, v), e)
    else:
        I.ev("setattr-dynamic", e)
    return NONE


@h("builtins.type")
def _type(I, e, A):
    v = A.get(0)
    if v.k == "inst" and isinstance(v.cls, ClassInfo):
        return V("class", v.cls)
    return top(v.dp)


@h("builtins.callable", "builtins.id", "builtins.hash")
def _callable(I, e, A):
    return scalar("b", dp=A.deps(I))


@h("builtins.str", "builtins.repr", "builtins.format")
def _str(I, e, A):
    return V("str", dp=A.deps(I))


@h("builtins.abs", "numpy.abs", "numpy.absolute", "numpy.fabs")
def _abs(I, e, A):
    v = A.get(0)
    f = N.fac(I, v)
    if v.k == "const" and isinstance(v.c, (int, float, complex)):
        return const(abs(v.c), v.dp)
    if f is not None:
        f = f.cp(kind="f" if f.kind == "c" else f.kind, chg=Z0 if isinstance(f.chg, Fraction) else (f.chg if f.chg in ("Z", "X") else None))
    return keep(I, e, v, f, A.deps(I))


@h("builtins.round", "numpy.round", "numpy.around", "numpy.floor", "numpy.ceil", "numpy.fix", "numpy.rint", "numpy.trunc")
def _round(I, e, A):
    v = A.get(0)
    if v.k == "const" and isinstance(v.c, (int, float)) and len(A.pos) == 1:
        import math
        try:
            nm = canonname(e)
            return const(float(math.floor(v.c)) if "floor" in nm else float(math.ceil(v.c)) if "ceil" in nm else float(round(v.c)), v.dp)
        except Exception:
            pass
    f = N.fac(I, v)
    if f is not None:
        f = f.cp(deg=f.deg if f.deg in ("Z",) or f.deg == 0 else None, chg=f.chg if f.chg == 0 else None)
    return keep(I, e, v, f, A.deps(I))


_CUR = {}


def canonname(e):
    """resolved dotted name of the external function being called (source text as fallback)"""
    nm = _CUR.get(id(e))
    if nm is not None:
        return nm
    try:
        return ast.unparse(e.func)
    except Exception:
        return ""


def _pick(x, y, arr):
    """facet of an elementwise choice between two values; scalars may be bounds"""
    if x == y:
        return x
    if "Z" in (x, y):
        return None
    if x is None or y is None or isinstance(x, tuple) or isinstance(y, tuple):
        return None
    return "X" if arr or "X" in (x, y) else None


@h("builtins.max", "builtins.min", "numpy.maximum", "numpy.minimum", "numpy.fmax", "numpy.fmin")
def _bmax(I, e, A):
    vs = A.pos
    if len(vs) == 1:
        it = N.exact_items(I, vs[0])
        if it is None:
            f = N.fac(I, vs[0])
            if f is not None:
                return V("num", None, reduce_f(f, "all"), EMPTY, A.deps(I))
            x = N.elem_of(I, vs[0], e)
            return x.dep(A.deps(I)) if x.k == "num" else scalar(dp=A.deps(I), deg=None, chg=None, mx=None, unit=None)
        vs = it
    if vs and all(v.k == "const" and isinstance(v.c, (int, float)) for v in vs):
        nm = canonname(e)
        return const((max if "max" in nm else min)(v.c for v in vs), A.deps(I))
    fs = [N.fac(I, v) for v in vs]
    if not fs or any(f is None for f in fs):
        return top(A.deps(I))
    for g in fs[1:]:
        N.add_unit(I, e, fs[0].unit, g.unit, "min/max with")
        if N.db(fs[0].scale) and N.lin(g.scale) or N.lin(fs[0].scale) and N.db(g.scale):
            N.scale_event(I, e, "decibel and linear quantities compared", N.sc_str(fs[0].scale), N.sc_str(g.scale))
    r = fs[0]
    sh = fs[0].shape
    mx = fs[0]
    for g in fs[1:]:
        m = N.bmx(I, r.cp(shape=sh), g, e)
        sh = N.bshape(sh, g.shape)
        arr = any(x.shape is not None and x.shape != () for x in (r, g))
        r = jF(r, g).cp(mx=m, shape=sh, prec=N.bprec(r, g), deg=_pick(r.deg, g.deg, arr), chg=_pick(r.chg, g.chg, arr))
    return keep(I, e, vs[0], r, A.deps(I))


@h("builtins.sum", "numpy.sum", "numpy.nansum")
def _sum(I, e, A):
    v = A.get(0)
    if v.k in ("tuple", "list"):
        it = N.exact_items(I, v)
        if it is not None and it:
            if A.get(1, "axis") is None or isconst(A.get(1, "axis"), 0):
                r = it[0]
                for x in it[1:]:
                    r = N.binop(I, e, ast.Add(), r, x)
                return r
    return reduction(I, e, A, fn=lambda r: r.cp(chg=None) if isinstance(r.chg, tuple) else r)


def axis_arg(A, i=1, name="axis", default="all"):
    ax = A.get(i, name)
    if ax is None or isconst(ax, None):
        return default
    if ax.k == "const" and isinstance(ax.c, int):
        return ax.c
    if ax.k == "tuple" and all(x.k == "const" for x in ax.c):
        return tuple(x.c for x in ax.c)
    return "?"


def reduce_f(f, axis, keepdims=False):
    """facets after reducing over axis"""
    mx = f.mx
    sh = f.shape
    if axis == "all":
        if isinstance(mx, tuple) and mx[0] == "A":
            mx = "MIX"
        return f.cp(shape=() if not keepdims else (None if sh is None else (1,) * len(sh)), mx=mx, dim=None, idx=None)
    if axis == "?" or isinstance(axis, tuple):
        return f.cp(shape=None, mx=mx if not isinstance(mx, tuple) or mx[0] == "R" else None, dim=None, idx=None)
    if sh is None:
        if isinstance(mx, tuple) and mx[0] == "A":
            mx = mx if axis == -1 else None
        return f.cp(shape=None, mx=mx, dim=None, idx=None)
    n = len(sh)
    if n == 0:
        return f.cp(dim=None, idx=None)
    ax = axis + n if axis < 0 else axis
    if ax >= n or ax < 0:
        return f.cp(shape=None, mx=None)
    if isinstance(mx, tuple) and mx[0] == "A":
        if mx[1] == ax:
            mx = "MIX" if sh[ax] != 1 else None
        elif mx[1] > ax and not keepdims:
            mx = ("A", mx[1] - 1)
    nsh = sh[:ax] + ((1,) if keepdims else ()) + sh[ax + 1:]
    return f.cp(shape=nsh, mx=mx, dim=None, idx=None)


def reduction(I, e, A, kind=None, axpos=1, fn=None):
    v = A.get(0)
    f = N.fac(I, v)
    if f is None:
        return I.fresh_num(e, None, A.deps(I)) if v.k in ("num", "inst") else top(A.deps(I))
    ax = axis_arg(A, axpos)
    kd = A.get(None, "keepdims")
    kd = kd is not None and kd.k == "const" and bool(kd.c)
    r = reduce_f(strong(f), ax, kd)
    if fn is not None:
        r = fn(r)
    dt = A.get(None, "dtype")
    if dt is not None and not isconst(dt, None):
        k, p = dtype_of(I, dt) or (None, None)
        r = r.cp(kind=k, prec=p)
    o = A.get(None, "out")
    if o is not None:
        I.mutate(e, o, "out= argument")
        N.store_content(I, o, V("num", None, r), e)
    return keep(I, e, v if r.shape != () else None, r, A.deps(I))


@h("numpy.mean", "numpy.nanmean", "numpy.median", "numpy.average", "numpy.max", "numpy.min", "numpy.amax", "numpy.amin",
   "numpy.nanmax", "numpy.nanmin")
def _mean(I, e, A):
    return reduction(I, e, A, fn=lambda r: r.cp(prec="D" if r.prec in ("I", "B", "I8") else r.prec))


@h("numpy.var")
def _var(I, e, A):
    return reduction(I, e, A, fn=lambda r: r.cp(unit=unit_pow(r.unit, Fraction(2)), kind="f",
                                                deg=r.deg * 2 if isinstance(r.deg, Fraction) else r.deg,
                                                chg=Z0 if isinstance(r.chg, Fraction) else None))


@h("numpy.std")
def _std(I, e, A):
    return reduction(I, e, A, fn=lambda r: r.cp(kind="f", chg=Z0 if isinstance(r.chg, Fraction) else None))


@h("numpy.prod")
def _prod(I, e, A):
    return reduction(I, e, A, fn=lambda r: r.cp(unit=() if r.unit == () else None, deg=Z0 if r.deg == 0 else None, chg=Z0 if r.chg == 0 else None))


@h("numpy.count_nonzero", "numpy.argmax", "numpy.argmin", "numpy.all", "numpy.any", "numpy.size", "numpy.ndim")
def _count(I, e, A):
    return reduction(I, e, A, fn=lambda r: r.cp(kind="i", prec="I", unit=(), scale=None, deg=Z0 if r.deg is not None and r.deg != "X" else r.deg,
                                                chg=Z0 if isinstance(r.chg, Fraction) or r.chg == "Z" else "X" if r.chg == "X" else None))


@h("numpy.shape")
def _shape(I, e, A):
    v = A.get(0)
    f = N.fac(I, v)
    if f is not None and f.shape is not None and v.k in ("num", "inst"):
        return N.attr(I, v, "shape", e)
    return V("iter", scalar("i", dp=A.deps(I)))


@h("builtins.all", "builtins.any")
def _all(I, e, A):
    return scalar("b", dp=A.deps(I))


@h("builtins.map")
def _map(I, e, A):
    it = N.exact_items(I, A.pos[1]) if len(A.pos) == 2 else None
    if it is not None:
        return V("exactiter", tuple(I.call(A.pos[0], e, [x], {}) for x in it))
    xs = [N.elem_of(I, p, e) for p in A.pos[1:]]
    return V("iter", I.call(A.pos[0], e, xs, {}))


# ---------------------------------------------------------------- files and byte codecs
CODEC = {"zlib.compress": ("zlib", 1), "zlib.decompress": ("zlib", -1), "bz2.compress": ("bz2", 1), "bz2.decompress": ("bz2", -1),
         "gzip.compress": ("gzip", 1), "gzip.decompress": ("gzip", -1), "lzma.compress": ("lzma", 1), "lzma.decompress": ("lzma", -1),
         "pickle.dumps": ("pickle", 1), "pickle.loads": ("pickle", -1), "base64.b64encode": ("base64", 1), "base64.b64decode": ("base64", -1)}


def encode(I, e, codec, v):
    if codec != "pickle" and v.k not in ("bytes", "top"):
        I.ev("codec", e, what="%s gets something that is not bytes" % codec)
    return V("bytes", (codec, v), dp=I.deep_deps(v))


def decode(I, e, codec, v):
    if v.k == "union":
        if I.caught:
            return top(I.deep_deps(v))
        return union([decode(I, e, codec, a) for a in alts(v)])
    if v.k == "bytes":
        if v.c[0] == codec:
            return v.c[1]
        if v.c[0] in [c for c, _ in CODEC.values()]:
            I.ev("codec", e, what="%s decoding of data whose outermost encoding is %s" % (codec, v.c[0]))
            return V("never")
    elif v.k not in ("top", "never"):
        I.ev("codec", e, what="%s decoding of data that was never encoded" % codec)
        return V("never")
    return top(I.deep_deps(v))


def _codec(I, e, A):
    codec, d = CODEC[canonname(e)]
    return (encode if d > 0 else decode)(I, e, codec, A.pos[0]).dep(A.deps(I))


for _n in CODEC:
    H[_n] = _codec


@h("pickle.dump")
def _pdump(I, e, A):
    return file_method(I, e, A.pos[1], "write", [encode(I, e, "pickle", A.pos[0])], A.deps(I)) if A.pos[1].k == "file" else NONE


@h("pickle.load")
def _pload(I, e, A):
    return decode(I, e, "pickle", file_method(I, e, A.pos[0], "read", [], A.deps(I))) if A.pos[0].k == "file" else top(A.deps(I))


@h("builtins.open", "gzip.open", "bz2.open", "lzma.open")
def _open(I, e, A):
    I.used |= A.deps(I)
    I.ev("io", e, what="open", args=",".join(str(getattr(p, "c", "")) for p in A.pos))
    m = A.get(1, "mode")
    layer = canonname(e).split(".")[0]
    ms = ["r"] if m is None else [x.c if x.k == "const" and isinstance(x.c, str) else None for x in alts(m)]
    ms.sort(key=lambda x: "w" not in (x or ""))
    m = None if None in ms or len({("b" in x, "r" in x and "+" not in x) for x in ms}) > 1 else ms[0]
    fn = A.get(0, "file") or A.get(0, "filename")
    if not isinstance(m, str) or fn is None:
        return top(A.deps(I))
    if layer != "builtins" and "t" not in m:
        m += "b"
    key = (fn.k, str(fn.c) if fn.k == "const" else "", tuple(sorted(fn.dp)))
    I.files.append({"key": key, "mode": m, "layer": None if layer == "builtins" else layer, "closed": False, "modes": ms, "out": [], "read": 0, "node": e})
    return V("file", len(I.files) - 1, dp=A.deps(I))


def file_method(I, e, recv, name, pos, d):
    fl = I.files[recv.c]
    m = fl["mode"]
    if name == "write":
        v = pos[0] if pos else top()
        I.used |= I.deep_deps(v)
        if "r" in m and "+" not in m:
            I.ev("codec", e, what="writes to a file opened for reading")
        elif v.k == "bytes" and "b" not in m:
            I.ev("codec", e, what="writes bytes to a file opened in text mode")
        elif any("a" in x for x in fl["modes"]):
            I.ev("codec", e, what="appends to the file instead of replacing its content")
        if fl["layer"]:
            v = V("bytes", (fl["layer"], v), dp=v.dp)
        fl["out"].append(v)
        I.disk[fl["key"]] = v if len(fl["out"]) == 1 else top(v.dp)
        return NONE
    if name == "read":
        if "r" not in m and "+" not in m:
            I.ev("codec", e, what="reads from a file opened for writing")
        elif "b" not in m:
            I.ev("codec", e, what="reads encoded data in text mode")
        if pos and not (pos[0].k == "const" and pos[0].c in (-1, None)):
            I.ev("codec", e, what="reads a part of the file only")
        fl["read"] += 1
        if fl["read"] > 1:
            return top(d)
        if fl["key"] in I.disk:
            v = I.disk[fl["key"]]
            return decode(I, e, fl["layer"], v) if fl["layer"] else v
        if I.disk:
            I.ev("codec", e, what="reads a file with another name than the one written")
        return top(d)
    if name == "close":
        fl["closed"] = True
        return NONE
    if name == "truncate":
        fl["truncated"] = True
    return top(d)


# ---------------------------------------------------------------- constructors
def ctor(kindprec=("f", "D"), zero=True, value=None):
    def fn(I, e, A):
        dt = dtype_of(I, A.get(1, "dtype"))
        k, p = kindprec if dt is None else dt
        sh = shape_arg(I, A.get(0, "shape"))
        z = "Z" if zero else ()
        f = F(k, p, "Z" if zero else (), "Z" if zero else None, "Z" if zero else Z0, "Z" if zero else Z0, "Z" if zero else "C", sh)
        return arr(I, e, f, A.deps(I) - dtype_deps(A.get(1, "dtype")))
    return fn


def dtype_deps(v):
    return EMPTY


H["numpy.zeros"] = H["numpy.empty"] = ctor()
H["numpy.ones"] = ctor(zero=False)


@h("numpy.full")
def _full(I, e, A):
    v = A.get(1, "fill_value")
    f = N.fac(I, v)
    sh = shape_arg(I, A.get(0, "shape"))
    dt = dtype_of(I, A.get(2, "dtype"))
    if f is None:
        return arr(I, e, None, A.deps(I))
    f = strong(f).cp(shape=sh, idx=None, dim=None)
    if dt:
        f = f.cp(kind=dt[0], prec=dt[1])
    return arr(I, e, f, A.deps(I))


@h("numpy.zeros_like", "numpy.empty_like")
def _zl(I, e, A):
    v = A.get(0)
    f = N.fac(I, v)
    dt = dtype_of(I, A.get(1, "dtype"))
    if f is None:
        f = F()
    f = strong(f).cp(unit="Z", scale="Z", deg="Z", chg="Z", mx="Z", idx=None, dim=None)
    if dt:
        f = f.cp(kind=dt[0], prec=dt[1])
    return keep(I, e, v, f, I.pc)


@h("numpy.ones_like", "numpy.full_like")
def _ol(I, e, A):
    v = A.get(0)
    f = N.fac(I, v)
    if f is None:
        f = F()
    return keep(I, e, v, strong(f).cp(unit=(), scale=None, deg=Z0, chg=Z0, mx="C", idx=None, dim=None), I.pc)


@h("numpy.eye", "numpy.identity")
def _eye(I, e, A):
    return arr(I, e, F("f", "D", (), None, Z0, Z0, "C", (None, None)), A.deps(I))


@h("numpy.arange")
def _arange(I, e, A):
    fs = [N.fac(I, p) for p in A.pos]
    dt = dtype_of(I, A.get(3, "dtype"))
    kind, unit = "i", ()
    for f in fs:
        if f is None:
            kind = None
        else:
            if f.kind == "f":
                kind = "f"
            if f.unit not in ((), "Z"):
                unit = f.unit
    dim = fs[0].dim if len(fs) == 1 and fs[0] is not None else None
    if len(A.pos) == 1 and A.pos[0].k == "const" and isinstance(A.pos[0].c, int):
        dim = A.pos[0].c
    p = {"i": "I", "f": "D"}.get(kind)
    if dt:
        kind, p = dt
    return arr(I, e, F(kind, p, unit, None, Z0, Z0, "C", (dim,)), A.deps(I))


@h("numpy.linspace", "numpy.logspace")
def _linspace(I, e, A):
    fa, fb = N.fac(I, A.get(0, "start")), N.fac(I, A.get(1, "stop"))
    n = A.get(2, "num")
    dim = n.c if n is not None and n.k == "const" else (n.f.dim if n is not None and n.f is not None else None)
    u = sc = None
    deg = Z0
    if fa is not None and fb is not None:
        u = N.add_unit(I, e, fa.unit, fb.unit, "linspace with")
        sc = jeq(fa.scale, fb.scale)
        deg = N.sum_deg(fa.deg, fb.deg)
        if u == "Z":
            u = ()
    chg = Z0
    if I.opts.get("grid") and all(x is not None and x.k == "const" and isinstance(x.c, (int, float)) for x in (A.get(0, "start"), A.get(1, "stop"))) \
            and abs(A.get(1, "stop").c - A.get(0, "start").c - math.pi / 2) < 1e-6:
        # test angles over the rotational symmetry of QAM: the one a search picks is to turn the field back
        chg = ("ang", Fraction(-1))
    f = F("f", "D", u, sc, deg, chg, "C" if (fa and fb and fa.mx in ("C", "Z") and fb.mx in ("C", "Z")) else None, (dim,))
    return arr(I, e, f, A.deps(I))


@h("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.asanyarray", "numpy.copy",
   "numpy.require", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.squeeze", "numpy.ravel", "numpy.real", "numpy.imag",
   "copy.copy", "copy.deepcopy")
def _array(I, e, A, name=None):
    nm = name
    v = A.get(0)
    outs = []
    for a in alts(v):
        outs.append(_array1(I, e, A, nm, a))
    r = outs[0]
    for o in outs[1:]:
        r = join(r, o)
    return r


def real_of(I, e, f, kind):
    if f.kind == "c" and kind in ("f", "i"):
        I.ev("dropsimag", e, what="complex values are converted to real ones")


def _array1(I, e, A, nm, a):
    short = nm.split(".")[-1]
    dt = dtype_of(I, A.get(1, "dtype")) if short in ("array", "asarray", "ascontiguousarray", "asfortranarray", "asanyarray") else None
    if short in ("copy", "deepcopy") and nm.startswith("copy."):
        if a.k == "inst":
            return keep(I, e, a, N.fac(I, a), I.deep_deps(a))
        return a.cp(al=EMPTY) if a.k in ("num", "top") else a
    copies = False
    if short in ("copy",):
        copies = True
    if short == "array":
        c = A.get(2, "copy")
        copies = not (c is not None and c.k == "const" and c.c in (False, None))
    if a.k == "const" and a.c is None:
        if short in ("atleast_1d", "atleast_2d", "asarray", "array"):
            return I.fresh_num(e, F(kind=None, shape=None), a.dp)
        return top(a.dp)
    f = N.fac(I, a)
    if f is None:
        al = EMPTY if copies else (a.al if a.k in ("num", "inst", "top") else EMPTY)
        if a.k == "top" and not copies:
            return V("num", None, None, a.al, a.dp)
        if a.k == "inst" and short.startswith(("atleast", "squeeze", "ravel", "real", "imag", "asany")):
            return N.mk(I, e, a, None, al, I.deep_deps(a))
        return V("num", None, None, al or frozenset([I.site(e, "A")]), I.deep_deps(a))
    if dt is not None:
        real_of(I, e, f, dt[0])
    conv = dt is not None and dt[1] is not None and dt[1] != f.prec and not (f.prec is None)
    if dt is not None:
        f = f.cp(kind=dt[0] or f.kind, prec=dt[1] if dt[1] is not None else None)
    else:
        f = strong(f)
    if short in ("atleast_1d", "atleast_2d"):
        n = 1 if short == "atleast_1d" else 2
        if f.shape is not None and len(f.shape) < n:
            add = n - len(f.shape)
            mx = f.mx
            if isinstance(mx, tuple) and mx[0] == "A":
                mx = ("A", mx[1] + add)
            f = f.cp(shape=(1,) * add + f.shape, mx=mx, idx=None, dim=None)
        elif f.shape is None and isinstance(f.mx, tuple) and f.mx[0] == "A":
            pass
    elif short == "squeeze":
        if f.shape is not None and 1 not in f.shape:
            # symbolic dims are assumed to be larger than one
            pass
        elif f.shape is not None:
            keepi = [i for i, s in enumerate(f.shape) if s != 1]
            mx = f.mx
            if isinstance(mx, tuple) and mx[0] == "A":
                mx = ("A", keepi.index(mx[1])) if mx[1] in keepi else None
            f = f.cp(shape=tuple(f.shape[i] for i in keepi), mx=mx)
    elif short == "ravel":
        mx = f.mx
        if isinstance(mx, tuple) and mx[0] == "A":
            mx = mx if f.ndim == 1 else None
        f = f.cp(shape=(f.shape if f.ndim == 1 else (None,)), mx=mx)
    elif short in ("real", "imag"):
        f = f.cp(kind="f" if f.kind == "c" else f.kind, chg=f.chg if f.chg in (0, "Z") else None)
    f = f.cp(idx=None, dim=None)
    dp = I.deep_deps(a)
    if copies or a.k in ("const", "tuple", "list") or (conv and short in ("asarray", "array")) or f.shape == () and a.k != "inst" and not a.al:
        r = I.site(e, "A")
        if short == "copy" or short == "array":
            sub = None
        else:
            sub = None
        so = A.get(None, "subok")
        if so is not None and so.k == "const" and so.c:
            sub = a
        if f.shape == ():
            pass
        I.st.content.pop(r, None)
        return N.mk(I, e, sub, f, frozenset([r]), dp)
    sub = a if short in ("atleast_1d", "atleast_2d", "squeeze", "ravel", "real", "imag", "asanyarray") else None
    return N.mk(I, e, sub, f, a.al, dp)


# ---------------------------------------------------------------- elementwise
def elementwise(fn, unitless=False, name=None):
    def run(I, e, A):
        v = A.get(0)
        f = N.fac(I, v)
        o = A.get(1, "out")
        if o is not None and not isconst(o, None):
            I.mutate(e, o, "out= argument")
        if f is None:
            if v.k in ("num", "inst"):
                return keep(I, e, v, F() if v.k == "inst" else None, A.deps(I))
            return I.fresh_num(e, None, A.deps(I))
        if unitless and f.unit not in (None, "Z", "X") and unit_strip(f.unit) != ():
            I.ev("unit", e, what="argument of %s" % (name or "transcendental function"), a=unit_str(f.unit), b="1")
        g = fn(I, e, f, v)
        if o is not None and o.al:
            N.store_content(I, o, V("num", None, g), e)
        return keep(I, e, v, g, A.deps(I))
    return run


def _trans(f):
    """transcendental: keeps mx, shape, prec"""
    d = Z0 if f.deg == 0 or f.deg == "Z" else ("X" if isinstance(f.deg, Fraction) or f.deg == "X" else None)
    c = Z0 if f.chg == 0 or f.chg == "Z" else None
    p = f.prec
    if p in ("I", "B", "I8"):
        p = "D"
    return f.cp(unit=(), scale=None, deg=d, chg=c, prec=p, kind="c" if f.kind == "c" else "f", mx="C" if f.mx == "Z" else f.mx, trig=None)


def _exp(I, e, f, v):
    g = _trans(f)
    if isinstance(f.chg, tuple):
        if f.chg[0] == "jang":
            g = g.cp(chg=f.chg[1])
        else:
            g = g.cp(chg=None)
    if N.db(f.scale) and f.scale[1] in (1, -1, Fraction(1, 10), Fraction(-1, 10), Fraction(1, 20), Fraction(-1, 20)):
        N.scale_event(I, e, "exp of a decibel quantity", N.sc_str(f.scale), "")
    return g


H["numpy.exp"] = elementwise(_exp, True, "exp")
for _n in ("sin", "cos", "tan", "sinh", "cosh", "tanh", "arcsin", "arccos", "arctan", "sinc", "expm1", "log1p", "cbrt"):
    H["numpy." + _n] = elementwise(lambda I, e, f, v: _trans(f), True, _n)
H["scipy.special.erfc"] = H["scipy.special.erf"] = elementwise(lambda I, e, f, v: _trans(f), True, "erfc")


def _log(I, e, f, v, base):
    g = _trans(f).cp(deg=Z0 if f.deg in (0, "Z") else ("X" if f.deg is not None else None))
    if N.db(f.scale):
        N.scale_event(I, e, "logarithm of a decibel quantity", N.sc_str(f.scale), "")
    if base == 10 and (N.lin(f.scale) or N.quo(f.scale)):
        g = g.cp(scale=("dB", f.scale[1] / 10))
    return g


H["numpy.log10"] = elementwise(lambda I, e, f, v: _log(I, e, f, v, 10))
H["numpy.log"] = H["numpy.log2"] = elementwise(lambda I, e, f, v: _log(I, e, f, v, 2))


def _sqrt(I, e, f, v):
    if N.db(f.scale):
        N.scale_event(I, e, "square root of a decibel quantity", N.sc_str(f.scale), "")
    half = Fraction(1, 2)
    return f.cp(unit=unit_pow(f.unit, half), deg=f.deg * half if isinstance(f.deg, Fraction) else f.deg,
                chg=f.chg * half if isinstance(f.chg, Fraction) else (f.chg if f.chg in ("Z", "X") else None),
                kind="f" if f.kind in ("i", "b") else f.kind, prec="D" if f.prec in ("I", "B", "I8") else f.prec,
                scale=N.scale_root(f.scale, half))


H["numpy.sqrt"] = elementwise(_sqrt)
H["numpy.square"] = elementwise(lambda I, e, f, v: f.cp(unit=unit_pow(f.unit, Fraction(2)), deg=f.deg * 2 if isinstance(f.deg, Fraction) else f.deg,
                                                        chg=f.chg * 2 if isinstance(f.chg, Fraction) else None, scale=N.scale_root(f.scale, 2)))


def _conj(I, e, f, v):
    c = f.chg
    if isinstance(c, Fraction):
        c = -c
    elif isinstance(c, tuple):
        c = ("jang", -c[1]) if c[0] == "jang" else c
    return f.cp(chg=c)


H["numpy.conj"] = H["numpy.conjugate"] = elementwise(_conj)


def _angle(I, e, f, v):
    c = f.chg
    c = ("ang", c) if isinstance(c, Fraction) and c != 0 else (Z0 if c == 0 else None)
    return f.cp(kind="f", unit=(), scale=None, deg=Z0 if isinstance(f.deg, Fraction) or f.deg == "Z" else f.deg, chg=c,
                prec=f.prec)


H["numpy.angle"] = elementwise(_angle)
H["numpy.sign"] = elementwise(lambda I, e, f, v: f.cp(unit=(), scale=None, deg=Z0, chg=Z0 if f.chg == 0 else None))
H["numpy.isnan"] = H["numpy.isinf"] = H["numpy.isfinite"] = elementwise(lambda I, e, f, v: f.cp(kind="b", prec="B", unit=(), scale=None, deg=Z0, chg=Z0))
H["numpy.deg2rad"] = H["numpy.rad2deg"] = elementwise(lambda I, e, f, v: f.cp(deg=Z0))
H["numpy.bitwise_not"] = H["numpy.invert"] = H["numpy.logical_not"] = elementwise(lambda I, e, f, v: f)
H["numpy.negative"] = elementwise(lambda I, e, f, v: f.cp(scale=("dB", -f.scale[1]) if N.db(f.scale) else None))


@h("numpy.iscomplexobj", "numpy.iscomplex", "numpy.isrealobj", "numpy.isreal")
def _iscomplexobj(I, e, A):
    f = N.fac(I, A.get(0))
    nm = canonname(e)
    if f is not None and nm.endswith("obj") and f.kind is not None:
        r = f.kind == "c"
        return const(r if "complex" in nm else not r)
    return scalar("b", dp=A.deps(I))


def binary(op):
    def run(I, e, A):
        o = A.get(2, "out")
        r = N.binop(I, e, op, A.get(0), A.get(1))
        if o is not None and not isconst(o, None):
            I.mutate(e, o, "out= argument")
            N.store_content(I, o, r, e)
        return r
    return run


for _n, _o in (("add", ast.Add), ("subtract", ast.Sub), ("multiply", ast.Mult), ("divide", ast.Div), ("true_divide", ast.Div),
               ("power", ast.Pow), ("mod", ast.Mod), ("bitwise_xor", ast.BitXor), ("bitwise_and", ast.BitAnd), ("bitwise_or", ast.BitOr),
               ("logical_and", ast.BitAnd), ("logical_or", ast.BitOr), ("floor_divide", ast.FloorDiv), ("matmul", ast.MatMult)):
    H["numpy." + _n] = binary(_o())


@h("numpy.isclose", "numpy.allclose", "numpy.array_equal")
def _isclose(I, e, A):
    fa, fb = N.fac(I, A.get(0)), N.fac(I, A.get(1))
    if fa is not None and fb is not None:
        N.add_unit(I, e, fa.unit, fb.unit, "compared with")
    sh = N.bshape(fa.shape, fb.shape) if fa is not None and fb is not None else None
    return V("num", None, F("b", "B", (), None, Z0, Z0, None if sh != () else "C", sh), dp=A.deps(I))


@h("numpy.dot", "numpy.einsum", "numpy.vdot", "numpy.inner", "numpy.outer", "numpy.tensordot", "numpy.cross", "numpy.kron")
def _dot(I, e, A):
    ops = [p for p in A.pos if not (p.k == "const" and isinstance(p.c, str))]
    fs = [N.fac(I, p) for p in ops]
    if len(fs) != 2 or any(f is None for f in fs):
        return I.fresh_num(e, None, A.deps(I))
    a, b = fs
    mx = "C" if a.mx in ("C", "Z") and b.mx in ("C", "Z") else ("MIX" if "MIX" in (a.mx, b.mx) else None)
    if isinstance(a.mx, tuple) and isinstance(b.mx, tuple) and a.mx == b.mx and a.mx[0] == "R":
        mx = a.mx
    for x, y in ((a, b), (b, a)):
        if isinstance(x.mx, tuple) and x.mx[0] == "R" and y.mx == "C":
            mx = x.mx
    sh = None
    if canonname(e).endswith("dot") and a.shape is not None and b.shape is not None:
        if len(a.shape) == 1 and len(b.shape) == 1:
            sh = ()
        elif len(a.shape) == 2 and len(b.shape) == 1:
            sh = (a.shape[0],)
            if isinstance(a.mx, tuple) and a.mx == ("A", 0) and b.mx == "C":
                mx = ("A", 0)
        elif len(a.shape) == 2 and len(b.shape) == 2:
            sh = (a.shape[0], b.shape[1])
            if isinstance(b.mx, tuple) and b.mx == ("A", 0):
                mx = "MIX"
            elif isinstance(a.mx, tuple) and a.mx == ("A", 0) and b.mx == "C":
                mx = ("A", 0)
    f = F(jkind(a.kind, b.kind), N.bprec(a, b), unit_mul(a.unit, b.unit), None, N.addz(a.deg, b.deg),
          N.mul_chg(a.chg, b.chg, 1, None, None), mx, sh)
    return I.fresh_num(e, f, A.deps(I))


def picked(f, col):
    """does the selection depend on the amplitude (phase)?"""
    x = getattr(f, col) if f is not None else None
    return x if x in (None, "X") else Z0


@h("numpy.where")
def _where(I, e, A):
    if len(A.pos) == 1:
        f = N.fac(I, A.pos[0])
        n = f.ndim if f is not None and f.ndim is not None else None
        x = I.fresh_num(e, F("i", "I", (), None, picked(f, "deg"), picked(f, "chg"), f.mx if f is not None and n == 1 else None, (None,)), A.deps(I))
        if n is not None:
            return tup([x] * n)
        return V("iter", x)
    fa, fb = N.fac(I, A.pos[1]), N.fac(I, A.pos[2])
    fc = N.fac(I, A.pos[0])
    if fa is None or fb is None:
        return I.fresh_num(e, None, A.deps(I))
    N.add_unit(I, e, fa.unit, fb.unit, "where with")
    mx = N.bmx(I, fa, fb, e)
    sh = N.bshape(fa.shape, fb.shape)
    if fc is not None:
        mx = N.bmx(I, fc, fa.cp(mx=mx, shape=sh), e)
        sh = N.bshape(sh, fc.shape)
    f = jF(fa, fb).cp(shape=sh, mx=mx, prec=N.bprec(fa, fb), idx=None, dim=None)
    if fc is not None:
        f = f.cp(deg="X" if fc.deg == "X" else f.deg, chg="X" if fc.chg == "X" else f.chg)
    return I.fresh_num(e, f, A.deps(I))


@h("numpy.nonzero", "numpy.argwhere")
def _nonzero(I, e, A):
    f = N.fac(I, A.pos[0])
    x = I.fresh_num(e, F("i", "I", (), None, picked(f, "deg"), picked(f, "chg"), f.mx if f is not None and f.ndim == 1 else None, (None,)), A.deps(I))
    n = f.ndim if f is not None else None
    return tup([x] * n) if n else V("iter", x)


# ---------------------------------------------------------------- along-axis transforms
def along(fn=None, axpos=2, default=-1, sub=False, lastname="axis"):
    """transform along one axis (default: last)"""
    def run(I, e, A):
        v = A.get(0)
        f = N.fac(I, v)
        if f is None:
            return I.fresh_num(e, None, A.deps(I))
        ax = axis_arg(A, axpos, lastname, default)
        mx = f.mx
        if isinstance(mx, tuple) and mx[0] == "A":
            if ax == "all":
                mx = "MIX" if (f.ndim or 2) > 1 or True else mx
            elif ax == "?":
                mx = None
            elif isinstance(ax, int):
                n = f.ndim
                a = ax if ax >= 0 else (None if n is None else n + ax)
                if a is not None and a == mx[1]:
                    mx = "MIX"
                elif a is None and ax == -1 and mx[1] == 0 and n is None:
                    mx = mx
            elif isinstance(ax, tuple) and f.ndim is not None:
                if mx[1] in [x if x >= 0 else f.ndim + x for x in ax]:
                    mx = "MIX"
        f = strong(f).cp(mx=mx, idx=None, dim=None)
        if fn is not None:
            f = fn(I, e, f, A)
        return keep(I, e, v if sub else None, f, A.deps(I))
    return run


def _fftf(I, e, f, A):
    return f.cp(kind="c", prec="D" if f.prec in ("I", "B", "I8") else f.prec, chg=f.chg)


for _n in ("fft", "ifft", "rfft", "irfft", "hfft"):
    H["fft." + _n] = along(_fftf, axpos=2)
H["fft.fftshift"] = along(lambda I, e, f, A: f, axpos=1, default="all", lastname="axes")
H["fft.ifftshift"] = H["fft.fftshift"]
H["fft.fft2"] = H["fft.fftn"] = H["fft.ifftn"] = H["fft.ifft2"] = along(_fftf, axpos=9, default="all", lastname="axes")


@h("fft.fftfreq", "fft.rfftfreq")
def _fftfreq(I, e, A):
    d = A.get(1, "d")
    n = A.get(0, "n")
    fd = N.fac(I, d) if d is not None else const(1).f
    u = unit_pow(fd.unit, Fraction(-1)) if fd is not None and fd.unit != "Z" else None
    nf = n.f.dim if n is not None and n.f is not None and n.k == "num" else (n.c if n is not None and n.k == "const" else None)
    mx = "C"
    if fd is not None and fd.mx not in ("C", "Z"):
        mx = None
    return arr(I, e, F("f", "D", u, None, Z0, Z0, mx, (nf,)), A.deps(I))


@h("numpy.unwrap")
def _unwrap(I, e, A):
    return along(lambda I, e, f, A: f, axpos=2, default=-1)(I, e, A)


H["numpy.cumsum"] = along(lambda I, e, f, A: f.cp(chg=("csum", f.chg[1]) if isinstance(f.chg, tuple) and f.chg[0] == "ang"
                                                  else None if isinstance(f.chg, tuple) else f.chg), axpos=1, default="all")
H["numpy.cumprod"] = along(lambda I, e, f, A: f.cp(unit=None, deg=None, chg=None), axpos=1, default="all")


@h("numpy.diff")
def _diff(I, e, A):
    def fn(I, e, f, A):
        if f.shape is not None and f.shape:
            f = f.cp(shape=f.shape[:-1] + (None,))
        return f
    return along(fn, axpos=2, default=-1, sub=True)(I, e, A)


@h("numpy.roll")
def _roll(I, e, A):
    v = A.get(0)
    f = N.fac(I, v)
    if f is None:
        return keep(I, e, v, F() if v.k == "inst" else None, A.deps(I)) if v.k in ("num", "inst") else I.fresh_num(e, None, A.deps(I))
    default = "all"
    r = along(None, axpos=2, default="all", sub=True)
    if f.ndim == 1:
        r = along(None, axpos=2, default=-1, sub=True)
    sf = N.fac(I, A.get(1, "shift"))
    if sf is not None and sf.unit not in (None, (), "Z") and unit_strip(sf.unit) != ():
        I.ev("unit", e, what="roll by", a=unit_str(sf.unit), b="1")
    v2 = r(I, e, A)
    if sf is not None and v2.f is not None and sf.mx not in ("C", "Z") and isinstance(v2.f.mx, tuple):
        m = N.bmx(I, v2.f, sf.cp(shape=()), e) if v2.f.mx[0] == "R" else v2.f.mx
        v2 = v2.cp(f=v2.f.cp(mx=m))
    return v2


@h("numpy.flip", "numpy.fliplr", "numpy.flipud")
def _flip(I, e, A):
    v = A.get(0)
    f = N.fac(I, v)
    if f is not None:
        nm = canonname(e)
        mx = f.mx
        if isinstance(mx, tuple) and mx[0] == "A":
            if nm.endswith("flipud") and mx[1] == 0 or nm.endswith("flip") and axis_arg(A, 1) in ("all", mx[1]):
                mx = "MIX"
        f = f.cp(mx=mx)
    return N.mk(I, e, v if v.k == "inst" else None, f, v.al if v.k in ("num", "inst") else EMPTY, A.deps(I))


@h("numpy.tile")
def _tile(I, e, A):
    v, r = A.get(0), A.get(1)
    f = N.fac(I, v)
    if f is None:
        return keep(I, e, v if v.k == "inst" else None, F() if v.k == "inst" else None, A.deps(I))
    f = strong(f)
    n = None
    reps = None
    if r is not None:
        if r.k == "const" or (r.k == "num" and r.f is not None and r.f.shape == ()):
            n = 1
            reps = [r]
        else:
            reps = N.exact_items(I, r)
            n = len(reps) if reps is not None else None
    sh = None
    mx = f.mx
    if f.shape is not None and n is not None:
        m = max(len(f.shape), n)
        base = (1,) * (m - len(f.shape)) + f.shape
        rr = [const(1)] * (m - n) + reps
        sh = []
        for b, q in zip(base, rr):
            if q.k == "const" and q.c == 1:
                sh.append(b)
            elif b == 1 and q.k == "const" and isinstance(q.c, int):
                sh.append(q.c)
            elif b == 1 and q.f is not None:
                sh.append(q.f.dim)
            else:
                sh.append(None)
        sh = tuple(sh)
        if isinstance(mx, tuple) and mx[0] == "A":
            k = mx[1] + m - len(f.shape)
            q = rr[k]
            mx = ("A", k) if q.k == "const" and q.c == 1 else None
        if isinstance(mx, tuple) and mx[0] == "R":
            pass
    elif isinstance(mx, tuple):
        mx = None
    return keep(I, e, v, f.cp(shape=sh, mx=mx, idx=None, dim=None), A.deps(I))


@h("numpy.repeat")
def _repeat(I, e, A):
    v = A.get(0)
    f = N.fac(I, v)
    if f is None:
        return I.fresh_num(e, None, A.deps(I))
    ax = axis_arg(A, 2)
    mx = f.mx
    sh = None
    if ax == "all":
        sh = (None,)
        if isinstance(mx, tuple) and mx[0] == "A":
            mx = None
    elif f.shape is not None and isinstance(ax, int):
        a = ax if ax >= 0 else len(f.shape) + ax
        sh = tuple(None if i == a else s for i, s in enumerate(f.shape))
        if isinstance(mx, tuple) and mx[0] == "A" and mx[1] == a:
            mx = None
    return keep(I, e, v, strong(f).cp(shape=sh, mx=mx, idx=None, dim=None), A.deps(I))


@h("numpy.broadcast_to")
def _bto(I, e, A):
    v = A.get(0)
    f = N.fac(I, v)
    sh = shape_arg(I, A.get(1, "shape"))
    if f is not None:
        mx = f.mx
        if isinstance(mx, tuple) and mx[0] == "A" and sh is not None and f.shape is not None:
            mx = ("A", mx[1] + len(sh) - len(f.shape))
        f = f.cp(shape=sh, mx=mx)
    return V("num", None, f, v.al if v.k in ("num", "inst") else EMPTY, A.deps(I))


@h("numpy.pad")
def _pad(I, e, A):
    f = N.fac(I, A.get(0))
    if f is not None:
        f = f.cp(shape=None if f.shape is None else tuple(None if not isinstance(f.mx, tuple) or i != f.mx[1] else s for i, s in enumerate(f.shape)))
    return I.fresh_num(e, f, A.deps(I))


def concat_axis(kind):
    def run(I, e, A):
        v = A.get(0)
        it = N.exact_items(I, v)
        ax = {"h": 1, "v": 0, "c": axis_arg(A, 1, "axis", 0), "s": axis_arg(A, 1, "axis", 0)}[kind]
        d = A.deps(I)
        if it is None:
            for a in alts(v):
                o = I.obj(a) if a.k == "list" else None
                if o is not None and o.elem is not None:
                    f = N.fac(I, o.elem)
                    if f is not None:
                        f = strong(f)
                        if rows_of(o) and (kind == "v" or kind == "s" and ax == 0):
                            return I.fresh_num(e, f.cp(mx=("A", 0), shape=None if f.shape is None else (None,) + f.shape[-1:]), d)
                        mx = f.mx if f.mx in ("C", "Z", "MIX") or isinstance(f.mx, tuple) and f.mx[0] == "R" else None
                        if rows_of(o):
                            mx = "MIX" if kind == "h" and (f.ndim or 1) == 1 and False else None
                        return I.fresh_num(e, f.cp(shape=None if f.shape is None else (None,) * max(1, len(f.shape)), mx=mx, idx=None, dim=None), d)
            if v.k in ("num", "inst"):
                f = N.fac(I, v)
                if f is not None:
                    return I.fresh_num(e, f.cp(shape=None, mx=f.mx if f.mx in ("C", "MIX") else None), d)
            return I.fresh_num(e, None, d)
        fs = [N.fac(I, x) for x in it]
        if not fs or any(f is None for f in fs):
            return I.fresh_num(e, None, d)
        r = strong(fs[0])
        prec = r.prec
        for g in fs[1:]:
            N.add_unit(I, e, r.unit, g.unit, "concatenated with")
            prec = N.bprec(r.cp(prec=prec, shape=(None,)), strong(g).cp(shape=(None,)))
        mxs = [f.mx for f in fs]
        nd = max((f.ndim if f.ndim is not None else -1) for f in fs)
        sh = None
        mx = None
        unit = r.unit
        for g in fs[1:]:
            r = jF(r, strong(g))
        if nd >= 0 and all(f.ndim is not None for f in fs):
            n = max(nd, 1)
            if kind == "v":
                n = max(n, 2)
            if kind == "s":
                n = nd + 1
            a = ax
            if kind == "h":
                a = 0 if n == 1 else 1
            if isinstance(a, int) and a < 0:
                a += n
            if kind == "s" and isinstance(a, int):
                sh = None
                if set(mxs) <= {"C", "Z"}:
                    mx = "C"
            elif isinstance(a, int):
                base = [f.shape for f in fs if f.shape is not None and len(f.shape) == n]
                sh = tuple(None if i == a else (base[0][i] if base else None) for i in range(n))
                ms = [m for m in mxs if m not in ("C", "Z")]
                if not ms:
                    mx = "C"
                elif all(m == ms[0] for m in ms):
                    m = ms[0]
                    if isinstance(m, tuple) and m[0] == "A":
                        mx = m if m[1] != a else None
                        if kind == "v" and nd == 1:
                            mx = None
                    else:
                        mx = m
                elif "MIX" in ms:
                    mx = "MIX"
                elif all(isinstance(m, tuple) and m[0] == "R" for m in ms):
                    syms = [m[1] for m in ms]
                    if kind == "v" and syms == ["k%d" % i for i in range(len(syms))]:
                        mx = ("A", 0)
                    elif kind == "v" and nd == 1 and len(set(syms)) == len(syms) and all(s.startswith("k") for s in syms):
                        mx = "MIX"
                    else:
                        mx = None
        return I.fresh_num(e, r.cp(shape=sh, mx=mx, prec=prec, idx=None, dim=None), d)
    return run


H["numpy.hstack"] = concat_axis("h")
H["numpy.vstack"] = concat_axis("v")
H["numpy.concatenate"] = concat_axis("c")
H["numpy.stack"] = concat_axis("s")


@h("numpy.insert")
def _insert(I, e, A):
    v, w = A.get(0), A.get(2, "values")
    f, g = N.fac(I, v), N.fac(I, w) if w is not None else None
    d = A.deps(I)
    ax = A.get(3, "axis")
    if f is None:
        return I.fresh_num(e, None, d)
    sh, mx = None, f.mx
    if ax is None or isconst(ax, None):
        sh = (None,)
        mx = None if isinstance(mx, tuple) and mx[0] == "A" else mx
    elif ax.k == "const" and isinstance(ax.c, int) and f.shape is not None and -len(f.shape) <= ax.c < len(f.shape):
        a = ax.c % len(f.shape)
        sh = tuple(None if i == a else x for i, x in enumerate(f.shape))
        if isinstance(mx, tuple) and mx[0] == "A" and mx[1] == a:
            mx = None
    elif isinstance(mx, tuple) and mx[0] == "A":
        mx = None
    if g is None:
        return I.fresh_num(e, F(f.kind, f.prec, None, None, None, None, None, sh), d)
    if isinstance(g.mx, tuple) or g.mx is None:
        mx = g.mx if mx == g.mx and isinstance(mx, tuple) and mx[0] == "R" else None
    return I.fresh_num(e, strong(f).cp(shape=sh, mx=mx, idx=None, dim=None, unit=jeq(f.unit, g.unit), deg=jeq(f.deg, g.deg), chg=jeq(f.chg, g.chg)), d)


@h("numpy.delete")
def _delete(I, e, A):
    return _insert(I, e, Args([A.get(0), const(0), const(0)] + ([A.get(2, "axis")] if A.get(2, "axis") is not None else []), {})).dep(A.deps(I))


@h("numpy.append", "numpy.unique", "numpy.sort", "numpy.array_split", "numpy.split", "numpy.digitize",
   "numpy.argsort", "numpy.searchsorted", "numpy.setdiff1d", "numpy.extract", "numpy.take", "numpy.lib.stride_tricks.as_strided",
   "numpy.stride_tricks.as_strided", "numpy.histogram", "numpy.percentile", "numpy.bincount")
def _gen(I, e, A):
    v = A.get(0)
    f = N.fac(I, v)
    nm = canonname(e)
    d = A.deps(I)
    if f is not None:
        sh = None
        if nm.endswith("unique"):
            sh = (None,)
        mx = f.mx if f.mx in ("C", "Z", "MIX") else None
        if isinstance(f.mx, tuple) and f.mx[0] == "R":
            mx = f.mx
        f = strong(f).cp(shape=sh, mx=mx, idx=None, dim=None, chg=None if nm.endswith("sort") else f.chg)
        if nm.endswith(("digitize", "argsort", "searchsorted")):
            f = f.cp(kind="i", prec="I", unit=(), deg=Z0, scale=None, chg=None)
    if nm.endswith("as_strided"):
        return V("num", None, f, v.al if v.k in ("num", "inst") else EMPTY, d)
    if nm.endswith(("array_split", "split")):
        return I.newlist(e, None, V("num", None, f, v.al if v.k in ("num", "inst") else EMPTY, d))
    if nm.endswith("unique") and any(k.startswith("return") for k in A.kw):
        return V("iter", I.fresh_num(e, f.cp(kind=None, prec=None) if f is not None else None, d))
    return I.fresh_num(e, f, d)


@h("numpy.clip")
def _clip(I, e, A):
    o = A.get(3, "out")
    if o is not None:
        I.mutate(e, o, "out= argument")
    fs = [N.fac(I, p) for p in A.pos[:3]]
    f = fs[0]
    if f is not None:
        for g in fs[1:]:
            if g is not None:
                N.add_unit(I, e, f.unit, g.unit, "clipped to")
                f = f.cp(deg=N.sum_deg(f.deg, g.deg), chg=None)
    return keep(I, e, A.get(0), f, A.deps(I))


def rows_of(o):
    return isinstance(o.aux, str) and o.aux.startswith("rows")


@h("numpy.reshape")
def _reshape(I, e, A):
    return nd_method(I, e, A.get(0), "reshape", Args(A.pos[1:], A.kw), A.deps(I))


@h("numpy.transpose")
def _transpose(I, e, A):
    return nd_method(I, e, A.get(0), "transpose", Args(A.pos[1:], A.kw), A.deps(I))


@h("numpy.swapaxes", "numpy.moveaxis")
def _swapaxes(I, e, A):
    return nd_method(I, e, A.get(0), "swapaxes", Args(A.pos[1:], A.kw), A.deps(I))


@h("numpy.expand_dims")
def _expand(I, e, A):
    v = A.get(0)
    f = N.fac(I, v)
    ax = axis_arg(A, 1)
    if f is not None and f.shape is not None and isinstance(ax, int):
        n = len(f.shape) + 1
        a = ax if ax >= 0 else n + ax
        mx = f.mx
        if isinstance(mx, tuple) and mx[0] == "A" and mx[1] >= a:
            mx = ("A", mx[1] + 1)
        f = f.cp(shape=f.shape[:a] + (1,) + f.shape[a:], mx=mx)
    elif f is not None:
        f = f.cp(shape=None, mx=None)
    return N.mk(I, e, v, f, v.al if v.k in ("num", "inst") else EMPTY, A.deps(I))


@h("numpy.interp")
def _interp(I, e, A):
    x, xp, fp = [N.fac(I, A.get(i)) for i in range(3)]
    if x is not None and xp is not None:
        N.add_unit(I, e, x.unit, xp.unit, "interpolation abscissa compared with")
    f = None
    if fp is not None:
        f = fp.cp(shape=x.shape if x is not None else None, mx=None, idx=None, dim=None, prec="D")
        if x is not None:
            m = [y.mx for y in (x, xp, fp) if y is not None and y.mx not in ("C", "Z")]
            f = f.cp(mx="C" if not m else m[0] if all(q == m[0] for q in m) and (isinstance(m[0], tuple) and m[0][0] == "R" or m[0] == "MIX") else None)
    return I.fresh_num(e, f, A.deps(I))


@h("numpy.polyfit", "numpy.polyval", "numpy.unravel_index", "numpy.fromstring", "numpy.frombuffer", "numpy.packbits",
   "numpy.unpackbits", "numpy.meshgrid", "numpy.convolve", "numpy.correlate", "numpy.outer", "numpy.cov", "numpy.corrcoef", "numpy.trapz", "numpy.loadtxt", "numpy.fromfile", "numpy.load", "numpy.gradient")
def _unk(I, e, A):
    if canonname(e).endswith(("meshgrid", "unravel_index")):
        return V("iter", I.fresh_num(e, None, A.deps(I)))
    fs = [N.fac(I, p) for p in A.pos]
    mx = None
    if fs and all(f is not None and f.mx in ("C", "Z") for f in fs):
        mx = "C"
    return I.fresh_num(e, F(mx=mx), A.deps(I))


@h("numpy.errstate", "numpy.seterr", "numpy.set_printoptions")
def _errstate(I, e, A):
    return NONE


@h("numpy.issubdtype", "numpy.can_cast", "numpy.issubsctype")
def _issubdtype(I, e, A):
    a, b = A.get(0), A.get(1)
    if a.k == "dtype" and b.k == "dtype" and a.c[0] is not None and b.c[2] in ("numpy.integer", "numpy.complexfloating", "numpy.floating"):
        return const(a.c[0] == b.c[0], A.deps(I))
    return scalar("b", dp=A.deps(I))


@h("numpy.dtype", "numpy.result_type", "numpy.promote_types")
def _dtype(I, e, A):
    ds = [dtype_of(I, p) if p.k in ("dtype", "const") else ((N.fac(I, p).kind, N.fac(I, p).prec) if N.fac(I, p) is not None else (None, None)) for p in A.pos]
    ds = [x or (None, None) for x in ds]
    if len(ds) == 1:
        return V("dtype", ds[0] + ("dtype",), dp=A.deps(I))
    k, p = ds[0]
    for k2, p2 in ds[1:]:
        k = jkind(k, k2)
        p = p if p == p2 else ("D" if "D" in (p, p2) else None)
    return V("dtype", (k, p, "dtype"), dp=A.deps(I))


# ---------------------------------------------------------------- random
def draw(I, e, A, shape, extra=EMPTY):
    """record a draw from a random generator: which generator, how many samples (shape), under which loops"""
    g = getattr(A, "gen", None)
    gen = "global" if g is None else g.c
    loops = tuple(sum(([s for s in f.loopsyms] for f in I.stack), []))
    I.ev("rng", e, what=canonname(e), gen=gen, gendep=tuple(sorted(g.dp)) if g is not None else (), shape=shape, loops=loops)
    return A.deps(I) | frozenset(["RNG"]) | extra | (g.dp if g is not None else EMPTY)


@h("numpy.random.randn", "numpy.random.normal", "numpy.random.rand", "numpy.random.random", "numpy.random.standard_normal",
   "numpy.random.uniform", "numpy.random.random_sample")
def _randn(I, e, A):
    nm = canonname(e).split(".")[-1]
    unit, deg = (), Z0
    if nm in ("normal", "uniform"):
        sz = A.get(2, "size")
        for p, kw in ((0, "loc"), (1, "scale")) if nm == "normal" else ((0, "low"), (1, "high")):
            v = A.get(p, kw)
            if v is None:
                continue
            f = N.fac(I, v)
            if f is None:
                unit = None
                continue
            if f.unit not in ((), "Z"):
                unit = f.unit
            if f.deg not in (0, "Z"):
                deg = f.deg
        if sz is not None:
            sh = shape_arg(I, sz)
        else:
            sh = ()
            for v in (A.get(0), A.get(1), A.get(None, "loc"), A.get(None, "scale")):
                f = N.fac(I, v) if v is not None else None
                if v is not None and (f is None or f.shape != ()):
                    sh = f.shape if f is not None and sh == () else None
    elif nm in ("randn", "rand"):
        sh = shape_arg(I, tup(A.pos)) if A.pos else ()
        if A.star is not None:
            sh = shape_arg(I, A.star) if not A.pos else None
    else:
        v = A.get(0, "size")
        sh = shape_arg(I, v) if v is not None else ()
    d = draw(I, e, A, sh)
    return arr(I, e, F("f", "D", unit, None, deg, Z0, "C", sh), d)


@h("numpy.random.randint", "numpy.random.choice", "numpy.random.permutation", "numpy.random.integers")
def _randint(I, e, A):
    nm = canonname(e).split(".")[-1]
    if nm in ("choice", "permutation"):
        f = N.fac(I, A.get(0))
        sz = A.get(1, "size") if nm == "choice" else A.get(0)
        sh = (shape_arg(I, sz) if sz is not None else ()) if nm == "choice" else (f.shape if f is not None else None)
        d = draw(I, e, A, sh)
        if f is not None:
            f = strong(f).cp(shape=sh, idx=None, dim=None)
        return arr(I, e, f, d)
    sz = A.get(2, "size")
    sh = shape_arg(I, sz) if sz is not None else ()
    d = draw(I, e, A, sh)
    return arr(I, e, F("i", "I", (), None, Z0, Z0, "C", sh), d)


@h("numpy.random.seed", "numpy.random.set_state")
def _seed(I, e, A):
    g = getattr(A, "gen", None)
    if g is None:
        I.ev("globalwrite", e, name="numpy.random global state", module=I.fr.module.name)
        I.ev("reseed", e, what=canonname(e))
    return NONE


@h("random.seed")
def _pseed(I, e, A):
    I.ev("globalwrite", e, name="random global state", module=I.fr.module.name)
    I.ev("reseed", e, what=canonname(e))
    return NONE


@h("numpy.random.shuffle")
def _shuffle(I, e, A):
    draw(I, e, A, None)
    I.mutate(e, A.get(0), "shuffled in place")
    N.store_content(I, A.get(0), V("num", None, None, EMPTY, frozenset(["RNG"])), e)
    return NONE


@h("numpy.random.RandomState", "numpy.random.default_rng", "numpy.random.Generator", "random.Random")
def _rs(I, e, A):
    s = A.get(0, "seed")
    lit = any(isinstance(x, ast.Constant) for x in list(e.args) + [k.value for k in e.keywords])
    if s is None or lit and isconst(s, None):
        mode = "unseeded"
    elif isconst(s, None):
        mode = "os-entropy"
    elif not (I.deep_deps(s) - frozenset(["RNG"])):
        mode = "fixed-seed"
    else:
        mode = "caller-seed"
    return V("rngobj", mode, dp=A.deps(I))


@h("numpy.random.get_state")
def _gs(I, e, A):
    return top(A.deps(I))


# ---------------------------------------------------------------- in-place functions
@h("numpy.put", "numpy.copyto", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.add.at", "numpy.subtract.at")
def _put(I, e, A):
    I.mutate(e, A.get(0), "modified by %s" % canonname(e))
    v = A.get(1) if canonname(e).endswith("copyto") else (A.pos[2] if len(A.pos) > 2 else top())
    N.store_content(I, A.get(0), v, e)
    return NONE


# ---------------------------------------------------------------- scipy
@h("scipy.signal.fftconvolve", "scipy.signal.convolve", "scipy.signal.oaconvolve")
def _fftconv(I, e, A):
    fa, fb = N.fac(I, A.get(0)), N.fac(I, A.get(1))
    if fa is None or fb is None:
        return I.fresh_num(e, None, A.deps(I))
    ax = A.get(None, "axes")
    mx = None
    if fa.mx in ("C", "Z") and fb.mx in ("C", "Z"):
        mx = "C"
    elif "MIX" in (fa.mx, fb.mx):
        mx = "MIX"
    elif isinstance(fa.mx, tuple) and fa.mx[0] == "R" and (fb.mx in ("C", "Z") or fb.mx == fa.mx):
        mx = fa.mx
    elif isinstance(fb.mx, tuple) and fb.mx[0] == "R" and fa.mx in ("C", "Z"):
        mx = fb.mx
    elif isinstance(fa.mx, tuple) and fa.mx[0] == "A" and ax is not None and ax.k == "const" and ax.c in (-1, 1):
        mx = fa.mx
    elif isinstance(fa.mx, tuple) and isinstance(fb.mx, tuple) and fa.mx[0] == fb.mx[0] == "R" and fa.mx != fb.mx:
        mx = "MIX" if not ("?" in fa.mx[1] or "?" in fb.mx[1]) else None
    f = F(jkind(fa.kind, fb.kind), N.bprec(strong(fa).cp(shape=(None,)), strong(fb).cp(shape=(None,))), unit_mul(fa.unit, fb.unit), None, N.addz(fa.deg, fb.deg),
          N.mul_chg(fa.chg, fb.chg, 1, None, None), mx, None if fa.shape is None else (None,) * len(fa.shape))
    return I.fresh_num(e, f, A.deps(I))


@h("scipy.signal.resample_poly")
def _rpoly(I, e, A):
    f = N.fac(I, A.get(0))
    if f is None:
        return I.fresh_num(e, None, A.deps(I))
    ax = axis_arg(A, 3, "axis", 0)
    mx = f.mx
    if isinstance(mx, tuple) and mx[0] == "A":
        n = f.ndim
        a = ax if isinstance(ax, int) and ax >= 0 else (n + ax if n is not None and isinstance(ax, int) else None)
        if a == mx[1]:
            mx = "MIX"
        elif a is None:
            mx = None
    sh = None if f.shape is None else tuple(s if isinstance(f.mx, tuple) and f.mx == ("A", i) else None for i, s in enumerate(f.shape))
    p = f.prec
    return I.fresh_num(e, f.cp(mx=mx, shape=sh, idx=None, dim=None, prec=p), A.deps(I))


@h("scipy.signal.sosfilt", "scipy.signal.lfilter", "scipy.signal.filtfilt", "scipy.signal.sosfiltfilt", "scipy.signal.lsim")
def _sosfilt(I, e, A):
    nm = canonname(e)
    i = {"sosfilt": 1, "lfilter": 2, "filtfilt": 2, "sosfiltfilt": 1, "lsim": 1}.get(nm.split(".")[-1], 1)
    v = A.get(i, "x")
    f = N.fac(I, v) if v is not None else None
    ax = axis_arg(A, i + 1 if nm.endswith("sosfilt") else 9, "axis", -1)
    if f is not None:
        mx = f.mx
        if isinstance(mx, tuple) and mx[0] == "A":
            n = f.ndim
            a = ax if isinstance(ax, int) and ax >= 0 else (n + ax if n is not None and isinstance(ax, int) else None)
            mx = "MIX" if a == mx[1] else mx if a is not None else None
        f = f.cp(mx=mx, prec=None, idx=None, dim=None)
    if nm.endswith("lsim") and f is not None:
        if f.kind == "c":
            I.ev("dropsimag", e, what="lsim uses the real part of its input only")
        f = f.cp(kind="f", chg=f.chg if f.kind == "f" else None)        # drops the imaginary part
        ft = N.fac(I, A.get(2, "T")) if A.get(2, "T") is not None else None
        if ft is not None and ft.unit not in (None, "Z", "X") and unit_strip(ft.unit) not in ((("s", Fraction(1)),), ()):
            I.ev("unit", e, what="time axis of lsim", a=unit_str(ft.unit), b="s")
    r = I.fresh_num(e, f, A.deps(I))
    if nm.endswith("lsim"):
        return tup([I.fresh_num(e, None, A.deps(I)), r, top(A.deps(I))])
    return r


@h("scipy.signal.bessel", "scipy.signal.butter", "scipy.signal.cheby1", "scipy.signal.ellip", "scipy.signal.firwin")
def _iir(I, e, A):
    """critical frequency: with fs= the cutoff must be a frequency, without it (digital) it must be
    normalised (dimensionless); analogue designs take rad/s"""
    wn = A.get(1, "Wn")
    fs = A.get(None, "fs")
    if fs is not None and fs.k == "const" and fs.c is None:
        fs = None
    an = A.get(3, "analog")
    f = N.fac(I, wn) if wn is not None else None
    I.ev("filterdesign", e, unit=unit_str(f.unit) if f is not None else "?", fs=("given" if fs is not None else "none"),
         analog=str(bool(an.c)) if an is not None and an.k == "const" else "False")
    if f is not None and f.unit not in (None, "Z", "X"):
        if fs is not None:
            ff = N.fac(I, fs)
            if ff is not None:
                N.add_unit(I, e, f.unit, ff.unit, "cutoff relative to fs")
        elif not (an is not None and an.k == "const" and an.c):
            if unit_strip(f.unit) != ():
                I.ev("unit", e, what="normalised digital cutoff", a=unit_str(f.unit), b="1")
        elif unit_strip(f.unit) == () and f.unit != "Z" and wn.k != "const":
            I.ev("unit", e, what="analogue cutoff", a=unit_str(f.unit), b="1/s")
    x = I.fresh_num(e, F("f", "D", (), None, Z0, Z0, "C", None), A.deps(I))
    out = A.get(None, "output")
    if out is not None and out.k == "const" and out.c == "sos":
        return x
    return tup([x, x])


@h("scipy.signal.sosfreqz", "scipy.signal.freqz", "scipy.signal.freqs")
def _sosfreqz(I, e, A):
    x = I.fresh_num(e, F("c", "D", (), None, Z0, Z0, "C", None), A.deps(I))
    return tup([x, x])


@h("warnings.warn")
def _warn(I, e, A):
    I.used |= A.deps(I) | I.pc
    return NONE


@h("fractions.Fraction")
def _frac(I, e, A):
    return top(A.deps(I))


@h("numpy.ndarray.__new__")
def _ndnew(I, e, A):
    b = A.kw.get("buffer")
    sh = A.kw.get("shape")
    f = N.fac(I, b) if b is not None else None
    if f is None or sh is None:
        return I.fresh_num(e, F(), A.deps(I))
    # a window view of the buffer: same numbers, other layout
    mx = f.mx
    if isinstance(mx, tuple) and mx[0] == "A":
        mx = None
    return V("num", None, strong(f).cp(shape=shape_arg(I, sh), mx=mx, idx=None, dim=None), b.al if b.k in ("num", "inst") else EMPTY, A.deps(I))


# ---------------------------------------------------------------- dispatch
def call_ext(I, fv, e, pos, kw, star=None, dstar=None):
    A = Args(pos, kw, star, dstar)
    d = A.deps(I)
    if fv.k == "dtype":
        return cast(I, e, fv, A)
    if fv.k == "rngm":
        g, name = fv.c
        A.gen = g
        fn = H.get("numpy.random." + name)
        _CUR[id(e)] = "numpy.random." + name
        if fn is None:
            return I.fresh_num(e, None, draw(I, e, A, None))
        return fn(I, e, A)
    if fv.k == "ext":
        nm = fv.c
        _CUR[id(e)] = nm
        if nm in ("builtins.int", "builtins.float", "builtins.bool", "builtins.complex"):
            return cast(I, e, V("dtype", N.DTYPES[nm] + (nm,)), A)
        fn = H.get(nm)
        if fn is None:
            if nm.startswith("builtins.") and nm.endswith(("Error", "Exception", "Warning", "Interrupt")):
                return V("exc", dp=d)
            if nm.startswith(("numpy.random.", "random.", "secrets.")) or nm in ("os.urandom", "uuid.uuid4"):
                return I.fresh_num(e, None, draw(I, e, A, None))
            I.unknown_ext[nm] = I.unknown_ext.get(nm, 0) + 1
            if not nm.startswith(("numpy.", "scipy.", "builtins.")):
                I.used |= d                     # handed to the outside world
            if nm.startswith(("pickle.", "msgpack", "zlib.")):
                return top(d)
            if "out" in kw:
                I.mutate(e, kw["out"], "out= argument")
            if nm.startswith(("numpy.", "scipy.", "fft.")):
                fs = [N.fac(I, p) for p in pos]
                mx = "C" if fs and all(f is not None and f.mx in ("C", "Z") for f in fs) else None
                return I.fresh_num(e, F(mx=mx) if mx else None, d)
            return top(d)
        if fn is _array:
            return fn(I, e, A, nm)
        if not pos and star is not None:
            return I.fresh_num(e, None, d)
        try:
            return fn(I, e, A)
        except (IndexError, AttributeError, TypeError) as x:
            if I.opts.get("debug"):
                raise
            I.unknown_ext["!" + nm + ":" + str(x)] = 1
            return I.fresh_num(e, None, d)
    if fv.k == "extmeth":
        return extmeth(I, e, fv, A)
    if fv.k == "meth":
        recv, name = fv.c
        return method(I, e, recv, name, A)
    return top(d | fv.dp)


def extmeth(I, e, fv, A):
    cname, name, selfv = fv.c
    if name == "__new__":
        return I.fresh_num(e, F(), A.deps(I))
    if name == "__reduce__":
        # (reconstruct, (class, shape, typecode), (version, shape, dtype, order, data)); unpickling allocates new memory
        return tup([top(), top(), tup([const(1), top(), top(), const(False), top()])])
    if name in ("__setstate__", "__init__", "__array_finalize__"):
        I.ev("extsuper", e, name=name)
        if name == "__setstate__" and A.pos and A.pos[0].k == "tuple" and len(A.pos[0].c) not in (4, 5):
            I.ev("badcall", e, what="the state given to ndarray.__setstate__ has %d elements, not 5" % len(A.pos[0].c))
        return NONE
    if selfv is not None and N.is_nd_attr(name):
        if selfv.k in ("inst", "num"):
            return nd_method(I, e, selfv, name, A, A.deps(I))
    return top(A.deps(I))


def cast(I, e, dt, A):
    v = A.get(0)
    if v is None:
        return const(0)
    k, p, nm = dt.c
    if v.k == "union":
        rs = [cast(I, e, dt, Args([x] + A.pos[1:], A.kw)) for x in v.c if x.k != "never"]
        r = rs[0]
        for x in rs[1:]:
            r = join(r, x)
        return r
    if v.k == "const" and nm.startswith("builtins"):
        try:
            fn = {"builtins.int": int, "builtins.float": float, "builtins.complex": complex, "builtins.bool": bool}[nm]
            return const(fn(v.c), v.dp)
        except Exception:
            if v.c is None:
                I.ev("badcall", e, callee=nm, why="conversion of None")
                return V("never")
            return scalar(k, dp=v.dp)
    f = N.fac(I, v)
    if f is None:
        return scalar(k, "W" if nm.startswith("builtins") else p, dp=A.deps(I), unit=None, deg=None, chg=None, mx=None)
    sh = () if nm.startswith("builtins") else f.shape
    mx = f.mx
    if nm.startswith("builtins") and isinstance(mx, tuple) and mx[0] == "A":
        mx = None
    g = f.cp(kind=k, prec="W" if nm.startswith("builtins") else p, shape=sh, mx=mx)
    if nm == "builtins.int":
        g = g.cp(deg=f.deg if f.deg in (0, "Z") else None, chg=f.chg if f.chg in (0, "Z") else None)
    else:
        g = g.cp(idx=None, dim=None)
    if nm == "builtins.bool":
        g = g.cp(unit=(), scale=None)
    return V("num", None, g, EMPTY, A.deps(I))


def method(I, e, recv, name, A):
    d = A.deps(I) | I.deep_deps(recv)
    k = recv.k
    if k in ("num", "inst"):
        return nd_method(I, e, recv, name, A, d)
    if k == "const":
        if isinstance(recv.c, str):
            if name == "format":
                return V("str", dp=d)
            if all(p.k == "const" for p in A.pos) and not A.kw:
                try:
                    r = getattr(recv.c, name)(*[p.c for p in A.pos])
                    if isinstance(r, (str, bool, int)):
                        return const(r, d)
                except Exception:
                    pass
            return V("str", dp=d)
        if isinstance(recv.c, int) and name == "bit_length":
            return const(recv.c.bit_length())
        return scalar(dp=d)
    if k == "file":
        return file_method(I, e, recv, name, A.pos, d)
    if k == "str" or k == "strother":
        if name in ("lower", "upper", "strip") and k == "strother":
            return recv
        return V("str", dp=d)
    if k == "list":
        o = I.obj(recv)
        if name in ("append", "add"):
            I.mutate(e, recv, "list appended in place")
            w = I.wobj(recv)
            if w is not None:
                x = A.get(0)
                x = I.settle(x.dep(I.pc))
                if w.elts is not None and len(w.elts) < 48 and not I.fr.loops:
                    w.elts.append(x)
                else:
                    for y in (w.elts or []):
                        x = join(x, y)
                    if w.elem is not None:
                        # element joins across iterations keep row symbols apart
                        ey = w.elem
                        if x.f is not None and ey.f is not None and isinstance(x.f.mx, tuple) and isinstance(ey.f.mx, tuple) \
                                and x.f.mx[0] == "R" and ey.f.mx[0] == "R" and ey.f.mx[1].rstrip("'") == x.f.mx[1]:
                            ey = ey.cp(f=ey.f.cp(mx=x.f.mx))
                        x = join(x, ey)
                    w.elts, w.elem = None, x
            return NONE
        if name in ("extend",):
            N.list_extend(I, recv, A.get(0), e)
            return NONE
        if name in ("insert", "remove", "sort", "reverse", "clear", "pop", "discard"):
            I.mutate(e, recv, "list.%s in place" % name)
            w = I.wobj(recv)
            r = N.elem_of(I, recv, e).dep(d)
            if w is not None:
                if name == "insert":
                    N.list_extend(I, recv, tup([A.get(1)]), e)
                elif name in ("remove", "pop", "discard") and w.elts is not None:
                    if name == "pop" and w.elts and (not A.pos or isconst(A.pos[0], -1)):
                        r = w.elts.pop()
                        return r
                    if name == "pop" and w.elts and isconst(A.pos[0], 0):
                        return w.elts.pop(0)
                    x = None
                    for y in w.elts:
                        x = y if x is None else join(x, y)
                    w.elts, w.elem = None, x
            return r if name == "pop" else NONE
        if name == "copy":
            return I.newlist(e, list(o.elts) if o.elts is not None else None, o.elem)
        if name in ("index", "count"):
            return scalar("i", dp=d)
        return top(d)
    if k == "dict":
        o = I.obj(recv)
        if o is None:
            return top(d)
        if name in ("update",):
            I.mutate(e, recv, "dict updated in place")
            w = I.wobj(recv)
            for a in alts(A.get(0)) if A.pos else []:
                ao = I.obj(a) if a.k == "dict" else None
                if ao is not None:
                    for kk, vv in ao.items.items():
                        w.items[kk] = vv if kk not in ao.maybe or kk not in w.items else join(vv, w.items[kk])
                    if ao.other is not None:
                        w.other = ao.other if w.other is None else join(w.other, ao.other)
                        # unknown keys may replace any known one
                        for kk in list(w.items):
                            if kk not in ao.items:
                                w.items[kk] = join(w.items[kk], ao.other)
                else:
                    w.other = top(I.deep_deps(a))
            w.items.update(A.kw)
            return NONE
        if name == "pop":
            I.mutate(e, recv, "dict.pop in place")
            w = I.wobj(recv)
            key = A.get(0)
            if key.k == "const" and key.c in w.items:
                r = w.items.pop(key.c)
                if key.c in w.maybe:
                    w.maybe.discard(key.c)
                    if A.get(1) is not None:
                        r = join(r, A.get(1))
                return r
            if A.get(1) is not None:
                return A.get(1) if w.other is None else join(A.get(1), w.other)
            if w.other is not None:
                return w.other
            if True:
                I.ev("badkey", e, key=str(getattr(key, "c", "?")))
            return top(d)
        if name == "setdefault":
            I.mutate(e, recv, "dict.setdefault in place")
            key = A.get(0)
            if key.k == "const":
                w = I.wobj(recv)
                if key.c not in w.items:
                    w.items[key.c] = A.get(1) or NONE
                return w.items[key.c]
            return top(d)
        if name in ("clear", "popitem"):
            I.mutate(e, recv, "dict.%s in place" % name)
            return top(d)
        if name == "get":
            key = A.get(0)
            df = A.get(1) or NONE
            if key.k == "const":
                if key.c in o.items:
                    return o.items[key.c] if key.c not in o.maybe else join(o.items[key.c], df)
                return df if o.other is None else join(df, o.other)
            r = N.getitem(I, recv, key, e) if o.items or o.other is not None else df
            return join(r, df)
        if name == "copy":
            return I.newdict(e, dict(o.items), o.other)
        if name == "items":
            if o.other is None and not o.maybe:
                return V("exactiter", tuple(tup([const(a), b]) for a, b in o.items.items()))
            vs = list(o.items.values()) + ([o.other] if o.other is not None else [])
            r = vs[0]
            for v in vs[1:]:
                r = join(r, v)
            ks = union([const(x) for x in o.items] + ([V("str", dp=o.other.dp)] if o.other is not None else []))
            return V("iter", tup([ks, r]))
        if name == "keys":
            if o.other is None and not o.maybe:
                return V("exactiter", tuple(const(a) for a in o.items))
            return V("iter", V("str"))
        if name == "values":
            if o.other is None and not o.maybe:
                return V("exactiter", tuple(o.items.values()))
            vs = list(o.items.values()) + ([o.other] if o.other is not None else [])
            r = vs[0]
            for v in vs[1:]:
                r = join(r, v)
            return V("iter", r)
        return top(d)
    if k == "rngobj":
        if name in ("randint", "choice", "integers"):
            sz = A.get(2 if name != "choice" else 1, "size")
            tag = "RNG" if recv.c == "unseeded" else "SRNG"
            return arr(I, e, F("i", "I", (), None, Z0, Z0, "C", shape_arg(I, sz) if sz is not None else ()), d | frozenset([tag]))
        return arr(I, e, F("f", "D", (), None, Z0, Z0, "C", None), d | frozenset(["RNG" if recv.c == "unseeded" else "SRNG"]))
    if k == "dtype" and name == "type":
        return cast(I, e, recv, A)
    if k == "top":
        if name in ("append", "extend", "insert", "pop", "remove", "sort", "fill", "put", "resize", "update", "setdefault", "clear",
                    "partition", "itemset", "setfield"):
            I.mutate(e, recv, ".%s() in place" % name)
            return top(d)
        if name in ("reshape", "ravel", "view", "squeeze", "transpose", "swapaxes"):
            return V("top", None, None, recv.al, d)
        if name in ("write", "writelines", "dump", "send", "print"):
            I.used |= d
        return top(d)
    return top(d)


def nd_method(I, e, a, name, A, d):
    if a.k == "union":
        rs = [nd_method(I, e, x, name, A, d) for x in a.c]
        r = rs[0]
        for x in rs[1:]:
            r = join(r, x)
        return r
    if a.k not in ("num", "inst"):
        a2 = a
        f = N.fac(I, a)
        if f is None:
            return top(d, a.al)
        a = V("num", None, strong(f), EMPTY, d)
    f = N.fac(I, a)
    A2 = Args([a] + A.pos, A.kw, A.star, A.dstar)
    if name in ("sum", "mean", "max", "min", "std", "var", "prod", "any", "all", "argmax", "argmin", "cumsum", "conj", "conjugate",
                "round", "clip", "repeat", "nonzero", "take", "dot", "diagonal", "trace", "cumprod", "ptp", "searchsorted", "argsort"):
        fn = H.get("numpy." + {"conjugate": "conj"}.get(name, name))
        if fn is not None:
            # canonname must reflect the method
            return fn(I, e, A2)
        return I.fresh_num(e, None, d)
    if name in ("copy", "__copy__", "__deepcopy__"):
        return keep(I, e, a, f, d)
    if name == "astype":
        dt = dtype_of(I, A.get(0, "dtype"))
        arg = A.get(0, "dtype")
        if arg is not None and arg.k == "inst" or arg is not None and arg.k == "num" and arg.f is not None and arg.f.shape:
            I.ev("badcall", e, callee="astype", why="an array is passed where a dtype is expected")
        if f is not None:
            g = f.cp(idx=None, dim=None)
            if dt is not None:
                real_of(I, e, f, dt[0])
                g = g.cp(kind=dt[0], prec=dt[1])
                if dt[0] in ("b",):
                    g = g.cp(unit=(), scale=None)
            f = g
        c = A.get(None, "copy")
        if c is not None and c.k == "const" and c.c is False:
            return N.mk(I, e, a, f, a.al, d)
        return keep(I, e, a, f, d)
    if name == "view":
        t = A.get(0, "dtype") or A.get(None, "type")
        if t is not None and t.k == "class":
            return I.make_view(e, a, t.c, f=f, al=a.al).dep(d)
        if t is not None and t.k == "ext" and t.c == "numpy.ndarray":
            return V("num", None, f, a.al, d)
        if t is not None and t.k == "union":
            rs = [nd_method(I, e, a, name, Args([x], {}), d) for x in t.c]
            r = rs[0]
            for x in rs[1:]:
                r = join(r, x)
            return r
        if t is None:
            return N.mk(I, e, a, f, a.al, d)
        return V("num", None, None, a.al, d)
    if name in ("flatten", "ravel"):
        if f is not None:
            mx = f.mx
            if isinstance(mx, tuple) and mx[0] == "A" and f.ndim != 1:
                mx = None
            big = None if f.shape is None else [x for x in f.shape if x != 1]
            f = f.cp(shape=f.shape if f.ndim == 1 else ((big[0],) if big is not None and len(big) == 1 else (None,)), mx=mx, idx=None, dim=None)
        if name == "flatten":
            return keep(I, e, a, f, d)
        return N.mk(I, e, a, f, a.al, d)
    if name == "reshape":
        shv = A.pos[0] if len(A.pos) == 1 else (tup(A.pos) if A.pos else A.get(None, "newshape") or A.get(None, "shape"))
        sh = shape_arg(I, shv) if shv is not None else None
        if sh is not None and f is not None and f.shape is not None and sh and all(isinstance(s, int) and s >= 0 for s in sh) \
                and any(s in N.BASEDIMS for s in f.shape) and all(isinstance(s, int) or s in N.BASEDIMS for s in f.shape):
            I.ev("shapes", e, what="an array of %s reshaped to the fixed shape %s" % (N.dims(f.shape), N.dims(sh)))
        if sh is not None:
            sh = tuple(None if s == -1 else s for s in sh)
        if f is not None:
            mx = f.mx
            if isinstance(mx, tuple) and mx[0] == "A":
                if sh is not None and f.shape is not None and mx[1] == 0 and len(sh) >= 1 and sh[0] == f.shape[0] and sh[0] is not None:
                    mx = ("A", 0)
                elif sh is not None and sh == f.shape:
                    pass
                else:
                    mx = None
            f = f.cp(shape=sh, mx=mx, idx=None, dim=None)
        return N.mk(I, e, a, f, a.al, d)
    if name == "transpose":
        order = None
        if f is not None and f.shape is not None:
            if not A.pos:
                order = list(range(len(f.shape)))[::-1]
            else:
                it = A.pos if len(A.pos) > 1 else N.exact_items(I, A.pos[0])
                if it is not None and all(x.k == "const" for x in it):
                    order = [x.c for x in it]
        return N.mk(I, e, a, N.perm(f, order), a.al, d)
    if name == "swapaxes":
        order = None
        if f is not None and f.shape is not None and all(p.k == "const" for p in A.pos[:2]) and len(A.pos) >= 2:
            order = list(range(len(f.shape)))
            i, j = A.pos[0].c, A.pos[1].c
            order[i], order[j] = order[j], order[i]
        return N.mk(I, e, a, N.perm(f, order), a.al, d)
    if name == "squeeze":
        return _array1(I, e, Args([a], {}), "numpy.squeeze", a)
    if name in ("sort", "fill", "put", "resize", "itemset", "partition", "setfield", "byteswap", "setflags"):
        if name != "setflags":
            I.mutate(e, a, ".%s() in place" % name)
            if name == "fill":
                N.store_content(I, a, A.get(0), e)
        return NONE
    if name in ("tolist",):
        return V("iter", top(d))
    if name in ("item",):
        return V("num", None, f.cp(shape=(), mx=f.mx if not (isinstance(f.mx, tuple) and f.mx[0] == "A") else None) if f is not None else None, EMPTY, d)
    if name in ("tostring", "tobytes"):
        if name == "tostring":
            I.ev("deprecated", e, name=name)
        return V("bytes", ("tobytes", (a,)), dp=d)
    if a.k == "num" and f is not None and f.shape is not None and not N.is_nd_attr(name):
        I.ev("noattr", e, attr=name, cls="ndarray", why="plain arrays have no such attribute")
    return top(d)
