"""Transfer functions for numpy/scipy/builtin operations used by the package."""
import ast
from fractions import Fraction
from .values import *
from .project import FuncInfo, ClassInfo, Module

O = ast

SING = {"numpy.complex64", "numpy.float32", "numpy.single", "numpy.csingle"}
CPLX = {"numpy.complex64", "numpy.complex128", "numpy.complex_", "numpy.cdouble", "numpy.csingle", "builtins.complex"}
DTYPES = {"numpy.complex64": ("c", "S"), "numpy.complex128": ("c", "D"), "numpy.cdouble": ("c", "D"),
          "numpy.complex_": ("c", "D"), "builtins.complex": ("c", "D"),
          "numpy.float32": ("f", "S"), "numpy.float64": ("f", "D"), "numpy.float_": ("f", "D"),
          "builtins.float": ("f", "D"), "numpy.double": ("f", "D"),
          "builtins.int": ("i", "I"), "numpy.int64": ("i", "I"), "numpy.int32": ("i", "I"), "numpy.int_": ("i", "I"),
          "numpy.uint8": ("i", "I8"), "numpy.int8": ("i", "I8"), "numpy.uint16": ("i", "I8"), "numpy.int16": ("i", "I8"),
          "numpy.uint32": ("i", "I"), "numpy.uint64": ("i", "I"),
          "builtins.bool": ("b", "B"), "numpy.bool_": ("b", "B"), "numpy.bool": ("b", "B"),
          "numpy.integer": ("i", "I"), "numpy.complexfloating": ("c", None), "numpy.floating": ("f", None)}
CONSTS = {"numpy.pi": 3.141592653589793, "math.pi": 3.141592653589793, "numpy.e": 2.718281828459045,
          "numpy.inf": float("inf"), "numpy.nan": float("nan"), "numpy.newaxis": None, "scipy.pi": 3.141592653589793,
          "scipy.constants.c": None}

ND_ATTRS = set("shape size ndim dtype real imag T flat astype copy view conj conjugate flatten ravel reshape sum mean max min "
               "argmax argmin dot transpose swapaxes squeeze tolist tostring tobytes std var fill sort put resize item nbytes "
               "any all cumsum prod round clip repeat take nonzero __reduce__ __setstate__ __array_finalize__ itemsize strides flags "
               "base __class__ partition byteswap setfield setflags itemset argsort searchsorted trace ptp choose diagonal compress cumprod data ctypes __len__ __array_priority__".split())


def is_nd_attr(n):
    return n in ND_ATTRS


def ext_value(I, name):
    name = canon(name)
    if name in CONSTS:
        c = CONSTS[name]
        if name == "scipy.constants.c":
            return V("num", None, F("f", "W", (("m", Fraction(1)), ("s", Fraction(-1))), None, Fraction(0), Fraction(0), "C", ()))
        return const(c)
    if name in DTYPES:
        return V("dtype", DTYPES[name] + (name,))
    return V("ext", name)


def canon(n):
    for a, b in (("scipy.fftpack.", "fft."), ("scipy.fft.", "fft."), ("numpy.fft.", "fft."), ("scipy.fft", "fft"),
                 ("numpy.fft", "fft"), ("numpy.core.", "numpy."), ("numpy.lib.", "numpy.")):
        if n.startswith(a) and (a.endswith(".") or n == a):
            return b + n[len(a):]
    return n


# ------------------------------------------------------------------ helpers
def maybe_array(v):
    """may this value be a mutable array (as opposed to a Python/0-d number)?"""
    if v.k == "inst":
        return True
    if v.k == "top":
        return bool(v.al)
    if v.k == "num":
        if v.f is not None and v.f.shape == ():
            return False
        if v.f is not None and v.f.shape is not None:
            return True
        return bool(v.al)
    return False


def isnum(v):
    return v.k in ("num", "inst") or (v.k == "const" and isinstance(v.c, (int, float, complex)))


def fac(I, v):
    """effective facets of a value (with stored content folded in); None if not numeric"""
    if v.k == "const":
        return v.f
    if v.k in ("num", "inst"):
        v = overlay(I, v)
        return v.f
    if v.k in ("tuple", "list"):
        it = exact_items(I, v)
        if it is None:
            o = I.obj(v) if v.k == "list" else None
            if o is not None and o.elem is not None:
                f = fac(I, o.elem)
                if f is None:
                    return None
                return stack_f([f], None, closed=(o.aux if isinstance(o.aux, str) else None))
            return None
        if not it:
            return F(prec="D", unit="Z", deg="Z", chg="Z", mx="Z", shape=(0,))
        fs = [fac(I, x) for x in it]
        if any(f is None for f in fs):
            return None
        return stack_f(fs, len(it))
    if v.k == "union":
        fs = [fac(I, a) for a in v.c if not (a.k == "const" and a.c is None)]
        if not fs or any(f is None for f in fs):
            return None
        r = fs[0]
        for f in fs[1:]:
            r = jF(r, f)
        return r
    return None


def stack_f(fs, n, closed=None):
    r = fs[0]
    for f in fs[1:]:
        r = jF(r, f)
    sh = None if r.shape is None else (n,) + r.shape
    mx = r.mx
    if closed is not None and closed.startswith("rows"):
        mx = ("A", 0)
        if sh is not None and sh[0] is None and ":" in closed:
            sh = (closed.split(":")[1],) + sh[1:]
    elif isinstance(mx, tuple) and mx[0] == "R":
        if n is None and (mx[1].startswith("k") or "$last" in mx[1]):
            mx = "MIX"             # one row repeated
        elif n is not None and n > 1:
            mx = None
    elif isinstance(mx, tuple) and mx[0] == "A":
        mx = ("A", mx[1] + 1)
    elif len(fs) > 1 and all(isinstance(f.mx, tuple) and f.mx[0] == "R" for f in fs):
        mx = None
    if len(fs) > 1 and all(isinstance(f.mx, tuple) and f.mx[0] == "R" for f in fs):
        syms = [f.mx[1] for f in fs]
        if syms == ["k%d" % i for i in range(len(fs))]:
            mx = ("A", 0)
        elif len(set(syms)) > 1:
            mx = "MIX" if all(s.startswith("k") for s in syms) else None
    prec = r.prec
    if prec == "W":
        prec = {"b": "B", "i": "I", "f": "D", "c": "D"}.get(r.kind)
    return r.cp(shape=sh, mx=mx, prec=prec, dim=None, idx=None)


def overlay(I, v):
    if v.f is None:
        # content may still carry dependencies
        d = v.dp
        for r in v.al:
            c = I.st.content.get(r)
            if c is not None:
                d = d | c.dp
        return v if d == v.dp else v.cp(dp=d)
    f, d = v.f, v.dp
    ch = False
    for r in v.al:
        c = I.st.content.get(r)
        if c is None:
            continue
        ch = True
        d = d | c.dp
        if c.f is None:
            f = f.cp(unit=None, scale=None, deg=None, chg=None, mx=None)
            continue
        mx = c.f.mx
        if mx == "AL":
            if isinstance(f.mx, tuple):
                mx = f.mx
            else:
                ax = 0
                mx = ("A", ax) if (f.ndim or 2) >= 1 else None
        f = f.cp(unit=jeq(f.unit, c.f.unit), scale=jeq(f.scale, c.f.scale), deg=jeq(f.deg, c.f.deg),
                 chg=jeq(f.chg, c.f.chg), mx=jmx(f.mx, mx), trig=jeq(f.trig, c.f.trig))
    if not ch:
        return v
    return v.cp(f=f, dp=d)


def inplace_facets(old, new):
    """facets of an array after an in-place arithmetic update: dtype and shape stay"""
    if old is None:
        return None
    return old.cp(unit=new.unit, scale=new.scale, deg=new.deg, chg=new.chg, mx=new.mx)


def scrub(v):
    return v.cp(f=v.f.cp(dim=None, idx=None)) if v.f is not None else v


def store_content(I, a, v, node, whole=False, rowsym=None, aligned=None):
    if not a.al:
        return
    f = fac(I, v)
    d = I.deep_deps(v)
    mx = None
    if f is not None and f.kind == "c" and a.k in ("num", "inst") and a.f is not None and a.f.kind in ("f", "i") and v.k in ("num", "inst"):
        I.ev("dropsimag", node, what="complex values are stored in a real array")
    if f is not None:
        mx = f.mx
        if aligned is not None:
            mx = aligned
        cf = F(f.kind, f.prec, f.unit, f.scale, f.deg, f.chg, mx, trig=f.trig)
    else:
        cf = None
    for r in a.al:
        if cf is None:
            nv = V("num", None, None, EMPTY, d)
            old = I.st.content.get(r)
            if old is not None:
                nv = nv.cp(dp=nv.dp | old.dp)
            I.st.content[r] = nv
            continue
        nv = V("num", None, cf, EMPTY, d)
        old = I.st.content.get(r)
        if old is not None:
            if whole == "strong":
                nv = nv.cp(dp=d)
            elif whole:
                nv = nv.cp(dp=d | old.dp)
            else:
                nv = join(old, nv)
        I.st.content[r] = nv


def is_mode_sym(idx):
    """row symbol for a (const or symbolic) integer index value"""
    if idx.k == "const" and isinstance(idx.c, int) and not isinstance(idx.c, bool):
        return "k%d" % idx.c
    if idx.k == "num" and idx.f is not None:
        if idx.f.idx is not None:
            return idx.f.idx
        if idx.f.shape == () and idx.f.kind == "i":
            return "?"
    return None


def store(I, a, idx, v, node):
    """array item store a[idx] = v"""
    I.mutate(node, a, "item assigned")
    h = I.hooks.get("store")
    if h is not None:
        h(I, a, idx, v, node)
    d = I.deep_deps(idx)
    v = v.dep(d)
    f = fac(I, v)
    f_a = a.f
    aligned = None
    if f is not None and f_a is not None:
        first = idx.c[0] if idx.k == "tuple" and idx.c else idx
        rest_full = True
        mx = f.mx
        if isinstance(f_a.mx, tuple) and f_a.mx[0] == "R":
            # storing into a row view
            if mx == "C" or mx == "Z":
                aligned = mx
            elif isinstance(mx, tuple) and mx[0] == "R":
                aligned = "AL" if mx[1] == f_a.mx[1] and "?" not in mx[1] else ("MIX" if mx[1].startswith("k") == f_a.mx[1].startswith("k") or "'" in mx[1] else None)
            elif mx == "MIX":
                aligned = "MIX"
        elif isinstance(mx, tuple) and mx[0] == "R":
            s = is_mode_sym(first)
            rows = f_a.shape[0] if f_a.shape else None
            if s is not None and s == mx[1] and s != "?":
                aligned = "AL"
            elif isinstance(rows, str) and not rows.startswith("modes"):
                aligned = mx           # scratch space of one polarisation
            elif rows is None and (f_a.ndim == 1 or s is not None and s != "?" and s != mx[1] and "'" not in mx[1]
                                   and not mx[1].startswith("k") and not s.startswith("k")):
                aligned = mx           # filled from one polarisation only
            elif rows is None:
                aligned = None
            elif s is None and first.k in ("slice",):
                # a single row's data written to several rows
                aligned = "MIX" if ((f_a.ndim or 0) >= 2 and not mx[1].startswith("k")) else None
                if idx.k == "tuple" and len(idx.c) >= 2:
                    s2 = is_mode_sym(idx.c[1])
                    if s2 == mx[1]:
                        aligned = None
            elif s is not None and s != "?" and mx[1] != "?":
                base = lambda x: x.rstrip("'")
                if s.startswith("k") == mx[1].startswith("k") or mx[1].startswith("k"):
                    aligned = "MIX"
                else:
                    aligned = None
            else:
                aligned = None
            if aligned is None:
                f = f.cp(mx=None)
        elif isinstance(mx, tuple) and mx[0] == "A":
            if first.k == "slice" and all(isconst(x, None) for x in first.c):
                aligned = "AL" if mx[1] == 0 else None
            elif first.k == "const" and first.c is Ellipsis:
                aligned = "AL"
            else:
                aligned = None
            if aligned is None:
                f = f.cp(mx=None)
        v = V("num", None, f, EMPTY, v.dp)
    st = False
    store_content(I, a, v, node, whole=False, aligned=aligned)


# ------------------------------------------------------------------ containers
def exact_items(I, v):
    if v.k == "tuple":
        return [x.dep(v.dp) for x in v.c]
    if v.k == "list":
        o = I.obj(v)
        if o is not None and o.elts is not None:
            return list(o.elts)
        return None
    if v.k == "const" and isinstance(v.c, str):
        return [const(x) for x in v.c]
    if v.k == "exactiter":
        return list(v.c)
    if v.k == "dict":
        o = I.obj(v)
        if o is not None and o.other is None and not o.maybe:
            return [const(k) for k in o.items]
    return None


def elem_of(I, v, node):
    outs = []
    for a in alts(v):
        it = exact_items(I, a)
        if it is not None:
            outs.extend(it)
        elif a.k == "list":
            o = I.obj(a)
            if o is not None and o.elem is not None:
                outs.append(o.elem)
            else:
                outs.append(top(a.dp))
        elif a.k == "iter":
            outs.append(a.c.dep(a.dp))
        elif a.k in ("num", "inst"):
            outs.append(getitem(I, a, V("num", None, F("i", "W", (), None, Fraction(0), Fraction(0), "C", ())), node))
        else:
            outs.append(top(I.deep_deps(a), a.al))
    if not outs:
        return top(v.dp)
    r = outs[0]
    for o in outs[1:]:
        r = join(r, o)
    return r


def iter_elem(I, v, sym, node):
    """element bound by a symbolic loop iteration"""
    outs = []
    for a in alts(v):
        if a.k == "rangeiter":
            bound, f = a.c
            idx = sym
            outs.append(V("num", None, F("i", "W", (), None, Fraction(0), Fraction(0), "C", (), None, idx,
                                         rng=bound), dp=a.dp))
        elif a.k == "zipiter":
            outs.append(tup([iter_elem(I, x, sym, node) for x in a.c], dp=a.dp))
        elif a.k == "enumiter":
            i = V("num", None, F("i", "W", (), None, Fraction(0), Fraction(0), "C", (), None, sym))
            outs.append(tup([i, iter_elem(I, a.c, sym, node)], dp=a.dp))
        elif a.k in ("num", "inst"):
            i = V("num", None, F("i", "W", (), None, Fraction(0), Fraction(0), "C", (), None, sym))
            outs.append(getitem(I, a, i, node))
        else:
            outs.append(elem_of(I, a, node))
    r = outs[0]
    for o in outs[1:]:
        r = join(r, o)
    return r


def iter_dim(v):
    """number of iterations over v: an int, a dimension name or None"""
    if v.k == "union":
        ds = {iter_dim(a) for a in v.c}
        return ds.pop() if len(ds) == 1 else None
    if v.k == "rangeiter":
        return v.c[0]
    if v.k == "zipiter":
        ds = {iter_dim(x) for x in v.c} - {None}
        return ds.pop() if len(ds) == 1 else None
    if v.k == "enumiter":
        return iter_dim(v.c)
    if v.k in ("num", "inst") and v.f is not None and v.f.shape:
        return v.f.shape[0]
    return None


def age_v(v, sym):
    """values produced by an earlier iteration refer to an earlier row"""
    if v.k in ("tuple", "union"):
        return v.cp(c=tuple(age_v(x, sym) for x in v.c))
    if v.f is None:
        return v
    f = v.f
    if isinstance(f.mx, tuple) and f.mx[0] == "R" and f.mx[1] == sym:
        return v.cp(f=f.cp(mx=("R", sym + "'"), idx=None if f.idx == sym else f.idx))
    if isinstance(f.mx, tuple) and f.mx[0] == "R" and f.mx[1].startswith(sym + "~"):
        return v.cp(f=f.cp(mx=None, idx=None))
    if f.idx is not None and f.idx.startswith(sym + "~"):
        return v.cp(f=f.cp(idx=None))
    if f.idx == sym:
        return v.cp(f=f.cp(idx=sym + "'"))
    return v


def age(st, sym):
    s = st.copy()
    for k, v in st.env.items():
        s.env[k] = age_v(v, sym)
    for k, v in st.content.items():
        s.content[k] = age_v(v, sym)
    return s


def close_v(v, sym):
    if v.k in ("tuple", "union"):
        return v.cp(c=tuple(close_v(x, sym) for x in v.c))
    if v.f is None:
        return v
    f = v.f
    if isinstance(f.mx, tuple) and f.mx[0] == "R" and f.mx[1] == sym:
        return v.cp(f=f.cp(mx=("R", sym + "$last"), idx=None if f.idx == sym else f.idx))
    if f.idx is not None and f.idx.startswith(sym + "~"):
        return v.cp(f=f.cp(idx=None))
    if f.idx == sym:
        return v.cp(f=f.cp(idx=sym + "$last"))
    return v


def rows_tag(dim):
    return "rows:" + dim if isinstance(dim, str) else "rows"


def close_loop(I, st, sym, pre, dim=None):
    s = st.copy()
    for k, v in st.env.items():
        s.env[k] = close_v(v, sym)
    for k, o in st.heap.items():
        if o.kind == "list" and o.elem is not None and o.elem is not getattr(pre.heap.get(k), "elem", None):
            e = close_elem(o.elem, sym)
            if e is not None:
                o2 = o.copy()
                o2.elem = e
                o2.aux = rows_tag(dim)
                s.heap[k] = o2
    return s


def close_elem(e, sym):
    """element of a list filled by a loop over the polarisations: None unless every element belongs to its own row"""
    out, hit = [], False
    for a in alts(e):
        f = a.f
        if f is None:
            if a.k == "never":
                continue
            return None
        if isinstance(f.mx, tuple) and f.mx[0] == "R" and f.mx[1].rstrip("'") == sym:
            a = a.cp(f=f.cp(mx="C"))
            hit = True
        elif f.mx not in ("C", "Z"):
            return None
        out.append(a)
    if not hit:
        return None
    return out[0] if len(out) == 1 else e.cp(c=tuple(out)) if e.k == "union" else out[0]


def close_list(I, v, sym, dim=None):
    o = I.wobj(v)
    if o is None or o.elem is None:
        return
    e = close_elem(o.elem, sym)
    if e is not None:
        o.elem = e
        o.aux = rows_tag(dim)


def list_extend(I, a, r, node):
    o = I.wobj(a)
    I.mutate(node, a, "list extended in place")
    if o is None:
        return
    it = exact_items(I, r)
    if it is not None and o.elts is not None and len(o.elts) + len(it) < 64:
        o.elts = o.elts + it
    else:
        x = elem_of(I, r, node)
        for e in (o.elts or []):
            x = join(x, e)
        if o.elem is not None:
            x = join(x, o.elem)
        o.elts, o.elem = None, x


def unpack_rows(I, a, n, node):
    if a.k in ("num", "inst"):
        return [getitem(I, a, const(i), node) for i in range(n)]
    e = elem_of(I, a, node)
    return [e] * n


# ------------------------------------------------------------------ attribute
def dimv(I, a, f, ax):
    """abstract value for the length of axis ax"""
    d = None
    if f is not None and f.shape is not None and -len(f.shape) <= ax < len(f.shape):
        d = f.shape[ax]
    if isinstance(d, int):
        return const(d, a.dp if False else EMPTY)
    return V("num", None, F("i", "W", (), None, Fraction(0), Fraction(0), "C", (), d), dp=frozenset(x for x in a.dp))


def attr(I, a, name, node, default=None, quiet=False):
    if a.k in ("num", "inst"):
        f = a.f
        if name == "shape":
            if f is not None and f.shape is not None:
                return tup([dimv(I, a, f, i) for i in range(len(f.shape))], dp=a.dp)
            return V("shapeof", a, dp=a.dp)
        if name == "ndim":
            if f is not None and f.shape is not None:
                return const(len(f.shape))
            return V("num", None, F("i", "W", (), None, Fraction(0), Fraction(0), "C", ()), dp=a.dp)
        if name in ("size", "nbytes", "itemsize"):
            d = f.shape[0] if name == "size" and f is not None and f.shape is not None and len(f.shape) == 1 else None
            if isinstance(d, int):
                return const(d)
            return V("num", None, F("i", "W", (), None, Fraction(0), Fraction(0), "C", (), d), dp=a.dp)
        if name == "dtype":
            return V("dtype", ((f.kind if f else None), (f.prec if f else None), "dtype"), dp=a.dp)
        if name == "__class__" and a.k == "num" and f is not None and f.shape:
            return V("ext", "numpy.ndarray")
        if name in ("real", "imag"):
            nf = None
            ef = fac(I, a)
            if ef is not None:
                nf = ef.cp(kind="f" if ef.kind == "c" else ef.kind, chg=ef.chg if ef.chg in (0, "Z") else None)
            return mk(I, node, a, nf, a.al, a.dp)
        if name == "T":
            nf = None
            if f is not None:
                nf = perm(f, None if f.shape is None else list(range(len(f.shape)))[::-1])
            return mk(I, node, a, nf, a.al, a.dp)
        if name == "flat":
            return V("num", None, f.cp(shape=(None,), mx=None) if f else None, a.al, a.dp)
        if name in ND_ATTRS:
            return V("meth", (a, name), dp=a.dp)
        if default is not None:
            return default
        if a.k == "num" and f is not None and f.kind == "c" and name in ("real", "imag"):
            return a
        if not quiet and a.f is not None and a.f.shape is not None and len(a.f.shape) > 0:
            I.ev("noattr", node, attr=name, cls="ndarray", why="plain arrays have no such attribute")
            if a.k == "num":
                return V("never")
        return top(a.dp)
    if a.k == "const":
        if isinstance(a.c, (int, float, complex)) and not isinstance(a.c, bool) and name in ("real", "imag"):
            return const(getattr(a.c, name))
        if hasattr(a.c, name):
            return V("meth", (a, name), dp=a.dp)
        if isinstance(a.c, (int, float)) and name in ND_ATTRS:
            # numbers standing in for arrays
            if not quiet:
                I.ev("noattr", node, attr=name, cls=type(a.c).__name__, why="numbers have no such attribute")
            return top(a.dp)
        if a.c is None:
            if not quiet:
                I.ev("noneattr", node, attr=name)
            return V("never")
        if not quiet:
            I.ev("noattr", node, attr=name, cls=type(a.c).__name__, why="no such attribute")
        return top(a.dp)
    if a.k in ("list", "dict", "tuple", "str", "strother", "iter", "shapeof", "dtype", "exc", "file"):
        if a.k == "dtype" and name in ("type",):
            return a
        return V("meth", (a, name), dp=a.dp)
    if a.k in ("func", "bound"):
        return V("str")
    # top
    return V("meth", (a, name), al=a.al, dp=a.dp) if name in METHS_VIEWLIKE else top(a.dp, a.al if name in ("real", "imag", "T", "flat") or not name.islower() else a.al)


METHS_VIEWLIKE = set("reshape ravel view squeeze transpose swapaxes copy astype flatten conj conjugate sum mean max min append "
                     "extend insert pop remove sort fill put resize update setdefault clear partition itemset setfield write writelines dump".split())


def perm(f, order):
    if f is None:
        return None
    sh = None if f.shape is None or order is None else tuple(f.shape[i] for i in order)
    mx = f.mx
    if isinstance(mx, tuple) and mx[0] == "A":
        mx = ("A", order.index(mx[1])) if order is not None and mx[1] in order else None
    return f.cp(shape=sh, mx=mx)


def mk(I, node, like, f, al, dp, sub=True):
    """a result numeric value; subclass-preserving when `like` is an instance"""
    if sub and like is not None and like.k == "inst" and isinstance(like.cls, ClassInfo):
        v = I.make_view(node, like, like.cls, f=f if f is not None else F(), al=al)
        return v.cp(dp=dp | like.dp)
    return V("num", None, f, al, dp)


# ------------------------------------------------------------------ indexing
def getitem(I, a, idx, node):
    d = I.deep_deps(idx)
    if idx.k == "union" and a.k in ("tuple", "list", "dict"):
        outs = [getitem(I, a, x, node) for x in idx.c]
        r = outs[0]
        for o in outs[1:]:
            r = join(r, o)
        return r
    if a.k in ("tuple",):
        if idx.k == "const" and isinstance(idx.c, int):
            if -len(a.c) <= idx.c < len(a.c):
                return a.c[idx.c].dep(a.dp)
            I.ev("badindex", node, why="index %d out of range of %d-tuple" % (idx.c, len(a.c)))
            return top()
        if idx.k == "slice" and all(x.k == "const" for x in idx.c):
            return tup(a.c[slice(*[x.c for x in idx.c])], dp=a.dp)
        return elem_of(I, a, node).dep(d)
    if a.k == "list":
        o = I.obj(a)
        it = o.elts if o is not None else None
        if it is not None and idx.k == "const" and isinstance(idx.c, int):
            if -len(it) <= idx.c < len(it):
                return it[idx.c].dep(a.dp)
            if True:
                I.ev("badindex", node, why="index %d out of range of list of %d" % (idx.c, len(it)))
            return top()
        if idx.k == "slice":
            if it is not None and all(x.k == "const" for x in idx.c):
                return I.newlist(node, list(it[slice(*[x.c for x in idx.c])]))
            return I.newlist(node, None, elem_of(I, a, node))
        return elem_of(I, a, node).dep(d | a.dp)
    if a.k == "dict":
        o = I.obj(a)
        if o is None:
            return top(a.dp)
        if idx.k == "const":
            if idx.c in o.items:
                return o.items[idx.c].dep(a.dp)
            if o.other is not None:
                return o.other.dep(a.dp)
            if True:
                I.ev("badkey", node, key=str(idx.c))
            return top(a.dp)
        vs = list(o.items.values()) + ([o.other] if o.other is not None else [])
        if not vs:
            return top(a.dp | d)
        r = vs[0]
        for v in vs[1:]:
            r = join(r, v)
        return r.dep(d)
    if a.k == "shapeof":
        if idx.k == "const" and isinstance(idx.c, int):
            return dimv(I, a.c, a.c.f, idx.c).dep(a.dp)
        if idx.k == "slice":
            return V("iter", V("num", None, F("i", "W", (), None, Fraction(0), Fraction(0), "C", ()), dp=a.dp))
        return V("num", None, F("i", "W", (), None, Fraction(0), Fraction(0), "C", ()), dp=a.dp | d)
    if a.k in ("num", "inst"):
        return index_array(I, a, idx, node, d)
    if a.k == "strother":
        return a.dep(d)
    if a.k == "const" and isinstance(a.c, str):
        if idx.k == "slice" and all(x.k == "const" for x in idx.c):
            return V("const", a.c[slice(*[x.c for x in idx.c])], dp=a.dp | d)
        return V("str", dp=a.dp | d)
    if a.k == "const" and a.c is None:
        I.ev("noneitem", node)
        return V("never")
    if a.k == "const" and isinstance(a.c, (int, float, complex)):
        I.ev("badindex", node, why="numbers cannot be indexed")
        return top(a.dp)
    if a.k == "iter":
        return a.c.dep(d)
    if a.k == "rangeiter":
        return V("num", None, F("i", "W", (), None, Fraction(0), Fraction(0), "C", ()), dp=a.dp | d)
    if a.k == "ext" and a.c in ("numpy.r_", "numpy.c_"):
        ins = [x for x in (idx.c if idx.k == "tuple" else [idx]) if x.k != "slice"]
        fs = [fac(I, x) for x in ins]
        f = None
        if fs and all(x is not None for x in fs):
            f = fs[0]
            for g in fs[1:]:
                f = jF(f, g)
            f = f.cp(shape=(None,), mx=None if f.mx != "C" else "C", idx=None, dim=None)
        return I.fresh_num(node, f, d)
    if a.k == "ext" and a.c in ("numpy.mgrid", "numpy.ogrid"):
        parts = idx.c if idx.k == "tuple" else [idx]
        fs = [fac(I, b) for x in parts if x.k == "slice" for b in x.c if not (b.k == "const" and b.c is None)]
        ok = fs and all(x is not None for x in fs)

        def same(name, z):
            return z if ok and all(getattr(x, name) in (z, "Z") for x in fs) else None
        n = len(parts)
        f = F("f" if any(x is None or x.kind != "i" for x in fs) else "i", "D", same("unit", ()), None, same("deg", Fraction(0)), same("chg", Fraction(0)),
              same("mx", "C"), (n,) + (None,) * n if a.c == "numpy.mgrid" and idx.k == "tuple" else None)
        return I.fresh_num(node, f, d)
    return top(a.dp | d, a.al)


def index_array(I, a, idx, node, d):
    f = fac(I, a)
    dp = a.dp | d
    parts = list(idx.c) if idx.k == "tuple" else [idx]
    advanced = False
    if f is None:
        adv = any(p.k in ("num", "inst", "list") and not (p.f is not None and p.f.shape == ()) for p in parts)
        return mk(I, node, a, None, EMPTY if adv and a.k == "num" and False else a.al, dp)
    # deps of contents
    ov = overlay(I, a)
    dp = dp | ov.dp
    sh = f.shape
    mx = f.mx
    nd = f.ndim
    newshape = []
    axis = 0
    newmx = mx if not (isinstance(mx, tuple) and mx[0] == "A") else None
    modeax = mx[1] if isinstance(mx, tuple) and mx[0] == "A" else None
    consumed = sum(1 for p in parts if not (p.k == "const" and (p.c is None or p.c is Ellipsis)))
    known = sh is not None
    for p in parts:
        if p.k == "const" and p.c is None:
            newshape.append(1)
            continue
        if p.k == "const" and p.c is Ellipsis:
            if nd is None:
                known = False
                continue
            n = nd - consumed
            for _ in range(n):
                if modeax == axis:
                    newmx = ("A", len(newshape))
                newshape.append(sh[axis])
                axis += 1
            continue
        if p.k == "slice":
            lo, up, stp = p.c
            full = isconst(lo, None) and isconst(up, None) and isconst(stp, None)
            dim = sh[axis] if known and axis < len(sh) else None
            if modeax == axis:
                newmx = ("A", len(newshape))
                if stp.k == "const" and isinstance(stp.c, int) and stp.c < 0:
                    newmx = "MIX"
            newshape.append(dim if full else None)
            axis += 1
            continue
        pf = fac(I, p)
        if p.k == "const" and isinstance(p.c, int) and not isinstance(p.c, bool) or (pf is not None and pf.shape == () and pf.kind != "b"):
            if modeax == axis:
                s = is_mode_sym(p)
                newmx = ("R", s or "?")
            axis += 1
            continue
        # advanced index
        advanced = True
        if pf is not None and pf.kind == "b" and pf.shape is not None:
            if modeax == axis and len(pf.shape) == 1:
                newmx = ("A", len(newshape))
            elif modeax is not None and axis <= modeax < axis + len(pf.shape):
                newmx = None
            newshape.append(None)
            axis += len(pf.shape)
        elif pf is not None and pf.shape is not None:
            if modeax == axis:
                newmx = None
            newshape.extend(pf.shape)
            axis += 1
        else:
            if modeax == axis:
                newmx = None
            known = False
            axis += 1
    if known and nd is not None:
        if axis > nd:
            I.ev("badindex", node, why="%d indices for a %d-dimensional array" % (axis, nd))
            return top(dp)
        while axis < nd:
            if modeax == axis:
                newmx = ("A", len(newshape))
            newshape.append(sh[axis])
            axis += 1
        nsh = tuple(newshape)
    else:
        nsh = None
        if modeax is not None and axis <= modeax:
            newmx = ("A", modeax - sum(1 for p in parts if (p.k == "const" and isinstance(p.c, int)) or (fac(I, p) is not None and fac(I, p).shape == ())))
    if advanced and nd is not None and sum(1 for p in parts if p.k in ("num", "inst", "list")) > 1:
        nsh = None if nsh is None else nsh
    if f.mx in ("C", "Z"):
        # constants picked by polarisation-dependent indices
        pos = 0
        for p in parts:
            pf = fac(I, p)
            im = pf.mx if pf is not None else None
            if im == "MIX" and pf.kind != "b":
                newmx = "MIX"
            elif im is None and pf is not None and newmx != "MIX":
                newmx = None
            if isinstance(im, tuple) and im[0] == "R":
                newmx = im if newmx in ("C", "Z") or newmx == im else None
            elif isinstance(im, tuple) and pf.shape and pf.kind != "b":
                im = ("A", pos + im[1])
                newmx = im if newmx in ("C", "Z") or newmx == im else None
            if p.k == "const" and p.c is None or p.k == "slice":
                pos += 1
            elif pf is not None and pf.shape:
                pos += len(pf.shape) if pf.kind != "b" else 1
    if nsh == () and isinstance(newmx, tuple) and newmx[0] == "A":
        newmx = None
    nf = f.cp(shape=nsh, mx=newmx, dim=None, idx=None)
    for p in parts:
        pf = fac(I, p) if p.k in ("num", "inst") else None
        if pf is not None:
            if pf.deg == "X":
                f = f.cp(deg="X")
            if pf.chg == "X":
                f = f.cp(chg="X")
    nf = nf.cp(deg=f.deg, chg=f.chg)
    if nsh == ():
        al = EMPTY
        nf = nf.cp(prec=nf.prec)
    else:
        al = EMPTY if advanced else a.al
        if advanced and a.k == "num" and a.al:
            al = frozenset([I.site(node, "A")])
            I.st.content.pop(next(iter(al)), None)
            f2 = f.cp(shape=nsh, mx=newmx, dim=None, idx=None)
            return mk(I, node, a, f2, al, dp)
        if advanced:
            al = frozenset([I.site(node, "A")])
            I.st.content.pop(next(iter(al)), None)
    if nsh == () and a.k == "inst":
        return V("num", None, nf, al, dp)
    return mk(I, node, a, nf, al, dp)


# ------------------------------------------------------------------ arithmetic
def bshape(a, b):
    if a is None or b is None:
        if a == ():
            return b
        if b == ():
            return a
        return None
    n = max(len(a), len(b))
    x = (1,) * (n - len(a)) + tuple(a)
    y = (1,) * (n - len(b)) + tuple(b)
    out = []
    for p, q in zip(x, y):
        if p == q:
            out.append(p)
        elif p == 1:
            out.append(q)
        elif q == 1:
            out.append(p)
        elif p is None or q is None:
            out.append(None)
        else:
            out.append(p if isinstance(p, str) else q)
    return tuple(out)


BASEDIMS = ("modes", "L", "ntaps")      # independent sizes: equal by accident only


def dims(sh):
    return "(" + ", ".join("?" if x is None else str(x) for x in sh) + ")"


def fits(I, node, a, b):
    """report operands whose shapes do not broadcast"""
    if a is None or b is None:
        return
    for p, q in zip(a[::-1], b[::-1]):
        if p == q or p == 1 or q == 1:
            continue
        if p in BASEDIMS and q in BASEDIMS or isinstance(p, int) and isinstance(q, int):
            I.ev("shapes", node, what="operands of shape %s and %s do not broadcast" % (dims(a), dims(b)))
            return


def bprec(a, b):
    """numpy 1.x promotion on the precision facet (0-d values are weak)"""
    pa, pb = a.prec, b.prec
    wa = pa == "W" or a.shape == ()
    wb = pb == "W" or b.shape == ()
    if wa and not wb:
        if KO.get(a.kind, 9) > KO.get(b.kind, 9) and b.kind in ("b", "i") and pb in ("B", "I", "I8"):
            return "D"
        return pb
    if wb and not wa:
        if KO.get(b.kind, 9) > KO.get(a.kind, 9) and a.kind in ("b", "i") and pa in ("B", "I", "I8"):
            return "D"
        return pa
    if wa and wb:
        return pa if pa == pb else ("W" if "W" in (pa, pb) else None)
    if pa == pb:
        return pa
    if pa is None or pb is None:
        if "D" in (pa, pb):
            return "D"
        return None
    if pa in ("B", "I8") and pb not in ("B",):
        return pb
    if pb in ("B", "I8"):
        return pa
    if "D" in (pa, pb):
        return "D"
    if "I" in (pa, pb):
        # int64 array with an inexact array of input precision: promotes to double
        return "D"
    return None


def bmx(I, fa, fb, node):
    a, b = fa.mx, fb.mx
    if a in ("C", "Z") and b in ("C", "Z"):
        return "C" if "C" in (a, b) else "Z"
    for x, y, fx, fy in ((a, b, fa, fb), (b, a, fb, fa)):
        if x in ("C", "Z") and (isinstance(y, tuple) or y in ("MIX", None)):
            if isinstance(y, tuple) and y[0] == "A" and fx.shape is not None and fy.shape is not None:
                n = max(len(fx.shape), len(fy.shape))
                return ("A", y[1] + n - len(fy.shape))
            if isinstance(y, tuple) and y[0] == "A" and (fx.shape is None or fy.shape is None):
                return y if fx.shape is None else y
            return y
    if a == "MIX" or b == "MIX":
        return "MIX"
    if a is None or b is None:
        return None
    if a[0] == "R" and b[0] == "R":
        if a[1] == b[1] and a[1] != "?":
            return a
        if "?" in (a[1], b[1]):
            return None
        ra, rb = a[1].startswith("k"), b[1].startswith("k")
        return "MIX"            # two fixed rows, two loops, or one fixed row combined with the row of every pass
    if a[0] == "A" and b[0] == "A":
        if fa.shape is None or fb.shape is None:
            return a if a == b else None
        n = max(len(fa.shape), len(fb.shape))
        pa, pb = a[1] + n - len(fa.shape), b[1] + n - len(fb.shape)
        if pa == pb:
            return ("A", pa)
        return "MIX"
    r = a if a[0] == "R" else b
    if r[1].endswith("$last") or r[1].endswith("'") or r[1].startswith("k"):
        return "MIX"
    return None


def numfac_or_none(I, v):
    return fac(I, v)


def unit_event(I, node, what, a, b):
    I.ev("unit", node, what=what, a=unit_str(a), b=unit_str(b))


def add_unit(I, node, a, b, what):
    if a == "Z":
        return b
    if b == "Z":
        return a
    if a == "X" or b == "X":
        return "X"
    if a is None or b is None:
        return None
    if unit_strip(a) != unit_strip(b):
        unit_event(I, node, what, a, b)
        return None
    return a if a == b else unit_strip(a)


def num_const(v):
    if v.k == "const" and isinstance(v.c, (int, float, complex)) and not isinstance(v.c, bool):
        return v.c
    return None


def binop(I, node, op, a, b):
    if a.k == "union" or b.k == "union":
        r = None
        for x in alts(a):
            for y in alts(b):
                if x.k == "never" or y.k == "never":
                    continue
                v = binop(I, node, op, x, y)
                if v.k == "never":
                    continue
                r = v if r is None else join(r, v)
        return (r or V("never"))
    dp = I.deep_deps(a) | I.deep_deps(b)
    # None operands
    for x in (a, b):
        if x.k == "const" and x.c is None:
            I.ev("noneop", node)
            return V("never")
    # python constants
    if a.k == "const" and b.k == "const":
        try:
            r = CONSTOPS[type(op)](a.c, b.c)
            if isinstance(r, (int, float, complex, str, bool)) and not (isinstance(r, int) and abs(r) > 10**30):
                v = const(r, a.dp | b.dp)
                if isinstance(op, (ast.Mult, ast.Div)) and a.f is not None and b.f is not None and v.f is not None and v.f.unit != "Z" \
                        and (a.f.unit not in ((), "Z") or b.f.unit not in ((), "Z")):
                    v = v.cp(f=v.f.cp(unit=unit_mul(a.f.unit, b.f.unit, 1 if isinstance(op, ast.Mult) else -1)))
                return v
        except Exception:
            pass
        if isinstance(a.c, str):
            return V("str", dp=dp)
    if a.k in ("str",) or b.k in ("str",) or (a.k == "const" and isinstance(a.c, str)):
        return V("str", dp=dp)
    # sequences
    if isinstance(op, ast.Add):
        if a.k == "tuple" and b.k == "tuple":
            return tup(a.c + b.c, a.dp | b.dp)
        if a.k == "list" and b.k in ("list",):
            ia, ib = exact_items(I, a), exact_items(I, b)
            if ia is not None and ib is not None:
                return I.newlist(node, ia + ib)
            return I.newlist(node, None, join(elem_of(I, a, node), elem_of(I, b, node)))
        if a.k in ("tuple", "top", "iter") and b.k == "tuple" and a.k != "top" or (a.k == "pickstate" and b.k == "tuple"):
            if a.k == "pickstate":
                return V("pickstate", a.c + b.c)
            return V("iter", join(elem_of(I, a, node), elem_of(I, b, node)), dp=dp)
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if x.k in ("list", "tuple") and (y.k == "const" and isinstance(y.c, int) or y.k == "num" and y.f is not None and y.f.shape == ()):
                it = exact_items(I, x)
                if it is not None and y.k == "const" and len(it) * y.c <= 64:
                    return I.newlist(node, it * y.c) if x.k == "list" else tup(list(x.c) * y.c)
                return I.newlist(node, None, elem_of(I, x, node).dep(y.dp))
    fa, fb = fac(I, a), fac(I, b)
    inst = a if a.k == "inst" else b if b.k == "inst" else None
    if fa is None or fb is None:
        f = None
        ot = fa or fb
        # a plain scalar times an unknown value
        v = I.fresh_num(node, f, dp) if (a.k in ("num", "inst") or b.k in ("num", "inst")) else V("top", None, None, EMPTY, dp)
        if inst is not None:
            return mk(I, node, inst, F(), frozenset([I.site(node, "A")]), dp)
        return v
    f = arith(I, node, op, a, b, fa, fb)
    al = EMPTY
    if f.shape != ():
        r = I.site(node, "A")
        I.st.content.pop(r, None)
        al = frozenset([r])
    if inst is not None:
        return mk(I, node, inst, f, al, dp)
    return V("num", None, f, al, dp)


CONSTOPS = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y,
            ast.Div: lambda x, y: x / y, ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y,
            ast.Pow: lambda x, y: x ** y if not (isinstance(y, (int, float)) and abs(y) > 300) else None,
            ast.LShift: lambda x, y: x << y if y < 100 else None, ast.RShift: lambda x, y: x >> y,
            ast.BitAnd: lambda x, y: x & y, ast.BitOr: lambda x, y: x | y, ast.BitXor: lambda x, y: x ^ y}


def scale_event(I, node, what, a, b):
    I.ev("scale", node, what=what, a=str(a), b=str(b))


def addz(x, y):
    """sum of degrees under multiplication"""
    if x == "X" or y == "X":
        return "X"
    if x == "Z" or y == "Z":
        return "Z"
    if x is None or y is None or isinstance(x, tuple) or isinstance(y, tuple):
        return None
    return x + y


def arith(I, node, op, a, b, fa, fb):
    t = type(op)
    fits(I, node, fa.shape, fb.shape)
    shape = bshape(fa.shape, fb.shape)
    prec = bprec(fa, fb)
    kind = jkind(fa.kind, fb.kind)
    mx = bmx(I, fa, fb, node)
    unit = scale = deg = chg = None
    trig = None
    ca, cb = num_const(a), num_const(b)
    if t in (ast.Add, ast.Sub):
        w = "added to" if t is ast.Add else "subtracted with"
        unit = add_unit(I, node, fa.unit, fb.unit, w)
        scale = scale_add(I, node, fa, fb, t)
        deg = sum_deg(fa.deg, fb.deg)
        chg = sum_chg(fa.chg, fb.chg, 1 if t is ast.Add else -1)
    elif t in (ast.Mult, ast.Div, ast.FloorDiv, ast.Mod):
        if t is ast.Mod:
            unit = fa.unit if fb.unit in ((), "Z") or fa.unit == fb.unit else (None if fa.unit is None or fb.unit is None else None)
            deg = fa.deg if fb.deg == 0 and fa.deg == 0 else None
            chg = fa.chg if fb.chg == 0 and fa.chg in (0, "Z") else None
            kind = kind
        else:
            sg = 1 if t is ast.Mult else -1
            unit = unit_mul(fa.unit, fb.unit, sg)
            if sg == 1:
                deg = addz(fa.deg, fb.deg)
            else:
                deg = addz(fa.deg, neg(fb.deg)) if fb.deg != "Z" else None
            chg = mul_chg(fa.chg, fb.chg, sg, ca, cb)
            if t is ast.Div and kind in ("b", "i"):
                kind = "f"
                if prec in ("I", "B", "I8"):
                    prec = "D"
            if t is ast.FloorDiv:
                deg = deg if deg == 0 else None
                chg = chg if chg == 0 else None
        scale = scale_mul(I, node, t, fa, fb, ca, cb)
        if scale is None and t is ast.Div and isinstance(fa.deg, Fraction) and fa.deg == fb.deg and fa.deg and fa.scale is None and fb.scale is None:
            scale = ("quo", fa.deg / 2)
    elif t is ast.Pow:
        p = cb
        fr = None
        if isinstance(p, (int, float)) and not isinstance(p, bool) and p == p and abs(p) < 1e6:
            fr = Fraction(p).limit_denominator(1000)
        unit = unit_pow(fa.unit, fr)
        if fb.unit not in (None, (), "Z", "X") and unit_strip(fb.unit) != ():
            unit_event(I, node, "exponent", fb.unit, ())
        deg = fa.deg * fr if isinstance(fa.deg, Fraction) and fr is not None else (fa.deg if fa.deg in ("Z", "X") or fa.deg == 0 else None)
        chg = fa.chg * fr if isinstance(fa.chg, (Fraction, int)) and fr is not None else (Fraction(0) if fa.chg == 0 else "X" if fa.chg == "X" else None)
        # a number to a power of a homogeneous quantity is not homogeneous
        if fb.deg not in (None, "Z", "X") and fb.deg != 0:
            deg = "X"
        if isinstance(fb.chg, Fraction) and fb.chg != 0:
            chg = "X"
        scale = scale_pow(I, node, fa, fb, ca)
        if scale is None and quo(fa.scale) and fr:
            scale = ("quo", fa.scale[1] * fr)
        if scale is None and lin(fa.scale) and fr:
            scale = ("lin", fa.scale[1] * fr)
        if prec in ("I", "B", "I8") and fb.kind == "f":
            prec = "D"
    elif t in (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift):
        unit = ()
        deg = "X" if "X" in (fa.deg, fb.deg) else Fraction(0)
        chg = "X" if "X" in (fa.chg, fb.chg) else Fraction(0)
    elif t is ast.MatMult:
        unit = unit_mul(fa.unit, fb.unit)
        deg = addz(fa.deg, fb.deg)
        chg = mul_chg(fa.chg, fb.chg, 1, ca, cb)
        shape = None
        mx = None
    dim = idx = None
    if shape == () and t in (ast.Add, ast.Sub):
        for x, c in ((fa, cb), (fb, ca)):
            if x.idx is not None and isinstance(c, int) and not isinstance(c, bool) and (t is ast.Add or x is fa):
                idx = x.idx if c == 0 else shifted(x.idx, c if t is ast.Add else -c)
    return F(kind, prec, unit, scale, deg, chg, mx, shape, dim, idx, trig=trig)


def shifted(idx, c):
    """the index that many places on"""
    if "'" in idx or "$" in idx or idx.startswith("k"):
        return None
    base, _, n = idx.partition("~")
    n = int(n or 0) + c
    return "%s~%+d" % (base, n) if n else base


def neg(x):
    if isinstance(x, Fraction):
        return -x
    return x


def cmp_of(x, y):
    if isinstance(x, tuple) or isinstance(y, tuple):
        return None
    r = sum_deg(x, y)
    return r if r in (None, "X") else Fraction(0)


def sum_deg(x, y):
    if x == "Z":
        return y
    if y == "Z":
        return x
    if x == "X" or y == "X":
        return "X"
    if x is None or y is None:
        return None
    return x if x == y else "X"


def sum_chg(x, y, sg):
    if x == "Z":
        if isinstance(y, tuple):
            return (y[0], y[1] * sg)
        return y
    if y == "Z":
        return x
    if x == "X" or y == "X":
        return "X"
    if x is None or y is None:
        return None
    if isinstance(x, tuple) or isinstance(y, tuple):
        # additive phases
        kx = x[0] if isinstance(x, tuple) else None
        ky = y[0] if isinstance(y, tuple) else None
        vx = x[1] if isinstance(x, tuple) else (Fraction(0) if x == 0 else None)
        vy = y[1] if isinstance(y, tuple) else (Fraction(0) if y == 0 else None)
        if vx is None or vy is None or (kx and ky and kx != ky):
            return None
        if "csum" in (kx, ky) or "wsum" in (kx, ky):
            # difference of two running sums: the sum over a window
            return ("wsum", vx) if kx == ky == "csum" and vx == vy and sg == -1 else None
        r = vx + sg * vy
        return (kx or ky, r) if r != 0 else Fraction(0)
    return x if x == y else "X"


def mul_chg(x, y, sg, ca, cb):
    if x == "X" or y == "X":
        return "X"
    if x is None or y is None:
        return None
    if isinstance(x, tuple) and isinstance(y, tuple):
        return None
    if isinstance(x, tuple) or isinstance(y, tuple):
        p, c, o = (x, cb, y) if isinstance(x, tuple) else (y, ca, x)
        if isinstance(y, tuple) and sg == -1:
            return None
        if c is None:
            if p[0] == "wsum" and sg == -1 and o == 0 and isinstance(x, tuple):
                return ("ang", p[1])            # window sum divided by the window length
            return None
        c = complex(c) if sg == 1 else (1 / complex(c) if c != 0 else None)
        if c is None:
            return None
        if p[0] == "wsum" and sg == -1:
            return ("ang", p[1])
        if c.imag == 0:
            return (p[0], p[1] * Fraction(c.real).limit_denominator(1000))
        if c.real == 0:
            if p[0] == "ang":
                return ("jang", p[1] * Fraction(c.imag).limit_denominator(1000))
            if p[0] == "jang":
                return ("ang", -p[1] * Fraction(c.imag).limit_denominator(1000))
        return None
    if x == "Z":
        return "Z"
    if y == "Z":
        return "Z" if sg == 1 else None
    return x + sg * y


# log / linear -----------------------------------------------------------
# scale facet: ('dB', a): a times a power ratio in decibel; ('lin', p): a power ratio to the power p (p=-1: its
# reciprocal, p=1/2: an amplitude ratio); ('quo', p): the quotient of two powers (p=1) or amplitudes (p=1/2) of the field,
# it only takes part in logarithms and roots; 'Z': zero, agrees with everything
def sc_str(s):
    if s is None or s == "Z":
        return "?"
    k, p = s
    if k == "quo":
        return "quotient of two %s" % {1: "powers", Fraction(1, 2): "amplitudes"}.get(p, "field quantities of degree %s" % (2 * p))
    if k == "dB":
        return "decibel" if p == 1 else "%s x decibel" % p
    return {1: "linear power ratio", -1: "inverse linear power ratio", Fraction(1, 2): "linear amplitude ratio", Fraction(-1, 2): "inverse linear amplitude ratio"}.get(p, "linear power ratio to the power %s" % p)


def frac_of(c):
    if isinstance(c, bool) or not isinstance(c, (int, float)) or c != c or abs(c) > 1e6:
        return None
    return Fraction(c).limit_denominator(10000)


def db(s):
    return isinstance(s, tuple) and s[0] == "dB"


def lin(s):
    return isinstance(s, tuple) and s[0] == "lin"


def quo(s):
    return isinstance(s, tuple) and s[0] == "quo"


def scale_add(I, node, fa, fb, t):
    x, y = fa.scale, fb.scale
    if quo(x) or quo(y):
        return None
    if x == "Z" or y == "Z":
        return y if x == "Z" else x
    if db(x) and db(y):
        if t is ast.Add or x != y:
            if x[1] != y[1] and abs(x[1]) != abs(y[1]):
                scale_event(I, node, "decibel quantities of different scale added", sc_str(x), sc_str(y))
                return None
        return x if abs(x[1]) == abs(y[1]) else None
    if db(x) and lin(y) or lin(x) and db(y):
        scale_event(I, node, "decibel and linear quantities added", sc_str(x), sc_str(y))
        return None
    for s, o in ((x, fb), (y, fa)):
        if db(s) and o.scale is None:
            if isinstance(o.deg, Fraction) and o.deg != 0:
                scale_event(I, node, "decibel quantity added to an amplitude or power", sc_str(s), "")
                return None
            return s if o.prec == "W" else None
    return None


def scale_mul(I, node, t, fa, fb, ca, cb):
    x, y = fa.scale, fb.scale
    if quo(x) and cb is not None and t in (ast.Mult, ast.Div):
        return x
    if quo(y) and ca is not None and t in (ast.Mult, ast.Div):
        return y if t is ast.Mult else ("quo", -y[1])
    if quo(x) or quo(y):
        return None
    if not isinstance(x, tuple) and not isinstance(y, tuple):
        return None
    if t in (ast.Mod, ast.FloorDiv):
        return None
    if t is ast.Div and db(y):
        scale_event(I, node, "division by a decibel quantity", sc_str(x), sc_str(y))
        return None
    if db(x) and db(y):
        scale_event(I, node, "two decibel quantities multiplied", sc_str(x), sc_str(y))
        return None
    if db(x) and lin(y) or lin(x) and db(y):
        scale_event(I, node, "decibel and linear quantities multiplied", sc_str(x), sc_str(y))
        return None
    for s, o, c in ((x, fb, cb), (y, fa, ca)):
        if db(s):
            if isinstance(o.deg, Fraction) and o.deg != 0:
                scale_event(I, node, "decibel quantity multiplied with an amplitude or power", sc_str(s), "")
                return None
            c = frac_of(c)
            if not c:
                return None
            return ("dB", s[1] * c if t is ast.Mult else s[1] / c)
    sg = 1 if t is ast.Mult else -1
    if lin(x) and lin(y):
        p = x[1] + sg * y[1]
        return ("lin", p) if p else None
    if lin(x):
        return x
    return ("lin", sg * y[1])


def scale_pow(I, node, fa, fb, ca):
    b = fb.scale
    if db(b):
        p = b[1] * 10
        if ca is None:
            return None
        if ca != 10:
            scale_event(I, node, "decibel exponent used with base %r" % ca, sc_str(fa.scale), sc_str(b))
            return None
        if abs(p) not in (Fraction(1, 2), 1, 2):
            scale_event(I, node, "10 to the power of %s is no power or amplitude ratio" % sc_str(b), sc_str(fa.scale), sc_str(b))
            return None
        return ("lin", p)
    if db(fa.scale):
        scale_event(I, node, "power of a decibel quantity", sc_str(fa.scale), sc_str(b))
    return None


def scale_root(s, p):
    if quo(s):
        return ("quo", s[1] * p)
    return ("lin", s[1] * p) if lin(s) else None


def unop(I, node, op, v):
    if v.k == "union":
        r = None
        for x in v.c:
            y = unop(I, node, op, x)
            r = y if r is None else join(r, y)
        return r
    if isinstance(op, ast.Not):
        t = I.truth(v)
        if t is not None:
            return const(not t, v.dp)
        return V("num", None, F("b", "W", (), None, Fraction(0), Fraction(0), "C", ()), dp=I.deep_deps(v))
    if v.k == "const":
        try:
            r = {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(op)](v.c)
            return const(r, v.dp)
        except Exception:
            if v.c is None:
                I.ev("noneop", node)
                return V("never")
            return top(v.dp)
    f = fac(I, v)
    if f is not None:
        f = f.cp(idx=None, dim=None)
        if isinstance(op, ast.USub) and isinstance(f.chg, tuple):
            f = f.cp(chg=(f.chg[0], -f.chg[1]))
        if isinstance(op, ast.USub) and isinstance(f.scale, tuple):
            f = f.cp(scale=("dB", -f.scale[1]) if db(f.scale) else None)
    if v.k in ("num", "inst"):
        al = EMPTY
        if f is None or f.shape != ():
            r = I.site(node, "A")
            I.st.content.pop(r, None)
            al = frozenset([r])
        return mk(I, node, v, f, al, I.deep_deps(v))
    return top(I.deep_deps(v))


# ------------------------------------------------------------------ comparisons
def compare_truth(I, op, a, b):
    """three valued truth of  a op b"""
    if isinstance(op, (ast.Is, ast.IsNot)):
        r = None
        if b.k == "const" and (b.c is None or isinstance(b.c, bool)):
            if a.k == "const":
                r = a.c is b.c
            elif a.k in ("top", "never", "union"):
                r = None
            elif b.c is None:
                r = False
        elif a.k == "dtype" and b.k == "dtype":
            r = None
        elif a.k in ("class", "func") and b.k in ("class", "func"):
            r = a.c is b.c
        if r is None:
            return None
        return r if isinstance(op, ast.Is) else not r
    if isinstance(op, (ast.Eq, ast.NotEq)):
        r = None
        if a.k == "const" and b.k == "const":
            try:
                r = bool(a.c == b.c)
            except Exception:
                r = None
        elif (a.k == "const" and a.c is None and b.k in ("num", "inst", "str", "list", "dict", "tuple")) or \
             (b.k == "const" and b.c is None and a.k in ("num", "inst", "str", "list", "dict", "tuple")):
            r = False
        elif a.k == "const" and isinstance(a.c, str) and b.k in ("num", "inst") or b.k == "const" and isinstance(b.c, str) and a.k in ("num", "inst"):
            r = False
        elif a.k == "strother" and b.k == "const" and isinstance(b.c, str):
            r = b.c in a.c
            r = False if not r else None
        elif b.k == "strother" and a.k == "const" and isinstance(a.c, str):
            r = False
        elif a.k == "tuple" and b.k == "tuple" and len(a.c) != len(b.c):
            r = False
        if r is None:
            return None
        return r if isinstance(op, ast.Eq) else not r
    if isinstance(op, (ast.In, ast.NotIn)):
        r = None
        els = None
        if b.k == "dict":
            o = I.obj(b)
            if o is not None and a.k == "const":
                if a.c in o.items:
                    r = True if a.c not in o.maybe else None
                elif o.other is None:
                    r = False
        else:
            els = exact_items(I, b)
            if els is not None:
                if a.k == "const" and all(e.k == "const" for e in els):
                    r = any(type(e.c) == type(a.c) and e.c == a.c or e.c == a.c for e in els)
                    if b.k == "const" and isinstance(b.c, str) and isinstance(a.c, str):
                        r = a.c in b.c
                elif a.k == "strother" and all(e.k == "const" for e in els):
                    r = False
                elif a.k == "dtype" and all(e.k == "dtype" for e in els):
                    r = None
        if r is None:
            return None
        return r if isinstance(op, ast.In) else not r
    ca, cb = num_const(a), num_const(b)
    if ca is not None and cb is not None:
        try:
            return {ast.Lt: ca < cb, ast.LtE: ca <= cb, ast.Gt: ca > cb, ast.GtE: ca >= cb}[type(op)]
        except Exception:
            return None
    return None


def compare(I, node, op, a, b):
    if a.k == "union" or b.k == "union":
        if not isinstance(op, (ast.In, ast.NotIn)) or b.k != "union":
            rs = []
            for x in alts(a):
                for y in (alts(b)):
                    if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and (isconst(x, None) or isconst(y, None)):
                        continue
                    rs.append(compare(I, node, op, x, y))
            r = None
            for x in rs:
                r = x if r is None else join(r, x)
            if r is None:
                I.ev("noneop", node)
                return V("never")
            return r.dep(I.deep_deps(a) | I.deep_deps(b))
    dp = I.deep_deps(a) | I.deep_deps(b)
    t = compare_truth(I, op, a, b)
    if t is not None:
        return const(t, dp)
    fa, fb = fac(I, a), fac(I, b)
    sh = None
    mx = None
    inst = None
    if fa is not None and fb is not None and not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
        sh = bshape(fa.shape, fb.shape)
        mx = bmx(I, fa, fb, node)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)):
            add_unit(I, node, fa.unit, fb.unit, "compared with")
            x, y = fa.scale, fb.scale
            if db(x) and lin(y) or lin(x) and db(y):
                scale_event(I, node, "decibel and linear quantities compared", sc_str(x), sc_str(y))
        inst = a if a.k == "inst" else b if b.k == "inst" else None
    elif isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)):
        sh = ()
        mx = "C"
    elif a.k in ("tuple", "str", "list", "shapeof", "dtype", "strother", "class") or b.k in ("tuple", "str", "list", "shapeof", "dtype", "strother", "class"):
        sh = ()
        mx = "C"
    deg = chg = Fraction(0)
    if fa is not None and fb is not None and isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
        # a comparison of quantities which do not scale (turn) together depends on the amplitude (phase)
        deg, chg = cmp_of(fa.deg, fb.deg), cmp_of(fa.chg, fb.chg)
        if sh == () and (a.k == "const" or b.k == "const"):
            deg = None if deg == "X" else deg       # sentinels
            chg = None if chg == "X" else chg
    r = V("num", None, F("b", "B", (), None, deg, chg, mx, sh), dp=dp)
    if sh != ():
        s = I.site(node, "A")
        I.st.content.pop(s, None)
        r = r.cp(al=frozenset([s]))
    return r


def bool_and(I, a, b):
    ta, tb = I.truth(a), I.truth(b)
    if ta is False or tb is False:
        return const(False, a.dp | b.dp)
    if ta and tb:
        return const(True, a.dp | b.dp)
    return V("num", None, F("b", "W", (), None, Fraction(0), Fraction(0), "C", ()), dp=a.dp | b.dp)


# ------------------------------------------------------------------ external calls
from .npcalls import call_ext  # noqa: E402  (split for size)
