"""Abstract values.

A value V has a kind and, if numeric, facets F.  Facet conventions: None means
unknown, 'X' means *definitely inconsistent* (the interpretation proved two
incompatible contributions were combined), 'Z' means polymorphic (a literal
zero, infinity, nan or freshly zeroed array: compatible with anything)."""
from fractions import Fraction

EMPTY = frozenset()


class F:
    """numeric facets"""
    __slots__ = ("kind", "prec", "unit", "scale", "deg", "chg", "mx", "shape", "dim", "idx", "rng", "trig")

    def __init__(self, kind=None, prec=None, unit=None, scale=None, deg=None, chg=None,
                 mx=None, shape=None, dim=None, idx=None, rng=None, trig=None):
        self.kind, self.prec, self.unit, self.scale = kind, prec, unit, scale
        self.deg, self.chg, self.mx, self.shape, self.dim, self.idx = deg, chg, mx, shape, dim, idx
        self.rng = rng
        self.trig = trig

    def cp(self, **kw):
        n = F(self.kind, self.prec, self.unit, self.scale, self.deg, self.chg, self.mx, self.shape, self.dim, self.idx,
              self.rng, self.trig)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def key(self):
        return (self.kind, self.prec, self.unit, self.scale, self.deg, self.chg, self.mx, self.shape, self.dim,
                self.idx, self.rng, self.trig)

    def __eq__(self, o):
        return isinstance(o, F) and self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    @property
    def ndim(self):
        return None if self.shape is None else len(self.shape)

    @property
    def is0d(self):
        return self.shape == ()

    def __repr__(self):
        return "F(" + ", ".join("%s=%r" % (k, getattr(self, k)) for k in self.__slots__ if getattr(self, k) is not None) + ")"


NOUNIT = ()          # dimensionless


def unit_mul(a, b, sign=1):
    if a == "X" or b == "X":
        return "X"
    if a == "Z" and b == "Z":
        return "Z"
    if a == "Z":
        return "Z" if sign == 1 else "Z"
    if b == "Z":
        return "Z" if sign == 1 else None
    if a is None or b is None:
        return None
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + sign * e
    return tuple(sorted((k, e) for k, e in d.items() if e != 0))


def unit_pow(a, p):
    if a in (None, "X", "Z"):
        return a
    if a == ():
        return ()
    if p is None:
        return None
    return tuple(sorted((k, e * p) for k, e in a if e * p != 0))


COUNT_DIMS = ("samp", "sym")


def unit_strip(u):
    """drop the counting dimensions (samples, symbols)"""
    if u in (None, "X", "Z"):
        return u
    return tuple((k, e) for k, e in u if k not in COUNT_DIMS)


def unit_str(u):
    if u is None:
        return "?"
    if u in ("X", "Z"):
        return u
    if not u:
        return "1"
    return "·".join(k if e == 1 else "%s^%s" % (k, e) for k, e in u)


def jeq(a, b):
    """generic facet join"""
    if a == b:
        return a
    if a == "Z":
        return b
    if b == "Z":
        return a
    if a == "X" or b == "X":
        return "X"
    return None


KO = {"b": 0, "i": 1, "f": 2, "c": 3}


def jkind(a, b):
    if a == b:
        return a
    if a is None or b is None:
        return None
    return a if KO.get(a, 9) > KO.get(b, 9) else b


def jmx(a, b):
    if a == b:
        return a
    if a == "Z":
        return b
    if b == "Z":
        return a
    if a == "MIX" or b == "MIX":
        return "MIX"
    if a == "C":
        return b
    if b == "C":
        return a
    if a is None or b is None:
        return None
    if a[0] == "R" and b[0] == "R":
        return None if a[1] != b[1] else a
    return None


def jF(a, b):
    if a is b or a == b:
        return a
    if a is None or b is None:
        return None
    sh = a.shape if a.shape == b.shape else (
        None if a.shape is None or b.shape is None or len(a.shape) != len(b.shape)
        else tuple(x if x == y else None for x, y in zip(a.shape, b.shape)))
    return F(jkind(a.kind, b.kind), jeq(a.prec, b.prec), jeq(a.unit, b.unit), jeq(a.scale, b.scale),
             jeq(a.deg, b.deg), jeq(a.chg, b.chg), jmx(a.mx, b.mx), sh,
             a.dim if a.dim == b.dim else None, a.idx if a.idx == b.idx else None,
             a.rng if a.rng == b.rng else None, jeq(a.trig, b.trig))


class V:
    __slots__ = ("k", "c", "f", "al", "dp", "cls")

    def __init__(self, k, c=None, f=None, al=EMPTY, dp=EMPTY, cls=None):
        self.k, self.c, self.f, self.al, self.dp, self.cls = k, c, f, al, dp, cls

    def cp(self, **kw):
        n = V(self.k, self.c, self.f, self.al, self.dp, self.cls)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def key(self):
        c = self.c
        if self.k in ("tuple", "union"):
            c = tuple(x.key() for x in c)
        elif self.k in ("func", "bound", "lambda", "class", "mod", "super", "inst", "list", "dict", "slice", "dtype"):
            try:
                hash(c)
            except TypeError:
                c = id(c)
        elif self.k == "const":
            c = (type(c).__name__, c if c == c else "nan")
        else:
            try:
                hash(c)
            except TypeError:
                c = id(c)
        return (self.k, c, self.f.key() if self.f else None, self.al, self.dp, self.cls)

    def __eq__(self, o):
        return isinstance(o, V) and (self is o or self.key() == o.key())

    def __hash__(self):
        return hash(self.key())

    def dep(self, d):
        if not d or d <= self.dp:
            return self
        return self.cp(dp=self.dp | d)

    def __repr__(self):
        s = self.k
        if self.c is not None:
            s += ":" + (repr(self.c)[:60])
        if self.f is not None:
            s += " " + repr(self.f)
        if self.al:
            s += " al=" + ",".join(sorted(map(str, self.al)))
        if self.dp:
            s += " dp=" + ",".join(sorted(map(str, self.dp)))
        return "<" + s + ">"


def const(v, dp=EMPTY):
    return V("const", v, lit_facets(v), dp=dp)


def lit_facets(v):
    if isinstance(v, bool):
        return F("b", "W", (), None, Fraction(0), Fraction(0), "C", ())
    if isinstance(v, (int, float, complex)):
        z = (v == 0) or v != v or v in (float("inf"), float("-inf"))
        k = "i" if isinstance(v, int) else "f" if isinstance(v, float) else "c"
        zz = "Z" if z else None
        u = zz or ()
        if k == "f" and not z:
            if 2.99e8 < v < 3.01e8:
                u = (("m", Fraction(1)), ("s", Fraction(-1)))      # the speed of light
            elif abs(v) >= 1e6 or abs(v) < 1e-5:
                u = None                                            # some physical constant
        return F(k, "W", u, zz or None, zz or Fraction(0), zz or Fraction(0), "C", ())
    return None


NONE = V("const", None)


def isconst(v, *vals):
    return v.k == "const" and (not vals or any(v.c is x or (type(v.c) == type(x) and v.c == x) for x in vals))


def alts(v):
    return v.c if v.k == "union" else (v,)


def num(f=None, al=EMPTY, dp=EMPTY, **kw):
    return V("num", None, f or F(**kw), al, dp)


def top(dp=EMPTY, al=EMPTY):
    return V("top", None, None, al, dp)


def tup(elts, dp=EMPTY):
    return V("tuple", tuple(elts), dp=dp)


def union(vs):
    """join of alternatives (already distinct kinds)"""
    flat = []
    for v in vs:
        for a in alts(v):
            if not any(a == b for b in flat):
                flat.append(a)
    if len(flat) == 1:
        return flat[0]
    # merge numerics
    nums = [a for a in flat if a.k == "num"]
    if len(nums) > 1:
        m = nums[0]
        for n in nums[1:]:
            m = V("num", None, jF(m.f, n.f), m.al | n.al, m.dp | n.dp)
        flat = [a for a in flat if a.k != "num"] + [m]
    if any(a.k == "top" for a in flat) and len(flat) > 4:
        dp = frozenset().union(*[a.dp for a in flat])
        al = frozenset().union(*[a.al for a in flat])
        return top(dp, al)
    if len(flat) == 1:
        return flat[0]
    if len(flat) > 12:
        dp = frozenset().union(*[a.dp for a in flat])
        al = frozenset().union(*[a.al for a in flat])
        return top(dp, al)
    return V("union", tuple(flat), dp=frozenset().union(*[a.dp for a in flat]))


def join(a, b):
    if a is b or a == b:
        return a
    if a.k == b.k:
        if a.k == "num":
            return V("num", None, jF(a.f, b.f), a.al | b.al, a.dp | b.dp)
        if a.k == "const" and a.c == b.c and type(a.c) == type(b.c):
            return a.cp(dp=a.dp | b.dp)
        if a.k == "tuple" and len(a.c) == len(b.c):
            return V("tuple", tuple(join(x, y) for x, y in zip(a.c, b.c)), dp=a.dp | b.dp)
        if a.k == "top":
            return top(a.dp | b.dp, a.al | b.al)
        if a.k in ("list", "dict", "inst") and a.c == b.c:
            return a.cp(dp=a.dp | b.dp, f=jF(a.f, b.f), al=a.al | b.al)
    if {a.k, b.k} <= {"num", "const"}:
        # numeric constants with numerics: keep as number unless special constants
        x, y = (a, b) if a.k == "const" else (b, a)
        if y.k == "num" and isinstance(x.c, (int, float, complex)) and not isinstance(x.c, bool):
            return V("num", None, jF(x.f, y.f), a.al | b.al, a.dp | b.dp)
        if y.k == "const" and all(isinstance(z.c, (int, float, complex)) and not isinstance(z.c, bool) for z in (x, y)):
            return V("num", None, jF(x.f, y.f), EMPTY, a.dp | b.dp)
    return union([a, b])
