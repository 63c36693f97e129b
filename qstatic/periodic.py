"""Stretches of periodic sequences.  A one-dimensional array is described as a run of elements of a named sequence: where the
run starts, how long it is (polynomials in the sequence lengths, the offset and whole numbers of periods), whether the elements
were rotated.  Rolling moves the start, slicing cuts, stacking joins runs that continue each other.  Every start is meant modulo
the length of the sequence: two starts agree when their difference is a whole multiple of it."""
import ast
import builtins
import itertools
from fractions import Fraction as Fr
from . import formula as F
from .formula import Ev, Cx, Const, Opaque, Ext, Bound, Unknown, Raised, num, sub, add, neg, mul, key, cadd, cneg, cmul
from .layout import L

NONNEG = set()                  # integer variables that are at least zero
INTS = set()                    # integer variables


def nat(n):
    NONNEG.add(n)
    INTS.add(n)
    return Cx(F.var(n))


def integer(n):
    INTS.add(n)
    return Cx(F.var(n))


class PyErr(Exception):
    """a Python exception of a known type"""
    def __init__(self, t):
        self.t = t


class Run:
    def __init__(self, src, start, len, rot=None, bad=None):
        self.src, self.start, self.len, self.rot, self.bad = src, start, len, rot, bad

    def __repr__(self):
        return "Run(%s, %s, %s, %s, %s)" % (self.src, key(self.start), key(self.len), self.rot, self.bad)

    def cp(self, **k):
        r = Run(self.src, self.start, self.len, self.rot, self.bad)
        r.__dict__.update(k)
        return r


class Corr:
    """cross-correlation of two sequences; lag: index of the lag of y against x when the index is 0"""
    def __init__(self, x, y, mode, conj, rev, view="complex"):
        self.x, self.y, self.mode, self.conj, self.rev, self.view = x, y, mode, conj, rev, view

    def cp(self, **k):
        r = Corr(self.x, self.y, self.mode, self.conj, self.rev, self.view)
        r.__dict__.update(k)
        return r


class Rng:
    """range(n) / list of n times something"""
    def __init__(self, n):
        self.n = n


class Times:
    def __init__(self, body, n):
        self.body, self.n = body, n


class Lst:
    """a mutable list"""
    def __init__(self, xs):
        self.xs = list(xs)


class Pv(L):
    def __init__(self, project, prims=None, facts=None, lens=None, iscomplex=None):
        L.__init__(self, project, prims)
        self.facts0 = list(facts or [])     # polynomials that are at least zero
        self.lens = lens or {}              # sequence -> length polynomial
        self.iscomplex = iscomplex
        self.divs0 = {}

    def all(self, f, mk, limit=512):
        def mk2():
            self.facts, self.eqs = list(self.facts0), []
            self.divs = {}
            return mk()
        return self.all_(f, mk2, limit)

    def all_(self, f, mk, limit):
        out, todo = [], [[]]
        while todo:
            ch = todo.pop()
            self.choices, self.conds, self.carries, self.calls = list(ch), [], [], []
            args, kw = mk()
            try:
                v = self.call(f, args, kw)
            except Raised:
                v = Raised
            except PyErr:
                v = Raised
            out.append(Path(v, list(self.facts), list(self.eqs), args, list(self.conds)))
            for k in range(len(ch), len(self.conds)):
                todo.append([c[2] for c in self.conds[:k]] + [not self.conds[k][2]])
            if len(out) > limit:
                raise Unknown("too many paths")
        self.choices = None
        return out

    # ---- order
    def nonneg(self, p, n=2):
        """p >= 0 follows from what is known"""
        def ok(q):
            return all(c >= 0 and all(a in NONNEG and x > 0 for a, x in m) for m, c in q.items())
        if ok(p):
            return True
        for k in range(1, n + 1):
            for fs in itertools.combinations(self.facts, k):
                q = p
                for f in fs:
                    q = sub(q, f)
                if ok(q):
                    return True
        return False

    def le(self, a, b):
        """a <= b; None: cannot be told"""
        d = sub(b, a)
        if self.nonneg(d):
            return True
        if self.nonneg(sub(neg(d), F.C(1))):
            return False
        return None

    def decide(self, a, b, rel):
        """a rel b, choosing a path when it is open"""
        if rel in (ast.Eq, ast.NotEq):
            d = sub(a, b)
            if not d:
                r = True
            elif self.le(a, b) is False or self.le(b, a) is False:
                r = False
            else:
                t = self.le(a, b)
                if t is None:
                    t = self.le(b, a)
                    if t is None:
                        t2 = self.choose(key(F.signed(d)[1]), "Eq")
                        if t2:
                            self.eqs.append(d)
                        return t2 if rel is ast.Eq else not t2
                    d = neg(d)
                # d <= 0 known; equal or smaller
                r = self.choose(key(F.signed(d)[1]), "Eq")
                self.facts.append(d if r else sub(neg(d), F.C(1)))
                if r:
                    self.eqs.append(d)
                return r if rel is ast.Eq else not r
            return r if rel is ast.Eq else not r
        if rel is ast.Gt:
            return self.decide(b, a, ast.Lt)
        if rel is ast.GtE:
            return self.decide(b, a, ast.LtE)
        if rel is ast.Lt:
            return not self.decide(b, a, ast.LtE)
        t = self.le(a, b)
        if t is None:
            t = self.choose(key(sub(b, a)), "GtE")
            self.facts.append(sub(b, a) if t else sub(sub(a, b), F.C(1)))
        return t

    def test(self, e, env, m):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and type(e.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq):
            a, b = self.lazy(e.left, env, m), self.lazy(e.comparators[0], env, m)
            if self.intpoly(a) and self.intpoly(b):
                return self.decide(a.re, b.re, type(e.ops[0]))
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(self.intpoly(x) for x in a + b) and isinstance(e.ops[0], (ast.Eq, ast.NotEq)):
                t = all(self.decide(x.re, y.re, ast.Eq) for x, y in zip(a, b))
                return t == isinstance(e.ops[0], ast.Eq)
            if isinstance(a, Cx) and isinstance(b, Cx) and a.real and b.real and ("max[" in key(a.re) + key(b.re) or "min[" in key(a.re) + key(b.re) or "acm(" in key(a.re) + key(b.re)):
                d = sub(a.re, b.re)
                if Cx(d).const() is None:
                    op = type(e.ops[0])
                    if op in (ast.Lt, ast.LtE):
                        d, op = neg(d), {ast.Lt: ast.Gt, ast.LtE: ast.GtE}[op]
                    if op in (ast.Gt, ast.GtE):
                        t = self.choose(("better", key(d)), "Gt")
                        return t
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            a, b = self.lazy(e.left, env, m), self.lazy(e.comparators[0], env, m)
            if isinstance(b, Const) and b.v is None and isinstance(a, (Run, Corr, Lst, Opaque)) and not (isinstance(a, Opaque) and not a.n.startswith("given ")):
                return isinstance(e.ops[0], ast.IsNot)
        if isinstance(e, ast.Call):
            v = self.lazy(e, env, m)
            if isinstance(v, Const) and isinstance(v.v, bool):
                return v.v
        t = L.test(self, e, env, m)
        if t is None and isinstance(e, (ast.Name, ast.Subscript, ast.Attribute, ast.BinOp)):
            v = self.lazy(e, env, m)
            if self.intpoly(v):
                return self.decide(v.re, {}, ast.NotEq)
        return t

    def intpoly(self, v):
        return isinstance(v, Cx) and v.real and all(c.denominator == 1 and all(a in INTS and x > 0 and x.denominator == 1 for a, x in m) for m, c in v.re.items())

    def divmod(self, a, b):
        """floor division of a by the positive b"""
        k0 = key(a) + " // " + key(b)
        if k0 in self.divs:
            return self.divs[k0]
        q, r = whole(a, b)
        if not r:
            return q, {}
        base, q = a, {}
        for k in range(0, 3):       # r lies in [k*b, (k+1)*b)?
            for s in (k, -1 - k):
                lo = sub(base, F.scale(b, Fr(s)))
                if self.nonneg(lo) and self.nonneg(sub(sub(b, lo), F.C(1))):
                    self.divs[k0] = (add(q, F.C(s)), lo)
                    return self.divs[k0]
        if self.nonneg(base):
            if self.decide(base, b, ast.Lt):
                self.divs[k0] = (q, base)
                return self.divs[k0]
            n = nat("periods of %s in %s" % (key(b), key(base)))
            K = add(n.re, F.C(1))
        else:
            K = integer("floor(%s / %s)" % (key(base), key(b))).re
            if self.nonneg(sub(neg(base), F.C(1))):
                self.facts.append(sub(neg(K), F.C(1)))
        rem = sub(base, mul(K, b))
        self.facts.append(rem)
        self.facts.append(sub(sub(b, rem), F.C(1)))
        self.divs[k0] = (add(q, K), rem)
        return self.divs[k0]

    # ---- expressions
    def binop_(self, op, a, b):
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and self.intpoly(a) and self.intpoly(b) and Cx(b.re).const() is None:
            if not self.nonneg(sub(b.re, F.C(1))):
                raise Unknown("divisor")
            q, r = self.divmod(a.re, b.re)
            return Cx(q if isinstance(op, ast.FloorDiv) else r)
        if isinstance(a, Run) or isinstance(b, Run):
            r, o = (a, b) if isinstance(a, Run) else (b, a)
            if isinstance(o, Cx) and (isinstance(op, ast.Mult) or isinstance(op, ast.Div) and r is a):
                if isinstance(op, ast.Div):
                    o = F.cdiv(num(1), o)
                c = o.const()
                if c == 1:
                    return r
                return r.cp(rot=turned(r.rot, o))
            if isinstance(o, (Cx, Opaque)):
                raise Unknown("arithmetic on a sequence")
            raise Unknown("arithmetic on sequences")
        if isinstance(a, Corr) or isinstance(b, Corr):
            r, o = (a, b) if isinstance(a, Corr) else (b, a)
            if isinstance(o, Cx) and isinstance(op, (ast.Mult, ast.Div)):
                raise Unknown("scaled correlation")
            raise Unknown("arithmetic on a correlation")
        if isinstance(a, Lst) and isinstance(b, (Lst, tuple)) and isinstance(op, ast.Add):
            return Lst(a.xs + list(b.xs if isinstance(b, Lst) else b))
        if isinstance(a, (tuple, Lst)) and len(getattr(a, "xs", a)) == 1 and self.intpoly(b) and isinstance(op, ast.Mult):
            return Times(getattr(a, "xs", a)[0], b.re)
        if isinstance(b, (tuple, Lst)) and len(getattr(b, "xs", b)) == 1 and self.intpoly(a) and isinstance(op, ast.Mult):
            return Times(getattr(b, "xs", b)[0], a.re)
        return L.binop_(self, op, a, b)

    def expr(self, e, env, m):
        if isinstance(e, ast.Name) and e.id not in env and m.lookup(e.id) is None and not hasattr(builtins, e.id):
            raise PyErr("NameError")
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.lazy(e.generators[0].iter, env, m)
            if isinstance(it, Rng):
                s = dict(env)
                self.assign(e.generators[0].target, nat("i#%d.%d" % (e.lineno, e.col_offset)), s, m)
                return Times(self.expr(e.elt, s, m), it.n)
            if isinstance(it, Lst):
                it = tuple(it.xs)
            if isinstance(it, tuple):
                out = []
                for x in it:
                    s = dict(env)
                    self.assign(e.generators[0].target, x, s, m)
                    out.append(self.expr(e.elt, s, m))
                return tuple(out)
        if isinstance(e, ast.List):
            return Lst([self.lazy(x, env, m) for x in e.elts])
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Pow) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, complex):
            x = self.lazy(e.right, env, m)
            c = x.const() if isinstance(x, Cx) else None
            if c is not None and e.left.value == 1j and c.denominator == 1:
                return [Cx(F.C(1)), Cx({}, F.C(1), True), Cx(F.C(-1)), Cx({}, F.C(-1), True)][int(c) % 4]
        if isinstance(e, ast.IfExp):
            t = self.test(e.test, env, m)
            if t is None:
                t = self.choose(self.condkey(e.test, env, m), "?")
            return self.expr(e.body if t else e.orelse, env, m)
        return L.expr(self, e, env, m)

    def attr(self, v, n):
        if isinstance(v, Run):
            if n == "shape":
                return (Cx(v.len),)
            if n == "size":
                return Cx(v.len)
            if n in ("dtype", "ndim"):
                return num(1) if n == "ndim" else Opaque("dtype")
            return Bound(v, n)
        if isinstance(v, Corr):
            if n in ("real", "imag"):
                return v.cp(view=n)
            if n == "shape":
                raise Unknown("length of a correlation")
            return Bound(v, n)
        if isinstance(v, (Lst, Times)):
            return Bound(v, n)
        if isinstance(v, Grid):
            if n == "shape":
                return v.shape
            return Bound(v, n)
        if isinstance(v, Opaque) and v.n in self.prims.get("attrs", {}) and n in self.prims["attrs"][v.n]:
            return self.prims["attrs"][v.n][n]
        return L.attr(self, v, n)

    def index(self, v, s, env, m):
        if isinstance(v, Run):
            if isinstance(s, ast.Slice):
                lo, hi, st = (None if x is None else self.lazy(x, env, m) for x in (s.lower, s.upper, s.step))
                if isinstance(st, Cx) and st.const() == -1 and lo is None and hi is None:
                    return v.cp(rot=("reversed", v.rot))
                if st is not None and not (isinstance(st, Cx) and st.const() == 1):
                    raise Unknown("step")
                lo = self.bound(lo, v, {})
                hi = self.bound(hi, v, v.len)
                if self.decide(lo, hi, ast.Gt):
                    hi = lo
                return v.cp(start=add(v.start, lo), len=sub(hi, lo))
            raise Unknown("index")
        if isinstance(v, tuple) and v and not isinstance(s, ast.Slice):
            k = self.lazy(s, env, m)
            c = k.const() if isinstance(k, Cx) else None
            if c is not None and not -len(v) <= c < len(v):
                raise PyErr("IndexError")
        if isinstance(v, Lst):
            k = self.lazy(s, env, m) if not isinstance(s, ast.Slice) else None
            c = k.const() if isinstance(k, Cx) else None
            if c is not None:
                return v.xs[int(c)]
            raise Unknown("list index")
        if isinstance(v, Grid):
            if isinstance(s, ast.Slice):
                lo, hi, st = (None if x is None else self.lazy(x, env, m) for x in (s.lower, s.upper, s.step))
                if lo is None and st is None and isinstance(hi, Cx) and hi.const() is not None:
                    return Grid(v.name, v.rows[:int(hi.const())], v.shape[1])
                raise Unknown("rows")
            k = self.lazy(s, env, m)
            c = k.const() if isinstance(k, Cx) else None
            if c is None:
                raise Unknown("row")
            if not -len(v.rows) <= c < len(v.rows):
                raise PyErr("IndexError")
            return v.rows[int(c)]
        return L.index(self, v, s, env, m)

    def bound(self, b, v, default):
        if b is None or isinstance(b, Const) and b.v is None:
            return default
        if not self.intpoly(b):
            raise Unknown("slice bound")
        p = b.re
        if self.decide(p, {}, ast.Lt):
            p = add(v.len, p)
            if self.decide(p, {}, ast.Lt):
                p = {}
        if self.decide(p, v.len, ast.Gt):
            p = v.len
        return p

    def period(self, r):
        return self.lens[r.src]

    def join(self, parts):
        parts = [x for x in parts if not (isinstance(x, Run) and not x.len)]
        if not parts:
            return Run(None, {}, {})
        out = parts[0]
        for y in parts[1:]:
            if not isinstance(y, Run) or not isinstance(out, Run):
                raise Unknown("joined")
            if out.bad or y.bad:
                out = out.cp(len=add(out.len, y.len), bad=out.bad or y.bad)
                continue
            # an empty part does not matter
            if self.decide(y.len, {}, ast.Eq):
                continue
            if self.decide(out.len, {}, ast.Eq):
                out = y
                continue
            if y.src != out.src or y.rot != out.rot:
                out = out.cp(len=add(out.len, y.len), bad="parts of different sequences")
                continue
            gap = sub(add(out.start, out.len), y.start)
            bad = None if self.congruent(gap, self.period(out)) else "a part that does not continue where the one before it ends"
            out = out.cp(len=add(out.len, y.len), bad=bad)
        return out

    def congruent(self, d, L_):
        d = self.reduce(d)
        q, r = whole(d, L_)
        return not r

    def reduce(self, d):
        """equalities among what is known: f >= 0 and -f >= 0"""
        for f in self.eqs * 3:
            for m, c in sorted(f.items()):
                if len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and not any(a == m[0][0] for mm in f if mm != m for a, _ in mm):
                    d = put(d, m[0][0], sub(F.var(m[0][0]), F.scale(f, 1 / c)))
                    break
        return d

    def impossible(self):
        """the conditions of the path contradict each other"""
        for f in self.facts:
            f = self.reduce(f)
            if self.nonneg(sub(neg(f), F.C(1))):
                return True
        for f in self.eqs:
            f = self.reduce(f)
            if f and (self.nonneg(sub(neg(f), F.C(1))) or self.nonneg(sub(f, F.C(1)))):
                return True
        return False

    def times(self, t):
        if not isinstance(t.body, Run):
            raise Unknown("repeated")
        n = t.n
        if self.decide(n, {}, ast.LtE):
            return None
        b = t.body
        if b.bad:
            return b.cp(len=mul(b.len, n))
        if not self.decide(n, F.C(1), ast.Eq) and not self.congruent(b.len, self.period(b)):
            return b.cp(len=mul(b.len, n), bad="repeats part of a period")
        return b.cp(len=mul(b.len, n))

    def stmt(self, s, env, m):
        if isinstance(s, ast.Try):
            try:
                self.block(s.body, env, m)
            except PyErr as x:
                for h in s.handlers:
                    t = h.type
                    names = [ast.unparse(y).split(".")[-1] for y in (t.elts if isinstance(t, ast.Tuple) else [t])] if t is not None else None
                    if names is None or x.t in names or "Exception" in names:
                        self.block(h.body, env, m)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env, m)
            self.block(s.finalbody, env, m)
            return
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            if isinstance(f, ast.Attribute):
                self.expr(s.value, env, m)
                return
        if isinstance(s, ast.While) or isinstance(s, (ast.Break, ast.Continue)):
            raise Unknown("loop")
        L.stmt(self, s, env, m)

    def lazy(self, a, env, m):
        try:
            return self.expr(a, env, m)
        except Unknown as u:
            return Opaque(str(u))

    def loop(self, s, env, m):
        it = self.lazy(s.iter, env, m)
        if isinstance(it, Lst):
            it = tuple(it.xs)
        if isinstance(it, Rng) and Cx(it.n).const() is not None:
            it = tuple(num(k) for k in range(int(Cx(it.n).const())))
        if isinstance(it, tuple) and len(it) <= 8:
            for x in it:
                self.assign(s.target, x, env, m)
                self.block(s.body, env, m)
            return self.block(s.orelse, env, m)
        if isinstance(it, Opaque) and it.n.startswith("steps of "):
            # a generic round of a search
            self.assign(s.target, nat("position"), env, m)
            try:
                self.block(s.body, env, m)
            except PyErr:
                raise
            raise Raised()
        raise Unknown("loop")

    def apply(self, f, args, kw):
        if isinstance(f, Opaque) and f.n.startswith("given "):
            raise Unknown("call")
        return L.apply(self, f, args, kw)

    def method(self, v, n, args, kw):
        a = args[0] if args else None
        if isinstance(v, Run):
            if n in ("copy", "astype", "squeeze", "flatten", "ravel", "view"):
                return v
            if n in ("conj", "conjugate"):
                return v.cp(rot=("conj", v.rot))
            raise Unknown("method " + n)
        if isinstance(v, Corr):
            if n in ("conj", "conjugate"):
                return v
            if n in ("argmax", "max", "min", "argmin"):
                return self.ext_("numpy." + n, [v] + list(args), kw)
            raise Unknown("method " + n)
        if isinstance(v, Lst):
            if n == "append":
                v.xs.append(a)
                return Const(None)
            if n == "extend":
                v.xs.extend(self.seqs(a))
                return Const(None)
            if n == "remove":
                ks = [k for k, x in enumerate(v.xs) if isinstance(x, Cx) and isinstance(a, Cx) and F.equal(x, a)]
                if not ks:
                    if isinstance(a, Cx) and a.const() is not None and all(isinstance(x, Cx) and x.const() is not None for x in v.xs):
                        raise PyErr("ValueError")
                    raise Unknown("remove")
                del v.xs[ks[0]]
                return Const(None)
            if n == "pop" and (a is None or isinstance(a, Cx) and a.const() is not None):
                return v.xs.pop(int(a.const()) if a is not None else -1)
            if n == "index":
                for k, x in enumerate(v.xs):
                    if isinstance(x, Cx) and isinstance(a, Cx) and F.equal(x, a):
                        return num(k)
            raise Unknown("method " + n)
        return L.method(self, v, n, args, kw)

    def seqs(self, a):
        if isinstance(a, Lst):
            return list(a.xs)
        if isinstance(a, tuple):
            return list(a)
        if isinstance(a, Times):
            r = self.times(a)
            if r is None:
                raise PyErr("ValueError")
            return [r]
        raise Unknown("what is stacked")

    def ext_(self, n, args, kw):
        if n in self.prims:
            return self.prims[n](self, args, kw)
        b = n.split(".")[-1]
        a = args[0] if args else kw.get("a", kw.get("x"))
        if n in ("numpy.shape", "numpy.size", "numpy.ndim") and len(args) == 1 and not kw:
            return self.attr(a, b)
        if n.startswith("numpy.") or n.startswith("scipy.signal") or n.startswith("builtins."):
            if b in ("hstack", "concatenate", "r_"):
                if kw and not (set(kw) == {"axis"} and isinstance(kw["axis"], Cx) and kw["axis"].const() in (0, -1)):
                    raise Unknown(b)
                xs = self.seqs(a)
                if not xs:
                    raise PyErr("ValueError")
                if all(isinstance(x, (Run, Times)) for x in xs):
                    ys = []
                    for x in xs:
                        if isinstance(x, Times):
                            x = self.times(x)
                            if x is None:
                                continue
                        ys.append(x)
                    return self.join(ys)
                raise Unknown(b)
            if b in ("array", "asarray", "atleast_1d", "ascontiguousarray", "asanyarray", "copy"):
                if isinstance(a, Lst) and not a.xs or isinstance(a, tuple) and not a:
                    return Run(None, {}, {})
                if isinstance(a, (Run, Corr, Grid)):
                    return a
                if isinstance(a, Lst):
                    return Grid("stack", list(a.xs), None)
                if isinstance(a, tuple) and any(isinstance(x, (Run, Opaque)) for x in a):
                    return Grid("stack", list(a), None)
            if b in ("empty", "zeros", "ones") and isinstance(a, Cx) and a.const() == 0:
                return Run(None, {}, {})
            if b == "roll" and isinstance(a, Run):
                k = args[1] if len(args) > 1 else kw.get("shift")
                if not self.intpoly(k):
                    raise Unknown("roll")
                if a.bad:
                    return a
                d = sub(a.len, self.period(a))
                if d and not self.congruent(a.len, self.period(a)):
                    return a.cp(bad="rolls part of a period")
                return a.cp(start=sub(a.start, k.re))
            if b == "tile" and isinstance(a, Run):
                k = args[1] if len(args) > 1 else kw.get("reps")
                if isinstance(k, tuple) and len(k) == 1:
                    k = k[0]
                if not self.intpoly(k):
                    raise Unknown("tile")
                r = self.times(Times(a, k.re))
                return Run(None, {}, {}) if r is None else r
            if b == "resize" and isinstance(a, Run) and not a.bad:
                k = args[1] if len(args) > 1 else kw.get("new_shape")
                if isinstance(k, tuple) and len(k) == 1:
                    k = k[0]
                if not self.intpoly(k) or not self.congruent(a.len, self.period(a)):
                    raise Unknown("resize")
                return a.cp(len=k.re)
            if b in ("range", "arange"):
                xs = list(args)
                if len(xs) == 1 and self.intpoly(xs[0]):
                    c = xs[0].const()
                    if c is not None and 0 <= c <= 8:
                        return tuple(num(k) for k in range(int(c)))
                    return Rng(xs[0].re)
                cs = [x.const() if isinstance(x, Cx) else None for x in xs]
                if all(c is not None and c.denominator == 1 for c in cs) and len(range(*map(int, cs))) <= 8:
                    return tuple(num(k) for k in range(*map(int, cs)))
                raise Unknown(b)
            if b == "list":
                if not args:
                    return Lst([])
                return Lst(self.seqs(a))
            if b == "tuple" and isinstance(a, Lst):
                return tuple(a.xs)
            if b == "len":
                if isinstance(a, Run):
                    return Cx(a.len)
                if isinstance(a, Lst):
                    return num(len(a.xs))
                if isinstance(a, Grid):
                    return a.shape[0]
            if b in ("max", "min", "maximum", "minimum") and len(args) == 2 and all(self.intpoly(x) for x in args):
                t = self.decide(args[0].re, args[1].re, ast.GtE)
                return args[0] if t == (b in ("max", "maximum")) else args[1]
            if b == "divmod" and all(self.intpoly(x) for x in args) and self.nonneg(sub(args[1].re, F.C(1))):
                q, r = self.divmod(args[0].re, args[1].re)
                return (Cx(q), Cx(r))
            if b in ("floor_divide", "mod", "remainder") and all(self.intpoly(x) for x in args):
                return self.binop_(ast.FloorDiv() if b == "floor_divide" else ast.Mod(), args[0], args[1])
            if b == "int" and self.intpoly(a):
                return a
            if b in ("conj", "conjugate") and isinstance(a, Run):
                return a.cp(rot=("conj", a.rot))
            if b in ("flip", "flipud") and isinstance(a, Run):
                return a.cp(rot=("reversed", a.rot))
            if b in ("iscomplexobj", "iscomplex", "issubdtype", "isrealobj"):
                if self.iscomplex is None:
                    raise Unknown(b)
                if b == "issubdtype" and not (len(args) > 1 and isinstance(args[1], Ext) and args[1].n.split(".")[-1] == "complexfloating"):
                    raise Unknown(b)
                return Const(self.iscomplex != (b == "isrealobj"))
            if b in ("fftconvolve", "convolve", "oaconvolve", "correlate"):
                y = args[1]
                mode = args[2] if len(args) > 2 else kw.get("mode", Const("full" if b != "correlate" or "scipy" in n else "valid"))
                if not isinstance(a, Run) or not isinstance(y, Run) or not isinstance(mode, Const):
                    raise Unknown(b)
                x, cx, rx = undo(a)
                y, cy, ry = undo(y)
                if b == "correlate":
                    return Corr(x, y, mode.v, cx != (not cy), (rx, not ry))
                return Corr(x, y, mode.v, cx != cy, (rx, ry))
            if b in ("abs", "absolute", "fabs") and isinstance(a, Corr):
                return a.cp(view="abs")
            if b == "real" and isinstance(a, Corr):
                return a.cp(view="real")
            if b == "imag" and isinstance(a, Corr):
                return a.cp(view="imag")
            if b == "argmax" and isinstance(a, Corr):
                return self.argmax(a)
            if b in ("argmin", "nanargmin") and isinstance(a, Corr):
                return integer("argmin[%s]" % a.mode)
            if b in ("max", "amax", "min", "amin") and isinstance(a, Corr):
                return Cx(F.var(b.replace("amin", "min").replace("amax", "max") + "[%s %s %s|%s]" % (a.view, a.x.src, a.y.src, a.y.rot)))
            if b in ("count_nonzero",):
                return Opaque("count")
        return L.ext_(self, n, args, kw)

    def argmax(self, c):
        """the index of the largest value, in terms of the lag: how far y has to be moved to match x"""
        if c.rev == (False, True):
            sgn, base = 1, {"full": sub(c.y.len, F.C(1))}
        elif c.rev == (True, False):
            sgn, base = -1, {"full": sub(c.x.len, F.C(1))}
        else:
            return integer("argmax of a convolution")
        if c.view == "imag":
            return integer("argmax of the imaginary part")
        if self.iscomplex and not c.conj:
            return integer("argmax of a correlation without conjugation")
        if c.mode not in base:
            if c.mode == "same":
                # the middle of the full one, of the length of the first argument
                lag0 = integer("shift of the middle part").re
                return Cx(add(F.scale(lag("%s|%s" % (c.x.src, c.y.src)), Fr(sgn)), lag0))
            raise Unknown("mode %s" % c.mode)
        return Cx(add(F.scale(lag("%s|%s" % (c.x.src, c.y.src)), Fr(sgn)), base[c.mode]))


def lag(n):
    return integer("lag " + n).re


def undo(r):
    """(sequence, conjugated, reversed)"""
    c = v = False
    t = r.rot
    while isinstance(t, tuple) and t[0] in ("conj", "reversed"):
        if t[0] == "conj":
            c = not c
        else:
            v = not v
        t = t[1]
    return r.cp(rot=t), c, v


def turned(rot, by):
    c = "%s|%s" % (key(by.re), key(by.im))
    return ("turned", c, rot) if rot is not None else ("turned", c)


class Grid:
    """an array with a known number of rows"""
    def __init__(self, name, rows, n):
        self.name, self.rows, self.n = name, rows, n
        self.shape = (num(len(rows)), n if n is not None else Opaque("row length"))


class Path:
    def __init__(self, value, facts, eqs, args, conds):
        self.value, self.facts, self.eqs, self.args, self.conds = value, facts, eqs, args, conds


def put(p, v, q):
    """p with the variable v replaced"""
    out = {}
    for m, c in p.items():
        t = F.C(c)
        for a, x in m:
            t = mul(t, F.powr(q if a == v else F.var(a), x) if a == v else {((a, x),): Fr(1)})
        out = add(out, t)
    return out


def whole(d, L_):
    """d = q*L_ + r with an integer polynomial q, r as small as the division leaves it"""
    lead = None
    # divide by the leading term of L_: the variable that appears only there
    for m, c in L_.items():
        if m and len(m) == 1 and m[0][1] == 1 and abs(c) == 1:
            if lead is None or m[0][0].startswith("spare"):
                lead = (m, c)
    if lead is None:
        if len(L_) == 1 and () in L_:
            k = L_[()]
            if all((c / k).denominator == 1 for c in d.values()):
                return F.scale(d, 1 / k), {}
        return {}, d
    m0, c0 = lead
    v = m0[0][0]
    q = {}
    r = d
    for _ in range(4):
        t = {}
        for m, c in r.items():
            f = dict(m)
            if f.get(v, 0) >= 1:
                f[v] -= 1
                mm = tuple(sorted((a, x) for a, x in f.items() if x))
                if c.denominator == 1:
                    t = add(t, {mm: c / c0})
        if not t:
            break
        q = add(q, t)
        r = sub(r, mul(t, L_))
    return q, r


# ---------------------------------------------------------------- comparing
def at(p, env):
    r = 0
    for m, c in p.items():
        t = c
        for a, x in m:
            t *= env[a] ** int(x)
        r += t
    return r


def names(ps):
    return sorted({a for p in ps for m in p for a, _ in m})


def witness(path, p, mod=None, top=5, limit=400000):
    """values of the variables which satisfy what is known on the path and for which p is not zero (modulo mod)"""
    cons = list(path.facts)
    eqs = list(path.eqs)
    # only what is connected to p matters, but everything has to be satisfiable
    vs = names(cons + eqs + [p] + ([mod] if mod else []))
    dom = {v: range(0, top + 1) if v in NONNEG else range(-top, top + 1) for v in vs}
    cons = [(f, names([f]), True) for f in cons] + [(f, names([f]), False) for f in eqs]
    order, env, steps = vs, {}, [0]

    def ok(k):
        done = set(order[:k + 1])
        for f, ns, ge in cons:
            if order[k] in ns and set(ns) <= done:
                x = at(f, env)
                if x < 0 if ge else x != 0:
                    return False
        return True

    def rec(k):
        steps[0] += 1
        if steps[0] > limit:
            return None
        if k == len(order):
            x = at(p, env)
            if mod is not None:
                m = at(mod, env)
                if m <= 0:
                    return None
                x %= m
            return dict(env) if x else None
        for x in dom[order[k]]:
            env[order[k]] = x
            if ok(k):
                r = rec(k + 1)
                if r is not None:
                    return r
        env.pop(order[k], None)
        return None
    return rec(0)


def feasible(path):
    return witness(path, F.C(1)) is not None


def differs(ev, path, p, mod=None, what=""):
    """None: p is zero (modulo mod); text: it is not for some values; Unknown otherwise"""
    ev.eqs, ev.facts = path.eqs, path.facts
    d = ev.reduce(p)
    if not d:
        return None
    if ev.impossible():
        return None
    if mod is not None and ev.congruent(d, mod):
        return None
    w = witness(path, p, mod)
    if w is None:
        raise Unknown("%s: whether %s vanishes" % (what, key(d)[:100]))
    return w
