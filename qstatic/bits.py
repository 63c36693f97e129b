"""Arrays as functions of their indices.  An array is a shape (polynomials) and a term for its element at symbolic indices: digits of
numbers, powers of two, table entries, inverse permutations, sums over an index, selections by a mask.  Two arrays are the same when their
terms have the same normal form at fresh indices; they differ when the terms take different values for some small dimensions."""
import ast
import itertools
from fractions import Fraction as Fr
from . import formula as F
from .formula import Cx, Const, Opaque, Ext, Bound, Unknown, Raised, num, sub, add, neg, mul, key, Fn
from .layout import L, Obj
from .periodic import whole, put
from .project import ClassInfo, FuncInfo

AT = {}         # atom -> (kind, arguments: polynomials or strings)
LT = {}         # index variable -> the polynomial it stays below
NONZERO = {}    # index variable -> whether it is known to differ from zero on the path looked at
DIMS = set()    # variables that are dimensions: at least one


def dim(n):
    DIMS.add(n)
    return F.var(n)


def ix(n, below):
    LT[n] = below
    return F.var(n)


def cst(p):
    if set(p) <= {()}:
        return p.get((), Fr(0))
    return None


def atom(kind, *args):
    a = "%s[%s]" % (kind, " ; ".join(key(x) if isinstance(x, dict) else str(x) for x in args))
    AT[a] = (kind, args)
    return F.var(a)


def only(p):
    """the atom p consists of"""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def log2of(p):
    """x when p is 2**x"""
    c = cst(p)
    if c is not None:
        if c > 0 and c.denominator == 1 and int(c) & (int(c) - 1) == 0:
            return F.C(int(c).bit_length() - 1)
        return None
    if len(p) == 1:
        (m, c), = p.items()
        e = {}
        if c > 0:
            n, d = c.numerator, c.denominator
            if n & (n - 1) or d & (d - 1):
                return None
            e = F.C(n.bit_length() - d.bit_length())
        else:
            return None
        for a, x in m:
            if a not in AT or AT[a][0] != "2^" or x.denominator != 1:
                return None
            e = add(e, F.scale(AT[a][1][0], x))
        return e
    return None


def pow2(p):
    c = cst(p)
    if c is not None and c.denominator == 1 and abs(c) < 64:
        return F.C(Fr(2) ** int(c))
    return atom("2^", p)


def norm(p):
    """powers of two of each term gathered into one"""
    out = {}
    for m, c in p.items():
        e, rest = {}, {(): Fr(1)}
        for a, x in m:
            if a in AT and AT[a][0] == "2^" and x.denominator == 1:
                e = add(e, F.scale(AT[a][1][0], x))
            else:
                rest = mul(rest, {((a, x),): Fr(1)})
        k = e.get((), Fr(0))
        if k.denominator == 1:
            c = c * Fr(2) ** int(k)
            e = {t: y for t, y in e.items() if t}
        out = add(out, F.scale(mul(rest, pow2(e)), c))
    return out


def split(a, b):
    """a = q*b + r"""
    cb = cst(b)
    if cb is None or cb <= 0:
        return whole(a, b)
    q = {m: c / cb for m, c in a.items() if m and (c / cb).denominator == 1}
    r = {m: c for m, c in a.items() if m not in q}
    if cst(r) is not None:
        k = cst(r) // cb
        return add(q, F.C(k)), F.C(cst(r) - k * cb)
    return q, r


def fdiv(a, b):
    ca, cb = cst(a), cst(b)
    if ca is not None and cb:
        return F.C(ca // cb)
    e = log2of(b)
    q, r = split(a, b)
    if inside(r, b):
        return q
    if e is not None and cb is None:
        return shr(a, e)
    return atom("//", a, b)


def fmod(a, b):
    ca, cb = cst(a), cst(b)
    if ca is not None and cb:
        return F.C(ca % cb)
    q, r = split(a, b)
    if inside(r, b):
        return r
    if cb == 2:
        x = only(a)
        if x in AT and AT[x][0] == "shr":
            return bit(*AT[x][1])
        return bit(a, {})
    return atom("%", a, b)


def inside(r, b):
    """0 <= r < b"""
    if not r:
        return True
    x = only(r)
    if x in LT and LT[x] == b:
        return True
    cb = cst(b)
    cr = cst(r)
    return cb is not None and cr is not None and 0 <= cr < cb


def sign(p, N=None):
    """-1 or 1 (zero counts as 1) where the numbers show it, None otherwise; dimensions are at least one"""
    if not p or cst(p) is not None:
        return -1 if p and cst(p) < 0 else 1
    if not {x for m in p for x, _ in m} <= DIMS | set(LT):
        return None
    if all(c > 0 for c in p.values()):
        return 1
    c0 = p.get((), 0)
    low = sum(c for m, c in p.items() if m)
    if {x for m in p for x, _ in m} <= DIMS and all(c > 0 for m, c in p.items() if m) and low + c0 >= 0:
        return 1
    if all(c < 0 for m, c in p.items() if m) and c0 <= 0:
        return -1
    for x in LT:
        # below - x >= 1
        if p == sub(LT[x], F.var(x)) or p == sub(sub(LT[x], F.var(x)), F.C(1)):
            return 1
    return None


def strictly(p):
    """-1 or 1 when the numbers cannot be zero and only dimensions take part"""
    vs = {x for m in p for x, _ in m}
    if not vs or not vs <= DIMS:
        return None
    if all(c > 0 for m, c in p.items() if m) and sum(p.values()) > 0:
        return 1
    if all(c < 0 for m, c in p.items() if m) and sum(p.values()) < 0:
        return -1
    return None


def shr(a, b):
    if not b:
        return a
    ca, cb = cst(a), cst(b)
    if ca is not None and cb is not None:
        return F.C(int(ca) >> int(cb))
    x = only(a)
    if x in AT and AT[x][0] == "shr":
        return shr(AT[x][1][0], add(AT[x][1][1], b))
    return atom("shr", a, b)


def bit(a, b):
    ca, cb = cst(a), cst(b)
    if ca is not None and cb is not None:
        return F.C((int(ca) >> int(cb)) & 1)
    return atom("bit", a, b)


def band(a, b):
    ca, cb = cst(a), cst(b)
    if ca is not None and cb is not None:
        return F.C(int(ca) & int(cb))
    for x, y in ((a, b), (b, a)):
        if cst(y) == 1:
            s = only(x)
            return bit(*AT[s][1]) if s in AT and AT[s][0] == "shr" else bit(x, {})
        e = log2of(y)
        if e is not None and (cst(x) is None or cst(y) is None) and log2of(x) is None:
            return mul(bit(x, e), y)
    return atom("and", *sorted((a, b), key=key))


def bop(kind, a, b):
    ca, cb = cst(a), cst(b)
    if ca is not None and cb is not None:
        return F.C({"or": int(ca) | int(cb), "xor": int(ca) ^ int(cb)}[kind])
    return atom(kind, *sorted((a, b), key=key))


def compare(op, c, x):
    v = cst(x)
    if v is not None:
        return F.C(int({"Eq": v == c, "NotEq": v != c, "Gt": v > c, "Lt": v < c, "GtE": v >= c, "LtE": v <= c}[op]))
    if op in ("NotEq", "LtE", "GtE"):
        return sub(F.C(1), compare({"NotEq": "Eq", "LtE": "Gt", "GtE": "Lt"}[op], c, x))
    return atom("cmp", op, c, x)


def table(n, *idx):
    return atom("tab", n, *idx)


def inverse(g, x):
    """n with g[n] == x"""
    a = only(x)
    if a in AT and AT[a][0] == "tab" and AT[a][1][0] == g:
        return AT[a][1][1]
    return atom("inv", g, x)


def total(fn, n):
    c = cst(n)
    if c is not None and 0 <= c <= 16:
        t = {}
        for k in range(int(c)):
            t = add(t, fn(F.C(k)))
        return t
    d = 0
    while True:
        v = "s%d#" % d
        LT[v] = n
        p = fn(F.var(v))
        if not any("s%d#" % (d + 1) in a for m in p for a, _ in m) and key(p).count("sum[s%d#" % d) == 0:
            return atom("sum", v, p, n)
        d += 1


def inst(p, env):
    """p with integers for variables"""
    out = {}
    for m, c in p.items():
        t = F.C(c)
        for a, x in m:
            t = mul(t, powr(insta(a, env), x))
        out = add(out, t)
    return out


def powr(p, x):
    if x == 1:
        return p
    c = cst(p)
    if c is not None and x.denominator == 1 and c:
        return F.C(c ** int(x))
    return F.powr(p, x)


def quot(a, b):
    """a/b, exactly"""
    c = cst(b)
    if c:
        return F.scale(a, Fr(1) / c)
    if not a:
        return {}
    q, r = whole(a, b)
    return q if not r else atom("quot", a, b)


def factor(p):
    """a common factor of a table, as a number once it is one"""
    return p if cst(p) is not None else atom("factor", p)


REALS = set()
FOLD = {"quot": quot, "factor": factor, "2^": pow2, "//": fdiv, "%": fmod, "shr": shr, "bit": bit, "and": band}


def insta(a, env):
    if a in env:
        return F.C(env[a]) if not isinstance(env[a], dict) else env[a]
    if a not in AT:
        return F.var(a)
    kind, args = AT[a]
    if kind == "sum":
        v, p, n = args
        n = inst(n, env)
        return total(lambda k: inst(p, dict(env, **{v: k})), n)
    if kind == "nth":
        v, t, msk, x = args
        e = {k: w for k, w in env.items() if k != v}
        return atom("nth", v, inst(t, e), inst(msk, e), inst(x, env))
    args = [inst(x, env) if isinstance(x, dict) else x for x in args]
    if kind == "cmp":
        return compare(*args)
    if kind in FOLD:
        return FOLD[kind](*args)
    if kind in ("or", "xor"):
        return bop(kind, *args)
    if kind == "tab":
        return table(*args)
    if kind == "inv":
        return inverse(*args)
    return atom(kind, *args)


def free(p, seen=None):
    """the variables of p"""
    out = set()
    for m in p:
        for a, _ in m:
            if a in AT:
                kind, args = AT[a]
                fs = set()
                for x in args:
                    if isinstance(x, dict):
                        fs |= free(x)
                if kind in ("sum", "nth"):
                    fs.discard(args[0])
                out |= fs
            else:
                out.add(a)
    return out


def witness(p, limit=4000):
    """small dimensions and indices for which the term p is not zero; None: none found"""
    vs = free(p)
    todo = set(vs)
    while True:
        more = set()
        for v in todo:
            if v in LT:
                more |= free(LT[v])
        if more <= todo:
            break
        todo |= more
    todo.discard('1j')
    ds = sorted(v for v in todo if v in DIMS)
    xs = [v for v in sorted(todo) if v in LT]
    rs = {v: 2 for v in todo if v in REALS}
    if set(todo) - set(ds) - set(xs) - set(rs):
        return None
    n = 0
    for dv in itertools.product((2, 3, 1), repeat=len(ds)):
        env = dict(zip(ds, dv), **rs)

        def go(i, env):
            nonlocal n
            if i == len(xs):
                n += 1
                return env if inst(p, env) else None
            hi = cst(inst(LT[xs[i]], env))
            if hi is None:
                return None
            for k in range(int(hi)):
                if xs[i] in NONZERO and NONZERO[xs[i]] != (k != 0):
                    continue
                if n > limit:
                    return None
                w = go(i + 1, dict(env, **{xs[i]: k}))
                if w is not None:
                    return w
            return None
        # bounds that depend on other indices come last
        xs.sort(key=lambda v: len(free(LT[v]) & set(LT)))
        w = go(0, env)
        if w is not None:
            return w
    return None


class Ix:
    """shape and element"""
    def __init__(self, shape, fn, name=None, isbool=False):
        self.shape, self.fn, self.name, self.isbool = tuple(shape), fn, name, isbool
        self.reader = None

    def cp(self, **k):
        r = Ix(self.shape, self.fn, self.name, self.isbool)
        r.__dict__.update(k)
        return r

    def __repr__(self):
        vs = [F.var("x%d" % k) for k in range(len(self.shape))]
        return "Ix((%s), %s)" % (", ".join(key(s) for s in self.shape), key(self.fn(*vs)))


def arr(name, *shape, isbool=False):
    """an array the caller gives"""
    return Ix(shape, lambda *i: table(name, *i), name, isbool)


class Rng:
    def __init__(self, lo, n):
        self.lo, self.n = lo, n


class Enum:
    """enumerate / zip / direct iteration over rows"""
    def __init__(self, parts):
        self.parts = parts


class Bv(L):
    """evaluates into arrays of this kind"""
    def all(self, f, mk, limit=64):
        return L.all(self, f, mk, limit)

    # ---- numbers
    def val(self, v):
        if isinstance(v, Cx) and v.real:
            return v.re
        if isinstance(v, Cx):
            return add(v.re, mul(F.var("1j"), v.im))
        if isinstance(v, Const) and isinstance(v.v, bool):
            return F.C(int(v.v))
        raise Unknown("a value that is not understood (%s)" % getattr(v, "n", type(v).__name__))

    def scal(self, op, a, b):
        """on polynomials"""
        if isinstance(op, ast.Add):
            return add(a, b)
        if isinstance(op, ast.Sub):
            return sub(a, b)
        if isinstance(op, ast.Mult):
            return mul(a, b)
        if isinstance(op, ast.FloorDiv):
            return fdiv(a, b)
        if isinstance(op, ast.Mod):
            return fmod(a, b)
        if isinstance(op, ast.Pow):
            if cst(a) == 2:
                return pow2(b)
            if cst(b) is not None and cst(b).denominator == 1 and 0 <= cst(b) < 5:
                r = F.C(1)
                for _ in range(int(cst(b))):
                    r = mul(r, a)
                return r
            e = log2of(a)
            if e is not None:
                return pow2(mul(e, b))
        if isinstance(op, ast.LShift):
            return mul(a, pow2(b))
        if isinstance(op, ast.RShift):
            return shr(a, b)
        if isinstance(op, ast.BitAnd):
            return band(a, b)
        if isinstance(op, ast.BitOr):
            return bop("or", a, b)
        if isinstance(op, ast.BitXor):
            return bop("xor", a, b)
        if isinstance(op, ast.Div):
            c = cst(b)
            if c:
                return F.scale(a, 1 / c)
            e = log2of(b)
            if e is not None:
                return mul(a, pow2(neg(e)))
            return quot(a, b)
        raise Unknown("operator")

    def binop_(self, op, a, b):
        if isinstance(a, Ix) or isinstance(b, Ix):
            if isinstance(op, ast.MatMult):
                return self.dot(a, b)
            if isinstance(a, (Opaque, Const)) and not (isinstance(a, Const) and isinstance(a.v, bool)) or isinstance(b, (Opaque, Const)) and not (isinstance(b, Const) and isinstance(b.v, bool)):
                raise Unknown("operand")
            if isinstance(op, (ast.Div, ast.Mult)) and isinstance(b, Cx) and b.const() is None and not self.term(b.re):
                # a common factor of a table
                k = factor(F.powr(b.re, -1 if isinstance(op, ast.Div) else 1))
                return a.cp(fn=lambda *i: mul(a.fn(*i), k), isbool=False)
            return self.each(lambda x, y: self.scal(op, x, y), a, b, isbool=isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and all(isinstance(x, Ix) and x.isbool for x in (a, b)))
        if isinstance(a, Cx) and isinstance(b, Cx) and a.real and b.real and (self.term(a.re) and self.term(b.re)):
            try:
                return Cx(self.scal(op, a.re, b.re))
            except Unknown:
                pass
        if isinstance(op, ast.Pow) and isinstance(a, Cx) and isinstance(b, Cx) and a.const() == 2:
            return Cx(pow2(b.re))
        if isinstance(a, tuple) and isinstance(op, ast.Mult) and len(a) == 1 and isinstance(b, Cx):
            return ("times", a[0], b)
        return L.binop_(self, op, a, b)

    def term(self, p):
        """made of dimensions, indices and the terms of this module"""
        return all(v in LT or v in DIMS or v.startswith("x") and v[1:].isdigit() for v in free(p)) and not any(x.denominator != 1 for m in p for _, x in m)

    def each(self, f, a, b=None, isbool=False):
        if b is None:
            if isinstance(a, Ix):
                return a.cp(fn=lambda *i: f(a.fn(*i)), isbool=isbool, name=None)
            return Cx(f(self.val(a)))
        if not isinstance(a, Ix) and not isinstance(b, Ix):
            return Cx(f(self.val(a), self.val(b)))
        sa = a.shape if isinstance(a, Ix) else ()
        sb = b.shape if isinstance(b, Ix) else ()
        n = max(len(sa), len(sb))
        pa, pb = (F.C(1),) * (n - len(sa)) + sa, (F.C(1),) * (n - len(sb)) + sb
        sh = []
        for x, y in zip(pa, pb):
            if x == y or cst(y) == 1:
                sh.append(x)
            elif cst(x) == 1:
                sh.append(y)
            else:
                raise Unknown("shapes %s and %s" % (key(x), key(y)))
        va = None if isinstance(a, Ix) else self.val(a)
        vb = None if isinstance(b, Ix) else self.val(b)

        def at(v, val, s, i):
            if val is not None:
                return val
            i = i[len(i) - len(s):]
            return v.fn(*[{} if cst(d) == 1 and not (sh[n - len(s) + k] == F.C(1)) else x for k, (x, d) in enumerate(zip(i, s))])
        return Ix(sh, lambda *i: f(at(a, va, sa, i), at(b, vb, sb, i)), None, isbool)

    def dot(self, a, b):
        if isinstance(a, Ix) and isinstance(b, Ix) and len(b.shape) == 1 and len(a.shape) in (1, 2, 3):
            n = b.shape[0]
            if a.shape[-1] != n:
                raise Unknown("inner dimensions %s and %s" % (key(a.shape[-1]), key(n)))
            r = Ix(a.shape[:-1], lambda *i: total(lambda k: mul(a.fn(*i, k), b.fn(k)), n))
            return r if r.shape else Cx(r.fn())
        if isinstance(a, Ix) and isinstance(b, Ix) and len(a.shape) == 1 and len(b.shape) == 2 and a.shape[0] == b.shape[0]:
            return Ix(b.shape[1:], lambda i: total(lambda k: mul(a.fn(k), b.fn(k, i)), a.shape[0]))
        raise Unknown("matrix product")

    def sum(self, a, axis):
        if axis is None:
            if len(a.shape) != 1:
                raise Unknown("sum over everything")
            axis = 0
        axis %= len(a.shape)
        r = Ix(a.shape[:axis] + a.shape[axis + 1:], lambda *i: total(lambda k: a.fn(*(i[:axis] + (k,) + i[axis:])), a.shape[axis]))
        return r if r.shape else Cx(r.fn())

    # ---- expressions
    def expr(self, e, env, m):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, (ast.Invert, ast.USub)):
            v = self.expr(e.operand, env, m)
            if isinstance(v, Ix):
                if isinstance(e.op, ast.Invert):
                    if not v.isbool:
                        raise Unknown("~ of numbers")
                    return self.each(lambda x: sub(F.C(1), x), v, isbool=True)
                return self.each(neg, v)
            if isinstance(e.op, ast.USub) and isinstance(v, Cx):
                return Cx(neg(v.re), neg(v.im), v.cplx)
            raise Unknown("operator")
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq, ast.Gt, ast.Lt, ast.GtE, ast.LtE)):
            a, b = self.lazy(e.left, env, m), self.lazy(e.comparators[0], env, m)
            if isinstance(a, Ix) or isinstance(b, Ix):
                op = type(e.ops[0])
                if not isinstance(a, Ix):
                    a, b, op = b, a, {ast.Gt: ast.Lt, ast.Lt: ast.Gt, ast.GtE: ast.LtE, ast.LtE: ast.GtE}.get(op, op)
                c = b.const() if isinstance(b, Cx) else int(b.v) if isinstance(b, Const) and isinstance(b.v, bool) else None
                if c is None:
                    raise Unknown("comparison")
                return self.each(lambda x: self.truth(x, op, c), a, isbool=True)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and not e.generators[0].ifs:
            it = self.iterable(self.lazy(e.generators[0].iter, env, m))
            if it is not None:
                def row(k):
                    s = dict(env)
                    self.assign(e.generators[0].target, it[1](k), s, m)
                    return self.expr(e.elt, s, m)
                return self.stack(it[0], row)
        if isinstance(e, ast.IfExp):
            t = self.test(e.test, env, m)
            if t is None:
                t = self.choose(self.condkey(e.test, env, m), "?")
            return self.expr(e.body if t else e.orelse, env, m)
        return L.expr(self, e, env, m)

    def truth(self, x, op, c):
        """x op c as 0 or 1"""
        v = cst(x)
        if v is not None:
            return F.C(int({ast.Eq: v == c, ast.NotEq: v != c, ast.Gt: v > c, ast.Lt: v < c, ast.GtE: v >= c, ast.LtE: v <= c}[op]))
        # a digit times a power of two
        if len(x) == 1:
            (mm, k), = x.items()
            bs = [a for a, _ in mm if a in AT and AT[a][0] in ("bit",) or a in AT and AT[a][0] == "tab" and AT[a][1][0] in BOOLS]
            if len(bs) == 1 and k > 0 and all(x == 1 for a, x in mm if a in bs) and all(a in bs or a in AT and AT[a][0] == "2^" for a, _ in mm):
                one = {ast.Eq: c == 1, ast.NotEq: c == 0, ast.Gt: c == 0, ast.GtE: 0 < c <= 1, ast.Lt: False, ast.LtE: False}[op]
                pure = len(mm) == 1 and k == 1
                if one and (c == 0 or pure):
                    return F.var(bs[0])
                if op is ast.Eq and c == 0 or op is ast.LtE and c == 0 or op is ast.Lt and c == 1 and pure or op is ast.NotEq and c == 1 and pure:
                    return sub(F.C(1), F.var(bs[0]))
        return compare(op.__name__, c, x)

    def iterable(self, it):
        """(number, value of the k-th) or None"""
        if isinstance(it, Rng):
            return it.n, lambda k: Cx(add(it.lo, k))
        if isinstance(it, Ix):
            if len(it.shape) == 1:
                return it.shape[0], lambda k: Cx(it.fn(k))
            return it.shape[0], lambda k: Ix(it.shape[1:], lambda *i: it.fn(k, *i), None, it.isbool)
        if isinstance(it, Obj) and isinstance(it.data, Ix):
            return self.iterable(it.data)
        if isinstance(it, Enum):
            ps = [self.iterable(p) for p in it.parts]
            ns = [p[0] for p in ps if p[0] is not None]
            if any(x != ns[0] for x in ns):
                raise Unknown("zip of different lengths")
            return ns[0], lambda k: tuple(p[1](k) for p in ps)
        if isinstance(it, Count):
            return None, lambda k: Cx(k)
        return None

    def stack(self, n, row):
        v = row(F.var("x0"))
        if isinstance(v, Obj):
            v = v.data
        if isinstance(v, Ix):
            def fn(k, *i):
                r = row(k)
                r = r.data if isinstance(r, Obj) else r
                return r.fn(*i)
            return Ix((n,) + v.shape, fn, None, v.isbool)
        if isinstance(v, Cx):
            return Ix((n,), lambda k: self.val(row(k)))
        raise Unknown("list of %s" % type(v).__name__)

    # ---- loops
    def loop(self, s, env, m):
        it = self.lazy(s.iter, env, m)
        if isinstance(it, tuple) and len(it) <= 8:
            return L.loop(self, s, env, m)
        it = self.iterable(it)
        if it is None:
            return L.loop(self, s, env, m)
        n, value = it
        # arrays stored into and names changed
        arrays = {}
        carried = set()
        for x in ast.walk(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name):
                arrays[x.value.id] = env.get(x.value.id)
            if isinstance(x, ast.AugAssign):
                carried.add(ast.unparse(x.target))
            if isinstance(x, (ast.Break, ast.Continue)):
                raise Unknown("loop")
        for k, v in arrays.items():
            if not isinstance(v, Ix):
                raise Unknown("what the loop stores into")
        lv = "x%d" % (90 + self.depth)

        def run(k):
            s2 = dict(env)
            rec = {}
            for a, v in arrays.items():
                c = v.cp()
                c.log = []
                rec[a] = s2[a] = c
            self.assign(s.target, value(k), s2, m)
            conds = len(self.conds)
            self.block(s.body, s2, m)
            if len(self.conds) != conds:
                raise Unknown("a condition in the loop")
            return rec, s2
        if carried & set(env):
            raise Unknown("a value carried by the loop")
        for nm in {x.id for st in s.body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} & set(env):
            if nm not in arrays and any(isinstance(x, ast.Name) and x.id == nm and isinstance(x.ctx, ast.Load) for st in s.body for x in ast.walk(st)) and not firststored(s.body, nm):
                raise Unknown("a value carried by the loop")
        rec, s2 = run(F.var(lv))
        for a, c in rec.items():
            old = arrays[a]
            base = old.fn
            pats = []
            for keys, v in c.log:
                d = [j for j, x in enumerate(keys) if isinstance(x, dict) and any(y == lv for y in free(x))]
                if len(d) != 1 or only(keys[d[0]]) != lv:
                    raise Unknown("where the loop stores")
                pats.append(d[0])
            if not c.log:
                continue

            def fn(*i, a=a, base=base, pats=pats, run=run, lg=c.log):
                # the stores of the iteration that writes here
                best = None
                for o in range(len(pats) - 1, -1, -1):
                    keys = run(i[pats[o]])[0][a].log[o]
                    t = hit(keys[0], i, pats[o])
                    if t is None:
                        continue
                    return stored(self, keys[1], t)
                return base(*i)
            old.fn = fn
            old.name = None
        names = {x.id for st in s.body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - set(arrays)
        if not names:
            return
        # what the last iteration left
        conds, calls = list(self.conds), list(self.calls)
        try:
            last = run(sub(n, F.C(1)))[1]
        except Unknown:
            last = {}
        self.conds[:], self.calls[:] = conds, calls
        for nm in names:
            v = last.get(nm)
            env[nm] = v if isinstance(v, (Ix, Cx)) else Opaque("left from the loop")

    def assign(self, t, v, env, m=None):
        if isinstance(t, ast.Subscript):
            if isinstance(t.value, ast.Subscript):
                # x[i][j] = v is x[i, j] = v where i is a number
                y = self.lazy(F._load(t.value.value), env, m)
                y = y.data if isinstance(y, Obj) and isinstance(y.data, Ix) else y
                if isinstance(y, Ix):
                    els = list(t.value.slice.elts) if isinstance(t.value.slice, ast.Tuple) else [t.value.slice]
                    for e in els:
                        if isinstance(e, (ast.Slice, ast.Starred)) or not isinstance(self.lazy(e, env, m), Cx):
                            raise Unknown("store into a part of a part")
                    inner = list(t.slice.elts) if isinstance(t.slice, ast.Tuple) else [t.slice]
                    t2 = ast.copy_location(ast.Subscript(value=t.value.value, slice=ast.Tuple(elts=els + inner, ctx=ast.Load()), ctx=ast.Store()), t)
                    return self.assign(ast.fix_missing_locations(t2), v, env, m)
            x = self.lazy(F._load(t.value), env, m)
            if isinstance(x, Obj) and isinstance(x.data, Ix):
                x = x.data
            if isinstance(x, Ix):
                ks = self.keys(x, t.slice, env, m)
                if hasattr(x, "log"):
                    x.log.append((ks, v))
                    return
                old = x.fn

                def fn(*i):
                    h = hit(ks, i, None)
                    return old(*i) if h is None else stored(self, v, h)
                if len(ks) == 1 and isinstance(ks[0], Ix) and isinstance(v, Ix) and len(x.shape) == 1:
                    # scatter: x[g] = v
                    g = ks[0]
                    if g.name and g.shape[0] == x.shape[0]:
                        x.fn = lambda k: v.fn(inverse(g.name, k))
                        return
                    raise Unknown("scattered store")
                if any(isinstance(k, Ix) for k in ks):
                    raise Unknown("store at positions")
                x.fn = fn
                x.name = None
                return
        return L.assign(self, t, v, env, m)

    def keys(self, x, s, env, m):
        """one entry per dimension: polynomial, ("slice", lo, step, n), None (new axis) or index array"""
        els = list(s.elts) if isinstance(s, ast.Tuple) else [s]
        ks = []
        for e in els:
            if isinstance(e, ast.Slice):
                g = lambda y: None if y is None else self.lazy(y, env, m)
                ks.append(("raw", g(e.lower), g(e.upper), g(e.step)))
            else:
                v = self.lazy(e, env, m)
                ks.append(v.data if isinstance(v, Obj) else v)
        if any(isinstance(k, Const) and k.v is Ellipsis for k in ks):
            j = [isinstance(k, Const) and k.v is Ellipsis for k in ks].index(True)
            n = len([k for k in ks if not (isinstance(k, Const) and k.v in (None, Ellipsis))])
            ks = ks[:j] + [("raw", None, None, None)] * (len(x.shape) - n) + ks[j + 1:]
        n = len([k for k in ks if not (isinstance(k, Const) and k.v is None)])
        ks += [("raw", None, None, None)] * (len(x.shape) - n)
        out, d = [], 0
        for k in ks:
            if isinstance(k, Const) and k.v is None:
                out.append(None)
                continue
            if d >= len(x.shape):
                raise Unknown("too many indices")
            N = x.shape[d]
            d += 1
            if isinstance(k, tuple) and k and k[0] == "raw":
                out.append(self.cutting(k, N))
            elif isinstance(k, Cx) and k.real:
                c = k.const()
                out.append(add(N, k.re) if c is not None and c < 0 else k.re)
            elif isinstance(k, Ix):
                out.append(k)
            else:
                raise Unknown("index")
        return out

    def cutting(self, k, N):
        lo, hi, st = ((None if x is None or isinstance(x, Const) and x.v is None else self.val(x)) for x in k[1:])
        c = F.C(1) if st is None else st
        if cst(c) is None:
            raise Unknown("step")
        s = int(cst(c))
        if s == -1 and lo is None and hi is None:
            return ("slice", sub(N, F.C(1)), F.C(-1), N)
        if s < 1:
            raise Unknown("step")
        def f(p, d):
            if p is None:
                return d
            t = sign(p, N)
            if t is None:
                raise Unknown("sign of a slice bound")
            return add(N, p) if t < 0 else p
        lo, hi = f(lo, {}), f(hi, N)
        n = sub(hi, lo)
        if s > 1:
            n = fdiv(add(n, F.C(s - 1)), F.C(s))
        return ("slice", lo, F.C(s), n)

    def index(self, v, s, env, m):
        if isinstance(v, Obj) and isinstance(v.data, Ix):
            v = v.data
        if isinstance(v, Ix):
            ks = self.keys(v, s, env, m)
            ixs = [j for j, k in enumerate(ks) if isinstance(k, Ix)]
            if len(ixs) > 1:
                raise Unknown("several index arrays")
            if ixs and ks[ixs[0]].isbool:
                if len(ks) != 1 or len(v.shape) != 1 or len(ks[0].shape) != 1:
                    raise Unknown("selection by a mask")
                msk = ks[0]
                p, q = v.fn(F.var("n#")), msk.fn(F.var("n#"))
                return Ix((atom("count", "n#", q),), lambda k: atom("nth", "n#", p, q, k))
            shape = []
            for k in ks:
                if k is None:
                    shape.append(F.C(1))
                elif isinstance(k, Ix):
                    shape += list(k.shape)
                elif isinstance(k, tuple):
                    shape.append(k[3])

            def fn(*i):
                i = list(i)
                out = []
                for k in ks:
                    if k is None:
                        i.pop(0)
                    elif isinstance(k, Ix):
                        j, i = i[:len(k.shape)], i[len(k.shape):]
                        out.append(k.fn(*j))
                    elif isinstance(k, tuple):
                        out.append(add(k[1], mul(k[2], i.pop(0))))
                    else:
                        out.append(k)
                return v.fn(*out)
            if not shape:
                return Cx(fn())
            return Ix(shape, fn, v.name if all(isinstance(k, tuple) and not k[1] and k[2] == F.C(1) and k[3] == d for k, d in zip(ks, v.shape)) else None, v.isbool)
        if isinstance(v, Ext) and v.n == "numpy.mgrid":
            return self.mgrid(s, env, m)
        if isinstance(v, tuple) and not isinstance(s, (ast.Slice, ast.Tuple)):
            k = self.lazy(s, env, m)
            c = k.const() if isinstance(k, Cx) else None
            if c is not None and -len(v) <= c < len(v):
                return v[int(c)]
        return L.index(self, v, s, env, m)

    def mgrid(self, s, env, m):
        ax = []
        for e in s.elts if isinstance(s, ast.Tuple) else [s]:
            if not isinstance(e, ast.Slice) or e.upper is None:
                raise Unknown("mgrid")
            lo = {} if e.lower is None else self.val(self.lazy(e.lower, env, m))
            hi = self.val(self.lazy(e.upper, env, m))
            st = num(1) if e.step is None else self.lazy(e.step, env, m)
            if not isinstance(st, Cx):
                raise Unknown("mgrid")
            if st.im and not st.re:
                n = st.im
                d = self.scal(ast.Div(), sub(hi, lo), sub(n, F.C(1)))
            elif st.const() == 1:
                n, d = sub(hi, lo), F.C(1)
            else:
                raise Unknown("mgrid")
            ax.append((n, lo, d))

        def fn(k, *i):
            c = cst(k)
            if c is None:
                raise Unknown("which coordinate")
            n, lo, d = ax[int(c)]
            return add(lo, mul(d, i[int(c)]))
        if not isinstance(s, ast.Tuple):
            return Ix((ax[0][0],), lambda i: fn({}, i))
        return Ix((F.C(len(ax)),) + tuple(a[0] for a in ax), fn)

    def attr(self, v, n):
        if isinstance(v, Obj) and isinstance(v.data, Ix) and n in ("shape", "size", "ndim", "T") and n not in v.a:
            v = v.data
        if isinstance(v, Ix):
            if n == "shape":
                return tuple(Cx(s) for s in v.shape)
            if n == "size":
                r = F.C(1)
                for s in v.shape:
                    r = mul(r, s)
                return Cx(r)
            if n == "ndim":
                return num(len(v.shape))
            if n == "strides":
                st, c = [], F.var("itemsize")
                for d in v.shape[::-1]:
                    st.insert(0, Cx(c))
                    c = mul(c, d)
                return tuple(st)
            if n == "itemsize":
                return Cx(F.var("itemsize"))
            if n == "T":
                return Ix(v.shape[::-1], lambda *i: v.fn(*i[::-1]), None, v.isbool)
            if n in ("real",):
                return v
            if n == "dtype":
                return Opaque("dtype")
            return Bound(v, n)
        if isinstance(v, Opaque) and v.n.startswith("dtype"):
            return Opaque(n)
        return L.attr(self, v, n)

    def strided(self, v, shape, strides):
        """a window onto a contiguous array"""
        shape = [self.val(x) for x in (shape if isinstance(shape, tuple) else (shape,))]
        strides = [self.val(x) for x in (strides if isinstance(strides, tuple) else (strides,))]
        if len(shape) != len(strides) or len(v.shape) != 1:
            raise Unknown("strides")
        step = []
        for s in strides:
            q, r = whole(s, F.var("itemsize"))
            if r:
                raise Unknown("a stride that is no multiple of the element size")
            step.append(q)

        def fn(*i):
            k = {}
            for x, s in zip(i, step):
                k = add(k, mul(x, s))
            return v.fn(k)
        return Ix(shape, fn, None, v.isbool)

    def chain(self, vs):
        """one-dimensional arrays one after the other"""
        ends, n = [], {}
        for v in vs:
            ends.append((n, add(n, v.shape[0])))
            n = ends[-1][1]

        def fn(k):
            out, before = {}, F.C(1)
            for (lo, hi), v in zip(ends, vs):
                here = compare("Lt", 0, sub(k, hi)) if v is not vs[-1] else F.C(1)
                out = add(out, mul(mul(before, here), v.fn(sub(k, lo))))
                before = mul(before, sub(F.C(1), here))
            return out
        return Ix((n,), fn, None, all(v.isbool for v in vs))

    def reshape(self, v, sh):
        sh = [self.val(x) for x in sh]
        total_ = F.C(1)
        for s in v.shape:
            total_ = mul(total_, s)
        if any(cst(s) == -1 for s in sh):
            rest = F.C(1)
            for s in sh:
                if cst(s) != -1:
                    rest = mul(rest, s)
            q, r = whole(total_, rest)
            if r:
                q = fdiv(total_, rest)
            sh = [q if cst(s) == -1 else s for s in sh]
        if list(sh) == list(v.shape):
            return v

        def fn(*i):
            # position in memory
            pos = {}
            for k, n in zip(i, sh):
                pos = add(mul(pos, n), k)
            out = []
            # leading equal dimensions need no division
            for n in reversed(v.shape[1:]):
                out.append(fmod(pos, n))
                pos = fdiv(pos, n)
            return v.fn(pos, *reversed(out))

        def same(*i):
            # dimensions that agree from the left are kept
            k = 0
            while k < len(sh) - 1 and k < len(v.shape) - 1 and sh[k] == v.shape[k]:
                k += 1
            if not k:
                return fn(*i)
            inner = Ix(v.shape[k:], lambda *j: v.fn(*i[:k], *j))
            pos = {}
            for x, n in zip(i[k:], sh[k:]):
                pos = add(mul(pos, n), x)
            out = []
            for n in reversed(inner.shape[1:]):
                out.append(fmod(pos, n))
                pos = fdiv(pos, n)
            return inner.fn(pos, *reversed(out))
        return Ix(sh, same, None, v.isbool)

    # ---- calls
    def method(self, v, n, args, kw):
        if isinstance(v, Obj) and isinstance(v.data, Ix):
            r = v.cls.lookup(n) if isinstance(v.cls, ClassInfo) else None
            if r is None and n not in ("copy", "astype", "view", "squeeze"):
                return self.method(v.data, n, args, kw)
            if n == "copy" and r is None:
                return Obj(v.cls, v.data.cp(), dict(v.a), v.name)
        if isinstance(v, Ix):
            if n == "view" and args and isinstance(args[0], ClassInfo):
                return Obj(args[0], v, {}, "viewed")
            if n in ("copy", "squeeze", "view", "conj"):
                return v.cp()
            if n == "astype":
                t = args[0] if args else kw.get("dtype")
                if isinstance(t, Opaque) and "bool" in t.n or isinstance(t, Ext) and "bool" in t.n:
                    return self.each(lambda x: self.truth(x, ast.NotEq, 0), v, isbool=True)
                return v.cp(isbool=False)
            if n in ("flatten", "ravel"):
                return self.reshape(v, [num(-1)])
            if n == "reshape":
                sh = args[0] if len(args) == 1 and isinstance(args[0], tuple) else args
                return self.reshape(v, sh)
            if n == "transpose" and not args:
                return self.attr(v, "T")
            if n == "dot":
                return self.dot(v, args[0])
            if n in ("sum", "argsort", "max", "min", "mean", "tolist", "repeat", "any", "all"):
                if n == "tolist":
                    return v
                return self.ext_("numpy." + n, [v] + list(args), kw)
            raise Unknown("method " + n)
        return L.method(self, v, n, args, kw)

    def ext_(self, n, args, kw):
        if n in self.prims:
            return self.prims[n](self, args, kw)
        b = n.split(".")[-1]
        args = [a.data if isinstance(a, Obj) and isinstance(a.data, Ix) and b not in ("setattr", "getattr", "hasattr", "isinstance", "type") else a for a in args]
        a = args[0] if args else kw.get("a", kw.get("x"))
        if n in ("numpy.ndarray.__new__", "numpy.ndarray") and isinstance(kw.get("buffer"), (Ix, Obj)) and "shape" in kw and "strides" in kw and not set(kw) - {"buffer", "shape", "strides", "dtype"}:
            b_ = kw["buffer"]
            return self.strided(b_.data if isinstance(b_, Obj) else b_, kw["shape"], kw["strides"])
        if n == "builtins.len":
            if isinstance(a, Ix):
                return Cx(a.shape[0])
            if isinstance(a, tuple):
                return num(len(a))
        if b == "range" and n.startswith("builtins"):
            if len(args) == 1 and isinstance(a, Cx):
                c = a.const()
                if c is not None and 0 <= c <= 8:
                    return tuple(num(k) for k in range(int(c)))
                return Rng({}, a.re)
            if len(args) == 2 and all(isinstance(x, Cx) for x in args):
                return Rng(args[0].re, sub(args[1].re, args[0].re))
            raise Unknown("range")
        if b == "enumerate":
            return Enum([Count(), a])
        if b == "zip" and args:
            return Enum(args)
        if n in ("numpy.shape", "numpy.size", "numpy.ndim"):
            return self.attr(a, b)
        if n in ("builtins.int", "builtins.float", "numpy.int64", "numpy.int_") and isinstance(a, Cx):
            return a
        if b == "sqrt" and isinstance(a, Cx):
            e = log2of(a.re) if a.real else None
            if e is not None and all((c / 2).denominator == 1 for c in e.values()):
                return Cx(pow2(F.scale(e, Fr(1, 2))))
        if b == "log2" and isinstance(a, Cx):
            e = log2of(a.re)
            if e is not None:
                return Cx(e)
        if n.startswith("numpy") or n.startswith("math"):
            if b == "arange":
                if set(kw) - {"start", "stop", "step", "dtype"}:
                    raise Unknown("arange")
                xs = dict(zip(("start", "stop", "step"), args))
                xs.update(kw)
                xs = {k: self.val(x) for k, x in xs.items() if k != "dtype" and not (isinstance(x, Const) and x.v is None)}
                if "stop" not in xs:
                    xs["stop"] = xs.pop("start")
                lo, hi, st = xs.get("start", {}), xs["stop"], xs.get("step", F.C(1))
                if cst(st) in (1, -1):
                    return Ix((F.scale(sub(hi, lo), cst(st)),), lambda k: add(lo, mul(st, k)))
                if sign(st) == 1:
                    q, r = whole(sub(hi, lo), st)
                    if not r:
                        return Ix((q,), lambda k: add(lo, mul(st, k)))
                raise Unknown("arange")
            if b in ("zeros", "empty", "ones", "full"):
                sh = args[0] if args else kw.get("shape")
                sh = tuple(sh) if isinstance(sh, (tuple, list)) else (sh,)
                sh = [self.val(x) for x in sh]
                c = F.C(1) if b == "ones" else {}
                if b == "full":
                    raise Unknown("full")
                t = kw.get("dtype", args[1] if len(args) > 1 else None)
                isb = isinstance(t, (Opaque, Ext)) and "bool" in t.n or isinstance(t, ClassInfo) and False
                return Ix(sh, lambda *i: c, None, isb)
            if b in ("zeros_like", "empty_like", "ones_like") and isinstance(a, Ix):
                c = F.C(1) if b == "ones_like" else {}
                return Ix(a.shape, lambda *i: c)
            if b in ("asarray", "array", "ascontiguousarray", "asanyarray", "copy", "atleast_1d", "squeeze", "require") and isinstance(a, Ix):
                return a.cp() if b in ("array", "copy") else a
            if b in ("array", "asarray", "stack", "vstack") and isinstance(a, tuple) and a and all(isinstance(x, Ix) and x.shape == a[0].shape for x in a) and len(a) <= 8:
                xs = a

                def pick(k, *i):
                    c = cst(k)
                    if c is None:
                        raise Unknown("row")
                    return xs[int(c)].fn(*i)
                return Ix((F.C(len(a)),) + a[0].shape, pick, None, a[0].isbool)
            if b == "atleast_2d" and isinstance(a, Ix):
                return a if len(a.shape) >= 2 else Ix((F.C(1),) + a.shape, lambda i, *k: a.fn(*k), None, a.isbool)
            if b == "reshape" and isinstance(a, Ix):
                sh = args[1] if len(args) > 1 else kw.get("newshape", kw.get("shape"))
                return self.reshape(a, sh if isinstance(sh, (tuple, list)) else [sh])
            if b in ("ravel",) and isinstance(a, Ix):
                return self.reshape(a, [num(-1)])
            if b in ("dot", "matmul"):
                return self.dot(a, args[1])
            if b == "transpose" and isinstance(a, Ix):
                return self.attr(a, "T")
            if b in ("flip", "flipud", "fliplr") and isinstance(a, Ix):
                ax = kw.get("axis", args[1] if len(args) > 1 else None)
                d = {"flipud": 0, "fliplr": 1}.get(b)
                if d is None:
                    d = 0 if ax is None and len(a.shape) == 1 else int(self.val(ax).get((), 0)) if ax is not None and cst(self.val(ax)) is not None else None
                if d is None:
                    raise Unknown("flip")
                d %= len(a.shape)
                return a.cp(name=None, fn=lambda *i: a.fn(*(i[:d] + (sub(sub(a.shape[d], F.C(1)), i[d]),) + i[d + 1:])))
            if b == "as_strided" and isinstance(a, Ix):
                return self.strided(a, args[1] if len(args) > 1 else kw.get("shape"), args[2] if len(args) > 2 else kw.get("strides"))
            if b in ("hstack", "concatenate") and isinstance(a, tuple) and a and all(isinstance(x, Ix) and len(x.shape) == 1 for x in a):
                return self.chain(a)
            if b == "append" and len(args) == 2 and not kw and all(isinstance(x, Ix) and len(x.shape) == 1 for x in args):
                return self.chain(args)
            if b == "sum" and isinstance(a, Ix):
                ax = kw.get("axis", args[1] if len(args) > 1 else None)
                return self.sum(a, None if ax is None or isinstance(ax, Const) else int(cst(self.val(ax))))
            if b == "argsort" and isinstance(a, Ix) and len(a.shape) == 1 and a.name:
                return Ix(a.shape, lambda k: inverse(a.name, k))
            if b == "take" and isinstance(a, Ix) and isinstance(args[1], Ix) and len(a.shape) == 1:
                k = args[1]
                return Ix(k.shape, lambda *i: a.fn(k.fn(*i)), None, a.isbool)
            if b in ("left_shift", "right_shift", "bitwise_and", "bitwise_or", "bitwise_xor", "floor_divide", "mod", "power", "add", "subtract", "multiply"):
                op = {"left_shift": ast.LShift, "right_shift": ast.RShift, "bitwise_and": ast.BitAnd, "bitwise_or": ast.BitOr, "bitwise_xor": ast.BitXor, "floor_divide": ast.FloorDiv,
                      "mod": ast.Mod, "power": ast.Pow, "add": ast.Add, "subtract": ast.Sub, "multiply": ast.Mult}[b]()
                return self.binop(op, args[0], args[1])
            if b in ("logical_not", "invert") and isinstance(a, Ix) and (a.isbool or b == "logical_not"):
                t = a if a.isbool else self.each(lambda x: self.truth(x, ast.NotEq, 0), a)
                return self.each(lambda x: sub(F.C(1), x), t, isbool=True)
            if b in ("exp2",) and isinstance(a, (Ix, Cx)):
                return self.each(pow2, a)
            if b == "unique":
                return Cx(F.var("unique points"))
            if b in ("isclose", "allclose", "any", "all", "issubdtype"):
                return Opaque(b)
            if b == "roll" and isinstance(a, Ix):
                k = args[1] if len(args) > 1 else kw.get("shift")
                nm = "%s rolled by %s" % (a.name, key(self.val(k)))
                if a.name is None:
                    raise Unknown("roll")
                return arr(nm, *a.shape, isbool=a.isbool)
            if isinstance(a, Ix):
                raise Unknown(n)
        if n.startswith("builtins") and b in ("list", "tuple", "abs", "bool") and isinstance(a, Ix):
            if b in ("list", "tuple"):
                return a
            raise Unknown(b)
        return L.ext_(self, n, args, kw)

    def test(self, e, env, m):
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.lazy(e.left, env, m), self.lazy(e.comparators[0], env, m)
            if isinstance(a, Cx) and isinstance(b, Cx) and a.real and b.real and self.term(a.re) and self.term(b.re):
                d = sub(a.re, b.re)
                c = cst(d)
                op = type(e.ops[0])
                if c is not None:
                    return {ast.Eq: c == 0, ast.NotEq: c != 0, ast.Lt: c < 0, ast.Gt: c > 0, ast.LtE: c <= 0, ast.GtE: c >= 0}.get(op)
                s_ = strictly(d)
                if s_ is not None:
                    return {ast.Eq: False, ast.NotEq: True, ast.Lt: s_ < 0, ast.Gt: s_ > 0, ast.LtE: s_ < 0, ast.GtE: s_ > 0}.get(op)
                x = only(d)
                if x in LT and op in (ast.Gt, ast.LtE, ast.Eq, ast.NotEq):
                    # an index: zero or not
                    t = self.choose(x, "nonzero")
                    return t if op in (ast.Gt, ast.NotEq) else not t
        return L.test(self, e, env, m)


BOOLS = set()


class Count:
    pass


def firststored(body, nm):
    """the first statement naming nm stores it without reading it"""
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and x.id == nm:
                if isinstance(s, ast.Assign):
                    return not any(isinstance(y, ast.Name) and y.id == nm for y in ast.walk(s.value))
                return False
    return False


def hit(keys, i, loopdim):
    """indices into the stored value when a store at these keys covers the element i; None: it does not"""
    out = []
    for d, (k, x) in enumerate(zip([k for k in keys if k is not None], i)):
        if isinstance(k, tuple):
            _, lo, st, n = k
            y = sub(x, lo)
            s = cst(st)
            if s not in (1, -1):
                if cst(fmod(y, st)) is None:
                    raise Unknown("which element is stored")
                if cst(fmod(y, st)) != 0:
                    return None
                y = fdiv(y, st)
            elif s == -1:
                y = neg(y)
            c = cst(y)
            if c is not None and c < 0:
                return None
            out.append(y)
        elif d == loopdim:
            continue
        else:
            c = cst(sub(x, k))
            if c is None:
                raise Unknown("which element is stored")
            if c != 0:
                return None
    return out


def stored(ev, v, i):
    if isinstance(v, Obj):
        v = v.data
    if isinstance(v, Ix):
        if len(v.shape) > len(i):
            raise Unknown("what is stored")
        i = i[len(i) - len(v.shape):]
        return v.fn(*[{} if cst(d) == 1 else x for x, d in zip(i, v.shape)])
    return ev.val(v)
