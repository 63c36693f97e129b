"""Algebraic normal forms of arithmetic code.  A function's source is turned into sums of products of atoms (exact rational
coefficients, rational exponents, real and imaginary part apart); two formulas are the same when the difference of their normal
forms vanishes.  What the forms cannot express raises Unknown and leaves the obligation undecided."""
import ast
import cmath
import functools
import math
import random
import re
from fractions import Fraction as Fr

from .project import FuncInfo, Module


class Unknown(Exception):
    pass


POS = {"pi"}                    # atoms known to be positive
ATOM = {}                       # name -> (function, argument polynomial)
LIMIT = 4000


# ---------------------------------------------------------------- polynomials: {((atom, exponent), ...): coefficient}
def C(c):
    c = Fr(c)
    return {(): c} if c else {}


def var(n, positive=False):
    if positive:
        POS.add(n)
    return {((n, Fr(1)),): Fr(1)}


def add(a, b):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def scale(a, c):
    return {m: x * c for m, x in a.items()} if c else {}


def neg(a):
    return scale(a, Fr(-1))


def sub(a, b):
    return add(a, neg(b))


def key(p):
    return " + ".join("%s*%s" % (c, "*".join("%s^%s" % f for f in m)) for m, c in sorted(p.items()))


def isint(a):
    return a.isdigit()


def mono_mul(m1, m2):
    """product of two monomials as a polynomial"""
    e = {}
    for a, x in m1 + m2:
        e[a] = e.get(a, Fr(0)) + x
    c = Fr(1)
    extra = []
    out = []
    for a, x in sorted(e.items()):
        if x == 0:
            continue
        if isint(a):                                    # prime: exponent into [0, 1)
            n = math.floor(x)
            c *= Fr(int(a)) ** n
            x -= n
            if x:
                out.append((a, x))
            continue
        fn = ATOM.get(a)
        if fn is not None:
            if fn[0] == "poly" and x >= 1:
                n = math.floor(x)
                extra.append(ipow(fn[1], n))
                x -= n
            elif fn[0] == "abs" and x >= 2:
                n = math.floor(x / 2)
                extra.append(ipow(mul(fn[1], fn[1]), n))
                x -= 2 * n
            elif fn[0] == "sin" and x >= 2 and x.denominator == 1:
                n = x.numerator // 2
                cs = atom("cos", fn[1])
                extra.append(ipow(sub(C(1), mul(cs, cs)), n))
                x -= 2 * n
            elif fn[0] == "sign" and x.denominator == 1:
                x = x % 2
        if x:
            out.append((a, x))
    r = {tuple(out): c}
    for q in extra:
        r = mul(r, q)
    return r


def mul(a, b):
    r = {}
    if len(a) * len(b) > LIMIT:
        raise Unknown("expression too large")
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            for m, c in mono_mul(m1, m2).items():
                c = r.get(m, 0) + c * c1 * c2
                if c:
                    r[m] = c
                else:
                    r.pop(m, None)
    return r


def ipow(a, n):
    r = C(1)
    for _ in range(n):
        r = mul(r, a)
    return r


def primes(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
        if d > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def rpow(c, e):
    """rational to a rational power"""
    if e.denominator == 1:
        return C(c ** e.numerator)
    if c < 0:
        raise Unknown("root of a negative number")
    m = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in primes(n).items():
            m[str(p)] = m.get(str(p), 0) + s * k * e
    return mono_mul(tuple(sorted((a, Fr(x)) for a, x in m.items())), ())


def normal(p):
    """p = c * monomial * primitive polynomial"""
    common = None
    for m in p:
        d = {a: x for a, x in m if not isint(a)}
        common = d if common is None else {a: min(x, d.get(a, 0)) for a, x in common.items() if a in d} | {}
    # negative exponents that occur in some terms only
    neg_ = {}
    for m in p:
        for a, x in m:
            if not isint(a) and x < 0:
                neg_[a] = min(neg_.get(a, 0), x)
    for a, x in neg_.items():
        common[a] = min(common.get(a, 0), x)
    common = {a: x for a, x in common.items() if x}
    inv = tuple(sorted((a, -x) for a, x in common.items()))
    q = {}
    for m, c in p.items():
        for m2, c2 in mono_mul(m, inv).items():
            q = add(q, {m2: c * c2})
    lead = q[sorted(q)[-1]]
    return lead, tuple(sorted(common.items())), scale(q, 1 / lead)


def powr(p, e):
    e = Fr(e)
    if not p:
        if e > 0:
            return {}
        raise Unknown("division by zero")
    if e == 0:
        return C(1)
    if e.denominator == 1 and e > 0 and len(p) ** e.numerator <= LIMIT:
        return ipow(p, e.numerator)
    if len(p) == 1:
        (m, c), = p.items()
        if c < 0 and e.denominator != 1:            # the sign belongs to one of the sums
            for k, (a, x) in enumerate(m):
                if ATOM.get(a, ("",))[0] == "poly" and x.denominator == 1 and x % 2:
                    q = neg(ATOM[a][1])
                    b = "P[%s]" % key(q)
                    ATOM[b] = ("poly", q)
                    m, c = m[:k] + ((b, x),) + m[k + 1:], -c
                    break
        r = rpow(c, e)
        for a, x in m:
            y = x * e
            if e.denominator % 2 == 0 and x.denominator == 1 and x % 2 == 0 and not positive({((a, Fr(1)),): Fr(1)}):     # the root of a square is the absolute value
                r = mul(r, powr(cabs(Cx({((a, Fr(1)),): Fr(1)})).re, y))
            else:
                r = mul(r, mono_mul(((a, y),), ()))
        return r
    c, com, q = normal(p)
    if len(q) == 1:
        return powr(mul({com: c}, q), e)
    if c < 0 and e.denominator != 1:
        q, c = neg(q), -c
    a = "P[%s]" % key(q)
    ATOM[a] = ("poly", q)
    return mul(mul(rpow(c, e), powr({com: Fr(1)}, e) if com else C(1)), {((a, e),): Fr(1)})


def atom(fn, p):
    a = "%s[%s]" % (fn, key(p))
    ATOM[a] = (fn, p)
    return {((a, Fr(1)),): Fr(1)}


def atomn(fn, ps):
    a = "%s[%s]" % (fn, " ; ".join(key(q) for q in ps))
    ATOM[a] = (fn, tuple(ps))
    return {((a, Fr(1)),): Fr(1)}


class Cond:
    """a condition on samples: ("lt", p) for p < 0, ("eq", p), ("and"|"or", a, b), ("not", a), ("free", name)"""

    def __init__(self, t):
        self.t = t

    def key(self):
        k = self.t[0]
        if k in ("lt", "eq"):
            return "%s(%s)" % (k, key(self.t[1]))
        if k == "free":
            return self.t[1]
        return "%s(%s)" % (k, ", ".join(sorted(x.key() for x in self.t[1:])))

    def polys(self):
        if self.t[0] in ("lt", "eq"):
            return [self.t[1]]
        return [] if self.t[0] == "free" else [q for x in self.t[1:] for q in x.polys()]

    def value(self, env):
        k = self.t[0]
        if k in ("lt", "eq"):
            v = value(self.t[1], env)
            if k == "lt":
                return vmap(lambda u: RE(u) < 0, v)
            # equality of sampled values hardly ever happens: any outcome will do, the same for the same difference
            return vmap(lambda u: abs(u) < 1e-9 or random.Random("%.6g" % abs(u)).random() < 0.5, v)
        if k == "free":
            if self.t[1] not in env:
                r = random.Random(self.t[1] + str(env["seed"]))
                env[self.t[1]] = [r.random() < 0.5 for _ in range(NS)]
            return env[self.t[1]]
        if k == "not":
            return vmap(lambda u: not u, self.t[1].value(env))
        return vmap((lambda u, v: u and v) if k == "and" else (lambda u, v: u or v), self.t[1].value(env), self.t[2].value(env))


def pieces(default, parts):
    """the function that has the value of the last condition that holds, default where none does"""
    flat = [default] + [v for _, v in parts]
    a = "piece[%s]" % " | ".join([key(default)] + ["%s: %s" % (c.key(), key(v)) for c, v in parts])
    ATOM[a] = ("piece", tuple(flat) + tuple(q for c, _ in parts for q in c.polys()))
    PIECE[a] = (default, parts)
    return {((a, Fr(1)),): Fr(1)}


PIECE = {}


def restrict(p, c):
    """the samples of p where c holds"""
    if not p or all(scalar_atom(x) for m in p for x, _ in m):
        return p
    a = "where[%s](%s)" % (c.key(), key(p))
    ATOM[a] = ("where", (p,) + tuple(c.polys()))
    PIECE[a] = (p, c)
    return {((a, Fr(1)),): Fr(1)}


def rebuild(p, f):
    """p with every atom a for which f(a) is a polynomial replaced by it"""
    r = {}
    for m, c in p.items():
        t = C(c)
        for a, x in m:
            t = mul(t, powr(rebuilt(a, f), x))
        r = add(r, t)
    return r


def rebuilt(a, f):
    q = f(a)
    if q is not None:
        return q
    if a not in ATOM:
        return {((a, Fr(1)),): Fr(1)}
    fn, q = ATOM[a]
    if isinstance(q, tuple):
        if fn in ("maximum", "minimum"):
            return atomn(fn, [rebuild(x, f) for x in q])
        return {((a, Fr(1)),): Fr(1)}
    n = rebuild(q, f)
    if n == q:
        return {((a, Fr(1)),): Fr(1)}
    if fn == "poly":
        return n
    if fn == "abs":
        return cabs(Cx(n)).re
    if fn in ("sin", "cos"):
        return trig(fn, n)
    if fn == "exp":
        return cexp(Cx(n)).re
    if fn == "log":
        return clog(Cx(n)).re
    if fn == "sign":
        return csign(n)
    return atom(fn, n)


def positive(p):
    return all(c > 0 and all(isint(a) or a in POS or x % 2 == 0 or ATOM.get(a, ("",))[0] in ("abs", "exp", "pow") or
                             (ATOM.get(a, ("",))[0] in ("mean", "sum", "tot", "mean_all", "tot_all", "max", "max_all") and positive(ATOM[a][1])) or
                             (ATOM.get(a, ("",))[0] == "poly" and positive(ATOM[a][1])) for a, x in m) for m, c in p.items())


def signed(p):
    """(sign, p with a positive leading coefficient)"""
    if p and p[sorted(p)[-1]] < 0:
        return -1, neg(p)
    return 1, p


def iszero(p):
    """also over common denominators"""
    for _ in range(12):
        if not p:
            return True
        low = {}
        for m in p:
            for a, x in m:
                if x < 0 and ATOM.get(a, ("",))[0] == "poly":
                    low[a] = min(low.get(a, 0), x)
        if not low:
            return False
        f = mono_mul(tuple(sorted((a, -x) for a, x in low.items())), ()) if False else {tuple(sorted((a, -x) for a, x in low.items())): Fr(1)}
        q = {}
        for m, c in p.items():
            for m2 in f:
                q = add(q, scale(mono_mul(m, m2), c))
        p = q
    return not p


NS = 5                          # samples a field has when forms are compared by value


def vmap(f, *xs):
    n = {len(x) for x in xs if isinstance(x, list)}
    if not n:
        return f(*xs)
    if len(n) > 1:
        raise ValueError("lengths")
    n = n.pop()
    return [f(*[x[k] if isinstance(x, list) else x for x in xs]) for k in range(n)]


def value(p, env):
    """floating point value of a normal form at the point env: a number, or a list over the samples"""
    s = 0
    for m, c in p.items():
        t = float(c)
        for a, x in m:
            t = vmap(lambda u, v: u * v ** float(x), t, avalue(a, env))
        s = vmap(lambda u, v: u + v, s, t)
    return s


def dft(v, sign):
    n = len(v)
    return [sum(v[k] * cmath.exp(sign * 2j * math.pi * k * q / n) for k in range(n)) / (n if sign > 0 else 1) for q in range(n)]


MAGNITUDE = {}                  # typical magnitude of atoms, where it is far from 1


def RE(v):
    if isinstance(v, complex) and abs(v.imag) > 1e-9 * (1 + abs(v)):
        raise ValueError("not a real number")
    return v.real


POINTWISE = {"poly": lambda v: v, "abs": abs, "sin": cmath.sin, "cos": cmath.cos, "exp": cmath.exp, "log": cmath.log, "sign": lambda v: (RE(v) > 0) - (RE(v) < 0),
             "erfc": lambda v: math.erfc(RE(v)), "arcsin": cmath.asin, "arctan": cmath.atan}
OVERALL = {"mean": lambda v: sum(v) / len(v), "sum": sum, "tot": sum, "max": lambda v: max(map(RE, v)), "min": lambda v: min(map(RE, v)),
           "head": lambda v: v[:-1], "tail": lambda v: v[1:], "unique": lambda v: sorted(map(RE, v)), "flip": lambda v: v[::-1], "fft": lambda v: dft(v, -1), "ifft": lambda v: dft(v, 1),
           "fftshift": lambda v: v[-(len(v) // 2):] + v[:-(len(v) // 2)], "ifftshift": lambda v: v[len(v) // 2:] + v[:len(v) // 2],
           "var": lambda v: sum(abs(x - sum(v) / len(v)) ** 2 for x in v) / len(v), "std": lambda v: math.sqrt(sum(abs(x - sum(v) / len(v)) ** 2 for x in v) / len(v)),
           "cumsum": lambda v: [sum(v[:k + 1]) for k in range(len(v))]}


def avalue(a, env):
    if isint(a):
        return float(a)
    if a == "pi":
        return math.pi
    if a == "e":
        return math.e
    if a in ATOM:
        fn, p = ATOM[a]
        if fn in POINTWISE:
            return vmap(POINTWISE[fn], value(p, env))
        if fn in OVERALL:
            v = value(p, env)
            return OVERALL[fn](v if isinstance(v, list) else [v] * NS)
        if fn == "piece":
            d, parts = PIECE[a]
            r = value(d, env)
            for c, v in parts:
                r = vmap(lambda k, new, old: new if k else old, c.value(env), value(v, env), r)
            return r
        if fn == "where":
            q, c = PIECE[a]
            v, k = value(q, env), c.value(env)
            r = [x for x, y in zip(v if isinstance(v, list) else [v] * NS, k if isinstance(k, list) else [k] * NS) if y]
            if not r:
                raise ValueError("empty selection")
            return r
        if fn == "count":
            k = PIECE[a][1].value(env)
            return sum(map(bool, k if isinstance(k, list) else [k] * NS))
        if fn.startswith("at") and fn[2:].lstrip("-").isdigit():
            v = value(p, env)
            return v[int(fn[2:])] if isinstance(v, list) else v
        if fn == "angle" and isinstance(p, tuple) and len(p) == 2:
            return vmap(lambda u, v: math.atan2(RE(v), RE(u)), *[value(q, env) for q in p])
        if fn in ("maximum", "minimum") and isinstance(p, tuple):
            f = max if fn == "maximum" else min
            return vmap(lambda u, v: f(RE(u), RE(v)), *[value(q, env) for q in p])
    k = a
    if a in ATOM:                   # a function that is not interpreted: a value of its own for every argument value
        fn, p = ATOM[a]
        k = fn + repr([vmap(lambda u: "%.7g%+.7gj" % (u.real + 0.0, u.imag + 0.0) if abs(u) > 1e-12 else "0", value(q, env)) for q in (p if isinstance(p, tuple) else (p,))])
    if k not in env:
        r = random.Random(k + str(env["seed"]))
        lo, hi = ((0.2, 0.9), (1.1, 3.0))[env["seed"] % 2]
        if scalar_atom(a):
            env[k] = r.uniform(lo, hi) * MAGNITUDE.get(a, 1)
        else:
            env[k] = [r.uniform(lo, hi) * (1 if a in POS else r.choice((1, -1))) for _ in range(NS)]
    return env[k]


def functions(p, out=None):
    """functions the comparison by value does not interpret"""
    out = set() if out is None else out
    for m in p:
        for x, _ in m:
            if x in ATOM:
                fn, q = ATOM[x]
                if fn not in POINTWISE and fn not in OVERALL and fn not in ("maximum", "minimum", "piece", "where", "count") and not (fn.startswith("at") and fn[2:].lstrip("-").isdigit()):
                    out.add(fn)
                for y in q if isinstance(q, tuple) else (q,):
                    functions(y, out)
    return out


def same(a, b):
    """two normal forms denote the same function"""
    d = sub(a, b)
    if iszero(d):
        return True
    # identities the normal form does not know: no difference anywhere means no alarm
    ok = 0
    for s in range(8):
        try:
            x, y = value(d, {"seed": s}), value(a, {"seed": s})
            for u, v in zip(x if isinstance(x, list) else [x], y if isinstance(y, list) else [y] * NS):
                if abs(u) > 1e-8 * (1 + abs(v)):
                    if functions(a) ^ functions(b):
                        raise Unknown("functions %s" % sorted(functions(a) ^ functions(b)))
                    return False
            ok += 1
        except (ValueError, OverflowError, ZeroDivisionError):
            pass
    if not ok:
        raise Unknown("no value to compare")
    return True


# ---------------------------------------------------------------- complex values
class Cx:
    def __init__(self, re, im=None, cplx=None):
        self.re, self.im = re, im or {}
        self.cplx = bool(self.im) if cplx is None else cplx

    @property
    def real(self):
        return not self.im

    def const(self):
        if not self.im and set(self.re) <= {()}:
            return self.re.get((), Fr(0))
        return None

    def __repr__(self):
        return "(%s) + j(%s)" % (key(self.re), key(self.im))


def num(v):
    if isinstance(v, complex):
        return Cx(C(Fr(str(v.real))), C(Fr(str(v.imag))), True)
    return Cx(C(Fr(str(v)) if isinstance(v, float) else Fr(v)))


SCALAR = {"pi", "e"}            # atoms that are the same for every sample


def real(n, positive=False, scalar=False):
    if scalar:
        SCALAR.add(n)
    return Cx(var(n, positive))


def scalar_atom(a):
    if isint(a) or a in SCALAR:
        return True
    if a not in ATOM:
        return False
    fn, q = ATOM[a]
    if fn in ("mean", "tot", "max", "min", "mean_all", "tot_all", "max_all", "min_all") or fn.startswith("at"):
        return True
    if fn in ("unique", "head", "tail", "piece", "where"):
        return False
    return all(scalar_atom(x) for p in (q if isinstance(q, tuple) else (q,)) for m in p for x, _ in m)


def cplx(n):
    return Cx(var(n + ".re"), var(n + ".im"), True)


def cadd(a, b):
    return Cx(add(a.re, b.re), add(a.im, b.im), a.cplx or b.cplx)


def cneg(a):
    return Cx(neg(a.re), neg(a.im), a.cplx)


def cmul(a, b):
    if a.real and b.real:
        return Cx(mul(a.re, b.re), None, a.cplx or b.cplx)
    return Cx(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)), True)


def abs2(a):
    return add(mul(a.re, a.re), mul(a.im, a.im))


def exact(a, b):
    """quotient of polynomials, None if the division leaves a remainder"""
    if not a:
        return {}
    names = sorted({x for p in (a, b) for m in p for x, _ in m})

    def vec(m):
        d = dict(m)
        return tuple(d.get(x, Fr(0)) for x in names)
    lb = max(b, key=vec)
    vb, cb = vec(lb), b[lb]
    q, r = {}, dict(a)
    for _ in range(60):
        if not r:
            return q
        lr = max(r, key=vec)
        v = tuple(x - y for x, y in zip(vec(lr), vb))
        if any(x < 0 for x in v):
            return None
        t = {tuple((n, x) for n, x in zip(names, v) if x): r[lr] / cb}
        q = add(q, t)
        r = sub(r, mul(t, b))
    return None


def ratio(a, b):
    if not a:
        return {}
    c1, m1, q1 = normal(a)
    c2, m2, q2 = normal(b)
    q = exact(q1, q2)
    if q is None:
        return None
    return mul(mul(q, {m1: c1 / c2}), mono_mul(tuple((x, -y) for x, y in m2), ()))


def cdiv(a, b):
    if b.real and len(b.re) > 1:
        x = ratio(a.re, b.re)
        y = ratio(a.im, b.re) if x is not None else None
        if x is not None and y is not None:
            return Cx(x, y, a.cplx)
    if b.real:
        i = powr(b.re, -1)
        return Cx(mul(a.re, i), mul(a.im, i), a.cplx)
    i = powr(abs2(b), -1)
    n = cmul(a, Cx(b.re, neg(b.im)))
    return Cx(mul(n.re, i), mul(n.im, i), True)


def cabs(a):
    if not a.real:
        return Cx(powr(abs2(a), Fr(1, 2)))
    p = a.re
    c = a.const()
    if c is not None:
        return Cx(C(abs(c)))
    if positive(p):
        return a
    s, q = signed(p)
    return Cx(atom("abs", q))


def csign(p):
    if not p:
        return {}
    if positive(p):
        return C(1)
    s, q = signed(p)
    return scale(atom("sign", q), Fr(s))


def cexp(a):
    r = C(1)
    for m, c in a.re.items():
        if m == ():
            r = mul(r, powr(var("e", True), c))
        else:
            x = "exp[%s]" % key({m: Fr(1)})
            ATOM[x] = ("exp", {m: Fr(1)})
            r = mul(r, {((x, c),): Fr(1)})
    if a.real:
        return Cx(r)
    z = Cx(C(1), {}, True)
    for m, c in a.im.items():
        z = cmul(z, expj({m: abs(c)}, 1 if c > 0 else -1))
    return cmul(Cx(r), z)


def trig(fn, p):
    z = Cx(C(1), {}, True)
    for m, c in p.items():
        z = cmul(z, expj({m: abs(c)}, 1 if c > 0 else -1))
    return z.im if fn == "sin" else z.re


def expj(p, s):
    (m, c), = p.items()
    if m == (("pi", Fr(1)),):
        q = (c * s) % 2
        t = {Fr(0): (1, 0), Fr(1, 2): (0, 1), Fr(1): (-1, 0), Fr(3, 2): (0, -1)}.get(q)
        if t:
            return Cx(C(t[0]), C(t[1]), True)
    if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOM.get(m[0][0], ("",))[0] in ("arcsin", "arctan"):
        fn, q = ATOM[m[0][0]]
        if fn == "arcsin":
            return Cx(powr(sub(C(1), mul(q, q)), Fr(1, 2)), scale(q, Fr(s)), True)
        h = powr(add(C(1), mul(q, q)), Fr(-1, 2))
        return Cx(h, scale(mul(q, h), Fr(s)), True)
    return Cx(atom("cos", p), scale(atom("sin", p), Fr(s)), True)


def clog(a):
    """natural logarithm of a positive real"""
    if not a.real or not a.re:
        raise Unknown("logarithm")
    p = a.re
    if len(p) > 1:
        c, com, q = normal(p)
        r = clog(Cx({com: c})).re if c > 0 else {}
        if c < 0:
            q = neg(q)
            r = clog(Cx({com: -c})).re
        return Cx(add(r, atom("log", q)))
    (m, c), = p.items()
    if c < 0:
        raise Unknown("logarithm of a negative number")
    r = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for q, k in primes(n).items():
            r = add(r, scale(atom("log", C(q)), Fr(s * k)))
    for x, e in m:
        f = ATOM.get(x)
        if f is not None and f[0] == "exp":
            r = add(r, scale(f[1], e))
        elif f is not None and f[0] == "poly":
            r = add(r, scale(atom("log", f[1]), e))
        elif isint(x):
            r = add(r, scale(atom("log", C(int(x))), e))
        else:
            r = add(r, scale(atom("log", {((x, Fr(1)),): Fr(1)}), e))
    return Cx(r)


def cpow(a, b):
    if not b.real:
        raise Unknown("complex exponent")
    e = b.const()
    if e is not None:
        if e.denominator == 1:
            if e < 0:
                return cdiv(num(1), cpow(a, num(-e.numerator)))
            r = Cx(C(1), {}, a.cplx)
            if e > 8:
                raise Unknown("large power")
            for _ in range(e.numerator):
                r = cmul(r, a)
            return r
        if not a.real:
            raise Unknown("fractional power of a complex number")
        return Cx(powr(a.re, e))
    # positive base ** x = exp(x log base)
    return cexp(cmul(b, clog(a)))


def linear(fn, a):
    """mean, sum ...: pull constant factors out, distribute over sums"""
    def one(p):
        r = {}
        for m, c in p.items():
            out = tuple(f for f in m if scalar_atom(f[0]))
            inn = tuple(f for f in m if f not in out)
            if not inn and (fn.startswith(("mean", "at")) or fn in ("head", "tail")) or len(inn) == 1 and inn[0][1] == 1 and ATOM.get(inn[0][0], ("",))[0] == fn and fn in ("mean", "sum"):
                t = {inn: Fr(1)}
            else:
                t = atom(fn, {inn: Fr(1)})
            r = add(r, scale(mul(t, {out: Fr(1)}), c))
        return r
    return Cx(one(a.re), one(a.im), a.cplx)


def equal(a, b):
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if not isinstance(a, Cx) or not isinstance(b, Cx):
        raise Unknown("not a number")
    return same(a.re, b.re) and same(a.im, b.im)


# ---------------------------------------------------------------- source -> normal form
class Arr:
    """an argument the code indexes"""

    def __init__(self, get, put=None, **attrs):
        self.get, self.put, self.attrs = get, put, attrs


class Const:
    def __init__(self, v):
        self.v = v


class Fn:
    def __init__(self, f):
        self.f = f


class Ext:
    def __init__(self, n):
        self.n = n


class Opaque:
    def __init__(self, n):
        self.n = n


class Later(Opaque):
    """a condition that has got a name"""

    def __init__(self, e, env, m):
        self.n, self.e, self.env, self.m = "condition", e, env, m


class Stop(Exception):
    """break"""


class Skip(Exception):
    """continue"""


class Returned(Exception):
    def __init__(self, v):
        self.v = v


IDENT = {"numpy.array", "numpy.asarray", "numpy.asanyarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ascontiguousarray", "numpy.copy", "numpy.squeeze", "numpy.ravel", "builtins.float",
         "numpy.float64", "numpy.float32", "numpy.complex64", "numpy.complex128", "numpy.asfortranarray", "builtins.complex"}
IDMETH = {"flatten", "ravel", "reshape", "astype", "copy", "squeeze", "item", "view"}


class Ev:
    """evaluates straight-line arithmetic source in the domain of normal forms"""

    def __init__(self, project, prims=None, assume=None, attrs=None, shape=None):
        self.shape = shape          # dimensions every field has
        self.p, self.prims, self.assume, self.attrs = project, prims or {}, assume or (lambda t: None), attrs or {}
        self.used = set()
        self.dropped = False        # rows were taken: an array of unknown rank may be one
        self.depth = 0
        self.disorder = []
        self.fresh = 0
        self.choices = None         # path enumeration: [truth, ...] to follow, conditions met so far
        self.conds = []
        self.carries = []

    # ---- all paths
    def paths(self, f, args, kw=None, limit=64, reset=None):
        """[(conditions, value)]: conditions are (polynomial, relation, truth); value may be Raised"""
        out, todo = [], [[]]
        while todo:
            ch = todo.pop()
            self.choices, self.conds, self.carries = list(ch), [], []
            if reset:
                reset()
            try:
                v = self.call(f, args, kw)
            except Raised:
                v = Raised
            out.append((list(self.conds), v, list(self.carries)))
            for k in range(len(ch), len(self.conds)):
                todo.append([c[2] for c in self.conds[:k]] + [not self.conds[k][2]])
            if len(out) > limit:
                raise Unknown("too many paths")
        self.choices = None
        return out

    def choose(self, poly, rel):
        for q, r, t in self.conds:
            if q == poly and r == rel:
                return t
        k = len(self.conds)
        t = self.choices[k] if k < len(self.choices) else True
        self.conds.append((poly, rel, t))
        return t

    # ---- functions
    def call(self, f, args, kw=None):
        kw = dict(kw or {})
        if f.fullname in self.prims:
            return self.prims[f.fullname](self, args, kw)
        if self.depth > 8:
            raise Unknown("recursion")
        env = {}
        if f.vararg or f.kwarg and set(kw) - set(f.pos) - set(f.kwonly):
            raise Unknown("variable arguments")
        for n, a in zip(f.pos, args):
            env[n] = a
        for n in f.pos + f.kwonly:
            if n in env:
                continue
            if n in kw:
                env[n] = kw[n]
            elif n in f.defaults:
                env[n] = self.expr(f.defaults[n], {}, f.module)
            else:
                raise Unknown("argument %s" % n)
        self.used.add(f.fullname)
        self.depth += 1
        try:
            self.block(f.node.body, env, f.module)
        except Returned as r:
            return r.v
        finally:
            self.depth -= 1
        return Const(None)

    def block(self, stmts, env, m):
        for s in stmts:
            self.stmt(s, env, m)

    def stmt(self, s, env, m):
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            if isinstance(s.value, (ast.Call, ast.Compare)):
                return          # called for its effect
            raise Unknown("statement")
        if isinstance(s, ast.Return):
            raise Returned(self.expr(s.value, env, m) if s.value is not None else Const(None))
        if isinstance(s, ast.Assign):
            v = self.named(s.value, env, m)
            if v is None:
                v = self.expr(s.value, env, m)
            for t in s.targets:
                self.assign(t, v, env, m)
            return
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            self.assign(s.target, self.expr(s.value, env, m), env, m)
            return
        if isinstance(s, ast.AugAssign):
            cur = self.expr(ast.fix_missing_locations(_load(s.target)), env, m)
            v = self.binop(s.op, cur, self.expr(s.value, env, m))
            self.assign(s.target, v, env, m)
            return
        if isinstance(s, (ast.Assert, ast.Pass, ast.Import, ast.ImportFrom, ast.Global)):
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    r = self.p.resolve_import(s.module or "", a.name)
                    env[a.asname or a.name] = self.wrap(r)
            return
        if isinstance(s, ast.If):
            t = self.test(s.test, env, m)
            if t is None:
                # the two ways may agree
                a, b = dict(env), dict(env)
                ra = rb = None
                try:
                    self.block(s.body, a, m)
                except Returned as r:
                    ra = r
                except Raised:
                    a = None
                try:
                    self.block(s.orelse, b, m)
                except Returned as r:
                    rb = r
                except Raised:
                    b = None
                if a is None and b is None:
                    raise Raised()
                if a is None or b is None:
                    if (ra or rb) is not None:
                        raise ra or rb
                    env.clear()
                    env.update(a or b)
                    return
                if ra is not None and rb is not None:
                    if equal(ra.v, rb.v):
                        raise ra
                    raise Unknown("branch %s" % ast.unparse(s.test))
                if ra is not None or rb is not None:
                    raise Unknown("branch %s" % ast.unparse(s.test))
                env.clear()
                for k in a:
                    if k in b:
                        env[k] = a[k] if a[k] is b[k] else self.joined(a[k], b[k])
                return
            self.block(s.body if t else s.orelse, env, m)
            return
        if isinstance(s, ast.Raise):
            raise Raised()
        if isinstance(s, ast.FunctionDef):
            return
        if isinstance(s, ast.Break) and self.unrolled:
            raise Stop()
        if isinstance(s, ast.Continue) and self.unrolled:
            raise Skip()
        if isinstance(s, ast.While) and not s.orelse and self.choices is not None:
            for _ in range(9):
                t = self.test(s.test, env, m)
                if t is None:
                    raise Unknown("while %s" % ast.unparse(s.test))
                if not t or self.round(s.body, env, m):
                    return
            raise Unknown("while")
        if isinstance(s, ast.For):
            return self.loop(s, env, m)
        if isinstance(s, ast.Try) and not s.finalbody and not s.orelse and len(s.handlers) == 1:
            keep = dict(env)
            try:
                self.block(s.body, env, m)
            except Unknown:
                env.clear()
                env.update(keep)
                self.block(s.handlers[0].body, env, m)
            return
        if isinstance(s, ast.With):
            for i in s.items:
                if not isinstance(i.context_expr, ast.Call):
                    raise Unknown("with")
                t = ast.unparse(i.context_expr.func)
                if not t.endswith("errstate"):
                    raise Unknown("with")
            self.block(s.body, env, m)
            return
        raise Unknown(type(s).__name__)

    unrolled = 0
    flips = False           # reversed rows are a value of their own

    def round(self, body, env, m):
        """one round of an unrolled loop; True when it is left"""
        self.unrolled += self.choices is not None
        try:
            self.block(body, env, m)
        except Stop:
            return True
        except Skip:
            pass
        finally:
            self.unrolled -= self.choices is not None
        return False

    def new(self, what, node=None):
        if node is not None:            # the same in every round and path
            return var("%s#%d.%d" % (what, node.lineno, node.col_offset))
        self.fresh += 1
        return var("%s#%d" % (what, self.fresh))

    def loop(self, s, env, m):
        """one generic round: what a variable gains in it is summed over the rounds"""
        if s.orelse:
            raise Unknown("for-else")
        it = s.iter
        trips, partial = None, False
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "enumerate", "zip") and it.func.id not in env:
            args = [self.lazy(a, env, m) for a in it.args]
            if it.func.id == "range":
                cs = [a.const() if isinstance(a, Cx) else None for a in args]
                if all(c is not None and c.denominator == 1 for c in cs) and len(range(*[c.numerator for c in cs])) <= 4:
                    for k in range(*[c.numerator for c in cs]):
                        self.assign(s.target, num(k), env, m)
                        if self.round(s.body, env, m):
                            break
                    return
                v = Cx(self.new("i", s))
                trips = args[0] if len(args) == 1 or len(args) == 2 and cs[0] == 0 else None
                trips = args[1] if len(args) == 2 and cs[0] == 0 else trips
                partial = trips is None
            elif it.func.id == "enumerate":
                v = (Cx(self.new("i", s)), self.element(args[0], s))
                trips = self.length(args[0])
            else:
                v = tuple(self.element(a, s) for a in args)
                trips = self.length(args[0])
        else:
            src = self.lazy(it, env, m)
            if isinstance(src, (tuple, list)) and len(src) <= 4:
                for x in src:
                    self.assign(s.target, x, env, m)
                    self.block(s.body, env, m)
                return
            v = self.element(src, s)
            trips = self.length(src)
        self.assign(s.target, v, env, m)
        tg = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        stored = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - tg
        for b in s.body:
            for n in ast.walk(b):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    x = n.value
                    while isinstance(x, (ast.Subscript, ast.Attribute)):
                        x = x.value
                    if isinstance(x, ast.Name):
                        stored.add(x.id)
        before = {n: env[n] for n in sorted(stored) if isinstance(env.get(n), Cx)}
        start = dict(env)
        vary = set(before)
        for _ in range(3):
            carry = {}
            for n in sorted(vary):
                c = self.new("carry_" + n, s)
                ci = self.new("carryi_" + n, s) if not before[n].real or before[n].cplx else {}
                carry[n] = env[n] = Cx(c, ci, before[n].cplx)
            mark, cond = len(self.carries), len(self.conds)
            inside, self.unrolled = self.unrolled, 0
            try:
                self.block(s.body, env, m)
            finally:
                self.unrolled = inside
            same_ = {n for n, c in carry.items() if isinstance(env.get(n), Cx) and env[n].re == c.re and env[n].im == c.im}
            if not same_ or len(self.conds) > cond:
                break
            # unchanged in a round: known inside as well
            vary -= same_
            env.clear()
            env.update(start)
            del self.carries[mark:]
        for n, c in carry.items():
            a = env.get(n)
            if not isinstance(a, Cx):
                env[n] = Opaque("carried")
                continue
            atoms = {x for p in (c.re, c.im) for mm in p for x, _ in mm}
            t = cadd(a, cneg(c))
            if self.choices is not None and not contains(t, atoms):
                self.carries.append((n, before[n], c, a))
            if contains(t, atoms):
                self.carries.append((n, before[n], c, a))
                env[n] = Opaque("carried") if contains(a, atoms) else a
            else:
                if self.shape is not None and isinstance(trips, Cx):
                    t = cmul(linear("mean", t), trips)
                else:
                    t = linear("partial" if partial and self.shape is not None else "sum", t)
                env[n] = cadd(before[n], t)
        for n in tg:
            env.pop(n, None)

    def length(self, v):
        if isinstance(v, Cx) and hasattr(v, "length"):
            return v.length
        sh = self.shapeof(v) if isinstance(v, Cx) else None
        return sh[0] if sh and not isinstance(sh, Rows) else None

    def element(self, v, node):
        if isinstance(v, Cx):
            return v
        return Cx(self.new("e", node))

    def joined(self, a, b):
        try:
            if equal(a, b):
                return a
        except Unknown:
            pass
        if isinstance(a, Const) and isinstance(b, Const) and a.v == b.v:
            return a
        return Opaque("two values")

    def assign(self, t, v, env, m=None):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, (tuple, list)) or len(v) != len(t.elts):
                raise Unknown("unpacking")
            for x, y in zip(t.elts, v):
                self.assign(x, y, env, m)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(env.get(t.value.id), Arr) and env[t.value.id].put:
            els = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
            env[t.value.id].put(self, [x if isinstance(x, ast.Slice) else self.lazy(x, env, m) for x in els], v)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and isinstance(env.get(t.value.id), Cx) and isinstance(v, Cx) and self.mask(t, env, m) is not None:
            c, old = self.mask(t, env, m), env[t.value.id]

            def drop(a):
                return PIECE[a][0] if a in PIECE and isinstance(PIECE[a][1], Cond) and PIECE[a][1].key() == c.key() else None
            v = Cx(rebuild(v.re, drop), rebuild(v.im, drop), v.cplx)

            def put(o, n):
                (a, x), = list(o)[0] if len(o) == 1 and len(list(o)[0]) == 1 and list(o.values())[0] == 1 else (("", 0),)
                if a in PIECE and a.startswith("piece[") and x == 1:
                    return pieces(PIECE[a][0], PIECE[a][1] + [(c, n)])
                return pieces(o, [(c, n)])
            im = put(old.im, v.im) if old.im or v.im else {}
            env[t.value.id] = Cx(put(old.re, v.re), im, old.cplx or v.cplx)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and (full(t) or isinstance(env.get(t.value.id), Cx) and self.generic(t, env, m)):
            d = sum(isinstance(x, ast.Name) for x in (t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]))
            if isinstance(v, Cx) and d and self.shape is not None:
                v = Cx(v.re, v.im, v.cplx)
                v.rank = len(self.shape)
            env[t.value.id] = v
        else:
            raise Unknown("assignment to %s" % type(t).__name__)

    def mask(self, t, env, m):
        els = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
        cs = []
        for x in els:
            if isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None or isinstance(x, ast.Name) and isinstance(env.get(x.id), Cx) and is_loop(env[x.id]):
                continue
            if isinstance(x, ast.Constant) and x.value is Ellipsis:
                continue
            v = self.lazy(x, env, m)
            if isinstance(v, tuple) and len(v) == 1:
                v = v[0]
            if not isinstance(v, Cond):
                return None
            cs.append(v)
        return cs[0] if len(cs) == 1 else None

    def generic(self, t, env, m):
        """x[i], x[i, :] with loop variables: the element the round is about"""
        els = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
        for x in els:
            if isinstance(x, ast.Slice) and x.lower is None and x.upper is None and (x.step is None or self.one(x.step, env, m)) or isinstance(x, ast.Constant) and x.value in (None, Ellipsis):
                continue
            if isinstance(x, ast.Name) and isinstance(env.get(x.id), Cx) and is_loop(env[x.id]):
                continue
            return False
        return True

    def one(self, e, env, m):
        v = self.lazy(e, env, m)
        return isinstance(v, Cx) and v.const() == 1

    # ---- tests
    def named(self, e, env, m):
        """the value of a condition that gets a name; None if e is no condition"""
        if isinstance(e, ast.Compare):
            v = None
            try:
                v = self.expr(e, env, m)
            except Unknown:
                pass
            if v is not None and not isinstance(v, (Opaque, Cond)):
                return v
            t = self.test(e, env, m)
            return Const(t) if t is not None else v if isinstance(v, Cond) else Later(e, dict(env), m)
        elif not (isinstance(e, ast.BoolOp) and all(isinstance(x, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call)) for x in e.values)) \
                and not (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)) \
                and not (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "hasattr", "callable", "any", "all", "bool")):
            return None
        t = self.test(e, env, m)
        return Const(t) if t is not None else Later(e, dict(env), m)

    def test(self, e, env, m):
        if isinstance(e, ast.Name) and isinstance(env.get(e.id), Later):
            l = env[e.id]
            return self.test(l.e, l.env, l.m)
        r = self.assume(ast.unparse(e))
        if r is not None:
            return r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.test(e.operand, env, m)
            return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            ts = []
            for x in e.values:
                t = self.test(x, env, m)
                if t is isinstance(e.op, ast.Or):
                    return t
                ts.append(t)
            return None if None in ts else isinstance(e.op, ast.And)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            try:
                a, b = self.expr(e.left, env, m), self.expr(e.comparators[0], env, m)
            except Unknown:
                return None
            op = e.ops[0]
            if isinstance(a, Const) and isinstance(b, Const) or isinstance(op, (ast.Is, ast.IsNot)) and (isinstance(a, Const) or isinstance(b, Const)):
                x, y = (z.v if isinstance(z, Const) else object() for z in (a, b))
                eq = x == y
                return eq if isinstance(op, (ast.Eq, ast.Is)) else (not eq) if isinstance(op, (ast.NotEq, ast.IsNot)) else None
            if isinstance(op, (ast.In, ast.NotIn)) and isinstance(a, Const) and isinstance(b, (tuple, list)) and all(isinstance(x, Const) for x in b):
                i = a.v in [x.v for x in b]
                return i if isinstance(op, ast.In) else not i
            if isinstance(a, Cx) and isinstance(b, Cx):
                dd = Cx(sub(a.re, b.re), sub(a.im, b.im))
                d = dd.const()
                if d is None and self.choices is not None and dd.real:
                    sg, q = signed(dd.re)
                    rel = type(op)
                    if sg < 0:
                        rel = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(rel, rel)
                    # x > 0 and not (x <= 0) are one condition
                    if rel in (ast.LtE, ast.NotEq):
                        return not self.choose(key(q), {ast.LtE: "Gt", ast.NotEq: "Eq"}[rel])
                    if rel is ast.GtE:
                        return not self.choose(key(q), "Lt")
                    return self.choose(key(q), rel.__name__)
                if d is not None:
                    return {ast.Eq: d == 0, ast.NotEq: d != 0, ast.Lt: d < 0, ast.Gt: d > 0, ast.LtE: d <= 0, ast.GtE: d >= 0}.get(type(op))
            return None
        try:
            v = self.expr(e, env, m)
        except Unknown:
            return None
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Cx) and v.const() is not None:
            return v.const() != 0
        return None

    # ---- expressions
    resolving = set()

    def wrap(self, r):
        if isinstance(r, FuncInfo):
            return Fn(r)
        if isinstance(r, Module):
            return r
        if isinstance(r, tuple) and r[0] == "ext":
            return Ext(r[1])
        if isinstance(r, tuple) and r[0] == "var":
            e = r[1].assigns.get(r[2])
            if e is None or (r[1].name, r[2]) in self.resolving:
                raise Unknown(r[2])
            self.resolving.add((r[1].name, r[2]))
            try:
                return self.expr(e, {}, r[1])
            finally:
                self.resolving.discard((r[1].name, r[2]))
        raise Unknown("name")

    def expr(self, e, env, m):
        if isinstance(e, ast.Constant):
            if isinstance(e.value, bool) or e.value is None or isinstance(e.value, (str, bytes)):
                return Const(e.value)
            if e.value is Ellipsis:
                return Const(Ellipsis)
            return num(e.value)
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = m.lookup(e.id)
            if r is None:
                return Ext("builtins." + e.id)
            return self.wrap(r)
        if isinstance(e, (ast.Tuple, ast.List)):
            return tuple(self.expr(x, env, m) for x in e.elts)
        if isinstance(e, ast.Dict) and all(isinstance(k, ast.Constant) for k in e.keys):
            return {k.value: self.lazy(x, env, m) for k, x in zip(e.keys, e.values)}
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.expr(e.left, env, m), self.expr(e.right, env, m))
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.expr(e.left, env, m), self.expr(e.comparators[0], env, m)
            if isinstance(a, Cx) and isinstance(b, Cx):
                d = Cx(sub(a.re, b.re), sub(a.im, b.im))
                if isinstance(e.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) and d.real:
                    return Cond(("lt", d.re if isinstance(e.ops[0], (ast.Lt, ast.LtE)) else neg(d.re)))
                if isinstance(e.ops[0], (ast.Eq, ast.NotEq)):
                    c = Cond(("eq", d.re if d.real else abs2(d)))
                    return c if isinstance(e.ops[0], ast.Eq) else Cond(("not", c))
            raise Unknown("comparison")
        if isinstance(e, ast.UnaryOp):
            v = self.expr(e.operand, env, m)
            if isinstance(e.op, ast.Invert) and isinstance(v, Cond):
                return Cond(("not", v))
            if isinstance(e.op, ast.USub) and isinstance(v, Cx):
                return self.ranked(cneg(v), v)
            if isinstance(e.op, ast.UAdd):
                return v
            raise Unknown("operator")
        if isinstance(e, ast.IfExp):
            t = self.test(e.test, env, m)
            if t is None:
                a, b = self.expr(e.body, env, m), self.expr(e.orelse, env, m)
                if equal(a, b):
                    return a
                raise Unknown("conditional expression")
            return self.expr(e.body if t else e.orelse, env, m)
        if isinstance(e, ast.Attribute):
            return self.attr(self.expr(e.value, env, m), e.attr)
        if isinstance(e, ast.Subscript):
            v = self.expr(e.value, env, m)
            return self.index(v, e.slice, env, m)
        if isinstance(e, ast.Call):
            f = self.expr(e.func, env, m)
            if any(isinstance(a, ast.Starred) for a in e.args) or any(k.arg is None for k in e.keywords):
                if not (isinstance(f, Ext) and ".random." in f.n and f.n in self.prims):
                    raise Unknown("variable arguments")
                return self.prims[f.n](self, [], {})
            args = [self.lazy(a, env, m) for a in e.args]
            kw = {k.arg: self.lazy(k.value, env, m) for k in e.keywords}
            return self.apply(f, args, kw)
        if isinstance(e, ast.JoinedStr):
            return Const("")
        raise Unknown(type(e).__name__)

    def lazy(self, a, env, m):
        try:
            return self.expr(a, env, m)
        except Unknown as u:
            return Opaque(str(u))

    def count(self, c):
        x = "count[%s]" % c.key()
        ATOM[x] = ("count", tuple(c.polys()))
        PIECE[x] = (None, c)
        SCALAR.add(x)
        return Cx({((x, Fr(1)),): Fr(1)})

    def shapeof(self, v):
        if self.shape is None:
            return None
        r = getattr(v, "rank", None)
        if isinstance(getattr(v, "length", None), Cx):
            return Shape((v.length,))
        if r is not None:
            return Shape(self.shape[-r:] if r else ())
        return (Rows if self.dropped and len(self.shape) > 1 else Shape)(self.shape)

    def rankof(self, v):
        if not isinstance(v, Cx):
            return None
        r = getattr(v, "rank", None)
        return 0 if r is None and all(scalar_atom(x) for p in (v.re, v.im) for m in p for x, _ in m) else r

    def ranked(self, r, *vs):
        """the result of an elementwise operation has the rank and the sample order of its operands"""
        ts = [t for t in (getattr(v, "tag", None) for v in vs) if t]
        if ts and isinstance(r, Cx) and getattr(r, "tag", None) is None:
            t = ts[0]
            for u in ts[1:]:
                if t and u[0] != t[0]:
                    t = None
                elif t and t[0] == "f" and t[2] != u[2]:
                    self.disorder.append("samples of two spectra are combined that are not in the same order (fftshift missing or in excess)")
                    t = None
                elif t and t[1] != u[1]:
                    t = (t[0], t[1] if u[1] is None else u[1], t[2]) if None in (t[1], u[1]) else None
            if t:
                k = getattr(r, "rank", None)
                r = Cx(r.re, r.im, r.cplx)
                r.tag = t
                if k is not None:
                    r.rank = k
        if isinstance(r, Cx) and self.shape is not None and len(self.shape) > 1 and getattr(r, "rank", None) is None:
            rs = [self.rankof(v) for v in vs]
            if None not in rs and any(rs):
                t = getattr(r, "tag", None)
                r = Cx(r.re, r.im, r.cplx)
                r.rank, r.tag = max(rs), t
        return r

    def binop(self, op, a, b):
        return self.ranked(self.binop_(op, a, b), a, b)

    def binop_(self, op, a, b):
        if isinstance(a, Cond) and isinstance(b, Cond) and isinstance(op, (ast.BitAnd, ast.BitOr, ast.Mult, ast.Add)):
            return Cond(("and" if isinstance(op, (ast.BitAnd, ast.Mult)) else "or", a, b))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not isinstance(op, ast.Add):
            return tuple(self.binop(op, x, y) for x, y in zip(a, b))
        if isinstance(a, tuple) and isinstance(b, Cx):
            return tuple(self.binop(op, x, b) for x in a)
        if isinstance(b, tuple) and isinstance(a, Cx):
            return tuple(self.binop(op, a, x) for x in b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("operand")
        if not isinstance(a, Cx) or not isinstance(b, Cx):
            if isinstance(a, Const) and isinstance(b, Const) and isinstance(op, (ast.Add, ast.Mod)):
                return Const(str(a.v) + str(b.v))
            raise Unknown("operand")
        if isinstance(op, ast.Add):
            return cadd(a, b)
        if isinstance(op, ast.Sub):
            return cadd(a, cneg(b))
        if isinstance(op, ast.Mult):
            return cmul(a, b)
        if isinstance(op, ast.Div):
            return cdiv(a, b)
        if isinstance(op, ast.Pow):
            return cpow(a, b)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            x, y = a.const(), b.const()
            if x is not None and y:
                return num(x // y if isinstance(op, ast.FloorDiv) else x % y)
            if a.real and b.real and isinstance(op, ast.FloorDiv):
                return Cx(atom("floor", cdiv(a, b).re))
        raise Unknown("operator")

    def attr(self, v, name):
        if isinstance(v, Module):
            r = v.lookup(name)
            if r is None:
                sub_ = self.p.modules.get(v.name + "." + name)
                if sub_ is None:
                    raise Unknown(name)
                return sub_
            return self.wrap(r)
        if isinstance(v, Ext):
            n = v.n + "." + name
            if n in ("numpy.pi", "math.pi", "scipy.pi", "scipy.constants.pi"):
                return Cx(var("pi"))
            if n in ("numpy.newaxis",):
                return Const(None)
            if n in ("scipy.constants.c", "scipy.constants.speed_of_light"):
                return num(299792458)
            if n in ("scipy.constants.h", "scipy.constants.Planck"):
                return num(6.62607015e-34)
            return Ext(n)
        if isinstance(v, Cx):
            if name == "real":
                return self.ranked(Cx(v.re), v)
            if name == "imag":
                return self.ranked(Cx(v.im), v)
            if name == "T":
                return v
            if name in ("shape", "size", "ndim"):
                c = selection(v)
                if c is not None and name != "ndim":
                    n = self.count(c)
                    return (n,) if name == "shape" else n
                sh = self.shapeof(v)
                if sh is not None:
                    if name != "shape" and isinstance(sh, Rows):
                        return Opaque(name)
                    return sh if name == "shape" else num(len(sh)) if name == "ndim" else functools.reduce(cmul, sh)
                return Opaque(name)
            return Bound(v, name)
        if isinstance(v, Arr):
            if name in v.attrs:
                return v.attrs[name]
            return Bound(v, name)
        if isinstance(v, Opaque):
            return Opaque(v.n + "." + name)
        if isinstance(v, tuple) and name in ("shape", "ndim") and self.shape is not None:
            sh = (num(len(v)),) + self.shape
            return sh if name == "shape" else num(len(sh))
        if isinstance(v, tuple) and name in ("real", "imag", "T") and all(isinstance(x, Cx) for x in v):
            return tuple(self.attr(x, name) for x in v)
        if isinstance(v, tuple) and name == "recreate_from_np_array":
            return Bound(v, name)
        if isinstance(v, Const) and isinstance(v.v, str) and name in ("lower", "upper", "strip"):
            return Bound(v, name)
        if isinstance(v, Bound) or isinstance(v, tuple) and name in IDMETH:
            return Bound(v, name)
        raise Unknown("attribute %s" % name)

    def index(self, v, s, env, m):
        if isinstance(v, (tuple, list)):
            c = self.expr(s, env, m)
            c = c.const() if isinstance(c, Cx) else None
            if isinstance(v, Shape) and c == 1 and len(v) == 1 or isinstance(v, Rows) and c in (1, -1):
                return v[-1]                # of the array made two-dimensional
            if isinstance(v, Rows):
                return Opaque("shape")
            if c is None or c.denominator != 1 or not -len(v) <= c < len(v):
                raise Unknown("index")
            return v[c.numerator]
        if isinstance(v, Arr):
            els = s.elts if isinstance(s, ast.Tuple) else [s]
            return v.get(self, [x if isinstance(x, ast.Slice) else self.lazy(x, env, m) for x in els])
        if isinstance(v, Opaque):
            return Opaque(v.n + "[]")
        if isinstance(v, dict):
            k = self.expr(s, env, m)
            if isinstance(k, Const):
                if k.v in v:
                    return v[k.v]
                raise Raised()
            raise Unknown("key")
        if isinstance(v, Cx):
            t = ast.Subscript(value=ast.Name(id="_", ctx=ast.Load()), slice=s, ctx=ast.Load())
            if full(t):
                return v
            if self.generic(t, env, m):
                d = sum(isinstance(x, ast.Name) for x in (s.elts if isinstance(s, ast.Tuple) else [s]))
                r = getattr(v, "rank", None)
                if d and (r is not None or self.shape is not None and not self.dropped):
                    v = Cx(v.re, v.im, v.cplx)
                    v.rank = max((len(self.shape) if r is None else r) - d, 0)
                self.dropped = self.dropped or d > 0
                return v
            els = s.elts if isinstance(s, ast.Tuple) else []
            if len(els) == 2 and isinstance(els[0], ast.Constant) and isinstance(els[1], ast.Slice) and full(ast.Subscript(value=t.value, slice=els[1])):
                v = linear("row%d" % els[0].value, v)
                v.rank = 1
                return v
            c = self.mask(t, env, m)
            if c is not None:
                return Cx(restrict(v.re, c), restrict(v.im, c), v.cplx)
            if not isinstance(s, (ast.Slice, ast.Tuple)):
                k = self.lazy(s, env, m)
                if isinstance(k, Cx) and k.real:
                    i = k.const()
                    if all(x == "k" or scalar_atom(x) for p in (v.re, v.im) for mm in p for x, _ in mm) and (i is None or i >= 0):
                        f = lambda x: k.re if x == "k" else None      # the grid 0, 1, 2, ...
                        return Cx(rebuild(v.re, f), rebuild(v.im, f), v.cplx)
                    return linear("at%s" % (i if i is not None else key(k.re)), v)
            if isinstance(s, ast.Slice) and s.step is not None and s.lower is None and s.upper is None:
                k = self.lazy(s.step, env, m)
                if isinstance(k, Cx) and k.const() == 1:
                    return v
                if isinstance(k, Cx) and k.const() == -1 and self.flips:
                    return linear("flip", v)
            if isinstance(s, ast.Slice) and s.step is None:
                k = lambda x: None if x is None else ast.unparse(x)
                lo, hi = k(s.lower), k(s.upper)
                if (lo, hi) in ((None, "-1"), ("1", None), ("0", "-1")):
                    f = "head" if lo in (None, "0") else "tail"
                    return linear(f, v)
        raise Unknown("index")

    def apply(self, f, args, kw):
        if isinstance(f, Fn):
            return self.call(f.f, args, kw)
        if isinstance(f, Bound):
            return self.method(f.v, f.name, args, kw)
        if isinstance(f, Ext):
            return self.ext(f.n, args, kw)
        if isinstance(f, Opaque) and f.n.endswith("dtype.type") and len(args) == 1:
            return args[0]
        raise Unknown("call")

    def method(self, v, name, args, kw):
        if isinstance(v, tuple):
            if name == "recreate_from_np_array" and args:
                return args[0]
            if name in IDMETH and name != "view":
                return v
            raise Unknown("method %s" % name)
        if isinstance(v, Const) and isinstance(v.v, str) and name in ("lower", "upper", "strip") and not args:
            return Const(getattr(v.v, name)())
        if isinstance(v, Bound):
            if name == "type" and v.name == "dtype":        # x.dtype.type(y)
                return args[0]
            raise Unknown(name)
        if isinstance(v, Cx):
            if name in IDMETH:
                return v
            if name in ("conj", "conjugate"):
                return Cx(v.re, neg(v.im), v.cplx)
            if name == "recreate_from_np_array" and args:
                return args[0]
            if name in ("mean", "sum", "max", "min", "std", "var", "cumsum"):
                return self.ext("numpy." + name, [v] + list(args), kw)
        raise Unknown("method %s" % name)

    def ext(self, n, args, kw):
        r = self.ext_(n, args, kw)
        if n.split(".")[-1] not in ("mean", "sum", "nanmean", "max", "amax", "min", "amin", "std", "var", "cumsum", "unique", "diff", "len", "size", "count_nonzero") and args:
            r = self.ranked(r, *[a for a in args if not isinstance(a, Const)])
        return r

    def ext_(self, n, args, kw):
        a = args[0] if args else None
        if n in self.prims:
            return self.prims[n](self, args, kw)
        if n in IDENT and isinstance(a, (Cx, tuple, Arr)):
            return a
        b = n.split(".")[-1]
        if isinstance(a, Cond) and b == "where":
            if len(args) == 1:
                return a
            if all(isinstance(x, Cx) for x in args[1:]):
                x, y = args[1:]
                return Cx(pieces(y.re, [(a, x.re)]), pieces(y.im, [(a, x.im)]) if x.im or y.im else {}, x.cplx or y.cplx)
        if isinstance(a, Cond) and b in ("logical_not", "invert"):
            return Cond(("not", a))
        if isinstance(a, Cond) and b in ("logical_and", "logical_or", "bitwise_and", "bitwise_or") and isinstance(args[1], Cond):
            return Cond(("and" if b.endswith("and") else "or", a, args[1]))
        if isinstance(a, Cond) and b in ("count_nonzero", "sum"):
            return self.count(a)
        if isinstance(a, Cond) and b in ("nonzero", "flatnonzero"):
            return (a,) if b == "nonzero" else a
        if b in ("shape", "size", "len") and isinstance(a, Cx) and len(args) == 1 and selection(a) is not None:
            return self.attr(a, "shape") if b == "shape" else self.attr(a, "size")
        if b in ("len", "shape") and isinstance(a, Cx) and self.shape is not None:
            sh = self.shapeof(a)
            if isinstance(sh, Rows) and b == "len":
                raise Unknown("len")
            return sh[0] if b == "len" else sh
        if b == "len" and isinstance(a, tuple):
            return num(len(a))
        if b in ("zeros", "empty", "zeros_like", "empty_like") and n.startswith("numpy"):
            return num(0)
        if b in ("ones", "ones_like") and n.startswith("numpy"):
            return num(1)
        if not n.startswith(("numpy", "math", "cmath", "builtins", "scipy")):
            raise Unknown(n)
        if isinstance(a, Cx):
            if b in ("abs", "absolute", "fabs"):
                return cabs(a)
            if b in ("conj", "conjugate"):
                return Cx(a.re, neg(a.im), a.cplx)
            if b == "real":
                return Cx(a.re)
            if b == "imag":
                return Cx(a.im)
            if b == "exp":
                return cexp(a)
            if b == "sqrt":
                if not a.real:
                    raise Unknown("root of a complex number")
                return Cx(powr(a.re, Fr(1, 2)))
            if b == "square":
                return cmul(a, a)
            if b in ("log", "log2", "log10"):
                r = clog(a)
                return r if b == "log" else cdiv(r, clog(num(int(b[3:]))))
            if b in ("sin", "cos") and a.real:
                return Cx(trig(b, a.re))
            if b == "sign" and a.real:
                return Cx(csign(a.re))
            ax = ""
            if b in ("mean", "sum", "nanmean", "max", "amax", "min", "amin", "std", "var", "cumsum") and self.shape is not None and len(self.shape) > 1:
                ax = kw.get("axis", args[1] if len(args) > 1 else None)
                ax = ax.const() if isinstance(ax, Cx) else ax
                rank = self.rankof(a)
                if ax is None and rank is None and self.dropped:
                    raise Unknown("mean over an array or over one of its rows")
                rank = len(self.shape) if not rank else rank
                ax = "" if ax in (-1, rank - 1) or ax is None and rank == 1 else "_all" if ax is None else "_%s" % ax
            if b == "sum" and self.shape is not None and (a.re or a.im):
                c = selection(a)
                if c is not None:
                    return cmul(linear("mean" + ax, a), self.count(c))
                if ax in ("", "_all", "_0"):
                    rank = self.rankof(a) or len(self.shape)
                    n_ = self.shape[-1] if ax == "" else self.shape[-rank] if ax == "_0" else functools.reduce(cmul, self.shape[-rank:])
                    return cmul(linear("mean" + ax, a), n_)
            if b in ("mean", "sum", "nanmean", "cumsum"):
                return linear(b.replace("nan", "").replace("sum", "tot" if b == "sum" else "sum") + ax, a)
            if b in ("max", "amax", "min", "amin") and a.real and len(args) == 1 and n.startswith("numpy"):
                return extremum(b.replace("amax", "max").replace("amin", "min"), ax, a)
            if b in ("max", "min", "maximum", "minimum") and len(args) == 2 and a.real and isinstance(args[1], Cx) and args[1].real and (n.startswith("builtins") or b.endswith("imum")):
                k = (a.re, args[1].re)
                return Cx(atomn({"max": "maximum", "min": "minimum"}.get(b, b), sorted(k, key=key)))
            if b in ("std", "var"):
                v = linear("mean" + ax, Cx(abs2(cadd(a, cneg(linear("mean" + ax, a))))))
                return v if b == "var" else Cx(powr(v.re, Fr(1, 2)))
            if b in ("erfc", "erf") and a.real:
                s, q = signed(a.re)
                r = atom("erfc", q)
                r = r if s > 0 else sub(C(2), r)
                return Cx(r if b == "erfc" else sub(C(1), r))
            if b in ("arcsin", "asin", "arctan", "atan") and a.real:
                s, q = signed(a.re)
                return Cx(scale(atom(b.replace("asin", "arcsin") if b == "asin" else b.replace("atan", "arctan") if b == "atan" else b, q), Fr(s)))
            if b in ("multiply", "add", "subtract", "divide", "true_divide", "power") and len(args) == 2:
                return self.binop({"multiply": ast.Mult, "add": ast.Add, "subtract": ast.Sub, "divide": ast.Div, "true_divide": ast.Div, "power": ast.Pow}[b](), *args)
            if b == "diff" and len(args) == 1 and not kw:
                return cadd(linear("tail", a), cneg(linear("head", a)))
            if b == "unique" and len(args) == 1 and a.real:
                if not a.re:
                    return a
                c, com, q = normal(a.re)
                out = tuple(f for f in com if scalar_atom(f[0]) and positive({(f,): Fr(1)}))
                inn = tuple(f for f in com if f not in out)
                if c < 0:
                    c, q = -c, neg(q)
                return Cx(scale(mul({out: Fr(1)}, atom("unique", mul(q, {inn: Fr(1)}))), c))
            if b in ("fft", "ifft", "fftshift", "ifftshift", "flip", "flipud", "fliplr") and not (set(kw) - {"axis"}):
                return linear(b, a)
            if b in ("sinc", "tanh", "cosh", "sinh") and a.real:
                sg, q = signed(a.re)
                if b == "sinc":
                    x = mul(q, var("pi"))
                    return Cx(mul(atom("sin", x), powr(x, -1)))
                ep, en = cexp(Cx(q)).re, cexp(Cx(neg(q))).re
                if b == "cosh":
                    return Cx(scale(add(ep, en), Fr(1, 2)))
                sh = scale(sub(ep, en), Fr(sg, 2))
                return Cx(sh if b == "sinh" else mul(sh, powr(scale(add(ep, en), Fr(1, 2)), -1)))
            if b in ("deg2rad", "radians"):
                return cmul(a, cdiv(Cx(var("pi")), num(180)))
            if b in ("iscomplexobj", "iscomplex"):
                return Const(a.cplx)
            if b in ("int",) and a.const() is not None and a.const().denominator == 1:
                return a
        raise Unknown(n)


def selection(v):
    """the condition a selected array was selected by"""
    for p in (v.re, v.im):
        for m in p:
            for x, _ in m:
                if x in PIECE and x.startswith("where["):
                    return PIECE[x][1]
    return None


def extremum(fn, ax, a):
    """max and min: positive constant factors and scalar offsets come out"""
    off, p = {}, {}
    for m, c in a.re.items():
        if all(scalar_atom(x) for x, _ in m):
            off = add(off, {m: c})
        else:
            p = add(p, {m: c})
    if not p:
        return a
    c, com, q = normal(p)
    out = tuple(f for f in com if scalar_atom(f[0]) and positive({(f,): Fr(1)}))
    inn = tuple(f for f in com if f not in out)
    q = mul(q, {inn: Fr(1)})
    if c < 0:
        fn = {"max": "min", "min": "max"}[fn]
        q = q
        return Cx(add(off, scale(mul({out: Fr(1)}, atom(fn + ax, q)), c)))
    return Cx(add(off, scale(mul({out: Fr(1)}, atom(fn + ax, q)), c)))


class Raised(Exception):
    pass


def contains(v, atoms):
    for p in (v.re, v.im):
        for mm in p:
            for x, _ in mm:
                if x in atoms or any(re.search(r"(?<![\w.])%s(?![\w.])" % re.escape(a), x) for a in atoms):
                    return True
    return False


def is_loop(v):
    """the value of a loop variable"""
    return not v.im and len(v.re) == 1 and all(len(mm) == 1 and mm[0][1] == 1 and mm[0][0].startswith(("i#", "e#")) and c == 1 for mm, c in v.re.items())


class Shape(tuple):
    """the shape of an array"""


class Rows(Shape):
    """the shape of an array, or of one of its rows"""


class Bound:
    def __init__(self, v, name):
        self.v, self.name = v, name


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def full(sub_):
    """x[:], x[..., None], x[:, np.newaxis]: the whole array"""
    els = sub_.slice.elts if isinstance(sub_.slice, ast.Tuple) else [sub_.slice]
    for x in els:
        if isinstance(x, ast.Slice) and x.lower is None and x.upper is None and x.step is None:
            continue
        if isinstance(x, ast.Constant) and x.value in (None, Ellipsis):
            continue
        if isinstance(x, ast.Attribute) and x.attr == "newaxis":
            continue
        return False
    return True


def spec(text, shape=None, prims=None, **names):
    """normal form of a formula written down in a check: assignments, then an expression"""
    import textwrap
    tree = ast.parse(textwrap.dedent(text)).body

    class M:
        name = "spec"

        def lookup(self, n):
            return ("ext", ("builtins." if n in ("len", "int") else "scipy.special." if n in ("erfc", "erf") else "numpy.") + n)
    ev = Ev(None, shape=shape, prims=prims)
    env = dict({"pi": Cx(var("pi"))}, **names)
    m = M()
    ev.block(tree[:-1], env, m)
    return ev.expr(tree[-1].value, env, m)
