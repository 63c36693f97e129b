"""C19 bits and symbols map to each other consistently."""
import os
from .common import *
from .. import formula as F
from .. import bits as B
from ..bits import Bv, Ix, arr, dim, ix, pow2, table, total, inverse, atom, witness, cst, Obj
from ..formula import Cx, Const, Opaque, Unknown, Raised, num, add, sub, mul, key

EXPLANATION = ("The mapping code is evaluated into arrays given as terms over their indices (digits of numbers, powers of two, table entries, inverse permutations, sums over the bits of a symbol, "
               "selections by a mask), for a symbolic number of bits per symbol, symbols and modes.  Modulation, the table of bit patterns, demodulation, the table of points, the bit map for "
               "soft decisions, decisions and the constructors are compared element by element with the specification: equal normal forms prove agreement, a difference is only reported "
               "together with dimensions and indices for which the two take different values; anything else is undecided.")
FLOOR = 30
S = "qampy.signals."
QAM = S + "SignalQAMGrayCoded"
PSK = S + "SignalPSKGrayCoded"
DEBUG = bool(os.environ.get("QSTATIC_DEBUG"))

b, q, modes, n = dim("bits per symbol"), dim("symbols"), dim("modes"), dim("length")
M = pow2(b)
rest = ix("spare bits", b)
I, K, J = ix("mode", modes), ix("symbol", q), ix("bit", b)
KN = ix("position", n)
LABEL = ix("label", M)
X = ix("place", F.var("number of points"))
B.LT.pop("place")
B.DIMS.add("place")

ORDER = [("most significant first", lambda s: sub(sub(b, F.C(1)), s)), ("least significant first", lambda s: s)]


class Do:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p

    def report(self, fn, what, f):
        self.ctx.ob()
        try:
            d = f()
        except Unknown as u:
            return self.ctx.undecided("%s: %s: %s" % (short(fn), what, u))
        except (AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
            if DEBUG:
                raise
            return self.ctx.undecided("%s: %s: %s: %s" % (short(fn), what, type(e).__name__, e))
        if d:
            fi = self.p.func(fn)
            self.ctx.bad("mapping|%s|%s" % (short(fn), what), "%s: %s: %s" % (short(fn), what, d), "%s:%d" % (fi.module.path, fi.node.lineno))

    def paths(self, fn, mk, prims=None):
        fi = self.p.func(fn)
        ev = Bv(self.p, prims or {})
        out = [x for x in ev.all(fi, mk) if x[1] is not Raised]
        if not out:
            raise Unknown("no path returns")
        self.ctx.analysed |= ev.used
        return out


def over(ps, f):
    """the difference on any path whose conditions are understood"""
    un = None
    for conds, v, calls, args in ps:
        B.NONZERO.clear()
        B.NONZERO.update({x: t for x, r, t in conds if r == "nonzero"})
        try:
            d = f(v, args, calls)
        except Unknown as u:
            un = u
            continue
        finally:
            B.NONZERO.clear()
        if d:
            if any(r == "?" for _, r, _ in conds):
                un = Unknown("a condition on the way is not understood: %s" % d)
                continue
            return d
    if un is not None:
        raise un


def say(w):
    return ", ".join("%s %s" % x for x in sorted(w.items()))


def data(v):
    v = v.data if isinstance(v, Obj) else v
    if not isinstance(v, Ix):
        raise Unknown("the value is not understood (%s)" % getattr(v, "n", type(v).__name__))
    return v


def differ(got, shape, idx, want):
    """None or where the array differs; idx: the index of each dimension"""
    got = data(got)
    if len(got.shape) != len(shape):
        return "%d dimensions instead of %d" % (len(got.shape), len(shape))
    for k, (g, w) in enumerate(zip(got.shape, shape)):
        d = B.norm(sub(g, w))
        d = B.inst(d, {v: 0 for v, t in B.NONZERO.items() if not t})
        if d:
            x = witness(d)
            if x is None:
                raise Unknown("length %s" % key(g))
            return "dimension %d has length %s instead of %s for %s" % (k, nice(B.inst(g, x)), nice(B.inst(w, x)), say(x))
    g = got.fn(*idx)
    return equals(g, want)


def nice(p):
    out = []
    for m, c in p.items():
        t = "*".join(a if x == 1 else "%s^%s" % (a, x) for a, x in m)
        out.append("%s" % c if not m else t if c == 1 else "%s*%s" % (c, t))
    return " + ".join(out) or "0"


def equals(g, want):
    d = B.inst(B.norm(sub(g, want)), {v: 0 for v, t in B.NONZERO.items() if not t})
    if not d:
        return None
    x = witness(d)
    if x is None:
        raise Unknown("the element is %s" % nice(g))
    gi, wi = B.inst(g, x), B.inst(want, x)
    # tables that were not traced may hold anything
    if any(a.startswith("tab[?") for p in (gi, wi) for a in B.free(p)):
        raise Unknown("a table")
    return "the element is %s instead of %s for %s" % (nice(gi), nice(wi), say({k: v for k, v in x.items() if not isinstance(v, dict)}))


def weights(got, make, shape, idx):
    """which order of bits the array uses; (order or None, difference from the first order)"""
    first = None
    for nm, e in ORDER:
        d = differ(got, shape, idx, make(e))
        if d is None:
            return nm, None
        first = first or d
    return None, first


def bitsof(D):
    return lambda e: total(lambda s: mul(D(s), pow2(e(s))), b)


def modulating(do):
    fn = QAM + "._modulate"
    order = [None]
    for tag, rows, last in (("whole symbols", 2, {}), ("spare bits", 2, rest), ("one dimension", 1, rest)):
        def f():
            cols = add(mul(b, q), last)
            D = arr("bits", *((modes, cols) if rows == 2 else (cols,)), isbool=True)
            D.fn = (lambda i, e: table("bits", i, e)) if rows == 2 else (lambda e: table("bits", {}, e))
            ps = do.paths(fn, lambda: ([D, arr("encoding", M, b, isbool=True), arr("points", M)], {"dtype": Opaque("dtype")}))

            def on(v, args, calls):
                m = modes if rows == 2 else F.C(1)
                i = I if rows == 2 else {}
                o, d = weights(v, lambda e: table("points", bitsof(lambda s: table("bits", i, add(mul(b, K), s)))(e)), (m, q), (i, K))
                if o:
                    order[0] = order[0] or o
                    if o != order[0]:
                        return "the bits are read %s, elsewhere %s" % (o, order[0])
                return d
            return over(ps, on)
        do.report(fn, tag, f)
    return order[0]


def demodulating(do):
    fn = QAM + "._demodulate"
    for tag, two in (("two dimensions", True), ("one dimension", False)):
        def f():
            X_ = arr("decisions", *((modes, n) if two else (n,)))
            ps = do.paths(fn, lambda: ([X_, arr("encoding", M, b, isbool=True)], {}))
            e = add(mul(b, KN), J)
            return over(ps, lambda v, a, c: differ(v, (modes, mul(n, b)) if two else (mul(n, b),), (I, e) if two else (e,),
                                                   table("encoding", table("decisions", *((I, KN) if two else (KN,))), J)))
        do.report(fn, tag, f)


def gray(ev, args, kw):
    a = args[0]
    if isinstance(a, Ix) and len(a.shape) == 1 and a.fn(F.var("x0")) == F.var("x0"):
        return arr("Gray code", *a.shape)
    raise Unknown("bin2gray")


def mappings(do, order):
    for cls, points, labels, scaled in ((QAM, "constellation", "labels", True), (PSK, "ring", "Gray code", False)):
        fn = cls + "._generate_mapping"
        cache = []

        def run():
            if cache:
                if isinstance(cache[0], Unknown):
                    raise cache[0]
                return cache[0]
            try:
                def mtx(ev, args, kw):
                    ev.calls.append(("mtx", args, kw))
                    return Opaque("bit map")
                table_ = lambda nm: (lambda ev, a, k: arr(nm, M))
                ps = do.paths(fn, lambda: ([do.p.cls(cls), Cx(M), F.real("scale", positive=True, scalar=True)], {"dtype": Opaque("dtype")}),
                              prims={"qampy.theory.cal_symbols_qam": table_("constellation"), "qampy.theory.cal_symbols_psk": table_("ring"), "qampy.theory.gray_code_qam": table_("labels"),
                                     "qampy.core.utils.bin2gray": gray, "qampy.core.signal_quality.generate_bitmapping_mtx": mtx})
                for p in ps:
                    if not isinstance(p[1], tuple) or len(p[1]) != 4:
                        raise Unknown("result")
                cache.append(ps)
            except Unknown as u:
                cache.append(u)
                raise
            return ps

        def code(v, args, calls):
            d = differ(v[0], (M,), (LABEL,), mul(table(points, inverse(labels, LABEL)), B.factor(F.powr(F.var("scale"), -1)) if scaled else F.C(1)))
            return d and "entry of the table of points: %s" % d
        do.report(fn, "point of each label", lambda: over(run(), code))

        def enc(v, args, calls):
            o, d = weights(v[2], lambda e: B.bit(LABEL, e(J)), (M, b), (LABEL, J))
            if o and order and o != order:
                return "the bit patterns are stored %s, modulation reads bits %s" % (o, order)
            return d and "bit of a pattern: %s" % d
        do.report(fn, "bit pattern of each label", lambda: over(run(), enc))

        def lab(v, args, calls):
            return differ(v[1], (M,), (LABEL,), table(labels, LABEL))
        do.report(fn, "labels", lambda: over(run(), lab))

        def mt(v, args, calls):
            c = [x for x in calls if x[0] == "mtx"]
            if len(c) != 1:
                raise Unknown("bit map")
            fi = do.p.func("qampy.core.signal_quality.generate_bitmapping_mtx")
            g = dict(zip(fi.pos, c[0][1]))
            g.update(c[0][2])
            s, bt, m_ = (g.get(k) for k in fi.pos[:3])
            d = equals(data(s).fn(LABEL), data(v[0]).fn(LABEL))
            if d:
                return "the bit map is made from other points than the signal: %s" % d
            if isinstance(m_, Cx) and m_.re != M:
                d = equals(m_.re, M)
                if d:
                    return "the bit map is made for another order"
            bt = data(bt)
            if len(bt.shape) == 1:
                x = bt.fn(add(mul(LABEL, b), J))
            else:
                x = bt.fn(LABEL, J)
            d = equals(x, data(v[2]).fn(LABEL, J))
            return d and "the bit map is made from other bits than the table of bit patterns: %s" % d
        do.report(fn, "bit map for soft decisions", lambda: over(run(), mt))


def bitmap(do):
    fn = "qampy.core.signal_quality.generate_bitmapping_mtx"
    for two in (False, True):
        for which in (0, 1):
            def f():
                bt = arr("patterns", *((M, b) if two else (mul(M, b),)), isbool=True)
                bt.fn = (lambda i, j: table("patterns", add(mul(i, b), j))) if two else (lambda e: table("patterns", e))
                ps = do.paths(fn, lambda: ([arr("points", M), bt, Cx(M)], {"dtype": Opaque("dtype")}))

                def on(v, args, calls):
                    v = data(v)
                    if len(v.shape) != 3:
                        return "%d dimensions" % len(v.shape)
                    if v.shape[0] != b or v.shape[2] != F.C(2):
                        for g, w in ((v.shape[0], b), (v.shape[2], F.C(2))):
                            d = sub(g, w)
                            if d and witness(d):
                                return "has length %s instead of %s" % (nice(g), nice(w))
                    g = v.fn(J, X, F.C(which))
                    x = table("patterns", add(mul(F.var("n#"), b), J))
                    want = atom("nth", "n#", table("points", F.var("n#")), x if which else sub(F.C(1), x), X)
                    if g == want:
                        return None
                    other = atom("nth", "n#", table("points", F.var("n#")), sub(F.C(1), x) if which else x, X)
                    if g == other:
                        return "holds the points whose bit is %d" % (1 - which)
                    d = equals(g, want)
                    return d
                return over(ps, on)
            do.report(fn, "points whose bit is %d%s" % (which, ", two-dimensional bits" if two else ""), f)


# ---------------------------------------------------------------- decisions and constructors
def near(s, x):
    return atom("near", s, x)


def decide(ev, args, kw):
    x, s = (args + (kw.get("symbols"),))[:2] if isinstance(args, tuple) else (list(args) + [kw.get("symbols")])[:2]
    x, s = data(x), data(s)
    if len(x.shape) != 1 or len(s.shape) != 1:
        raise Unknown("decision on %d dimensions" % len(x.shape))
    t = s.fn(F.var("n#"))
    i = Ix(x.shape, lambda k: near(t, x.fn(k)))
    return (Ix(x.shape, lambda k: s.fn(i.fn(k))), Ix(x.shape, lambda k: atom("distance", t, x.fn(k))), i)


MD = "qampy.core.signal_quality.make_decision"


def me(do, cls=QAM):
    o = Obj(do.p.cls(cls), arr("own samples", modes, n), {}, "self")
    o.a["_coded_symbols"] = arr("points", M)
    o.a["_encoding"] = arr("encoding", M, b, isbool=True)
    o.a["_symbols"] = arr("own symbols", modes, n)
    o.a["_M"] = Cx(M)
    return o


def idx_(x):
    return near(table("points", F.var("n#")), x)


def deciding(do):
    fn = QAM + ".make_decision"
    for given in (True, False):
        for verb in (False, True):
            def f():
                ps = do.paths(fn, lambda: ([me(do)] + ([arr("field", modes, n)] if given else []), {"verbose": Const(verb)} if verb else {}), prims={MD: decide})
                x = table("field" if given else "own samples", I, KN)

                def on(v, args, calls):
                    if verb != isinstance(v, tuple):
                        return "returns %s" % ("one array" if verb else "several arrays")
                    vs = v if verb else (v,)
                    ws = (table("points", idx_(x)), atom("distance", table("points", F.var("n#")), x), idx_(x))
                    if verb and len(vs) != 3:
                        return "%d results instead of 3" % len(vs)
                    for nm, g, w in zip(("decision", "distance", "index"), vs, ws):
                        d = differ(g, (modes, n), (I, KN), w)
                        if d:
                            return "%s: %s" % (nm, d)
                return over(ps, on)
            do.report(fn, "%s%s" % ("a given field" if given else "the signal itself", ", verbose" if verb else ""), f)
    fn = QAM + ".demodulate"
    for ints in (True, False):
        def f():
            sub_ = lambda ev, a, k: Const(ints)
            ps = do.paths(fn, lambda: ([me(do), arr("field", modes, n)], {}), prims={MD: decide, "numpy.issubdtype": sub_})
            x = table("field", I, KN)
            e = add(mul(b, KN), J)
            return over(ps, lambda v, a, c: differ(v, (modes, mul(n, b)), (I, e), table("encoding", x if ints else idx_(x), J)))
        do.report(fn, "indices" if ints else "complex symbols", f)
    fn = QAM + ".modulate"

    def f():
        D = arr("bits", modes, mul(b, q), isbool=True)
        ps = do.paths(fn, lambda: ([me(do), D], {}))
        return over(ps, lambda v, a, c: weights(v, lambda e: table("points", bitsof(lambda s: table("bits", I, add(mul(b, K), s)))(e)), (modes, q), (I, K))[1])
    do.report(fn, "bits to symbols", f)


def made(cls):
    """what the mapping of the class is (checked by itself)"""
    def f(ev, o, args, kw):
        ev.calls.append(("mapping", args, kw))
        return (arr("points", M), arr("labels", M), arr("encoding", M, b, isbool=True), Opaque("bit map"))
    return f


def has(o, want):
    if not isinstance(o, Obj):
        raise Unknown("result is no signal")
    for k, (shape, idx, w, nm) in want.items():
        if k == "data":
            v = o.data
        elif k in o.a:
            v = o.a[k]
        else:
            return "%s is not set" % k
        d = differ(v, shape, idx, w)
        if d:
            return "%s: %s" % (nm, d)


def same_tables():
    return {"_coded_symbols": ((M,), (LABEL,), table("points", LABEL), "coded_symbols"), "_encoding": ((M, b), (LABEL, J), table("encoding", LABEL, J), "the table of bit patterns"),
            "_code": ((M,), (LABEL,), table("labels", LABEL), "the labels")}


def order_of(calls, m):
    for c in calls:
        if c[0] == "mapping" and isinstance(c[1][0], Cx) and c[1][0].re != m:
            w = witness(sub(c[1][0].re, m))
            if w:
                return "the mapping is made for order %s" % nice(c[1][0].re)


def wanted(o, D, i=I, m=modes, bits=True):
    """symbols made from the bits, either order"""
    first = None
    for nm, e in ORDER:
        w = table("points", bitsof(D)(e))
        d = has(o, {"data": ((m, q), (i, K), w, "the samples"), "_symbols": ((m, q), (i, K), w, "the reference symbols")})
        if d is None:
            return None
        first = first or d
    return first


def constructing(do):
    # __new__
    fn = QAM + ".__new__"

    def f():
        def bitclass(ev, args, kw):
            m_ = kw.get("nmodes", args[1] if len(args) > 1 else num(1))
            ev.calls.append(("bits", args, kw))
            return arr("bits", ev.val(m_), ev.val(args[0]), isbool=True)
        ps = do.paths(fn, lambda: ([do.p.cls(QAM), Cx(M), Cx(q)], {"nmodes": Cx(modes), "bitclass": Opaque("bitclass"), "fb": F.real("fb"), "dtype": Opaque("dtype")}),
                      prims={"opaque bitclass": bitclass, "method _generate_mapping": made(QAM), "qampy.theory.cal_scaling_factor_qam": lambda ev, a, k: F.real("scaling", True, True)})

        def on(v, args, calls):
            d = order_of(calls, M)
            if d:
                return d
            d = wanted(v, lambda s: table("bits", I, add(mul(b, K), s)))
            if d:
                return d
            e = add(mul(b, K), J)
            return has(v, dict(same_tables(), _bits=((modes, mul(b, q)), (I, e), table("bits", I, e), "bits")))
        return over(ps, on)
    do.report(fn, "bits, symbols and tables belong together", f)
    # from_bit_array
    fn = QAM + ".from_bit_array"
    for tag, last, two in (("whole symbols", {}, True), ("spare bits", rest, True), ("one dimension", {}, False)):
        def f():
            cols = add(mul(b, q), last)
            D = arr("bits", *((modes, cols) if two else (cols,)), isbool=True)
            D.fn = (lambda i, e: table("bits", i, e)) if two else (lambda e: table("bits", {}, e))
            ps = do.paths(fn, lambda: ([do.p.cls(QAM), D, Cx(M)], {"fb": F.real("fb"), "dtype": Opaque("dtype")}),
                          prims={"method _generate_mapping": made(QAM), "qampy.theory.cal_scaling_factor_qam": lambda ev, a, k: F.real("scaling", True, True)})

            def on(v, args, calls):
                i, m = (I, modes) if two else ({}, F.C(1))
                d = order_of(calls, M) or wanted(v, lambda s: table("bits", i, add(mul(b, K), s)), i, m)
                if d:
                    return d
                e = add(mul(b, K), J)
                if two:
                    return has(v, dict(same_tables(), _bits=((modes, mul(b, q)), (I, e), table("bits", I, e), "bits")))
                return has(v, same_tables())
            return over(ps, on)
        do.report(fn, "bits, symbols and tables belong together, %s" % tag, f)
    # from_symbol_array
    fn = QAM + ".from_symbol_array"

    def f():
        ps = do.paths(fn, lambda: ([do.p.cls(QAM), arr("field", modes, n), Cx(M)], {"fb": F.real("fb"), "dtype": Opaque("dtype")}),
                      prims={MD: decide, "method _generate_mapping": made(QAM), "qampy.theory.cal_scaling_factor_qam": lambda ev, a, k: F.real("scaling", True, True)})

        def on(v, args, calls):
            x = table("field", I, KN)
            e = add(mul(b, KN), J)
            w = table("points", idx_(x))
            return order_of(calls, M) or has(v, dict(same_tables(), data=((modes, n), (I, KN), w, "the samples"), _symbols=((modes, n), (I, KN), w, "the reference symbols"),
                                                     _bits=((modes, mul(n, b)), (I, e), table("encoding", idx_(x), J), "bits")))
        return over([(tuple(c for c in ps_[0] if c[1] != "?"),) + tuple(ps_[1:]) for ps_ in ps], on)
    do.report(fn, "bits, symbols and tables belong together", f)
    # two bit streams of a pattern generator
    fn = S + "QPSKfromBERT.__new__"
    for which in (0, 1):
        for inv in ((False, False), (True, False), (False, True)):
            def f():
                streams = []

                def prbs(ev, args, kw):
                    m_ = kw.get("nmodes", args[1] if len(args) > 1 else num(1))
                    nm = getattr(kw.get("order"), "n", "?")
                    return arr("stream %s" % nm, ev.val(m_), ev.val(args[0]), isbool=True)

                def mapping(ev, o, args, kw):
                    ev.calls.append(("mapping", args, kw))
                    return (arr("points", F.C(4)), arr("labels", F.C(4)), arr("encoding", F.C(4), F.C(2), isbool=True), Opaque("bit map"))

                def scaling(ev, a, k):
                    return F.real("scaling", True, True)
                tup = lambda f_: (f_(0), f_(1))
                ps = do.paths(fn, lambda: ([do.p.cls(S + "QPSKfromBERT"), Cx(q)], {"nmodes": Cx(modes), "fb": F.real("fb"), "dtype": Opaque("dtype"), "prbsorders": tup(lambda k: Opaque("order%d" % k)),
                                                                                 "prbsshifts": tup(lambda k: Cx(dim("shift%d" % k))), "prbsinvert": tup(lambda k: Const(inv[k]))}),
                              prims={S + "PRBSBits": prbs, "method _generate_mapping": mapping, "qampy.theory.cal_scaling_factor_qam": scaling})

                def on(v, args, calls):
                    x = lambda k, i, p: table("stream order%d rolled by %s" % (k, key(dim("shift%d" % k))), i, p)
                    y = lambda k, i, p: sub(F.C(1), x(k, i, p)) if inv[k] else x(k, i, p)
                    e = add(mul(F.C(2), K), F.C(which))
                    d = has(v, {"_bits": ((modes, mul(F.C(2), q)), (I, e), y(which, I, K), "bits")})
                    if d:
                        return d
                    w = [table("points", add(mul(F.C(2 if o else 1), y(0, I, K)), mul(F.C(1 if o else 2), y(1, I, K)))) for o in (1, 0)]
                    ds = [has(v, {"data": ((modes, q), (I, K), z, "the samples"), "_symbols": ((modes, q), (I, K), z, "the reference symbols")}) for z in w]
                    return None if None in ds else ds[0]
                return over(ps, on)
            do.report(fn, "bit %d of each symbol comes from stream %d%s" % (which, which, "".join(", stream %d inverted" % k for k in (0, 1) if inv[k])), f)


def graycode(do):
    fn = "qampy.core.utils.bin2gray"

    def f():
        ps = do.paths(fn, lambda: ([arr("numbers", n)], {}))
        x = table("numbers", KN)
        return over(ps, lambda v, a, c: differ(v, (n,), (KN,), B.bop("xor", x, B.shr(x, F.C(1)))))
    do.report(fn, "n xor n/2", f)


def square(do):
    """labels and points of square constellations, both by row and column"""
    h = dim("bits per axis")
    side = pow2(h)
    r, c = ix("row", side), ix("column", side)
    pos = add(mul(r, side), c)
    g = lambda x: B.bop("xor", x, B.shr(x, F.C(1)))
    fn = "qampy.theory.gray_code_qam"

    def alternatives(v, shape, idx, wants):
        ds, un = [], None
        for w in wants:
            try:
                ds.append(differ(v, shape, idx, w))
            except Unknown as u:
                un = u
        if None in ds:
            return None
        if un is not None:
            raise un
        return ds[0]

    def f():
        ps = do.paths(fn, lambda: ([Cx(mul(side, side))], {}))
        return over(ps, lambda v, a, k: alternatives(v, (mul(side, side),), (pos,), [j(mul(g(x), side), g(y)) for x, y in ((r, c), (c, r)) for j in (lambda p, q_: B.bop("or", p, q_), add)]))
    do.report(fn, "square constellations: Gray code of the row and of the column", f)

    def f():
        two = mul(F.C(2), side)
        r2 = ix("row", two)
        try:
            ps = do.paths(fn, lambda: ([Cx(mul(two, side))], {}))
            return over(ps, lambda v, a, k: alternatives(v, (mul(two, side),), (add(mul(r2, side), c),), [j(mul(g(r2), side), g(c)) for j in (lambda p, q_: B.bop("or", p, q_), add)]))
        finally:
            ix("row", side)
    do.report(fn, "cross constellations: Gray code of the row and of the column before folding", f)
    fn = "qampy.theory.cal_symbols_qam"

    def f():
        ps = do.paths(fn, lambda: ([Cx(mul(side, side))], {}))
        lin = lambda x: sub(mul(F.C(2), x), sub(side, F.C(1)))
        wants = [add(F.scale(lin(x), s), F.scale(mul(F.var("1j"), lin(y)), t)) for x, y in ((r, c), (c, r)) for s in (1, -1) for t in (1, -1)]
        return over(ps, lambda v, a, k: alternatives(v, (mul(side, side),), (pos,), wants))
    do.report(fn, "square constellations: equidistant points by row and column", f)


def check(ctx):
    p = project()
    B.REALS.add("scale")
    B.BOOLS |= {"bits", "encoding", "patterns"}
    do = Do(ctx, p)
    order = modulating(do)
    demodulating(do)
    mappings(do, order)
    bitmap(do)
    deciding(do)
    constructing(do)
    graycode(do)
    square(do)
