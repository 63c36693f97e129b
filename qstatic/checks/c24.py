"""C24 bit sequences and frames are generated as documented."""
import os
import ast
from .common import *
from .. import formula as F
from .. import bits as B
from .. import gf2
from ..bits import Bv, Ix, arr, dim, ix, table
from ..formula import Cx, Const, Opaque, Unknown, Raised, num, add, sub, mul, key
from .c19 import Do, over, differ, equals, nice, witness

EXPLANATION = ("Shift registers are evaluated with the bits of the seed as unknowns: every bit of the register and of the output is a polynomial over GF(2) in them, branches on unknown bits are merged. "
               "Each generated bit is compared with the recurrence of the order's primitive polynomial for every seed; as one round maps a general register to the next and does not use the "
               "loop variable for anything else than the place of the bit, the recurrence holds for every length.  Frames and windows are evaluated into arrays given as terms over their indices "
               "and compared element by element; a difference is reported only with an example.")
FLOOR = 45
PRIMITIVE = {7: 6, 15: 14, 23: 18, 31: 28}
P = "qampy.core.prbs."
DSP = "qampy.core.pythran_dsp."
U = "qampy.core.utils."
DEBUG = bool(os.environ.get("QSTATIC_DEBUG"))


def seedbits(n, pre="s"):
    return [gf2.bit("%s%d" % (pre, k)) for k in range(n)]


def fibonacci(bits, n, m, rounds):
    """outputs; bits: the register, oldest first"""
    seq = list(bits)
    for _ in range(rounds):
        seq.append(seq[len(seq) - n] ^ seq[len(seq) - m])
    return seq[n:]


def galois(bits, n, m, rounds):
    s, out = list(bits), []
    for _ in range(rounds):
        top = s[n - 1]
        s = [gf2.ZERO] + s[:n - 1]
        s[0] ^= top
        s[m] ^= top
        out.append(top)
    return out


def tell(b):
    if b == gf2.ZERO:
        return "0"
    return " + ".join(sorted("*".join(sorted(t)) or "1" for t in b))


def compare(out, want):
    """outputs (numbers) against bits"""
    if not isinstance(out, list):
        raise Unknown("result")
    if len(out) != len(want):
        return "%d bits instead of %d" % (len(out), len(want))
    for k, (o, w) in enumerate(zip(out, want)):
        if not isinstance(o, (int, gf2.Nat)) or isinstance(o, int) and o < 0:
            raise Unknown("bit")
        o = gf2.Nat.of(o)
        if len(o.bits) > 1:
            return "bit %d is no bit" % k
        if o.at(0) != w:
            d = sorted(o.at(0) ^ w, key=lambda t: (len(t), sorted(t)))[0]
            on = " and ".join(sorted(d)) or "none"
            return "bit %d is %s instead of %s, e.g. for a seed with only %s set" % (k, short_(tell(o.at(0))), short_(tell(w)), on)
    return None


def short_(t):
    return t if len(t) < 60 else t[:57] + "..."


def only_place(p, fn):
    """the loop variables are used only to say where a bit goes"""
    fi = p.func(fn)
    for s in ast.walk(fi.node):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "range" and isinstance(s.target, ast.Name):
            v = s.target.id
            ok = {id(y) for x in ast.walk(s) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) for y in ast.walk(x.slice)}
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and id(x) not in ok:
                    raise Unknown("the round number is used in the computation")


def registers(do):
    p = do.p

    def ev(fn, args, kw=None, rounds=0):
        g = gf2.Gf(p, rounds=rounds)
        try:
            r = g.call(p.func(fn), args, kw)
        except gf2.Enough:
            r = None
        except gf2.PyError as e:
            r = e
        do.ctx.analysed |= g.used
        return r, g
    for n, m in PRIMITIVE.items():
        R = 2 * n + 3
        bs = seedbits(n)
        reg = gf2.Nat(bs)
        fib, gal = fibonacci(bs, n, m, R), galois(bs, n, m, R)
        mask = (1 << n) + (1 << m) + 1

        def f():
            r, _ = ev(DSP + "prbs_ext", [reg, [n, m], n, R])
            d = compare(r, fib)
            return d if d else only_place(p, DSP + "prbs_ext")
        do.report(DSP + "prbs_ext", "register of length %d" % n, f)

        def f():
            r, _ = ev(DSP + "prbs_int", [reg, mask, n, R])
            d = compare(r, gal)
            return d if d else only_place(p, DSP + "prbs_int")
        do.report(DSP + "prbs_int", "register of length %d" % n, f)
        for fn, args, want, in ((U + "lfsr_ext", [reg, [n, m], n], fib), (U + "lfsr_int", [reg, mask], gal)):
            def f():
                r, g = ev(fn, args, rounds=R)
                if isinstance(r, gf2.PyError):
                    return "fails (%s)" % r.n
                if not g.yielded or any(len(y) != 2 for y in g.yielded):
                    raise Unknown("what it yields")
                d = compare([y[0] for y in g.yielded], want)
                if d:
                    return d
                for k, y in enumerate(g.yielded):
                    st = gf2.Nat.of(y[1])
                    if len(st.bits) > n:
                        return "the register of round %d has more than %d bits" % (k, n)
                    nxt = fibonacci([st.at(j) for j in range(n)], n, m, 1)[0] if want is fib else st.at(n - 1)
                    if k + 1 < R and nxt != want[k + 1]:
                        return "the state of round %d is not the register" % k
            do.report(fn, "register of length %d" % n, f)
        for fn, want, ref in ((P + "make_prbs_extXOR", fib, fibonacci), (P + "make_prbs_intXOR", gal, galois)):
            def f():
                return bad_(ev(fn, [n, R, reg])[0]) or compare(ev(fn, [n, R, reg])[0], want)
            do.report(fn, "order %d, seed given as a number" % n, f)

            def f():
                r = ev(fn, [n, R, [gf2.Nat([b]) for b in bs]])[0]
                return bad_(r) or compare(r, want)
            do.report(fn, "order %d, seed given as bits" % n, f)

            def f():
                r = ev(fn, [n, R])[0]
                return bad_(r) or compare(r, ref([gf2.ONE] * n, n, m, R))
            do.report(fn, "order %d, default seed" % n, f)
    for fn in (P + "make_prbs_extXOR", P + "make_prbs_intXOR"):
        def f():
            for o in (9, 11, 20):
                r = ev(fn, [o, 10])[0]
                if not isinstance(r, gf2.PyError):
                    if isinstance(r, list):
                        return "order %d is accepted" % o
                    raise Unknown("result")
                if r.n not in ("AssertionError", "raise"):
                    return "order %d ends in %s" % (o, r.n)
        do.report(fn, "other orders are rejected", f)

    def f():
        bs = seedbits(12)
        r = ev(U + "bool2bin", [[gf2.Nat([b]) for b in bs]])[0]
        if isinstance(r, gf2.PyError):
            return bad_(r)
        r = gf2.Nat.of(r)
        for k in range(max(12, len(r.bits))):
            w = bs[k] if k < 12 else gf2.ZERO
            if r.at(k) != w:
                return "bit %d of the number is %s instead of %s" % (k, short_(tell(r.at(k))), tell(w))
    do.report(U + "bool2bin", "element k is bit k", f)


def bad_(r):
    if isinstance(r, gf2.PyError):
        return "fails (%s)" % r.n


def windows(do):
    n, w, e = dim("length"), dim("window"), dim("edge")
    # the data is longer than the window
    extra = dim("beyond the window")
    L = add(w, extra)
    i, j = ix("frame", add(extra, F.C(1))), ix("place in the frame", w)
    data = lambda m=L: arr("data", m)
    fn = U + "rolling_window"

    def f():
        ps = do.paths(fn, lambda: ([data(), Cx(w)], {}))
        return over(ps, lambda v, a, c: differ(v, (add(extra, F.C(1)), w), (i, j), table("data", add(i, j))))
    do.report(fn, "frame i starts at element i", f)

    def f():
        ps = do.paths(fn, lambda: ([data(), Cx(w)], {"wrap": Const(True)}))
        k = ix("frame", L)
        try:
            x = add(k, j)
            first = B.compare("Lt", 0, sub(x, L))
            want = add(mul(first, table("data", x)), mul(sub(F.C(1), first), table("data", sub(x, L))))
            return over(ps, lambda v, a, c: differ(v, (L, w), (k, j), want))
        finally:
            ix("frame", add(extra, F.C(1)))
    do.report(fn, "wrapped frames continue at the beginning", f)
    fn = "qampy.helpers.dump_edges"
    for two in (False, True):
        def f():
            m = add(F.scale(e, 2), n)
            ps = do.paths(fn, lambda: ([arr("data", *((dim("modes"), m) if two else (m,))), Cx(e)], {}))
            k = ix("position", n)
            r = ix("mode", dim("modes"))
            return over(ps, lambda v, a, c: differ(v, (dim("modes"), n) if two else (n,), (r, k) if two else (k,), table("data", *((r, add(k, e)) if two else (add(k, e),)))))
        do.report(fn, "both edges of %s are cut" % ("every mode" if two else "one mode"), f)
    fn = U + "linspacestep"

    def f():
        ps = do.paths(fn, lambda: ([Cx(dim("start")), Cx(dim("step")), Cx(n)], {}))
        k = ix("position", n)
        return over(ps, lambda v, a, c: differ(v, (n,), (k,), add(dim("start"), mul(dim("step"), k))))
    do.report(fn, "start + k*step", f)
    fn = "qampy.core.segmentaxis.segment_axis"
    for tag, ov in (("frames that advance by one", lambda w_, s: sub(w_, F.C(1))), ("frames that advance by a step", lambda w_, s: sub(w_, s))):
        def f():
            s = F.C(1) if "one" in tag else dim("step")
            wl = w if "one" in tag else add(w, s)       # the overlap is not negative
            m = add(wl, mul(extra, s))
            ps = do.paths(fn, lambda: ([arr("data", m), Cx(wl), Cx(sub(wl, s))], {}))
            k = ix("frame", add(extra, F.C(1)))
            q = ix("place in the frame", wl)
            try:
                return over(ps, lambda v, a, c: differ(v, (add(extra, F.C(1)), wl), (k, q), table("data", add(mul(k, s), q))))
            finally:
                ix("place in the frame", w)
        do.report(fn, tag, f)


def streams(do):
    """one generator per mode"""
    fn = "qampy.signals.PRBSBits.__new__"
    for modes, orders, seeds in ((2, 2, 2), (1, 2, 2), (3, 2, 2), (3, 3, 2), (3, 2, 3)):
        def f():
            got = []

            def gen(ev, args, kw):
                fi = do.p.func(P + "make_prbs_extXOR")
                g = dict(zip(fi.pos, args))
                g.update(kw)
                o, nb, s = (g.get(x) for x in fi.pos[:3])
                nm = lambda x: x.n if isinstance(x, Opaque) else key(x.re) if isinstance(x, Cx) else "None" if x is None or isinstance(x, Const) and x.v is None else "?"
                return arr("bits of %s from %s" % (nm(o), nm(s)), ev.val(nb), isbool=True)

            bad = []

            def pick(ev, args, kw):
                a = args[0] if args else kw.get("a", kw.get("low"))
                if isinstance(a, (tuple, list)):
                    for x in a:
                        c = x.const() if isinstance(x, Cx) else None
                        if c is not None and c not in PRIMITIVE:
                            bad.append("order %s may be chosen, for which there is no register" % c)
                else:
                    lo = a if len(args) > 1 or "high" in kw else Cx({})
                    if isinstance(lo, Cx) and lo.const() == 0:
                        bad.append("seed 0 may be chosen, which the register never leaves")
                return Opaque("chosen")
            ps = do.paths(fn, lambda: ([do.p.cls("qampy.signals.PRBSBits"), Cx(dim("length")), num(modes), tuple(Opaque("seed%d" % k) for k in range(seeds)), tuple(Opaque("order%d" % k) for k in range(orders))], {}),
                          prims={P + "make_prbs_extXOR": gen, "numpy.random.choice": pick, "numpy.random.randint": pick})
            k = ix("position", dim("length"))

            def on(v, a, c):
                for mode in range(modes):
                    if mode < orders and mode < seeds:
                        from .c19 import data
                        d_ = data(v)
                        if len(d_.shape) != 2:
                            return "%d dimensions" % len(d_.shape)
                        g = d_.fn(F.C(mode), k)
                        w_ = table("bits of order%d from seed%d" % (mode, mode), k)
                        if g != w_:
                            t = [x for m_ in g for x, _ in m_ if x in B.AT and B.AT[x][0] == "tab"]
                            if len(t) == 1 and "?" not in t[0] and str(B.AT[t[0]][1][0]).startswith("bits of"):
                                return "mode %d holds the %s, not those of its own order and seed" % (mode, B.AT[t[0]][1][0])
                            d = equals(g, w_)
                            if d:
                                return d
                return None
            r = over(ps, on)
            return r or (bad[0] if bad else None)
        do.report(fn, "%d modes, %d orders, %d seeds" % (modes, orders, seeds), f)


def check(ctx):
    p = project()
    B.BOOLS.add("bits")
    do = Do(ctx, p)
    registers(do)
    windows(do)
    streams(do)
