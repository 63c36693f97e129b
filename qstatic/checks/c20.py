"""C20 sequences are synchronised and adjusted in length consistently."""
import os
import re
from .common import *
from .. import formula as F
from .. import periodic as Q
from ..periodic import Pv, Run, Corr, Grid, Lst, nat, integer, PyErr, differs, feasible, witness
from ..formula import Cx, Const, Opaque, Unknown, Raised, num, add, sub, neg, key

EXPLANATION = ("Symbolic evaluation of the synchronisation and length-adjustment code in a domain of runs of periodic sequences: every array is a sequence, a start "
               "(modulo its period) and a length, both polynomials in the sequence lengths, the offset and whole numbers of periods.  All paths of every combination of longer and shorter "
               "sequence, adjusted side, method and sign of the offset are evaluated; start and length of every returned sequence are compared with the specification. "
               "An agreement is proved by algebra, a difference is only reported together with lengths and offset for which the two disagree; anything else is undecided.")
FLOOR = 40
B = "qampy.core.ber_functions."
DEBUG = bool(os.environ.get("QSTATIC_DEBUG"))

SHORT = add(nat("short-1").re, F.C(1))
LONG = add(SHORT, add(nat("spare").re, F.C(1)))


class Never(Exception):
    pass


def kept(ps):
    """the paths that return"""
    out = [p for p in ps if p.value is not Raised]
    if not out:
        raise Never("no path returns a result")
    if any(isinstance(p.value, Const) and p.value.v is None for p in out):
        raise Never("nothing is returned")
    return out


class Do:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p

    def report(self, fn, what, f):
        self.ctx.ob()
        try:
            d = f()
        except Unknown as u:
            return self.ctx.undecided("%s: %s: %s" % (short(fn), what, u))
        except Never as u:
            d = str(u)
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, PyErr) as e:
            if DEBUG:
                raise
            return self.ctx.undecided("%s: %s: %s: %s" % (short(fn), what, type(e).__name__, e))
        if d:
            fi = self.p.func(fn)
            self.ctx.bad("sync|%s|%s" % (short(fn), what), "%s: %s: %s" % (short(fn), what, d), "%s:%d" % (fi.module.path, fi.node.lineno))

    def paths(self, fn, mk, **kw):
        fi = self.p.func(fn)
        ev = Pv(self.p, **kw)
        out = kept(ev.all(fi, mk))
        self.ctx.analysed |= ev.used
        return ev, out


def say(w):
    return ", ".join("%s=%s" % (k, v) for k, v in sorted(w.items()) if not k.startswith(("periods", "floor")))


def run_is(ev, path, got, src, start, n, rot="any"):
    """None, or how the run differs from the expected one"""
    if not isinstance(got, Run):
        raise Unknown("the result is not understood (%s)" % getattr(got, "n", type(got).__name__))
    if got.bad:
        if not feasible(path):
            raise Unknown("path")
        return got.bad
    if got.src is not None and got.src != src:
        return "the %s sequence instead of the %s sequence" % (got.src, src)
    w = differs(ev, path, sub(got.len, n), None, "length")
    if w:
        return "wrong length for %s" % say(w)
    if got.src is None:
        return None
    w = differs(ev, path, sub(got.start, start), ev.lens[src], "start")
    if w:
        return "wrong alignment for %s" % say(w)
    if rot != "any":
        if (got.rot is None) != (rot is None) or rot is not None and got.rot != rot:
            return "the phase ambiguity of the %s sequence is %s" % (src, "removed" if rot is None else "not removed")
    return None


def over(ps, f):
    """the difference on any path; undecided only when no path shows one"""
    un = None
    for p in ps:
        try:
            d = f(p)
        except Unknown as u:
            un = u
            continue
        if d:
            if any(r == "?" for _, r, _ in p.conds):
                un = Unknown("a condition on the way is not understood: %s" % d)
                continue
            return d
    if un is not None:
        raise un


def whole_run(src, n, rot=None):
    return Run(src, {}, n, rot)


CASES = [("tx longer", LONG, SHORT), ("rx longer", SHORT, LONG), ("equal lengths", SHORT, SHORT)]


def signs(longer, shorter):
    """(name, offset, facts): offsets a search in the longer sequence for the shorter one can give"""
    o = add(nat("offset-1").re, F.C(1))
    yield "no offset", F.C(0), []
    yield "positive offset", o, [sub(sub(longer, F.C(1)), o)]
    yield "negative offset", neg(o), [sub(sub(shorter, F.C(1)), o)]


def adjust_to(do):
    fn = B + "_adjust_to"
    n = nat("N").re
    for back in (True, False):
        def f():
            ev, ps = do.paths(fn, lambda: ([whole_run("data", SHORT), Cx(n)], {"back": Const(back)}), lens={"data": SHORT})
            def on(p):
                d = run_is(ev, p, p.value, "data", F.C(0) if back else neg(n), n)
                if d:
                    return d
            d = over(ps, on)
            if d:
                return d
        do.report(fn, "a given number of elements %s" % ("from the start" if back else "up to the end"), f)


def adjust_length(do):
    fn = B + "adjust_data_length"
    for tag, nt, nr in CASES:
        for method in (None, "truncate", "extend"):
            lo, sh = (nt, nr) if tag != "rx longer" else (nr, nt)
            for st, off, facts in signs(lo, sh):
                if st != "no offset" and (method == "truncate" or tag == "equal lengths"):
                    continue

                def get():
                    ev, ps = do.paths(fn, lambda: ([whole_run("tx", nt), whole_run("rx", nr)], {"method": Const(method), "offset": Cx(off)}), lens={"tx": nt, "rx": nr}, facts=facts)
                    return ev, ps

                def each(k):
                    def f():
                        ev, ps = get()
                        def on(p):
                            if not isinstance(p.value, tuple) or len(p.value) != 2:
                                raise Unknown("result")
                            src, n = ("tx", nt) if k == 0 else ("rx", nr)
                            m = nr if k == 0 else nt
                            want, start = n, F.C(0)
                            if tag != "equal lengths":
                                isshort = (tag == "rx longer") == (k == 0)
                                if method == "truncate":
                                    want = sh
                                elif method == "extend":
                                    want = lo
                                    start = neg(off) if isshort else start
                                else:
                                    want = nr
                                    start = neg(off) if isshort and k == 0 else start
                            d = run_is(ev, p, p.value[k], src, start, want)
                            if d:
                                return "%s: %s" % (("data_tx", "data_rx")[k], d)
                        d = over(ps, on)
                        if d:
                            return d
                    return f
                for k in (0, 1):
                    do.report(fn, "%s, method %s, %s, %s" % (tag, method, st, "tx" if k == 0 else "rx"), each(k))


def offset_prim(log=None):
    """find_sequence_offset_complex: how far the second argument has to be moved to match the first"""
    def f(ev, args, kw):
        a = list(args) + [kw[k] for k in ("x", "y") if k in kw]
        x, y = a[0], a[1]
        if not isinstance(x, Run) or not isinstance(y, Run):
            raise Unknown("offset of")
        if x.start or y.start:
            raise Unknown("offset of moved sequences")
        s = 1 if (x.src, y.src) == ev.pair else -1 if (y.src, x.src) == ev.pair else 0
        if s == 0:
            raise Unknown("offset of what")
        return (Cx(F.scale(ev.off, F.Fr(s))), y.cp(rot=("ambiguity", y.rot)), Opaque("power"), Opaque("acm"))
    return f


def sync_adjust(do):
    fn = B + "sync_and_adjust"
    for tag, nt, nr in CASES:
        for adjust in ("tx", "rx"):
            lo, sh = (nt, nr) if tag != "rx longer" else (nr, nt)
            ref, mov = ("rx", "tx") if adjust == "tx" else ("tx", "rx")
            nref, nmov = (nr, nt) if adjust == "tx" else (nt, nr)
            for st, off, facts in signs(nref, nmov):
                def get():
                    fi = do.p.func(fn)
                    ev = Pv(do.p, prims={B + "find_sequence_offset_complex": offset_prim()}, lens={"tx": nt, "rx": nr}, facts=facts)
                    ev.pair, ev.off = (ref, mov), off
                    ps = kept(ev.all(fi, lambda: ([whole_run("tx", nt), whole_run("rx", nr)], {"adjust": Const(adjust)})))
                    do.ctx.analysed |= ev.used
                    return ev, ps

                def each(k):
                    src = ("tx", "rx")[k]

                    def f():
                        ev, ps = get()
                        def on(p):
                            v = p.value
                            if not isinstance(v, tuple) or len(v) != 2 or not isinstance(v[0], tuple) or len(v[0]) != 2:
                                raise Unknown("result")
                            x = v[0][k]
                            if src == mov:
                                d = run_is(ev, p, x, src, neg(off), nref, ("ambiguity", None))
                            else:
                                d = run_is(ev, p, x, src, F.C(0), nref, None)
                            if d:
                                return "data_%s: %s" % (src, d)
                        d = over(ps, on)
                        if d:
                            return d
                    return f
                for k in (0, 1):
                    do.report(fn, "%s, adjusting %s, %s, %s" % (tag, adjust, st, ("tx", "rx")[k]), each(k))


def search(do):
    fn = B + "find_sequence_offset"
    for cp in (True, False):
        def get(ret):
            ev, ps = do.paths(fn, lambda: ([whole_run("x", SHORT), whole_run("y", LONG)], {"show_cc": Const(ret)}), lens={"x": SHORT, "y": LONG}, iscomplex=cp)
            return ev, ps

        def f():
            ev, ps = get(False)
            def on(p):
                v = p.value
                if not isinstance(v, Cx):
                    raise Unknown("the offset is not understood (%s)" % getattr(v, "n", type(v).__name__))
                if not F.equal(v, Cx(Q.lag("x|y"))):
                    return "the offset is %s" % key(v.re)
            d = over(ps, on)
            if d:
                return d
        do.report(fn, "offset between %s sequences" % ("complex" if cp else "real"), f)

        def g():
            ev, ps = get(True)
            def on(p):
                v = p.value
                if not isinstance(v, tuple) or len(v) != 2 or not isinstance(v[1], Corr):
                    raise Unknown("result")
                c = v[1]
                if c.rev not in ((False, True), (True, False)):
                    return "the second value is a convolution"
                if cp and not c.conj:
                    return "the second value correlates without conjugation"
            d = over(ps, on)
            if d:
                return d
        do.report(fn, "correlation of %s sequences" % ("complex" if cp else "real"), g)
    fn = B + "find_sequence_offset_complex"

    def ambiguous():
        turns = set()

        def prim(ev, args, kw):
            a = list(args) + [kw[k] for k in ("x", "y") if k in kw]
            x, y = a[:2]
            if not isinstance(x, Run) or not isinstance(y, Run):
                raise Unknown("offset of")
            if (x.src, y.src) != ("x", "y"):
                ev.swapped = True
            turns.add(str(y.rot))
            o = integer("offset(%s)" % (y.rot,))
            cc = Const(False)
            if "show_cc" in kw or len(args) > 2:
                cc = kw.get("show_cc", args[2] if len(args) > 2 else None)
            if isinstance(cc, Const) and cc.v is True:
                return (o, Corr(x, y, "full", True, (False, True)))
            return o
        ev = Pv(do.p, prims={B + "find_sequence_offset": prim}, lens={"x": SHORT, "y": LONG}, iscomplex=True)
        ev.swapped = False
        ps = ev.all(do.p.func(fn), lambda: ([whole_run("x", SHORT), whole_run("y", LONG)], {}))
        do.ctx.analysed |= ev.used
        if ev.swapped:
            return "the offset of the first sequence in the second"
        if turns != {"None", "('turned', '0|1')".replace("0|1", str("%s|%s" % (key({}), key(F.C(1)))))} | {str(Q.turned(None, Cx(F.C(-1)))), str(Q.turned(None, Cx({}, F.C(-1), True)))}:
            return "the rotations tried are not the four multiples of 90 degrees: %s" % sorted(turns)
        n = 0
        for p in ps:
            v = p.value
            if v is Raised or isinstance(v, Opaque):
                continue
            if not isinstance(v, tuple) or len(v) != 4:
                raise Unknown("result")
            better = [c for c in p.conds if isinstance(c[0], tuple) and c[0][0] == "better"]
            if not better:
                raise Unknown("comparison of the correlations")
            if not any(c[2] for c in better):
                continue        # nothing correlates
            n += 1
            if not isinstance(v[0], Cx) or not isinstance(v[1], Run):
                raise Unknown("result is not understood")
            want = integer("offset(%s)" % (v[1].rot,))
            if not F.equal(v[0], want):
                return "the offset returned belongs to another rotation than the sequence"
            if isinstance(v[3], Cx) and ("|%s]" % (v[1].rot,)) not in key(v[3].re):
                return "the correlation returned belongs to another rotation than the sequence"
            if isinstance(v[2], Cx) and v[2].const() is not None:
                k = int(v[2].const()) % 4
                z = [Cx(F.C(1)), Cx({}, F.C(1), True), Cx(F.C(-1)), Cx({}, F.C(-1), True)][k]
                w = None if k == 0 else Q.turned(None, z)
                if v[1].rot != w:
                    return "the power returned belongs to another rotation than the sequence"
            # the one kept is the last that was better than what was kept before
            last = [c for c in better if c[2]][-1]
            if ("|%s]" % (v[1].rot,)) not in last[0][1]:
                return "the rotation returned is not the one with the largest correlation"
            if any(x != ("max", "real") for c in better for x in re.findall(r"(\w+)\[(\w+) ", c[0][1])):
                return "compares something else than the size of the correlation"
            first = [c for c in better][0]
            if "-1*max[" in first[0][1] and "+ " not in first[0][1]:
                return "a smaller correlation is taken for a better one"
        if not n:
            raise Never("no path returns a result")
    do.report(fn, "rotation, offset and correlation belong together", ambiguous)

    def realcase():
        def prim(ev, args, kw):
            a = list(args) + [kw[k] for k in ("x", "y") if k in kw]
            x, y = a[:2]
            if (x.src, y.src) != ("x", "y"):
                ev.swapped = True
            return (integer("offset"), Opaque("acm"))
        ev = Pv(do.p, prims={B + "find_sequence_offset": prim}, lens={"x": SHORT, "y": LONG}, iscomplex=False)
        ev.swapped = False
        def on(p):
            if p.value is Raised:
                return None
            v = p.value
            if not isinstance(v, tuple) or len(v) != 4:
                raise Unknown("result")
            if ev.swapped or not F.equal(v[0], integer("offset")):
                return "not the offset of the second sequence"
            d = run_is(ev, p, v[1], "y", F.C(0), LONG, None)
            if d:
                return d
        d = over(ev.all(do.p.func(fn), lambda: ([whole_run("x", SHORT), whole_run("y", LONG)], {})), on)
        if d:
            return d
    do.report(fn, "real sequences are not rotated", realcase)


def rolls(do):
    """sync_rx2tx, sync_tx2rx"""
    for nm in ("sync_rx2tx", "sync_tx2rx"):
        fn = B + nm
        for tag, nt, nr in CASES:
            def f():
                delta = integer("delta").re
                lengths = []

                def find(ev, args, kw):
                    a = list(args) + [kw[k] for k in ("sequence", "data") if k in kw]
                    s, d = a[:2]
                    if not isinstance(s, Run) or not isinstance(d, Run):
                        raise Unknown("search")
                    if sub(s.len, ls):
                        lengths.append(s.len)
                    if s.src == "rx" and d.src == "tx" and not d.start:
                        return Cx(add(delta, s.start))       # rx[k] = tx[k + delta]
                    if s.src == "tx" and d.src == "rx" and not d.start:
                        return Cx(sub(s.start, delta))
                    raise Unknown("search")

                class E(Pv):
                    def loop(self, s, env, m):
                        self.assign(s.target, nat("position"), env, m)
                        self.block(s.body, env, m)
                        raise Raised()
                ls = nat("Lsync").re
                ev = E(do.p, prims={"qampy.core.utils.find_offset": find}, lens={"tx": nt, "rx": nr}, facts=[sub(sub(SHORT, ls), nat("position").re)])
                ps = kept(ev.all(do.p.func(fn), lambda: ([whole_run("tx", nt), whole_run("rx", nr), Cx(ls)], {})))
                do.ctx.analysed |= ev.used
                if lengths:
                    return "searches for %s elements instead of Lsync" % (key(lengths[0]) or "no")

                def on(p):
                    v = p.value
                    if not isinstance(v, tuple) or len(v) != 2:
                        raise Unknown("result")
                    if not isinstance(v[0], Cx):
                        raise Unknown("offset")
                    if not F.equal(v[0], Cx(delta)):
                        return "the offset returned is %s" % key(v[0].re)
                    src, n, st = ("rx", nr, neg(delta)) if nm == "sync_rx2tx" else ("tx", nt, delta)
                    d = run_is(ev, p, v[1], src, st, n, None)
                    if d:
                        return d
                d = over(ps, on)
                if d:
                    return d
            do.report(fn, tag, f)


def nosync(do):
    fn = B + "cal_ber_nosyncd"
    for tag, nt, nr in CASES:
        lo, sh = (nt, nr) if tag != "rx longer" else (nr, nt)
        # how far rx has to be moved to match tx
        for st, off, facts in signs(nt, nr):
            def f():
                seen = []

                def find(ev, args, kw):
                    a = list(args) + [kw[k] for k in ("x", "y") if k in kw]
                    x, y = a[:2]
                    if not isinstance(x, Run) or not isinstance(y, Run) or x.start or y.start:
                        raise Unknown("offset of")
                    if (x.src, y.src) == ("tx", "rx"):
                        return Cx(off)
                    if (x.src, y.src) == ("rx", "tx"):
                        return Cx(neg(off))
                    raise Unknown("offset of")

                def ber(ev, args, kw):
                    a = list(args) + [kw[k] for k in ("data_rx", "data_tx") if k in kw]
                    return ("compared",) + tuple(a[:2])
                ev = Pv(do.p, prims={B + "find_sequence_offset": find, B + "cal_ber_syncd": ber}, lens={"tx": nt, "rx": nr}, facts=facts)
                ps = kept(ev.all(do.p.func(fn), lambda: ([whole_run("rx", nr), whole_run("tx", nt)], {})))
                do.ctx.analysed |= ev.used
                def on(p):
                    v = p.value
                    if not isinstance(v, tuple) or v[0] != "compared":
                        raise Unknown("comparison")
                    rx, tx = v[1], v[2]
                    if not isinstance(rx, Run) or not isinstance(tx, Run):
                        raise Unknown("comparison")
                    if (rx.src, tx.src) == ("tx", "rx"):
                        rx, tx = tx, rx
                    if rx.bad or tx.bad:
                        return rx.bad or tx.bad
                    w = differs(ev, p, sub(rx.len, tx.len), None, "length")
                    if w:
                        return "sequences of different lengths are compared for %s" % say(w)
                    # rx[k] = tx[k + off]
                    if nt is not nr:
                        # only one of them can have been moved
                        w = differs(ev, p, sub(sub(tx.start, rx.start), off), nt, "start") if not rx.start else differs(ev, p, sub(add(rx.start, off), tx.start), nr, "start")
                    else:
                        w = differs(ev, p, sub(sub(tx.start, rx.start), off), nt, "start")
                    if w:
                        return "the sequences compared are not aligned for %s" % say(w)
                d = over(ps, on)
                if d:
                    return d
            do.report(fn, "%s, %s" % (tag, st), f)


# ---------------------------------------------------------------- signals
SB = "qampy.signals.SignalBase."
QAM = "qampy.signals.SignalQAMGrayCoded"


def me(p, **a):
    from ..layout import Obj
    o = Obj(p.cls(QAM), Opaque("given samples"), name="self")
    o.a.update(a)
    return o


def signal_sync(do):
    """_sync_and_adjust: every received mode is paired with the best of the transmitted modes that are left"""
    fn = SB + "_sync_and_adjust"
    for mt, mr in ((2, 2), (3, 2)):
        def f():
            def prim(ev, args, kw):
                a = list(args) + [kw[k] for k in ("data_tx", "data_rx") if k in kw]
                t, r = a[0], a[1]
                if not isinstance(t, Run) or not isinstance(r, Run):
                    raise Unknown("rows")
                if kw.get("adjust") is not None and not (isinstance(kw["adjust"], Const) and kw["adjust"].v == "tx") or len(args) > 2:
                    ev.calls.append("rx adjusted")
                if not (t.src.startswith("tx") and r.src.startswith("rx")):
                    ev.calls.append("swapped")
                return ((Run("T " + t.src, {}, t.len, (t.src, r.src)), Run("R " + r.src, {}, r.len, (t.src, r.src))), Cx(F.var("acm(%s,%s)" % (t.src, r.src))))
            ev = Pv(do.p, prims={B + "sync_and_adjust": prim}, lens={})
            g = lambda nm, k, n: Grid(nm, [Run("%s%d" % (nm, i), {}, n) for i in range(k)], Cx(n))
            ps = ev.all(do.p.func(fn), lambda: ([me(do.p), g("tx", mt, SHORT), g("rx", mr, LONG)], {}), limit=2000)
            do.ctx.analysed |= ev.used
            k = 0

            def on(p):
                nonlocal k
                v = p.value
                if v is Raised or not isinstance(v, tuple):
                    return None
                if len(v) != 2 or not all(isinstance(x, Grid) for x in v):
                    raise Unknown("result")
                t, r = v
                bad = [c for c in p.conds if isinstance(c[0], tuple)]
                if len(t.rows) != mr or len(r.rows) != mr:
                    if not all(c[2] for c in bad):
                        return None
                    return "%d of %d modes are returned" % (len(t.rows), mr)
                for j, (x, y) in enumerate(zip(t.rows, r.rows)):
                    if not isinstance(x, Run) or not isinstance(y, Run):
                        if not isinstance(x, Run) and not isinstance(y, Run):
                            return None     # nothing was better than the start value
                        raise Unknown("rows")
                    if x.src.startswith("R") and y.src.startswith("T"):
                        return "the transmitted sequence is returned second"
                    if not (x.src.startswith("T") and y.src.startswith("R")):
                        return "the same sequence is returned twice"
                    if x.rot != y.rot:
                        return "the transmitted and received sequence of a mode come from different pairs"
                    if y.src != "R rx%d" % j:
                        return "the received modes are returned in another order"
                if len({x.src for x in t.rows}) != mr:
                    return "a transmitted mode is used twice"
                k += 1
                # the pair kept is the last one that was better than the one kept before
                for j, x in enumerate(t.rows):
                    mine = [c for c in bad if ",rx%d)" % j in c[0][1] and c[0][1].count("acm(") - c[0][1].count("-1*acm(") > 0]
                    acc = [c for c in bad if ("1*acm(%s,rx%d)" % (x.rot[0], j)) in c[0][1].replace("-1*acm", "")]
                    if not acc or not acc[-1][2] and all(not c[2] for c in acc):
                        return "a pair is kept that does not correlate better"
            d = over(ps, on)
            if d:
                return d
            if not k:
                raise Never("no path pairs the modes")
        do.report(fn, "%d transmitted and %d received modes" % (mt, mr), f)
    for synced in (True,):
        for tag, nt, nr in CASES:
            for mt in (2, 3):
                def f():
                    lens = {}
                    for i in range(3):
                        lens["tx%d" % i], lens["rx%d" % i] = nt, nr
                    ev = Pv(do.p, lens=lens)
                    g = lambda nm, k, n: Grid(nm, [Run("%s%d" % (nm, i), {}, n) for i in range(k)], Cx(n))
                    ps = ev.all(do.p.func(fn), lambda: ([me(do.p), g("tx", mt, nt), g("rx", 2, nr), Const(True)], {}))
                    do.ctx.analysed |= ev.used
                    k = 0

                    def on(p):
                        nonlocal k
                        v = p.value
                        if v is Raised:
                            return None
                        k += 1
                        if not isinstance(v, tuple) or len(v) != 2 or not all(isinstance(x, Grid) for x in v):
                            raise Unknown("result")
                        for src, x in zip(("tx", "rx"), v):
                            if len(x.rows) != 2:
                                return "%d modes of data_%s" % (len(x.rows), src)
                            for i, r in enumerate(x.rows):
                                d = run_is(ev, p, r, "%s%d" % (src, i), F.C(0), nr, None)
                                if d:
                                    return "data_%s: %s" % (src, d)
                    d = over(ps, on)
                    if d:
                        return d
                    if not k:
                        raise Never("no path returns a result")
                do.report(fn, "already synchronised, %s, %d transmitted modes" % (tag, mt), f)
    fn = SB + "_adjust_only"
    for which in ("tx", "rx"):
        for tag, nt, nr in CASES:
            def f():
                lens = {}
                for i in range(2):
                    lens["tx%d" % i], lens["rx%d" % i] = nt, nr
                ev = Pv(do.p, lens=lens)
                g = lambda nm, n: Grid(nm, [Run("%s%d" % (nm, i), {}, n) for i in range(2)], Cx(n))
                ps = kept(ev.all(do.p.func(fn), lambda: ([me(do.p), g("tx", nt), g("rx", nr)], {"which": Const(which)})))
                do.ctx.analysed |= ev.used

                def on(p):
                    v = p.value
                    if not isinstance(v, tuple) or len(v) != 2 or not all(isinstance(x, Grid) for x in v):
                        raise Unknown("result")
                    for src, x in zip(("tx", "rx"), v):
                        for i, r in enumerate(x.rows):
                            d = run_is(ev, p, r, "%s%d" % (src, i), F.C(0), nr if which == "tx" else nt, None)
                            if d:
                                return "data_%s: %s" % (src, d)
                d = over(ps, on)
                if d:
                    return d
            do.report(fn, "%s, adjusting %s" % (tag, which), f)


class Role:
    """what a quality measure works on: transmitted or received, synchronised or not, samples, decisions or bits, of which mode"""
    def __init__(self, who, what, synced, mode="all"):
        self.who, self.what, self.synced, self.mode = who, what, synced, mode

    def cp(self, **k):
        r = Role(self.who, self.what, self.synced, self.mode)
        r.__dict__.update(k)
        return r

    def __str__(self):
        return "%s%s %s%s" % ("" if self.synced else "unsynchronised ", {"tx": "transmitted", "rx": "received"}[self.who], self.what, "" if self.mode in ("all", "each") else " of mode %s" % self.mode)


class Diff:
    """the difference of two sequences; as a number: d"""
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.num = F.cplx("d") if a.what == "symbols" and b.what == "symbols" else None


LAST, FIRST, EVERY = "last", "first", "all"


def axis(args, kw):
    """which axis of a two-dimensional array"""
    a = kw.get("axis", args[1] if len(args) > 1 else Const(None))
    if isinstance(a, Const) and a.v is None:
        return EVERY
    c = a.const() if isinstance(a, Cx) else None
    if c not in (0, 1, -1, -2):
        if c is not None:
            raise PyErr("AxisError")
        raise Unknown("axis")
    return LAST if c in (1, -1) else FIRST


class Rv(Pv):
    """evaluates a measure"""
    def attr(self, v, n):
        if isinstance(v, Role):
            if n == "shape":
                return (nat("modes"), nat("number of " + ("bits" if v.what == "bits" else "symbols")))
            if n == "dtype":
                return Opaque("dtype")
            return Q.Bound(v, n)
        if isinstance(v, Diff):
            if n in ("real", "imag") and v.num is not None:
                return Cx(v.num.re if n == "real" else v.num.im)
            if n == "shape":
                return (nat("modes"), nat("number of " + ("bits" if v.a.what == "bits" else "symbols")))
            if n == "size":
                raise Unknown("size")
            return Q.Bound(v, n)
        return Pv.attr(self, v, n)

    def index(self, v, s, env, m):
        if isinstance(v, Role):
            k = self.lazy(s, env, m) if not isinstance(s, (Q.ast.Slice, Q.ast.Tuple)) else None
            if isinstance(k, Cx):
                return v.cp(mode=key(k.re))
            raise Unknown("index")
        if isinstance(v, Opaque):
            return Opaque("an element of " + v.n)
        if isinstance(v, Cx):
            return v
        return Pv.index(self, v, s, env, m)

    def assign(self, t, v, env, m=None):
        if isinstance(t, Q.ast.Subscript):
            if isinstance(t.value, Q.ast.Name):
                env[t.value.id] = v
            return
        if isinstance(t, Q.ast.Tuple) and isinstance(v, Opaque):
            v = tuple(Opaque("%s.%d" % (v.n, k)) for k in range(len(t.elts)))
        return Pv.assign(self, t, v, env, m)

    def loop(self, s, env, m):
        it = self.lazy(s.iter, env, m)
        if isinstance(it, Q.Rng):
            self.assign(s.target, nat("mode"), env, m)
            return self.block(s.body, env, m)
        if isinstance(it, tuple) and any(isinstance(x, Role) for x in it):
            x = tuple(y.cp(mode="each") if isinstance(y, Role) else y for y in it)
            self.assign(s.target, x if len(x) > 1 else x[0], env, m)
            return self.block(s.body, env, m)
        return Pv.loop(self, s, env, m)

    def expr(self, e, env, m):
        if isinstance(e, Q.ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (Q.ast.Eq, Q.ast.NotEq)):
            a, b = self.lazy(e.left, env, m), self.lazy(e.comparators[0], env, m)
            if isinstance(a, Role) and isinstance(b, Role):
                return self.diff(a, b)
        if isinstance(e, (Q.ast.ListComp, Q.ast.GeneratorExp)) and len(e.generators) == 1:
            it = self.lazy(e.generators[0].iter, env, m)
            if isinstance(it, Q.Rng):
                sub_ = dict(env)
                self.assign(e.generators[0].target, nat("mode"), sub_, m)
                self.lazy(e.elt, sub_, m)
                return Opaque("list")
        return Pv.expr(self, e, env, m)

    def diff(self, a, b):
        d = Diff(a, b)
        self.calls.append(("diff", a, b))
        return d

    def binop_(self, op, a, b):
        if isinstance(a, Role) and isinstance(b, Role):
            if isinstance(op, (Q.ast.Sub, Q.ast.BitXor)):
                return self.diff(a, b)
            if isinstance(op, Q.ast.Add):
                self.calls.append(("sum", a, b))
            raise Unknown("operator")
        if isinstance(op, Q.ast.Pow) and isinstance(b, Role) and b.what == "bits" and isinstance(a, Cx) and a.const() is not None:
            return Cx(F.var("(%s)**bit" % a.const()))
        if isinstance(a, Diff) and a.num is not None:
            return Pv.binop_(self, op, a.num, b)
        if isinstance(a, (Role, Diff)) or isinstance(b, (Role, Diff)):
            return Opaque("arithmetic")
        return Pv.binop_(self, op, a, b)

    def method(self, v, n, args, kw):
        if isinstance(v, Role):
            if n in ("astype", "copy", "view", "reshape", "squeeze", "flatten", "ravel"):
                return v
            return Opaque("method")
        if isinstance(v, Diff) or isinstance(v, Cx) and n in ("mean", "sum", "real", "conj"):
            if n in ("mean", "sum", "conj"):
                return self.ext_("numpy." + n, [v] + list(args), kw)
            raise Unknown("method")
        return Pv.method(self, v, n, args, kw)

    def ext_(self, n, args, kw):
        b = n.split(".")[-1]
        if n in self.prims:
            return self.prims[n](self, args, kw)
        if n in ("numpy.shape", "numpy.size", "numpy.ndim") and len(args) == 1 and not kw:
            return self.attr(args[0], b)
        if b in ("range",) and args and isinstance(args[0], Cx) and args[0].const() is None:
            return Q.Rng(args[0].re)
        if b == "zip" and args and any(isinstance(a, Role) for a in args):
            return tuple(args)
        if args and isinstance(args[0], Diff):
            d = args[0]
            if b == "count_nonzero" or b == "sum" and d.num is None:
                return Cx(F.var("errors over " + axis(args, kw)))
            if b == "mean" and d.num is None:
                return Cx(F.var("error rate over " + axis(args, kw)))
            if d.num is None:
                raise Unknown(b)
            args = [d.num] + list(args[1:])
        if args and isinstance(args[0], Cx) and b in ("mean", "sum", "nanmean", "nansum") and n.startswith("numpy"):
            return F.linear(b.replace("nan", "") + " over " + axis(args, kw), args[0])
        if b in ("asarray", "array", "atleast_1d", "atleast_2d") and args and isinstance(args[0], Cx):
            return args[0]
        if b in ("zeros", "ones", "empty") and n.startswith("numpy"):
            return num(1 if b == "ones" else 0)
        if b in ("log2", "exp", "sqrt", "abs") and args and isinstance(args[0], Cx):
            return F.Ev.ext_(self, n, args, kw)
        if args and isinstance(args[0], Role):
            if b in ("subtract", "bitwise_xor", "logical_xor", "not_equal", "equal") and isinstance(args[1], Role):
                return self.diff(*args[:2])
            if b in ("asarray", "array", "atleast_2d", "asanyarray", "reshape"):
                return args[0]
            return Opaque(b)
        return Pv.ext_(self, n, args, kw)


MEAS = {
    "cal_ser": [("diff", ("rx", "decisions"), ("tx", "symbols"))],
    "cal_ber": [("diff", ("rx", "bits"), ("tx", "bits"))],
    "cal_evm": [("diff", ("rx", "symbols"), ("tx", "symbols"))],
    "est_snr": [("estimate_snr", ("rx", "symbols"), ("tx", "symbols"))],
    "cal_mi": [("cal_mi", ("rx", "symbols"), ("tx", "symbols"))],
    "cal_gmi": [("demapper", ("rx", "symbols"), None)],
}
KERNELS = {
    "qampy.core.pythran_dsp.estimate_snr": ("estimate_snr", "signal_rx", "symbols_tx"),
    "qampy.core.signal_quality.cal_mi": ("cal_mi", "signal", "symbols_tx"),
    "qampy.core.pythran_dsp.soft_l_value_demapper": ("demapper", "rx_symbs", None),
    "qampy.core.pythran_dsp.soft_l_value_demapper_minmax": ("demapper", "rx_symbs", None),
}


FORMULA = {
    "cal_ser": ["errors / n_symbols"], "cal_ber": ["errors / n_bits"],
    "cal_evm": ["np.sqrt(np.mean(np.abs(d)**2, axis=-1))"],
    "cal_gmi": ["np.sum(per_bit, axis=-1)", "1 - np.mean(np.log2(1 + np.exp(sign*l)), axis=0)"],
    "cal_mi": ["mi"], "est_snr": ["snr"],
}


def result(do, ev, n, v, calls, fl):
    """the value of a measure against its definition"""
    import ast
    m = do.p.func(SB + n).module
    env = {"np": Q.Ext("numpy"), "d": F.cplx("d"), "l": Cx(F.var("l value")), "sign": Cx(F.var("(-1)**bit")), "errors": Cx(F.var("errors over last")),
           "n_symbols": nat("number of symbols"), "n_bits": nat("number of bits"), "mi": Cx(F.var("mi")), "snr": Cx(F.var("snr")), "snr_dB": Cx(F.var("snr_dB")), "SNR": Cx(F.var("SNR"))}
    val = lambda t: ev.expr(ast.parse(t, mode="eval").body, env, m)
    env["per_bit"] = val("1 - np.mean(np.log2(1 + np.exp(sign*l)), axis=0)")
    want = [val(t) for t in FORMULA[n]]
    for c in calls:
        if c[0] in ("demapper", "cal_mi"):
            x = c[3]
            if not isinstance(x, Cx):
                raise Unknown("signal-to-noise ratio")
            w = val("SNR" if "snr" not in fl else "10**(snr_dB/10)")
            if c[0] == "cal_mi":
                w = F.cdiv(num(1), w)
            if not F.equal(x, w):
                return "the %s passed on is %s instead of %s" % ("noise power" if c[0] == "cal_mi" else "signal-to-noise ratio", key(x.re)[:80], key(w.re)[:80])
    got = v if isinstance(v, (tuple, list)) else [v]
    if isinstance(v, Const) and v.v is None:
        return "nothing is returned"
    for g, w in zip(got, want):
        if not isinstance(g, Cx):
            raise Unknown("result (%s)" % getattr(g, "n", type(g).__name__))
        if not F.equal(g, w):
            if n in ("cal_ser", "cal_ber") and F.equal(g, Cx(F.var("error rate over last"))):
                continue
            return "the result is %s instead of %s" % (key(g.re)[:120], key(w.re)[:120])
    if len(got) < len(want):
        raise Unknown("result")
    if "verbose" in fl and len(got) == 3 and isinstance(got[2], Role) and (got[2].who, got[2].synced) != ("tx", True):
        return "the third value is the %s" % got[2]


def measures(do):
    """every quality measure compares the synchronised received signal with the synchronised reference of the same mode"""
    p = do.p
    for n, want in MEAS.items():
        fn = SB + n
        fi = p.func(fn)
        for given in (False, True):
            for synced in (False, True):
                flags = [{}]
                if n == "cal_gmi":
                    flags = [{"llr_minmax": Const(False)}, {"llr_minmax": Const(True)}, {"snr": Const("given")}]
                if n == "cal_mi":
                    flags = [{}, {"snr": Const("given")}]
                if n in ("cal_ser", "cal_ber"):
                    flags = [{}, {"verbose": Const(True)}]
                for fl in flags:
                    def run():
                        syncs = []

                        def sync(ev, v, args, kw):
                            a = list(args) + [kw[k] for k in ("tx", "rx", "synced") if k in kw]
                            ev.calls.append(("sync",) + tuple(a))
                            if len(a) < 2 or not isinstance(a[0], Role) or not isinstance(a[1], Role):
                                raise Unknown("synchronisation")
                            return (a[0].cp(synced=True), a[1].cp(synced=True))

                        def turn(what):
                            def f(ev, v, args, kw):
                                a = (list(args) + list(kw.values()))[0]
                                if not isinstance(a, Role):
                                    raise Unknown(what)
                                return a.cp(what=what)
                            return f

                        def present(ev, v, args, kw):
                            a = (list(args) + list(kw.values()) + [Const(None)])[0]
                            if isinstance(a, Const) and a.v is None:
                                return Role("rx", "symbols", False)
                            return a

                        def kern(tag, r, t):
                            def f(ev, args, kw):
                                kf = [k for k, x in KERNELS.items() if x[0] == tag][0]
                                ps_ = p.func(kf).pos
                                a = dict(zip(ps_, args))
                                a.update(kw)
                                ev.calls.append((tag, a.get(r), a.get(t) if t else None, a.get("snr", a.get("N0"))))
                                return Cx(F.var("l value")) if tag == "demapper" else Cx(F.var("mi")) if tag == "cal_mi" else tuple(Cx(F.var(x)) for x in ("snr", "s0", "n0"))
                            return f
                        prims = {"method _sync_and_adjust": sync, "method make_decision": turn("decisions"), "method demodulate": turn("bits"), "method _demodulate": turn("bits"), "method _signal_present": present}
                        for k, (tag, r, t) in KERNELS.items():
                            prims[k] = kern(tag, r, t)
                        if n == "cal_gmi" or n == "cal_mi":
                            def est(ev, v, args, kw):
                                a = list(args) + [None] * 4
                                ev.calls.append(("snr", kw.get("signal_rx", a[0]), kw.get("symbols_tx", a[2]), kw.get("synced", a[1])))
                                return Cx(F.var("SNR"))
                            prims["method est_snr"] = est
                        ev = Rv(p, prims=prims)
                        out = []
                        base = ev.all

                        def mk():
                            o = me(p, symbols=Role("tx", "symbols", False), _symbols=Role("tx", "symbols", False), coded_symbols=Opaque("alphabet"), Nbits=Opaque("Nbits"), _bitmap_mtx=Opaque("map"))
                            kw = dict(fl)
                            if given:
                                kw["signal_rx"] = Role("rx", "symbols", False)
                            kw["synced"] = Const(synced)
                            if kw.get("snr") is not None:
                                kw["snr"] = Cx(F.var("snr_dB"))
                            return [o], kw
                        # the calls of every path
                        todo = [[]]
                        while todo:
                            ch = todo.pop()
                            ev.choices, ev.conds, ev.carries, ev.calls, ev.facts, ev.eqs, ev.divs = list(ch), [], [], [], [], [], {}
                            a, kw = mk()
                            try:
                                v = ev.call(fi, a, kw)
                            except Raised:
                                continue
                            except PyErr as x:
                                raise Never("fails with %s" % x.t)
                            out.append((list(ev.calls), v, ev))
                            for k in range(len(ch), len(ev.conds)):
                                todo.append([c[2] for c in ev.conds[:k]] + [not ev.conds[k][2]])
                            if len(out) > 64:
                                raise Unknown("too many paths")
                        do.ctx.analysed |= ev.used
                        return out

                    def f():
                        some = False
                        un = None
                        for calls, v, ev in run():
                            try:
                                d = result(do, ev, n, v, calls, fl)
                            except Unknown as u:
                                un, d = u, None
                            if d:
                                return d
                            for c in calls:
                                if c[0] == "sum":
                                    return "adds what it has to compare"
                                if c[0] == "sync":
                                    if c[1].who == "rx" and c[2].who == "tx":
                                        return "the received signal is adjusted as if it were the transmitted one"
                                    s = c[3] if len(c) > 3 else Const(False)
                                    if isinstance(s, Const) and s.v is not synced:
                                        return "the synced argument is not passed on"
                                elif c[0] in [w[0] for w in want] or c[0] == "snr":
                                    if c[0] == "snr":
                                        w = (None, ("rx", "symbols"), ("tx", "symbols"))
                                        if not isinstance(c[3], Const) or c[3].v is not True:
                                            if isinstance(c[3], Const) or c[3] is None:
                                                return "the SNR is estimated from synchronised signals which are synchronised again"
                                    else:
                                        w = [w for w in want if w[0] == c[0]][0]
                                    got = list(c[1:3])
                                    if c[0] == "diff":
                                        got.sort(key=lambda r: r.who if isinstance(r, Role) else "")
                                    for g, x in zip(got, w[1:]):
                                        if x is None:
                                            continue
                                        if not isinstance(g, Role):
                                            un = Unknown("what is compared")
                                            continue
                                        if (g.who, g.what) != x:
                                            return "compares the %s instead of the %s" % (g, Role(x[0], x[1], True))
                                        if not g.synced:
                                            return "compares the %s" % g
                                    if all(isinstance(g, Role) for g in got) and got[0].mode != got[1].mode:
                                        return "compares different modes"
                                    some = True
                        if un:
                            raise un
                        if not some:
                            raise Unknown("no comparison found")
                    do.report(fn, "%s, %s%s" % ("given signal" if given else "own signal", "synchronised" if synced else "unsynchronised", ", ".join([""] + ["%s=%s" % (k, v.v) for k, v in fl.items()])), f)


class Bytes:
    def __init__(self, src, wide=True):
        self.src, self.wide = src, wide


class ByteIdx:
    def __init__(self, needle, hay, aligned):
        self.needle, self.hay, self.aligned = needle, hay, aligned


def element_index(do):
    """find_offset: a match inside the byte string is the index of an element only when it starts at one"""
    fn = "qampy.core.utils.find_offset"
    import ast
    starts = []

    class Bv(Pv):
        def attr(self, v, n):
            if isinstance(v, Run) and n == "itemsize":
                return Opaque("itemsize")
            if isinstance(v, Run) and n == "dtype":
                return Opaque("given dtype")
            if isinstance(v, Opaque) and v.n == "given dtype" and n == "itemsize":
                return Opaque("itemsize")
            if isinstance(v, Bytes):
                return Q.Bound(v, n)
            return Pv.attr(self, v, n)

        def method(self, v, n, args, kw):
            if isinstance(v, Run) and n in ("tobytes", "tostring"):
                return Bytes(v.src, v.rot != "narrow")
            if isinstance(v, Run) and n == "astype":
                a = args[0] if args else None
                if isinstance(a, Q.Ext) and a.n.split(".")[-1] in ("bool", "bool_", "uint8", "int8"):
                    return v.cp(rot="narrow")
                if isinstance(a, Opaque) and a.n == "given dtype":
                    return v
                raise Unknown("astype")
            if isinstance(v, Bytes) and n in ("index", "find"):
                b = args[0]
                if not isinstance(b, Bytes):
                    raise Unknown("search")
                if len(args) > 1 and isinstance(args[1], tuple) and args[1][0] == "from" and args[1][1] != 1:
                    starts.append(args[1][1])
                return ByteIdx(b.src, v.src, not v.wide)
            return Pv.method(self, v, n, args, kw)

        def binop_(self, op, a, b):
            if isinstance(a, ByteIdx) and isinstance(b, Opaque) and b.n == "itemsize":
                if isinstance(op, ast.FloorDiv):
                    self.calls.append(a)
                    return Opaque("element index") if a.aligned else Opaque("misaligned")
                if isinstance(op, ast.Mod):
                    return ("rest", a)
            if isinstance(a, ByteIdx) and isinstance(b, Cx) and b.const() is not None and isinstance(op, (ast.Add, ast.Sub)):
                return ("from", b.const() if isinstance(op, ast.Add) else -b.const())
            return Pv.binop_(self, op, a, b)

        def stmt(self, s, env, m):
            if isinstance(s, ast.While):
                t = s.test
                neg_ = False
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0 and isinstance(t.ops[0], (ast.NotEq, ast.Gt)):
                    t = t.left
                v = self.lazy(t, env, m)
                if isinstance(v, tuple) and len(v) == 2 and v[0] == "rest":
                    self.block(s.body, env, m)
                    for k, x in list(env.items()):
                        if isinstance(x, ByteIdx) and any(isinstance(y, ast.Name) and y.id == k for y in ast.walk(s.test)):
                            env[k] = ByteIdx(x.needle, x.hay, True)
                    return
                raise Unknown("loop")
            return Pv.stmt(self, s, env, m)

        def test(self, e, env, m):
            u = ast.unparse(e)
            if "dtype" in u:
                return isinstance(e, ast.Compare) and isinstance(e.ops[0], ast.Eq)
            return Pv.test(self, e, env, m)

    def f():
        ev = Bv(do.p, lens={"sequence": SHORT, "data": LONG})
        ps = kept(ev.all(do.p.func(fn), lambda: ([whole_run("sequence", SHORT), whole_run("data", LONG)], {})))
        do.ctx.analysed |= ev.used
        for p in ps:
            v = p.value
            if isinstance(v, Opaque) and v.n == "misaligned":
                return "a match that starts in the middle of an element is taken for an element"
            if isinstance(v, ByteIdx):
                if v.needle != "sequence" or v.hay != "data":
                    return "the %s is searched in the %s" % (v.needle, v.hay)
                return "the index of a byte is returned"
            if not (isinstance(v, Opaque) and v.n == "element index"):
                raise Unknown("index")
        if starts:
            return "the search goes on %s bytes after a match inside an element" % starts[0]
        for c in ev.calls:
            if isinstance(c, ByteIdx) and (c.needle, c.hay) != ("sequence", "data"):
                return "the %s is searched in the %s" % (c.needle, c.hay)
    do.report(fn, "elements of several bytes", f)


def check(ctx):
    p = project()
    do = Do(ctx, p)
    adjust_to(do)
    adjust_length(do)
    sync_adjust(do)
    search(do)
    rolls(do)
    nosync(do)
    signal_sync(do)
    measures(do)
    element_index(do)
