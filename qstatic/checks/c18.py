"""C18 pilots, payload and references of framed signals stay aligned."""
import ast
import itertools
import os
import re
from .common import *
from .. import formula as F
from .. import layout as Y
from ..layout import L, Seq, Mask, Idx, Obj, Cell, Frames, Frame, Rep, Taken, Rolled, Cx, Const, Opaque, Unknown, ALL, SEQ, FL, SL, R, NF, OS, NPIL, NDAT, eq, num, cadd, cmul, cneg, cdiv, key, P

EXPLANATION = ("Symbolic evaluation of the framed-signal code over position classes: every array is described by the classes of frame positions it holds "
               "(pilot sequence start/rest, phase pilots, payload) and the frames it spans, every mask and index vector by the classes it selects, every bound by a "
               "polynomial in frame length, sequence length, insertion ratio, oversampling, shift factor and tap counts.  The views, constructors, measures, the frame "
               "synchronisation, the pilot equaliser and the pilot phase recovery are evaluated on all their paths and the result compared with the specification of "
               "each obligation: a definite difference is a violation, anything not understood is counted undecided.")
FLOOR = 100
CLS = "qampy.signals.SignalWithPilots"


def masks(ev_over=None):
    return Mask(ALL, Frame.dat, "1"), Mask(ALL, Frame.pil, "1")


def qam(src, cls, frames, nm):
    """a signal object holding the given positions and its reference symbols"""
    o = Obj(project().cls("qampy.signals.SignalQAMGrayCoded"), Seq(src, cls, frames), name=nm)
    o.a["_symbols"] = Obj(o.cls, Seq("tx", cls, frames), name=nm + "._symbols")
    o.a["_bits"] = Const(None)
    o.a["_M"] = P("M_" + nm)
    return o


def pilotsig(p, rate=num(1), ref="N"):
    o = Obj(p.cls(CLS), Seq("rx", ALL, "N", rate), name="self")
    o.a["_idx_dat"], o.a["_idx_pil"] = masks()
    o.a["_frame_len"], o.a["_pilot_seq_len"], o.a["_pilot_ins_rat"] = FL, SL, R
    o.a["_pilots"] = qam("pilots", Frame.pil, "N", "pilots")
    o.a["_symbols"] = qam("payload", Frame.dat, ref, "payload")
    o.a["_shiftfctrs"], o.a["_synctaps"] = Y.modes("shift"), P("synctaps")
    o.a["_foe"] = Y.modes("foe")
    o.a["_fb"], o.a["_fs"] = P("fb"), cmul(P("fb"), rate)
    return o


def same(got, want):
    """None: agrees; text: how it differs; raises Unknown when it cannot be told"""
    if isinstance(got, Obj):
        got = got.data
    if isinstance(want, (Seq, Mask, Idx)):
        if isinstance(got, (Mask, Idx)) and isinstance(want, (Mask, Idx)) and type(got) is not type(want):
            return "%s instead of %s" % (got.what(), want.what())
        if got is None or type(got) is not type(want):
            raise Unknown("the value is not understood (%s)" % type(got).__name__)
        g, w = got.what(), want.what()
        if got.bad:
            return "%s instead of %s" % (g, w)
        if isinstance(want, Seq):
            return None if (got.cls, got.frames) == (want.cls, want.frames) else "%s instead of %s" % (g, w)
        return None if (got.sel, got.frames) == (want.sel, want.frames) else "%s instead of %s" % (g, w)
    if isinstance(want, Cx):
        if not isinstance(got, Cx):
            raise Unknown("the value is not understood (%s)" % getattr(got, "n", type(got).__name__))
        return None if F.equal(got, want) else "%s instead of %s" % (key(got.re)[:120], key(want.re)[:120])
    raise Unknown("expectation")


DEBUG = bool(os.environ.get("QSTATIC_DEBUG"))


class Do:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p

    def report(self, fn, what, f):
        """f() gives None, or the text of a difference"""
        self.ctx.ob()
        try:
            d = f()
        except Unknown as u:
            return self.ctx.undecided("%s: %s: %s" % (short(fn), what, u))
        except (AttributeError, TypeError, KeyError, IndexError, ValueError) as e:
            if DEBUG:
                raise
            return self.ctx.undecided("%s: %s: %s: %s" % (short(fn), what, type(e).__name__, e))
        fi = self.p.func(fn)
        if d:
            self.ctx.bad("layout|%s|%s" % (short(fn), what), "%s: %s: %s" % (short(fn), what, d), self.where(fi))

    def where(self, fi):
        return "%s:%d" % (fi.module.path, fi.node.lineno)

    def paths(self, fn, mk, **kw):
        fi = self.p.func(fn)
        ev = L(self.p, **kw)
        out = [x for x in ev.all(fi, mk) if x[1] is not Raised]
        self.ctx.analysed |= ev.used
        if not out:
            raise Unknown("no path returns")
        return out


from ..formula import Raised


def frame_masks(do):
    p = do.p
    fn = CLS + "._cal_pilot_idx"
    for ph in (True, False):
        Frame.use(ph)
        tag = "with phase pilots" if ph else "without phase pilots"

        def assume(t):
            return None

        def run():
            r = P("ins_rat") if ph else num(0)
            return do.paths(fn, lambda: ([FL, SL, r], {}))
        try:
            ps = run()
        except Unknown as u:
            do.ctx.undecided("_cal_pilot_idx %s: %s" % (tag, u))
            continue
        for k, w in ((1, Mask(ALL, Frame.dat, "1")), (2, Mask(ALL, Frame.pil, "1"))):
            def f():
                for c, v, _, _ in ps:
                    if not isinstance(v, tuple) or len(v) != 3:
                        raise Unknown("result")
                    d = same(v[k], w)
                    if d:
                        return d
            do.report(fn, "%s mask %s" % ("pilot" if k == 2 else "payload", tag), f)
    Frame.use(True)



def prop(do, n, o, **kw):
    ev = L(do.p, **kw)
    ev.choices, ev.conds = [], []
    v = ev.getattr(o, n)
    do.ctx.analysed |= ev.used
    return v


def views(do):
    p = do.p
    for n, w in (("pilot_seq", Seq("pilots", SEQ, "1")), ("ph_pilots", Seq("pilots", Frame.pil - SEQ, "N")), ("pilots", Seq("pilots", Frame.pil, "N")),
                 ("idx_payload", Mask(ALL, Frame.dat, "N")), ("idx_pilots", Mask(ALL, Frame.pil, "N")), ("symbols", Seq("payload", Frame.dat, "N"))):
        do.report(CLS + "." + n, n, lambda: same(prop(do, n, pilotsig(p)), w))
    do.report(CLS + ".nframes", "number of frames", lambda: same(prop(do, "nframes", pilotsig(p, OS), overrides={"os": OS}), NF))
    do.report(CLS + ".nframes", "number of frames at symbol rate", lambda: same(prop(do, "nframes", pilotsig(p)), NF))


REQ = "asked for"


def frames(ev, fr):
    return Const(None) if fr == "N" else Frames(REQ)


def keeps(o, conds, refs="_symbols"):
    """the reference symbols of a selection are those of the same frames, unless the code found they do not reach that far"""
    d = o.data
    r = o.a.get(refs)
    if not isinstance(r, Obj) and not isinstance(r, Seq):
        raise Unknown("reference symbols")
    t = same(r, Seq("tx", d.cls, d.frames))
    if t and d.frames != "N" and any("len" in str(k) or "p.npilots" in str(k) for k, r_, b in conds):
        return None          # every frame carries the same symbols
    return t and "the reference symbols are " + t


def extraction(do):
    p = do.p
    for fn, cls, nm in ((CLS + ".get_data", Frame.dat, "payload"), (CLS + ".extract_pilots", Frame.pil, "pilots")):
        for fr in ("N", REQ):
            tag = "all frames" if fr == "N" else "some frames"
            try:
                ps = do.paths(fn, lambda: ([pilotsig(p), frames(None, fr)], {}))
            except Unknown as u:
                do.ctx.ob()
                do.ctx.undecided("%s: %s" % (short(fn), u))
                continue

            def f():
                for c, v, _, _ in ps:
                    if not isinstance(v, Obj):
                        raise Unknown("result")
                    d = same(v, Seq("rx", cls, fr))
                    if d:
                        return d
            do.report(fn, "%s, %s" % (nm, tag), f)
            if nm == "payload":
                def g():
                    for c, v, _, _ in ps:
                        d = keeps(v, c)
                        if d:
                            return d
                do.report(fn, "reference of the %s, %s" % (nm, tag), g)



NM = {"cal_ser": {}, "cal_ber": {}, "cal_evm": {}, "cal_gmi": {}, "est_snr": {}}
QAMCLS = "qampy.signals.SignalQAMGrayCoded"


def inner(names, log):
    """record calls of quality measures on a payload or pilot signal"""
    def mk(n):
        def prim(ev, v, args, kw):
            if not isinstance(v, Obj) or v.cls is ev.p.cls(CLS) or not isinstance(v.data, Seq):
                return NotImplemented
            ev.calls.append((n, [v] + list(args), kw))
            return Opaque("measured")
        return prim
    return {"method " + n: mk(n) for n in names}


def measures(do):
    p = do.p
    for n in NM:
        fn = CLS + "." + n
        for tag, kw, cls in [("payload", {}, Frame.dat)] + ([("pilots", {"use_pilots": Const(True)}, Frame.pil)] if n == "est_snr" else []):
            for fr in ("N", REQ):
                what = "%s of %s" % (tag, "all frames" if fr == "N" else "some frames")

                def f():
                    ps = do.paths(fn, lambda: ([pilotsig(p)], dict(kw, frames=frames(None, fr))), prims=inner(NM, None))
                    for c, v, calls, _ in ps:
                        cs = [x for x in calls if x[0] == n]
                        if not cs:
                            raise Unknown("no measurement")
                        for _, a, _ in cs:
                            d = same(a[0], Seq("rx", cls, fr))
                            if d:
                                return "is measured on " + d
                            d = keeps(a[0], c) if tag == "payload" else None
                            if d:
                                return d
                do.report(fn, what, f)


def construct(ev, ci, args, kw):
    """a signal of as many symbols as asked for"""
    n = args[1] if len(args) > 1 else kw.get("N")
    for cls in (Frame.pil, Frame.dat):
        for fr in ("1", "N"):
            if isinstance(n, Cx) and eq(n, cmul(Y.size(cls), NF if fr == "N" else num(1))):
                o = Obj(ci, Seq("drawn", cls, fr), name="drawn")
                o.a["_symbols"] = Obj(ci, Seq("tx", cls, fr), name="drawn._symbols")
                o.a["_fb"] = P("fb")
                return o
    if isinstance(n, Cx):
        o = Obj(ci, Seq("drawn", None, None, bad="%s drawn symbols" % key(n.re)))
        o.a["_fb"] = P("fb")
        return o
    raise Unknown("drawn symbols")


def made(do, fn, tag, ps, fr, pil_fr, dat_fr, ref=False):
    """what a constructor has to put together"""
    def each(f):
        def g():
            n = 0
            for c, v, calls, _ in ps():
                if not isinstance(v, Obj) or not isinstance(v.data, Cell):
                    raise Unknown("result")
                d = f(c, v)
                if d:
                    return d
        return g

    def stores(c, v):
        cell = v.data
        if not eq(cell.n, cmul(FL, NF)):
            return "has %s symbols instead of %s" % (key(cell.n.re), key(cmul(FL, NF).re))
        seen = set()
        for ks, w in cell.stores:
            k = ks[-1]
            if isinstance(k, Idx):
                k = Mask(k.base, k.sel, k.frames, k.bad)
            if not isinstance(k, Mask):
                raise Unknown("store")
            if k.bad:
                return "symbols are stored through " + k.bad
            if k.frames != fr:
                return "symbols are stored through " + k.what()
            d = same(w, Seq("x", k.sel, k.frames))
            if d:
                return "the %s are filled with %s" % (Y.name(k.sel), d)
            seen.add(k.sel)
        if not seen:
            raise Unknown("no stores")
        if seen != {Frame.dat, Frame.pil}:
            return "only %s filled" % ", ".join(Y.name(x) for x in seen)
    do.report(fn, "symbols " + tag, each(stores))
    for a, w in (("_idx_dat", Mask(ALL, Frame.dat, "1")), ("_idx_pil", Mask(ALL, Frame.pil, "1")), ("_pilots", Seq("x", Frame.pil, pil_fr)), ("_symbols", Seq("x", Frame.dat, dat_fr)),
                 ("_frame_len", FL), ("_pilot_seq_len", SL), ("_pilot_ins_rat", R)):
        def f(c, v):
            if a not in v.a:
                return "is not set"
            x = v.a[a]
            if isinstance(w, Mask) and isinstance(x, (Idx, Seq)):
                return "%s instead of %s" % (x.what(), w.what())
            return same(x, w)
        do.report(fn, "%s %s" % (a, tag), each(f))
    if ref:
        def f(c, v):
            o = v.a.get("_symbols")
            r = o.a.get("_symbols") if isinstance(o, Obj) else None
            if r is None:
                raise Unknown("reference")
            t = same(r, Seq("tx", Frame.dat, "1"))
            if t and any("len" in str(k) or "p.npilots" in str(k) for k, r_, b in c):
                return None
            return t
        do.report(fn, "reference symbols " + tag, each(f))


def constructors(do):
    p = do.p
    fn = CLS + ".__new__"
    qam_ = p.cls(QAMCLS)
    for tag, kw, dfr in (("(data repeated)", {}, "N"), ("(data not repeated)", {"repeat_data": Const(False)}, "N")):
        def ps():
            return do.paths(fn, lambda: ([p.cls(CLS), P("M"), FL, SL, R], dict({"nframes": NF, "nmodes": P("modes"), "dataclass": qam_, "pilot_scale": P("scale")}, **kw)), prims={"*class": construct})
        made(do, fn, tag, ps, "N", "N", dfr)
    fn = CLS + ".from_symbol_array"

    def fsa(ev, v, args, kw):
        if v is ev.p.cls(CLS) or not isinstance(v, ClassInfo):
            return NotImplemented
        x = args[0]
        x = x.data if isinstance(x, Obj) else x
        o = Obj(v, x, name="from array")
        o.a["_symbols"] = Obj(v, x.cp(src="tx") if isinstance(x, Seq) else x)
        o.a["_fb"] = P("fb")
        return o

    def payload(cls, fr):
        o = qam("payload", cls, fr, "given")
        o.a["_fb"] = P("fb")
        return o
    for tag, kw, pay in (("(payload)", {}, (Frame.dat, "N")), ("(payload, pilots given)", {"pilots": "P"}, (Frame.dat, "N")), ("(whole frame)", {"payload_is_frame": Const(True)}, (ALL, "1")),
                         ("(pilot positions given)", {"pilot_idx": Idx(ALL, Frame.pil, "1")}, (Frame.dat, "N"))):
        def ps():
            def mk():
                k = dict({"nframes": NF}, **kw)
                if k.get("pilots") == "P":
                    k["pilots"] = qam("pilots", Frame.pil, "1", "given pilots")
                return [p.cls(CLS), payload(*pay), FL, SL, R], k
            return do.paths(fn, mk, prims={"*class": construct, "method from_symbol_array": fsa})
        made(do, fn, tag, ps, "1", "1", "1", ref=pay[1] == "N")



EQ = "qampy.core.equalisation.equalisation."
NT, NT1, ST = P("Ntaps"), P("Ntaps1"), P("synctaps")
LEN = P("length")


def rawsig(p):
    """a synchronised signal of any length at any oversampling"""
    o = pilotsig(p, OS)
    o.data = Y.Raw("rx")
    return o


def text(c):
    return key(c.re) if isinstance(c, Cx) else getattr(c, "n", type(c).__name__)


def differ(got, want, conds=()):
    """as same, for numbers; on paths where two numbers are known to be equal one stands for the other"""
    if not isinstance(got, Cx):
        raise Unknown("a bound is not understood (%s)" % getattr(got, "n", type(got).__name__))
    if F.equal(got, want):
        return None
    d = cadd(got, cneg(want))
    if any(x.startswith(("modulo[", "mod[", "floor[")) for mm in d.re for x, _ in mm):
        raise Unknown("remainder")
    for q, rel, t in conds:
        if rel == "Eq" and t and q in (key(F.sub(NT.re, ST.re)), key(F.sub(ST.re, NT.re))):
            f = lambda x: NT.re if x == "p.synctaps" else None
            if F.equal(Cx(F.rebuild(got.re, f)), Cx(F.rebuild(want.re, f))):
                return None
    return "%s instead of %s" % (text(got)[:150], text(want)[:150])


def recorder(n, ret):
    def prim(ev, args, kw):
        f = ev.p.func(n)
        kw = dict(zip(f.pos, args), **kw)
        a = f.node.args
        for x, d in list(zip(a.args[::-1], a.defaults[::-1])) + [x for x in zip(a.kwonlyargs, a.kw_defaults) if x[1] is not None]:
            if x.arg not in kw and isinstance(d, ast.Constant):
                kw[x.arg] = ev.lazy(d, {}, f.module)
        ev.calls.append((n, [], kw))
        return ret(ev, kw) if callable(ret) else ret
    return prim


def taps(n=None):
    """filter taps of NT taps"""
    return F.Arr(lambda ev, k: taps(), shape=(P("modes"), P("modes"), NT))


def sync(do):
    p = do.p
    fn = CLS + ".sync2frame"
    n = "qampy.core.pilotbased_receiver.frame_sync"
    order, sf = Opaque("mode order"), Y.modes("found")

    def ps():
        return do.paths(fn, lambda: ([rawsig(p)], {"Ntaps": NT}), prims={n: recorder(n, (sf, Opaque("foe"), order, taps(), Opaque("synced")))}, overrides={"os": OS})

    def each(f):
        def g():
            for c, v, calls, args in ps():
                cs = [x for x in calls if x[0] == n]
                if len(cs) != 1:
                    raise Unknown("frame_sync")
                d = f(c, cs[0][2], args[0])
                if d:
                    return d
        return g

    def shifts(c, kw, o):
        ev = L(p, overrides={"os": OS})
        import ast as A
        env = {"s": sf, "n": cmul(FL, OS), "order": order}
        ev.choices, ev.conds = [], []
        ev.block(A.parse("s[s < 0] += n\nr = s[order]").body, env, p.modules["qampy.signals"])
        return same(o.a["_shiftfctrs"], env["r"])

    def rows(c, kw, o):
        st = [x for x in o.stores if isinstance(x[1], Taken)]
        if len(st) != len(o.stores) or not st:
            raise Unknown("stores")
        if any(x[1].k is not order or x[1].of is not o for x in st):
            raise Unknown("another order")
    do.report(fn, "shift factors follow the modes and are never negative", each(shifts))
    do.report(fn, "rows are put in the order of the pilots", each(rows))
    do.report(fn, "taps of the synchronisation are remembered", each(lambda c, kw, o: differ(o.a["_synctaps"], NT) or differ(kw["Ntaps"], NT)))
    do.report(fn, "reference of the synchronisation", each(lambda c, kw, o: same(kw["ref_symbs"], Seq("x", SEQ, "1")) or differ(kw["frame_len"], FL) or differ(kw["os"], OS) or differ(kw["M_pilot"], P("M_pilots"))))
    fn = n
    fs, app = "qampy.core.ber_functions.find_sequence_offset_complex", EQ + "apply_filter"
    es = EQ + "equalise_signal"
    IXO = P("offset")
    win = cmul(SL, OS)

    def ps2():
        return do.paths(fn, lambda: ([Y.Raw("rx"), Seq("pilots", SEQ, "1"), OS], {"frame_len": FL, "Ntaps": NT, "M_pilot": P("M_pilot")}), prims={
            fs: recorder(fs, (IXO, Opaque("data"), Opaque("ii"), Opaque("ac"))), app: recorder(app, lambda ev, kw: Y.Raw("equalised")),
            es: recorder(es, lambda ev, kw: (Opaque("taps"), Opaque("err"))),
            "qampy.core.phaserecovery.find_freq_offset": lambda ev, a, k: Opaque("foe"), "qampy.core.phaserecovery.comp_freq_offset": lambda ev, a, k: a[0]})

    def each2(f):
        def g():
            for c, v, calls, args in ps2():
                d = f(v, calls)
                if d:
                    return d
        return g

    def searched(v, calls):
        cs = [x[2] for x in calls if x[0] == es]
        if not cs:
            raise Unknown("no search")
        for kw in cs:
            r = kw["E"]
            if not isinstance(r, Y.Raw) or r.lo is None or r.hi is None:
                raise Unknown("searched part %s %s %s" % (type(r).__name__, getattr(r,"n",""), getattr(getattr(r,"lo",None),"n","")))
            d = differ(cadd(r.hi, cneg(r.lo)), win)
            if d:
                return "the search window has " + d
            i = [x for mm in r.lo.re for x, _ in mm if x.startswith(("i#", "e#"))]
            if len(i) != 1:
                raise Unknown("search position")
            d = differ(r.lo, cdiv(cmul(Cx(F.var(i[0])), win), num(2)))
            if d:
                return "the search window starts at " + d
            d = differ(kw["os"], OS) or differ(kw["M"], P("M_pilot"))
            if d:
                return d

    def found(v, calls):
        cs = [x[2] for x in calls if x[0] == app]
        if not cs or not isinstance(v, tuple) or len(v) != 5:
            raise Unknown("no alignment")
        for kw in cs:
            r = kw["E"]
            if not isinstance(r, Y.Raw) or not isinstance(r.lo, Cx) or not isinstance(r.hi, Cx):
                raise Unknown("aligned part %s %s %s" % (type(r).__name__, getattr(r,"n",""), getattr(getattr(r,"lo",None),"n","")))
            o = [x for mm in v[2].re for x, _ in mm if x.startswith("argmax(")] if isinstance(v[2], Cx) else []
            if len(o) == 1 and "ac" not in o[0] and "offset" in o[0]:
                return "the mode is the one with the largest offset instead of correlation"
            d = differ(v[0], cadd(r.lo, cneg(cmul(OS, IXO))))
            if d:
                return "the shift factor is " + d
            d = differ(cadd(r.hi, cneg(r.lo)), cmul(num(2), win))
            if d:
                return "the part the sequence is looked for in has the length " + d
            step = cdiv(win, num(2))
            m = [x for mm in r.lo.re for x, _ in mm if x.startswith("argmin")]
            if len(m) != 1:
                raise Unknown("position")
            d = differ(r.lo, cadd(cmul(Cx(F.var(m[0])), step), cneg(win)))
            if d:
                return "the part the sequence is looked for in starts at " + d
    do.report(fn, "windows searched for the sequence", each2(searched))
    do.report(fn, "shift factor is the start of the sequence", each2(found))


def starts(do):
    """slices of the received field the equalisers work on"""
    p = do.p
    S0 = Y.modes("shift")
    half = cdiv(cadd(NT, cneg(ST)), num(2))
    base = cadd(S0, cneg(half))
    fr = cmul(OS, FL)
    # -- pilot_equaliser
    fn = "qampy.equalisation.pilot_equaliser"
    eps, app = "qampy.core.pilotbased_receiver.equalize_pilot_sequence", "qampy.equalisation.apply_filter"
    cfo = "qampy.phaserec.comp_freq_offset"
    TAPS, FOE = taps(), Opaque("foe")
    CORR, RX = "corrected", "rx"

    def comp(ev, a, k):
        o = a[0].cp()
        o.data = Y.Raw(CORR)
        return o

    def ps(kw):
        k0 = dict({"foe_comp": Const(True), "frame": P("frame"), "verbose": Const(False)}, **kw)
        return do.paths(fn, lambda: ([rawsig(p), Opaque("arg mu"), NT], dict(k0)), overrides={"os": OS}, prims={
            eps: recorder(eps, (TAPS, FOE)), app: recorder(app, Opaque("equalised")), cfo: comp})

    def each(kw, n, f):
        def g():
            k = 0
            for c, v, calls, args in ps(kw):
                for x in calls:
                    if x[0] == n:
                        k += 1
                        d = f(c, x[2], args[0])
                        if d:
                            return d
            if not k:
                raise Unknown("no call of " + n)
        return g
    do.report(fn, "start of the pilot sequence of the frame", each({}, eps, lambda c, kw, o: differ(kw["shift_fctrs"], cadd(base, cmul(fr, P("frame"))), c)))
    do.report(fn, "pilot sequence", each({}, eps, lambda c, kw, o: same(kw["ref_symbs"], Seq("x", SEQ, "1")) or differ(kw["os"], OS) or differ(kw["Ntaps"], NT)))
    do.report(fn, "order of the pilots", each({}, eps, lambda c, kw, o: differ(kw["M_pilot"], P("M_pilots"))))

    def applied(c, kw, o):
        f = kw.get("frames")
        if not isinstance(f, tuple) or len(f) != 1:
            raise Unknown("frames")
        return differ(f[0], P("frame"))
    do.report(fn, "frame the taps are applied to", each({}, app, applied))

    def onto(name):
        def f(c, kw, o):
            x = kw["sig"]
            if kw["wxy"] is not TAPS or not isinstance(x, Obj) or not isinstance(x.data, Y.Raw):
                raise Unknown("taps")
            return None if x.data.name == name else "the taps are applied to the %s signal" % x.data.name
        return f
    do.report(fn, "signal the taps are applied to", each({}, app, onto(CORR)))
    do.report(fn, "signal the taps are applied to without frequency compensation", each({"foe_comp": Const(False)}, app, onto(RX)))

    # -- pilot_equaliser_nframes
    fn = "qampy.equalisation.pilot_equaliser_nframes"
    one = "qampy.equalisation.pilot_equaliser"
    T, SIG = Obj(p.cls(CLS), Y.Raw("taps"), name="taps"), Obj(p.cls(CLS), Y.Raw("equalised"), name="equalised")

    def single(apply, verbose):
        def ret(ev, kw):
            r = (T,) + ((SIG,) if apply else ()) + ((FOE, (NT, ST)) if verbose else ())
            return r if len(r) > 1 else r[0]
        return recorder(one, ret)
    for apply in (True, False):
        for verbose in (True, False):
            tag = "(apply=%s, verbose=%s)" % (apply, verbose)

            def ps3():
                return do.paths(fn, lambda: ([rawsig(p), Opaque("arg mu"), NT], {"frames": Frames(REQ), "apply": Const(apply), "verbose": Const(verbose), "foe_comp": Opaque("arg foe")}),
                                overrides={"os": OS}, prims={one: single(apply, verbose), "method recreate_from_np_array": lambda ev, v, a, k: a[0]})

            def each_frame():
                k = 0
                for c, v, calls, _ in ps3():
                    for x in calls:
                        if x[0] == one:
                            k += 1
                            d = differ(x[2].get("frame", num(0)), Cx(F.var("i@" + REQ))) or differ(x[2]["Ntaps"], NT)
                            if d:
                                return d
                if not k:
                    raise Unknown("frames")

            def returned():
                for c, v, calls, _ in ps3():
                    t = v[0] if isinstance(v, tuple) and (apply or verbose) else v
                    if isinstance(t, tuple) and len(t) == 1 and not (apply or verbose):
                        t = t[0]
                    if not isinstance(t, Rep):
                        raise Unknown("result")
                    if isinstance(t.body, Opaque) and t.body.n.startswith("rows"):
                        return "the first modes' taps are returned in place of the taps of every frame"
                    if t.body is not T:
                        raise Unknown("result")
            do.report(fn, "every frame is equalised " + tag, each_frame)
            do.report(fn, "taps of every frame " + tag, returned)

    # -- applying the taps
    fn = "qampy.equalisation.apply_filter"
    core = EQ + "apply_filter"

    def ps4():
        return do.paths(fn, lambda: ([rawsig(p), taps()], {"frames": Frames(REQ)}), overrides={"os": OS}, prims={
            core: recorder(core, lambda ev, kw: Y.Raw("equalised")), "method recreate_from_np_array": lambda ev, v, a, k: a[0]},
            assume=lambda t: True if t == "frames" else None)

    def cut():
        k = 0
        for c, v, calls, _ in ps4():
            for x in calls:
                if x[0] != core:
                    continue
                r = x[2]["E"]
                if not isinstance(r, Y.Raw) or not isinstance(r.lo, Cx) or not isinstance(r.hi, Cx):
                    raise Unknown("equalised part")
                k += 1
                wrap = [t if rel in ("Lt",) else None for q, rel, t in c if "min(" in q or "amin(" in q]
                if None in wrap:
                    raise Unknown("condition on the shift factors")
                sh = [a for mm in r.lo.re for a, _ in mm if a.startswith("p.shift")]
                if len(sh) != 1:
                    raise Unknown("shift factor")
                ats = {a for mm in r.lo.re for a, _ in mm}
                m = x[2].get("modes")
                if isinstance(m, Cx):
                    if sh[0] != "p.shift@[%s]" % key(m.re):
                        return "the shift factor %s is used for the mode %s" % (sh[0][2:], key(m.re))
                if "i@" + REQ in ats:
                    fnum, nf = Cx(F.var("i@" + REQ)), num(1)
                else:
                    fnum, nf = P("first(%s)" % REQ), cadd(cadd(P("last(%s)" % REQ), cneg(P("first(%s)" % REQ))), num(1))
                w = cadd(cadd(Cx(F.var(sh[0])), cneg(half)), cmul(fr, fnum))
                if any(wrap):
                    w = cadd(w, fr)
                d = differ(r.lo, w, c)
                if d:
                    return "the part starts at " + d
                d = differ(cadd(r.hi, cneg(r.lo)), cadd(cadd(cmul(cmul(nf, FL), OS), NT), num(-1)), c)
                if d:
                    return "the length of the part is " + d
                d = differ(x[2]["os"], OS)
                if d:
                    return d
        if k < 4:
            raise Unknown("only %d parts" % k)
    do.report(fn, "part of the signal a frame is equalised from", cut)

    # -- training
    fn = eps
    es = EQ + "equalise_signal"
    for foe in (True, False):
        def ps5():
            def ret(ev, kw):
                a = kw.get("apply")
                return (Y.Raw("equalised"), taps(), Opaque("err")) if isinstance(a, Const) and a.v else (taps(), Opaque("err"))
            return do.paths(fn, lambda: ([Y.Raw("rx"), Seq("x", SEQ, "1"), S0, OS], {"foe_comp": Const(foe), "M_pilot": P("M_pilot"), "Ntaps": NT, "Niter": P("Niter"), "methods": (Const("cma"), Const("sbd")), "mu": (P("mu0"), P("mu1"))}),
                            prims={es: recorder(es, ret), "qampy.core.pilotbased_receiver.pilot_based_foe": lambda ev, a, k: (Opaque("foe"), Opaque("foes"), Opaque("cond")),
                                   "qampy.core.phaserecovery.comp_freq_offset": lambda ev, a, k: a[0]})

        def parts():
            k = 0
            for c, v, calls, _ in ps5():
                for x in calls:
                    if x[0] != es:
                        continue
                    k += 1
                    kw = x[2]
                    r = kw["E"]
                    if not isinstance(r, Y.Raw) or not isinstance(r.lo, Cx) or not isinstance(r.hi, Cx):
                        raise Unknown("part %s %s %s" % (type(r).__name__, getattr(r,"n",""), getattr(getattr(r,"lo",None),"n","")))
                    sh = [a for mm in r.lo.re for a, _ in mm if a.startswith("p.shift")]
                    if len(sh) != 1:
                        raise Unknown("shift factor")
                    d = differ(r.lo, Cx(F.var(sh[0])))
                    if d:
                        return "the training part starts at " + d
                    d = differ(cadd(r.hi, cneg(r.lo)), cadd(cadd(cmul(SL, OS), NT), num(-1)))
                    if d:
                        return "the length of the training part is " + d
                    m = kw.get("modes")
                    m = m[0] if isinstance(m, tuple) and len(m) == 1 else m
                    if isinstance(m, Cx) and sh[0] != "p.shift@[%s]" % key(m.re):
                        return "the shift factor %s is used for the mode %s" % (sh[0][2:], key(m.re))
                    if "@" in sh[0] and re.search(r"@\[.*[a-z]", sh[0]) and (m is None or isinstance(m, Const) and m.v is None):
                        return "all modes are trained on the part of the signal that belongs to one of them"
                    d = differ(kw["M"], P("M_pilot")) or differ(kw["os"], OS)
                    if d:
                        return d
                    if "symbols" in kw and not isinstance(kw["symbols"], Const):
                        d = same(kw["symbols"], Seq("x", SEQ, "1"))
                        if d:
                            return "the training symbols are " + d
            if k < 4:
                raise Unknown("only %d parts" % k)
        def order():
            k = 0
            for c, v, calls, _ in ps5():
                ms = [x[2].get("method") for x in calls if x[0] == es]
                if not ms or not all(isinstance(x, Const) for x in ms):
                    raise Unknown("method")
                for x, m in zip((x for x in calls if x[0] == es), ms):
                    d = differ(x[2]["mu"], P("mu%d" % ("cma", "sbd").index(m.v)))
                    if d:
                        return "method %d runs with %s" % (("cma", "sbd").index(m.v), d)
                    k += 1
                ms = [x.v for x in ms]
                if ms[-1] != "sbd" or "cma" not in ms[:-1]:
                    return "the taps are trained with the methods %s of the two given" % ", ".join(str(("cma", "sbd").index(x)) for x in ms)
            if not k:
                raise Unknown("no training")
        do.report(fn, "both methods are used, each with its step%s" % (" (frequency offset)" if foe else ""), order)
        do.report(fn, "part of the signal the taps are trained on%s" % (" (frequency offset)" if foe else ""), parts)

    # -- helpers
    fn = "qampy.core.pilotbased_receiver.correct_shifts"

    def corr():
        for c, v, _, _ in do.paths(fn, lambda: ([S0, (NT1, NT), OS], {})):
            d = differ(v, cadd(S0, cneg(cdiv(cadd(NT, cneg(NT1)), num(2)))))
            if d:
                return d
    do.report(fn, "taps move the start by half their difference", corr)
    fn = "qampy.core.pilotbased_receiver.shift_signal"

    def roll():
        seen = 0
        for c, v, _, args in do.paths(fn, lambda: ([Obj(p.cls(CLS), Y.Raw("rx"), name="signal"), S0], {})):
            rs = [w for _, w in (v.stores if isinstance(v, Obj) else [])] or [v]
            for w in rs:
                if not isinstance(w, Rolled) or not isinstance(w.k, Cx):
                    raise Unknown("shift")
                a = [x for mm in w.k.re for x, _ in mm if x.startswith("p.shift")]
                if len(a) != 1:
                    raise Unknown("shift")
                seen += 1
                d = differ(w.k, cneg(Cx(F.var(a[0]))))
                if d:
                    return "the signal is rolled by " + d
                row = getattr(w.of, "k", None) if isinstance(w.of, Taken) else None
                if row is not None and isinstance(row, Cx) and "@" in a[0] and a[0] != "p.shift@[%s]" % key(row.re):
                    return "mode %s is moved by %s" % (key(row.re), a[0][2:])
        if seen < 2:
            raise Unknown("shift")
    do.report(fn, "the start is moved to the front", roll)


def phase(do):
    """received pilots are compared with the transmitted ones at the same positions"""
    p = do.p
    fn = "qampy.phaserec.pilot_cpe"
    new = "qampy.core.pilotbased_receiver.pilot_based_cpe_new"
    for use in (False, True):
        cls = Frame.pil if use else Frame.pil - SEQ
        tag = "(with the pilot sequence)" if use else "(phase pilots)"

        def ps():
            return do.paths(fn, lambda: ([pilotsig(p)], {"use_seq": Const(use), "N": P("N"), "nframes": P("some"), "max_blocks": Opaque("arg max_blocks"), "pilot_rat": P("rat")}), prims={
                new: recorder(new, (Seq("rx", ALL, "N"), Opaque("trace"))), "method recreate_from_np_array": lambda ev, v, a, k: v})

        def each(f):
            def g():
                k = 0
                for c, v, calls, _ in ps():
                    for x in calls:
                        if x[0] == new:
                            k += 1
                            d = f(x[2])
                            if d:
                                return d
                if not k:
                    raise Unknown("no call")
            return g
        do.report(fn, "reference pilots " + tag, each(lambda kw: same(kw["pilot_symbs"], Seq("x", cls, "1"))))
        do.report(fn, "positions of the pilots " + tag, each(lambda kw: same(kw["pilot_idx"], Idx(ALL, cls, "1"))))
        do.report(fn, "frame length " + tag, each(lambda kw: differ(kw["frame_len"], FL) or differ(kw["nframes"], P("some")) or differ(kw["num_average"], P("N")) or differ(kw["use_pilot_ratio"], P("rat"))))
    fn = new
    trims = []

    def interp(ev, a, k):
        trims.append(a)
        return Opaque("interpolated")

    def ps6(m):
        return do.paths(fn, lambda: ([Seq("rx", ALL, "N"), Seq("x", Frame.pil - SEQ, "1"), Idx(ALL, Frame.pil - SEQ, "1"), FL], {"nframes": NF, "max_num_blocks": m, "use_pilot_ratio": P("rat"), "num_average": P("N")}),
                        prims={"numpy.interp": interp, "qampy.core.filter.moving_average": lambda ev, a, k: Opaque("averaged")})
    for m, tag in ((Const(None), ""), (Opaque("arg blocks"), " (limited number of blocks)")):
        def pairs():
            k = 0
            for c, v, calls, _ in ps6(m):
                for x in calls:
                    if x[0] == "pair":
                        k += 1
                        a, b = x[1]
                        if a.bad or b.bad:
                            return a.what() + " / " + b.what()
                        if (a.cls, a.frames) != (b.cls, b.frames):
                            return "the %s are compared with the %s" % (a.what(), b.what())
            if not k:
                raise Unknown("comparison")
        do.report(fn, "pilots and their references" + tag, pairs)

    def centred():
        del trims[:]
        ps6(Const(None))
        if not trims:
            raise Unknown("interpolation")
        for a in trims:
            t = getattr(a[1], "trim", None)
            if t is None:
                raise Unknown("positions")
            odd = lambda x: x
            if not F.equal(t[0], cneg(t[1])):
                return "the averages are placed from %s to %s" % (text(t[0]), text(t[1]))
            n = [x for mm in t[0].re for x, _ in mm]
            if n != ["p.N"]:
                raise Unknown("number of averages")
            d = None
            if not any(F.equal(t[0], w) for w in (cdiv(cadd(P("N"), num(-1)), num(2)), cdiv(P("N"), num(2)))):
                d = "the averages start at pilot " + text(t[0])
            if d:
                return d
    do.report(fn, "averages are placed at the centre of their pilots", centred)


def check(ctx):
    p = project()
    do = Do(ctx, p)
    frame_masks(do)
    views(do)
    extraction(do)
    measures(do)
    constructors(do)
    sync(do)
    starts(do)
    phase(do)
