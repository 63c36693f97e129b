"""C06 signal-level processing functions return signals that keep their metadata."""
from .common import *
from . import meta
from ..params import *
from ..roots import R

EXPLANATION = ("Every entry point that takes a signal object and returns the processed field is analysed for every signal kind; the result must be a signal of "
               "the same class carrying every attribute of the argument under its own name. The sampling rate must be the one of the argument, or its symbol "
               "rate for functions that equalise (one sample per symbol comes out), or the requested one for functions that resample.")
FLOOR = 700
SIGARGS = ("sig", "signal", "field", "E", "sig_in", "array")
MODULES = ("equalisation", "impairments", "filtering", "phaserec", "analog_frontend")
# returns no field: estimates, taps, bookkeeping
NOSIG = {"phaserec.find_freq_offset", "phaserec.find_pilot_const_phase"}
SYMRATE = {"equalisation.apply_filter", "equalisation.equalise_signal", "equalisation.dual_mode_equalisation", "equalisation.pilot_equaliser",
           "equalisation.pilot_equaliser_nframes"}


def applies(root, desc):
    """equalisers hand back a field only when they are told to apply the taps"""
    if root in ("equalisation.equalise_signal",):
        return "apply=True" in desc
    return "apply=False" not in desc


def jobs():
    out = {}
    for n, cfgs in R.items():
        s = short(n)
        if s in NOSIG or not (s.split(".")[0] in MODULES or s.startswith("core.")):
            continue
        for c in cfgs:
            for a in SIGARGS:
                if isinstance(c.get(a), Sig):
                    out.setdefault(n, []).append((a, c))
                    break
    return out


def check(ctx):
    js = jobs()
    arg = {n: cs[0][0] for n, cs in js.items()}
    roots = {}
    for n, cs in js.items():
        for a, c in cs:
            roots.setdefault(n, []).append(c)
            if not isinstance(c[a], PilotSig) and "dac" not in n.lower():
                for alt in ALT:
                    d = dict(c)
                    d[a] = ALT[alt]
                    if alt == "SignalWithPilots" and any(isinstance(x[a], PilotSig) for _, x in cs):
                        continue
                    roots[n].append(d)
    rs = run_all(roots, keep=set(), opts={"happy": True})
    ctx.use(rs)
    fields = 0
    for r in rs:
        s = short(r.root)
        name = arg[r.root]
        src = r.final.get(name)
        ctx.ob()
        if r.result.k == "never":
            ctx.undecided("%s never returns" % r.name())
            continue
        sigs = list(meta.signals(r.result))
        wrapper = s.split(".")[0] in MODULES
        if not sigs:
            if wrapper and applies(s, r.desc):
                if r.result.k == "top" or any(x.k == "top" for _, x in r.result.walk()):
                    ctx.undecided("%s: result unknown" % r.name())
                else:
                    ctx.bad("nosig|%s" % s, "%s returns no signal object (%s)" % (r.name(), short(repr(r.result))[:120]), s)
            continue
        if wrapper:
            pos = {}
            for pth, x in r.result.walk():
                pos.setdefault(pth, []).append(x)
            for pth, xs in pos.items():
                ks = {x.k for x in xs if x.k != "union"}
                if "inst" in ks and "num" in ks:
                    ctx.bad("plain|%s" % s, "%s returns a plain array instead of a signal on some path" % r.name(), s)
        exp = {"_fs": "_fb"} if s in SYMRATE else {}
        for pth, x in sigs:
            fields += 1
            ctx.ob(1 + len(src.attrs or {}))
            if x.attrs is None or not x.attrs:
                ctx.undecided("%s %s: attributes unknown" % (r.name(), pth))
                continue
            for k, what in meta.compare(src, x, name, exp):
                ctx.bad("meta|%s|%s" % (s, k), "%s: %s of the %s %s" % (r.name(), k, src.cls.split(".")[-1], what), s)
    ctx.cov["signals_compared"] = fields
    if fields < 60:
        raise AnalysisBroken("only %d returned signals compared" % fields)


ALT = {"SignalWithPilots": PilotSig(),
       "ResampledQAM": Sig("qampy.signals.ResampledQAM", M=Num((), "i"), N=Num((), "i"), fb=Num(SYM_RATE), fs=Num(SAMP_RATE))}
