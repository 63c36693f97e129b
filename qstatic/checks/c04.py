"""C04 metadata of signal objects survives array operations, re-creation, resampling and pickling."""
import os
from .common import *
from . import meta
from ..params import *
from ..project import Project
from ..engine import _P
from ..roots import INT, NUM, FB, RATE, E2, SYMS

EXPLANATION = ("Probe programs (user code: slicing, views, copies, arithmetic, ufuncs, casts, re-creation, resampling, pickling) are analysed together with the "
               "current source for every signal class; every attribute the constructors set must be carried to the result under its own name, with its own "
               "value, and the class must be kept. Constructors must set symbol rate, sampling rate, order and reference symbols from their own arguments, and "
               "the read accessors must return the quantity of that name.")
FLOOR = 1000
PROBES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "probes", "meta.py")
MASK = Arr(("L",), "b", "B", deg=0, chg=0, mx="C")
ARGS = dict(a=INT, b=INT, mask=MASK, x=NUM, arr=E2, n=INT, fs=RATE, fb=FB, fnew=RATE, beta=NUM, symbols=E2, other=QAM())
COMMON = dict(M=Num((), "i"), N=Num((), "i"), nmodes=Num((), "i"), fb=Num(SYM_RATE), dtype=DType())
CLASSES = {
    "SignalQAMGrayCoded": Sig("qampy.signals.SignalQAMGrayCoded", **COMMON),
    "SignalPSKGrayCoded": Sig("qampy.signals.SignalPSKGrayCoded", **COMMON),
    "QPSKfromBERT": Sig("qampy.signals.QPSKfromBERT", N=Num((), "i"), nmodes=K(2), fb=Num(SYM_RATE), dtype=DType()),
    "SymbolOnlySignal": Sig("qampy.signals.SymbolOnlySignal", M=Num((), "i"), N=Num((), "i"), symbols=SYMS, nmodes=Num((), "i"), fb=Num(SYM_RATE)),
    "ResampledQAM": Sig("qampy.signals.ResampledQAM", M=Num((), "i"), N=Num((), "i"), fb=Num(SYM_RATE), fs=Num(SAMP_RATE)),
    "TDHQAMSymbols": Sig("qampy.signals.TDHQAMSymbols", M=Tup(Num((), "i"), Num((), "i")), N=Num((), "i"), fr=Num(()), nmodes=Num((), "i"), fb=Num(SYM_RATE)),
    "SignalWithPilots": PilotSig(),
}
# probes whose result legitimately differs in some quantity: accessor -> where it has to come from
DIFF = {
    "recreated_fs": {"fs": "fs"}, "recreated_fb": {"fb": "fb", "fs": "fb"}, "recreated_both": {"fb": "fb", "fs": "fs"},
    "resampled": {"fs": "fnew"}, "resampled_none": {"fs": "fnew"}, "recreated_symbols": {"symbols": "symbols"},
}
ONLY = {"resampled": {"SignalQAMGrayCoded", "SignalPSKGrayCoded", "QPSKfromBERT", "SignalWithPilots", "SymbolOnlySignal", "ResampledQAM"},
        "recreated_symbols": {"SignalQAMGrayCoded", "SignalPSKGrayCoded", "QPSKfromBERT", "SignalWithPilots", "SymbolOnlySignal", "ResampledQAM"}}
ONLY["resampled_none"] = ONLY["resampled"]
# accessor -> the classes that have it
ACCESS = {"fb": None, "fs": None, "M": {"SignalQAMGrayCoded", "SignalPSKGrayCoded", "SymbolOnlySignal", "ResampledQAM"},
          "symbols": {"SignalQAMGrayCoded", "SymbolOnlySignal", "SignalWithPilots"}, "bits": {"SignalQAMGrayCoded"},
          "coded_symbols": {"SignalQAMGrayCoded", "SymbolOnlySignal"}, "pilots": {"SignalWithPilots"}, "frame_len": {"SignalWithPilots"},
          "pilot_scale": {"SignalWithPilots"}, "shiftfctrs": {"SignalWithPilots"}, "synctaps": {"SignalWithPilots"},
          "fr": {"TDHQAMSymbols"}, "powratio": {"TDHQAMSymbols"}, "symbols_M1": {"TDHQAMSymbols"}, "symbols_M2": {"TDHQAMSymbols"}}


def probe_project():
    p = Project()
    p.add_source("qampy._probe_meta", open(PROBES).read())
    return p


def expected(p, sigd, diff):
    ci = p.cls(sigd.cls)
    out = {}
    for prop, src in diff.items():
        a = getter_attr(ci, prop)
        if a is not None:
            out[a] = src
    return out


def check(ctx):
    p = probe_project()
    m = p.modules["qampy._probe_meta"]
    _P["p"] = p
    roots = {}
    for nm, f in m.functions.items():
        for cn, sd in CLASSES.items():
            if nm in ONLY and cn not in ONLY[nm]:
                continue
            roots.setdefault("qampy._probe_meta." + nm, []).append(dict({k: v for k, v in ARGS.items() if k in f.pos}, sig=sd))
    rs = run_all(roots, keep={"noattr", "badunpack", "badcall"})
    ctx.use(rs)
    byname = {sd.desc: (cn, sd) for cn, sd in CLASSES.items()}
    for r in rs:
        nm = r.root.split(".")[-1]
        src = r.final["sig"]
        cn = src.cls.split(".")[-1]
        sd = CLASSES[cn]
        exp = expected(p, sd, DIFF.get(nm, {}))
        sigs = [s for s in r.result.alts() if s.k == "inst"]
        for e in r.events:
            ctx.bad("%s|%s|%s" % (e.kind, cn, nm), "%s of %s: %s %s" % (nm, cn, e.text, e.data), e.where, path(e))
        if not sigs:
            ctx.ob()
            if r.result.k == "never":
                ctx.bad("raises|%s|%s" % (cn, nm), "%s of a %s raises" % (nm, cn), r.root)
            elif all(s.k in ("num", "const", "tuple", "list") for s in r.result.alts()):
                ctx.bad("class|%s|%s" % (cn, nm), "%s of a %s is no longer a signal object" % (nm, cn), r.root)
            else:
                ctx.undecided("%s %s" % (cn, nm))
            continue
        for s in sigs:
            ctx.ob(1 + len(src.attrs))
            for k, what in meta.compare(src, s, "sig", exp):
                ctx.bad("lost|%s|%s|%s" % (cn, nm, k), "after '%s' of a %s: %s %s" % (nm, cn, k, what), "signals." + cn)
        ctx.sample("%s %s: %d attributes carried" % (cn, nm, len(src.attrs)))
    ctx.cov["probes"] = sorted(m.functions)
    ctx.cov["classes"] = sorted(CLASSES)
    accessors(ctx, p)
    constructors(ctx, p)


def accessors(ctx, p):
    """reading `x` of a signal yields what was stored for it, distinguishable by origin"""
    src = "".join("def get_%s(sig):\n    return sig.%s\n\n\n" % (a, a) for a in ACCESS)
    p.add_source("qampy._probe_access", src)
    roots = {}
    for a, cl in ACCESS.items():
        for cn in (cl or CLASSES):
            roots.setdefault("qampy._probe_access.get_" + a, []).append({"sig": CLASSES[cn]})
    rs = run_all(roots, keep=set())
    byattr = {}
    for r in rs:
        a = r.root.split("get_")[-1]
        src = r.final["sig"]
        cn = src.cls.split(".")[-1]
        ctx.ob()
        t = meta.tags(r.result, "sig")
        if r.result.k == "const" and r.result.c is None and not t:
            ctx.bad("accessor|%s|%s" % (cn, a), "%s.%s is None" % (cn, a), "signals." + cn)
            continue
        if len(t) > 1:
            ctx.undecided("accessor %s.%s" % (cn, a))
            continue
        byattr.setdefault((cn, tuple(t)), []).append(a)
    for (cn, t), names in byattr.items():
        if len(names) > 1 and t:
            ctx.bad("accessor|%s|%s" % (cn, "=".join(sorted(names))), "%s of a %s read the same stored quantity %s" % (" and ".join(names), cn, t[0]), "signals." + cn)


def constructors(ctx, p):
    """what a constructor is told is what the accessor returns"""
    rules = []        # (source, config, accessor -> argument)
    C = dict(M=INT, N=INT, nmodes=INT, fb=FB, fs=RATE, dtype=DType(), symbs=Arr(("modes", "Ltx"), deg=0, chg=0), bits=Arr(("modes", "Nb"), "b", "B", deg=0, chg=0),
             symbols=SYMS, fr=NUM, sig=CLASSES["SignalQAMGrayCoded"], frame_len=INT, seq_len=INT, ins_rat=INT, nframes=INT, scale=NUM)
    T = [
        ("SignalQAMGrayCoded(M, N, nmodes=nmodes, fb=fb, dtype=dtype)", {"fb": "fb", "fs": "fb", "M": "M"}),
        ("SignalPSKGrayCoded(M, N, nmodes=nmodes, fb=fb, dtype=dtype)", {"fb": "fb", "fs": "fb", "M": "M"}),
        ("QPSKfromBERT(N, nmodes=2, fb=fb, dtype=dtype)", {"fb": "fb", "fs": "fb"}),
        ("SymbolOnlySignal(M, N, symbols, nmodes=nmodes, fb=fb)", {"fb": "fb", "fs": "fb", "M": "M"}),
        ("ResampledQAM(M, N, fb=fb, fs=fs)", {"fb": "fb", "fs": "fs", "M": "M"}),
        ("TDHQAMSymbols((M, M), N, fr=fr, nmodes=nmodes, fb=fb)", {"fb": "fb", "fs": "fb", "fr": "fr"}),
        ("SignalWithPilots(M, frame_len, seq_len, ins_rat, nframes=nframes, pilot_scale=scale, nmodes=nmodes, fb=fb)",
         {"fb": "fb", "fs": "fb", "frame_len": "frame_len", "pilot_scale": "scale"}),
        ("SignalQAMGrayCoded.from_symbol_array(symbs, M=M, fb=fb)", {"fb": "fb", "fs": "fb", "M": "M", "symbols": "symbs"}),
        ("SignalQAMGrayCoded.from_bit_array(bits, M, fb=fb)", {"fb": "fb", "fs": "fb", "M": "M", "bits": "bits"}),
        ("SymbolOnlySignal.from_symbol_array(symbs, fb=fb)", {"fb": "fb", "fs": "fb", "symbols": "symbs"}),
        ("SymbolOnlySignal.from_symbol_array(symbs, symbols, fb=fb)", {"fb": "fb", "fs": "fb", "symbols": "symbs", "coded_symbols": "symbols"}),
        ("TDHQAMSymbols.from_symbol_arrays(sig, sig, fr)", {"fb": "sig", "fs": "sig", "fr": "fr"}),
        ("SignalWithPilots.from_symbol_array(sig, frame_len, seq_len, ins_rat, nframes=nframes, pilot_scale=scale)",
         {"frame_len": "frame_len", "pilot_scale": "scale", "fb": "sig._fb", "fs": "sig._fb", "symbols": "sig"}),
    ]
    src = "from qampy.signals import *\n"
    roots, want = {}, {}
    for i, (expr, exp) in enumerate(T):
        for j, (acc, arg) in enumerate(sorted(exp.items())):
            fn = "c%d_%s" % (i, acc)
            names = sorted(n for n in C if any(n == w for w in __import__("re").findall(r"[A-Za-z_]\w*", expr)))
            src += "def %s(%s):\n    return %s.%s\n\n\n" % (fn, ", ".join(names), expr, acc)
            roots["qampy._probe_ctor." + fn] = [{n: C[n] for n in names}]
            want["qampy._probe_ctor." + fn] = (expr, acc, arg)
    p.add_source("qampy._probe_ctor", src)
    for r in run_all(roots, keep=set()):
        expr, acc, arg = want[r.root]
        ctx.ob()
        d = set(r.result.dp)
        units = {"fb": SYM_RATE, "fs": SAMP_RATE}
        key = "ctor|%s|%s" % (expr.split("(")[0], acc)
        if r.result.k == "never":
            ctx.bad(key, "%s raises" % expr, "signals." + expr.split("(")[0])
        elif r.result.k == "const" and r.result.c is None:
            ctx.bad(key, "%s.%s is None" % (expr, acc), "signals." + expr.split("(")[0])
        elif r.result.k != "top" and arg not in d:
            ctx.bad(key, "%s.%s does not come from '%s'" % (expr, acc, arg), "signals." + expr.split("(")[0])
        elif acc in ("fb", "fs") and r.result.f is not None:
            u = SAMP_RATE if arg == "fs" else SYM_RATE
            if r.result.f.unit is None:
                ctx.undecided(key)
            elif r.result.f.unit != u:
                ctx.bad(key, "%s.%s is in %s" % (expr, acc, unit_str(r.result.f.unit)), "signals." + expr.split("(")[0])
        else:
            ctx.sample("%s.%s comes from %s" % (expr.split("(")[0], acc, arg), 30)


def selftest():
    src = """
import numpy as np
class B(np.ndarray):
    def __array_finalize__(self, obj):
        self._a = getattr(obj, "_a", None)
"""
    return None
