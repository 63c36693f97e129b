"""Physical quantities: which unit and which scale (decibel or linear) the parameters and results of functions have.

Units of parameters come from the entry-point table; what cannot be read off a single entry point is stated here."""
from fractions import Fraction as Fr
from .values import unit_strip, unit_str, V, F, EMPTY, alts
from .npmodel import sc_str, fac
from .roots import R
from .params import U

DB, LIN = ("dB", Fr(1)), ("lin", Fr(1))
NOISE_P, NOISE_A = ("lin", Fr(-1)), ("lin", Fr(-1, 2))

# results whose scale the arithmetic does not show: {function: {position or None: scale}}
RETURNS = {
    "qampy.core.pythran_dsp.estimate_snr": {0: LIN},
    "qampy.core.signal_quality.cal_snr_qam": {None: LIN},
}
# parameters of functions that are not told apart by the entry-point table: (callee, parameter, caller or None) -> scale
SCALE_ARGS = {
    ("qampy.core.impairments.add_awgn", "strgth", "qampy.core.impairments.change_snr"): NOISE_A,
    ("qampy.core.signal_quality.cal_mi", "N0", None): NOISE_P,
    ("qampy.core.pythran_dsp.cal_mi_mc", "N0", None): NOISE_P,
    ("qampy.core.pythran_dsp.cal_mi_mc_fast", "N0", None): NOISE_P,
    ("qampy.core.pythran_dsp.soft_l_value_demapper", "snr", None): LIN,
    ("qampy.core.pythran_dsp.soft_l_value_demapper_minmax", "snr", None): LIN,
}
# the noise a given SNR per symbol needs grows with the number of samples per symbol
UNIT_ARGS = {
    ("qampy.core.impairments.add_awgn", "strgth", "qampy.core.impairments.change_snr"): U(samp=Fr(1, 2), sym=Fr(-1, 2)),
}
# documented or harmless: (callee, parameter)
UNIT_EXEMPT = {
    # simulate_transmission takes the accumulated dispersion and sets L to one
    ("qampy.impairments.add_dispersion", "D"): "qampy.impairments.simulate_transmission",
    ("qampy.core.impairments.add_dispersion", "D"): "qampy.impairments.add_dispersion",
}
COUNT_EXEMPT = {
    # a signal with one sample per symbol: the symbol rate is its sampling rate
    ("qampy.core.resample.rrcos_resample", "fold"): "qampy.signals.SignalBase._resample_array",
    # documented default of rrcos_resample, 1/fold
    ("qampy.core.filter.rrcos_pulseshaping", "T"): "qampy.core.resample.rrcos_resample",
    ("qampy.core.special_fcts.rrcos_time", "T"): "qampy.core.filter.rrcos_pulseshaping",
}


def _declared(col):
    d = {}
    for n, cfgs in R.items():
        for c in cfgs:
            for p, x in c.items():
                f = getattr(x, "f", None)
                v = getattr(f, col, None) if f is not None else None
                if v is not None:
                    d.setdefault((n, p), set()).add(v)
    return d


UNITS = _declared("unit")
SCALES = _declared("scale")


def facets(I, v):
    for a in alts(v):
        if a.k != "const" and a.f is not None:
            f = fac(I, a)
            if f is not None:
                yield f


def counts(u):
    return tuple(x for x in u if x[0] in ("samp", "sym"))


def wrong_unit(got, want, count=True):
    """definitely a different quantity"""
    if got in (None, "Z", "X") or want in (None, "Z", "X"):
        return False
    if unit_strip(got) != unit_strip(want):
        return True
    if not count:
        return False
    a, b = dict(counts(got)), dict(counts(want))
    # a rate of samples standing in for a rate of symbols or the other way round
    if unit_strip(want) != ():
        return bool(a) and bool(b) and set(a) != set(b)
    return bool(a) and bool(b) and a != b


def chain(I, fr):
    """the calling function, and those it is a helper of"""
    out = []
    st = I.stack
    i = max((k for k, f in enumerate(st) if f is fr), default=-1)
    while fr is not None and fr.fi is not None and len(out) < 5:
        out.append(fr.fi.fullname)
        if fr.fi.fullname in R or not fr.fi.name.startswith("_") or i < 1:
            break
        i -= 1
        fr = st[i]
    return out


def first(d, ks):
    return next((d[k] for k in ks if k in d), None)


def call_hook(I, fi, node, env, caller):
    if caller.fi is None:
        return None
    inside = chain(I, caller)
    for p, v in env.items():
        k = (fi.fullname, p)
        ex = first(UNIT_ARGS, [k + (c,) for c in inside])
        want = {ex} if ex is not None else UNITS.get(k)
        sw = first(SCALE_ARGS, [k + (c,) for c in inside + [None]])
        sw = {sw} if sw else SCALES.get(k)
        if not want and not sw:
            continue
        for f in facets(I, v):
            if want and (UNIT_EXEMPT.get(k) not in inside or ex is not None):
                I.ev("nunit", node, callee=fi.fullname, param=p)
                if f.unit not in (None, "Z", "X"):
                    if ex is not None and f.unit != ex or ex is None and all(wrong_unit(f.unit, w, COUNT_EXEMPT.get(k) not in inside) for w in want):
                        I.ev("argunit", node, caller=caller.fi.fullname, callee=fi.fullname, param=p, got=unit_str(f.unit), want=" or ".join(sorted(map(unit_str, want))))
            if sw and isinstance(f.scale, tuple) and f.scale[0] != "quo":
                I.ev("nscale", node, callee=fi.fullname, param=p)
                if f.scale not in sw:
                    I.ev("argscale", node, caller=caller.fi.fullname, callee=fi.fullname, param=p, got=sc_str(f.scale), want=" or ".join(sorted(map(sc_str, sw))))
    return None


def return_hook(I, fi, node, fr, rv, caller):
    want = RETURNS.get(fi.fullname)
    if not want:
        return None

    def mark(v, s):
        if v.k == "union":
            return v.cp(c=tuple(mark(x, s) for x in v.c))
        if v.f is not None and v.k in ("num", "inst"):
            return v.cp(f=v.f.cp(scale=s))
        return v
    if None in want:
        return mark(rv, want[None])
    if rv.k == "tuple":
        return rv.cp(c=tuple(mark(x, want[i]) if i in want else x for i, x in enumerate(rv.c)))
    return None


def hooks():
    return {"call": call_hook, "return": return_hook}
