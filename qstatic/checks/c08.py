"""C08 decibel and linear scale."""
from .common import *
from .. import quant
from ..contracts import facts
from ..npmodel import sc_str
from ..engine import resplit
from ..params import *

EXPLANATION = ("Scale inference by abstract interpretation: every ratio documented in decibel enters as 'decibel', every linear one as 'linear power ratio'; 10**(x/10), 10**(x/20), 10*log10(x), powers and square "
               "roots are tracked with their exponents, so that decibel, 1/10 decibel, linear power ratio, its reciprocal and the amplitude ratio are told apart. Reported: sums, products and comparisons of decibel with linear "
               "quantities or amplitudes, conversions with the wrong factor, arguments of internal calls and results which are on a scale other than the documented one.")
FLOOR = 30


def hooks():
    return quant.hooks()


def selftest():
    for n, bad in (("db_product", True), ("db_power20", True), ("db_nodiv", True), ("db_ok", False)):
        r = fixture_runs(n, {"x": Arr(), "snr": Num((), scale="dB")}, keep={"scale"})
        wr = [s for _, s in r.result.walk() if s.f is not None and s.f.scale is not None and s.f.scale != ("lin", 1)]
        if bool(r.events or wr) != bad:
            return "%s misjudged" % n


def check(ctx):
    rs = runs(ctx, keep={"scale", "argscale", "nscale"}, hooks=hooks)
    extra = resplit(rs, R, lambda r: "[dB]" in r.desc or "[linear]" in r.desc or ctx.tier == "thorough" and ("snr" in r.root or "cal_" in r.root), keep={"scale", "argscale", "nscale"}, hooks=hooks)
    ctx.cov["runs_with_a_branch_forced"] = len(extra)
    sites = set()
    for r in rs + extra:
        for e in r.events:
            d = e.data
            if e.kind == "nscale":
                ctx.ob()
                sites.add((e.where, d["param"]))
            elif e.kind == "argscale":
                ctx.bad("argument|%s|%s.%s" % (short(d["caller"]), short(d["callee"]), d["param"]),
                        "%s: %s: parameter '%s' of %s takes a %s, the argument is a %s" % (r.name(), e.text[:70], d["param"], short(d["callee"]), d["want"], d["got"]), e.where, path(e))
            else:
                ctx.bad("scale|%s|%s" % (short(e.qual), e.text[:60]), "%s: %s: %s (%s, %s)" % (r.name(), e.text[:80], d["what"], d["a"], d["b"]), e.where, path(e))
    ok = 0
    for r, p, f, want in facts(rs, "scale"):
        ctx.ob()
        if not isinstance(f.scale, tuple):
            ctx.undecided("%s %s" % (r.name(), p))
        elif f.scale != want and not (f.scale[0] == "quo" and want[0] == "lin" and abs(f.scale[1]) == abs(want[1])):
            ctx.bad("result|%s|%s" % (short(r.root), p), "%s: %s is a %s, should be a %s" % (r.name(), p, sc_str(f.scale), sc_str(want)), short(r.root))
        else:
            ok += 1
            ctx.sample("%s %s: %s" % (r.name(), p, sc_str(want)))
    ctx.cov["argument_positions"] = len(sites)
    ctx.cov["decided"] = ok
    if len(sites) < 10 or ok < 4:
        raise AnalysisBroken("only %d argument positions and %d results with a scale" % (len(sites), ok))
