"""C07 physical units."""
from .common import *
from .. import quant
from ..contracts import facts, pos
from ..values import unit_str
from ..params import *

EXPLANATION = ("Dimensional analysis by abstract interpretation: rates, frequencies, periods, lengths and dispersion enter the public functions with their documented units and are propagated through "
               "the arithmetic (seconds, metres, and the counting dimensions samples and symbols). Reported: sums, comparisons, interpolations and concatenations of different dimensions; exponentials, sines and "
               "shifts of quantities with a dimension; filter cut-offs that do not fit the sampling rate they are designed for; arguments of internal calls whose unit is not the documented one of the "
               "parameter (including a symbol rate in place of a sampling rate); results with a stated unit that have another one.")
FLOOR = 800


def hooks():
    return quant.hooks()


def selftest():
    for n, bad in (("unit_sum", True), ("unit_exp", True), ("unit_ok", False)):
        r = fixture_runs(n, {"x": Arr(), "f": Num(HZ), "fs": Num(SAMP_RATE), "T": Num(SYM_PERIOD)}, keep={"unit"})
        if bool(r.events) != bad:
            return "%s misjudged" % n
    w = quant.wrong_unit
    if not (w(SYM_RATE, SAMP_RATE) and w(SEC, HZ) and w(OS, U(samp=-1, sym=1))) or w(HZ, SAMP_RATE) or w((), OS) or w(None, HZ):
        return "unit comparison misjudged"


def check(ctx):
    rs = runs(ctx, keep={"unit", "argunit", "nunit"}, hooks=hooks)
    sites = set()
    for r in rs:
        for e in r.events:
            if e.kind == "nunit":
                ctx.ob()
                sites.add((e.where, e.data["param"]))
            elif e.kind == "argunit":
                d = e.data
                ctx.bad("argument|%s|%s.%s" % (short(d["caller"]), short(d["callee"]), d["param"]),
                        "%s: %s: parameter '%s' of %s is of unit %s, the argument is of unit %s" % (r.name(), e.text[:70], d["param"], short(d["callee"]), d["want"], d["got"]), e.where, path(e))
            else:
                ctx.bad("unit|%s|%s" % (short(e.qual), e.text[:60]), "%s: %s: %s %s (%s, %s)" % (r.name(), e.text[:80], e.data["what"], "", e.data["a"], e.data["b"]), e.where, path(e))
    ok = 0
    for r, p, f, want in facts(rs, "unit"):
        ctx.ob()
        if f.unit in (None, "Z", "X"):
            ctx.undecided("%s %s" % (r.name(), p))
        elif f.unit != want:
            ctx.bad("result|%s|%s" % (short(r.root), p), "%s: %s is of unit %s, should be %s" % (r.name(), p, unit_str(f.unit), unit_str(want)), short(r.root))
        else:
            ok += 1
            ctx.sample("%s %s: %s" % (r.name(), p, unit_str(want)))
    ctx.cov["argument_positions"] = len(sites)
    ctx.cov["decided"] = ok
    if len(sites) < 200 or ok < 5:
        raise AnalysisBroken("only %d argument positions and %d results with units" % (len(sites), ok))
