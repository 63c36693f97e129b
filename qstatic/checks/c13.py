"""C13 phase: estimates follow the phase, corrections remove it, everything else turns along."""
from .common import *
from ..contracts import decide
from fractions import Fraction

EXPLANATION = ("Every entry point is run with a field that carries a symbolic common phase. The phase charge is propagated: a product adds charges, conj negates, "
               "abs removes, angle() turns a charge into an angle, exp(1j*angle) back. Linear operations must return charge 1, decisions and error rates charge 0, "
               "phase estimates an angle that follows the signal with weight +1, and corrected signals charge 0 (the estimate is removed, not added). "
               "What the domain cannot follow is undecided.")
FLOOR = 120


def _e2():
    from ..params import Arr
    return Arr()


def show(c):
    if isinstance(c, tuple) and c[0] == "ang":
        return "an angle which follows the signal's phase %s times" % c[1]
    if isinstance(c, tuple):
        return "a sum of angles"
    return "carries %s times the signal's phase" % c


def wrong(f, want):
    c = f.chg
    if c == "X":
        return "adds quantities which turn differently with the signal's phase"
    if c is None or c == "Z":
        return None
    if c == want:
        return None
    if isinstance(c, tuple) and c[0] != "ang":
        return None
    if isinstance(c, tuple) and isinstance(want, tuple) or not isinstance(c, tuple):
        return show(c)
    return None


def selftest():
    for n, want, bad in (("wrong_sign", 0, True), ("right_sign", 0, False), ("scaled", 1, False), ("conjugated", 1, True), ("negated_angle", ("ang", Fraction(1)), True),
                         ("angle_of", ("ang", Fraction(1)), False)):
        r = fixture_runs(n, {"E": _e2()})
        hit = [s for _, s in r.result.walk() if s.f is not None and s.k == "num" and wrong(s.f, want)]
        if bool(hit) != bad:
            return "%s misjudged" % n


def judge(f, col, want):
    w = wrong(f, want)
    return w and "%s; required: %s" % (w, show(want))


def check(ctx):
    decide(ctx, ["chg"], judge, lambda f, col, want: f.chg == want, "phase", {"happy": True, "grid": True}, 80)
    reference(ctx)


def reference(ctx):
    """The phase of the *reference* turned instead: estimates are relative to it, corrected fields turn along."""
    from ..engine import run_all
    from ..params import Arr, Num, K
    from ..contracts import pos
    neg = ("ang", Fraction(-1))
    still, turned = Arr(deg=0, chg=0), Arr(("modes", "Ltx"), deg=0)
    INT = Num((), "i")
    P = "qampy.core.pilotbased_receiver."
    idx = Arr(("np",), "i", "I", deg=0, chg=0, mx="C")
    roots = {"qampy.phaserec.find_pilot_const_phase": ([dict(rec_pilots=still, ref_pilots=turned)], {"": neg}),
             P + "pilot_based_cpe_new": ([dict(signal=still, pilot_symbs=turned, pilot_idx=idx, frame_len=INT, num_average=INT),
                                          dict(signal=still, pilot_symbs=turned, pilot_idx=idx, frame_len=INT, num_average=INT, nframes=INT, use_pilot_ratio=INT)],
                                         {"[0]": 1, "[1]": neg}),
             P + "pilot_based_cpe": ([dict(rec_symbs=still, pilot_symbs=turned, pilot_ins_ratio=INT)], {"[0]": 1, "[1]": neg})}
    ok = 0
    for r in run_all({n: q[0] for n, q in roots.items()}, keep=set(), opts={"happy": True, "grid": True}):
        for p, s in r.result.walk():
            want = roots[r.root][1].get(pos(p))
            if want is None or s.f is None or s.k in ("tuple", "union", "list", "const"):
                continue
            ctx.ob()
            w = wrong(s.f, want)
            if w:
                ctx.bad("reference|%s|%s" % (short(r.root), p), "%s with the phase on the reference: %s %s; required: %s" % (r.name(), p, w, show(want)), short(r.root))
            elif s.f.chg == want:
                ok += 1
            else:
                ctx.undecided("%s %s (phase on the reference)" % (r.name(), p))
    ctx.cov["reference_phase_results"] = ok
    if ok < 3:
        raise AnalysisBroken("only %d results with the phase on the reference decided" % ok)
