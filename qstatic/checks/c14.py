"""C14 amplitude: linear operations are linear, amplitude-blind ones are blind."""
from .common import *
from ..contracts import decide

EXPLANATION = ("Every entry point whose result is proportional to the signal amplitude, to its square, or independent of it, is run with a field of symbolic "
               "amplitude. The degree of homogeneity is propagated through the arithmetic; a result with another definite degree, or a sum of terms of "
               "different degrees, is reported. Degrees the domain cannot follow are undecided.")
FLOOR = 150
WHAT = {0: "independent of the amplitude", 1: "proportional to the amplitude", 2: "proportional to the power"}


def _e2():
    from ..params import Arr
    return Arr()


def wrong(f, want):
    d = f.deg
    if d == "X":
        return "adds quantities which scale differently with the amplitude"
    if d is None or d == "Z" or isinstance(d, tuple):
        return None
    return None if d == want else "scales with power %s of the amplitude" % d


def selftest():
    for n, want, bad in (("adds_one", 1, True), ("absolute_threshold", 1, False), ("squares", 1, True), ("unscaled", 0, True), ("scaled", 0, False), ("right_sign", 1, False)):
        r = fixture_runs(n, {"E": _e2()})
        hit = [s for _, s in r.result.walk() if s.f is not None and wrong(s.f, want)]
        if bool(hit) != bad:
            return "%s misjudged" % n


def judge(f, col, want):
    w = wrong(f, want)
    return w and "%s, should be %s" % (w, WHAT[want])


def check(ctx):
    decide(ctx, ["deg"], judge, lambda f, col, want: f.deg == want, "amplitude", {"happy": True}, 100)
