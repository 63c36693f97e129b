"""C21 result shapes."""
from .common import *
from ..contracts import decide, ONE, pos

EXPLANATION = ("Every entry point is run with a field of symbolic dimensions (modes, L, ...); the shape of each array in the result is propagated through the numpy calls and compared with "
               "the documented one (number of dimensions, and each dimension the analysis can name). Only a definitely different shape is reported. Operands of one arithmetic operation whose named dimensions differ, and reshapes to a fixed size, are reported for every entry point.")
FLOOR = 150


def _e2():
    from ..params import Arr
    return Arr()


def wrong(f, col, want):
    sh = f.shape
    if sh is None:
        return None
    if col == "ndim":
        return None if len(sh) == want else "has %d dimensions instead of %d" % (len(sh), want)
    if len(sh) != len(want):
        return "has %d dimensions instead of %d" % (len(sh), len(want))
    for i, (a, b) in enumerate(zip(sh, want)):
        if a is not None and b is not None and a != b:
            return "has %s entries along axis %d instead of %s" % (a, i, b)
    return None


def selftest():
    for n, bad in (("per_row", False), ("transposed", True), ("first_row", True), ("stacked", True), ("per_row_loop", False)):
        r = fixture_runs(n, {"E": _e2()})
        hit = [s for _, s in r.result.walk() if s.f is not None and wrong(s.f, "shape", ("modes", "L"))]
        if bool(hit) != bad:
            return "%s misjudged" % n
    for n, bad in (("broadcasts_wrong", True), ("broadcasts_right", False), ("two_only", True)):
        if bool(fixture_runs(n, {"E": _e2()}, keep={"shapes"}).events) != bad:
            return "%s misjudged" % n


def check(ctx):
    for r in runs(ctx, keep={"shapes"}):
        ctx.ob()
        for e in r.events:
            ctx.bad("operands|%s|%s" % (short(e.qual), e.text[:60]), "%s: %s: %s" % (r.name(), e.text[:80], e.data["what"]), e.where, path(e))
    onedim(ctx)
    # one-dimensional variants of two-dimensional operations are left out
    decide(ctx, ["shape", "ndim"], wrong, lambda f, col, want: f.shape is not None, "shape", {"happy": True}, 120,
           skip=lambda r, f: "=array(L)" in r.desc)


def onedim(ctx):
    """One polarisation as a one-dimensional array: the functions that accept it give the dimension back."""
    from ..roots import R
    from ..engine import run_all
    ok = 0
    for r in run_all({n: R[n] for n in ONE if n in R}, keep=set(), opts={"happy": True}):
        if "=array(L)" not in r.desc.replace("idx_pil=array(L)", ""):
            continue
        for p, s in r.result.walk():
            want = ONE[r.root].get(pos(p))
            if s.f is None or s.k in ("tuple", "union", "list", "const") or want is None:
                continue
            ctx.ob()
            w = wrong(s.f, "shape", want)
            if w:
                ctx.bad("shape1|%s|%s" % (short(r.root), p), "%s: for one-dimensional input %s %s" % (r.name(), p, w), short(r.root))
            elif s.f.shape is not None:
                ok += 1
    ctx.cov["one_dimensional_results"] = ok
    if ok < 12:
        raise AnalysisBroken("only %d results of one-dimensional input decided" % ok)
