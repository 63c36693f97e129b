"""C10 precision of the results follows the precision of the input."""
from .common import *
from ..contracts import decide

EXPLANATION = ("Every entry point documented (or verified once by running it) to keep the precision of its argument is run with a field of symbolic precision: "
               "the result must not provably be of fixed double precision, nor be an integer where samples are returned, nor the reverse. numpy's promotion "
               "rules (array with array, array with python scalar, functions which always compute in double precision) are modelled; what they leave open is undecided. For every entry point, conversions and stores that drop the "
               "imaginary part of complex samples without saying so (real(), abs() ...) are reported.")
FLOOR = 90
NAMES = {"S": "the precision of the input", "D": "double precision", "I": "integer", "B": "boolean", "I8": "small integer"}


def _e2():
    from ..params import Arr
    return Arr()


def wrong(f, want):
    """the definite, different precision of a result"""
    got = f.prec
    if got in (None, "Z", "W") or got == want:
        return None
    if got == "X":
        return None
    if want == "S":
        return got if got in ("D", "I", "B", "I8") else None
    if want in ("I", "B"):
        return got if got in ("D", "S") or {got, want} == {"I", "B"} and f.kind != ("b" if want == "B" else "i") else None
    return None


def selftest():
    for n, bad in (("doubled", True), ("doubled_zeros", True), ("single", False), ("single_zeros", False)):
        r = fixture_runs(n, {"E": _e2()})
        hit = [s for _, s in r.result.walk() if s.f is not None and wrong(s.f, "S")]
        if bool(hit) != bad:
            return "%s misjudged" % n
    for n, bad in (("drops_imag", True), ("keeps_imag", False)):
        if bool(fixture_runs(n, {"E": _e2()}, keep={"dropsimag"}).events) != bad:
            return "%s misjudged" % n


def judge(f, col, want):
    if col == "kind":
        return "is real: the quadrature is dropped" if f.kind in ("f", "i", "b") else None
    w = wrong(f, want)
    return w and "is of %s, should be %s" % (NAMES.get(w, w), NAMES.get(want, want))


def check(ctx):
    decide(ctx, ["prec", "kind"], judge, lambda f, col, want: getattr(f, col) == want, "precision", {"happy": True}, 60,
           skip=lambda r, f: "=realarray(" in r.desc)
    for r in runs(ctx, keep={"dropsimag"}):
        ctx.ob()
        for e in r.events if "=realarray(" not in r.desc else ():
            ctx.bad("quadrature|%s|%s" % (short(e.qual), e.text[:60]), "%s: %s: %s" % (r.name(), e.text[:80], e.data["what"]), e.where, path(e))
