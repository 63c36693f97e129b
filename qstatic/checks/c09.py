"""C09 per-polarisation operations keep the polarisations apart."""
from .common import *
from ..contracts import decide

EXPLANATION = ("Every entry point documented to work on each polarisation by itself is run with a field whose rows are tracked: the result must not provably "
               "combine rows (a pooled statistic, a row picked by a constant or by a left-over loop variable, a reduction over the wrong axis) nor put the "
               "polarisations anywhere but on the first axis. Results the row domain cannot follow are undecided.")
FLOOR = 90


def selftest():
    for n in ("mixes_rows", "last_row", "row_zero"):
        r = fixture_runs(n, {"E": _e2()})
        if not any(mixed(s.f) for _, s in r.result.walk() if s.f is not None):
            return "%s not recognised" % n
    for n in ("per_row", "per_row_loop"):
        r = fixture_runs(n, {"E": _e2()})
        if any(mixed(s.f) or s.f.mx != ("A", 0) for _, s in r.result.walk() if s.f is not None):
            return "%s misjudged" % n


def _e2():
    from ..params import Arr
    return Arr()


def mixed(f):
    if f.mx == "MIX":
        return "combines the polarisations"
    if isinstance(f.mx, tuple) and f.mx[0] == "A" and f.mx[1] != 0:
        return "has the polarisations on axis %d instead of the first" % f.mx[1]
    if isinstance(f.mx, tuple) and f.mx[0] == "R":
        return "uses one polarisation only"


def judge(f, col, want):
    if f.ndim == 0 or f.mx == "C" and f.ndim == 1:
        return None
    return mixed(f)


def check(ctx):
    decide(ctx, ["mx"], judge, lambda f, col, want: f.mx is not None, "rows", {"happy": True}, 60)
