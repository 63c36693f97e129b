"""helpers shared by the checks"""
import os
import textwrap
from ..engine import run_all, run_one, project, _P
from ..project import Project, AnalysisBroken, FuncInfo, ClassInfo
from ..roots import R

FIX = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "fixtures")


def short(n):
    return n.replace("qampy.", "", 1) if n.startswith("qampy.") else n


def runs(ctx, keep=None, roots=None, floor=None, **kw):
    if floor is None:
        floor = 300 if roots is None else len(roots)
    rs = run_all(roots or R, keep=keep, **kw)
    ctx.use(rs)
    ctx.cov["entry_points"] = len({r.root for r in rs})
    ctx.cov["configurations"] = len(rs)
    ctx.cov["calls_followed"] = sum(r.calls for r in rs)
    ctx.cov["truncated_calls"] = sum(r.truncated for r in rs)
    if len(rs) < floor:
        raise AnalysisBroken("only %d entry-point configurations analysed" % len(rs))
    return rs


def path(ev):
    return " -> ".join(short(s) for s in ev.stack)


def fixture():
    """the tiny package with one deliberate instance of every zero-expected rule"""
    return Project(root=FIX, pkg="qampy", floor=1)


def fixture_runs(name, cfg, **kw):
    return run_one(fixture(), "qampy.bad." + name, cfg, **kw)
