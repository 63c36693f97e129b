"""Runs the abstract interpreter over the public entry points (in parallel) and
condenses every run into a picklable summary the checks are written against."""
import ast
import multiprocessing as mp
import os
import sys
import time
from .project import Project, AnalysisBroken, FuncInfo, ClassInfo
from .interp import Interp
from .values import *

PKG = "qampy."


class S:
    """summary of an abstract value"""
    __slots__ = ("k", "c", "f", "al", "dp", "cls", "elts", "elem", "attrs", "maybe", "rid")

    def __init__(self, k):
        self.k = k
        self.c = self.f = self.cls = self.elts = self.elem = self.attrs = self.rid = None
        self.al = self.dp = EMPTY
        self.maybe = ()

    def walk(self, path="result"):
        """(path, summary) of this value and everything returned inside it"""
        yield path, self
        if self.k == "union":
            for e in self.elts:
                yield from e.walk(path)
        elif self.elts is not None:
            for i, e in enumerate(self.elts):
                yield from e.walk("%s[%d]" % (path, i))
        if self.elem is not None:
            yield from self.elem.walk(path + "[]")

    def alts(self):
        if self.k == "union":
            return list(self.elts)
        return [self]

    def __repr__(self):
        if self.k == "union":
            return " | ".join(map(repr, self.elts))
        if self.k == "tuple":
            return "(" + ", ".join(map(repr, self.elts)) + ")"
        if self.k == "const":
            return repr(self.c)
        s = self.k
        if self.cls:
            s += " " + self.cls.split(".")[-1]
        if self.f is not None:
            s += repr(self.f)
        return s


def summarise(I, v, st, depth=4, seen=()):
    s = S(v.k)
    s.f, s.al, s.dp = v.f, v.al, v.dp
    if v.k in ("num", "inst"):
        for r in v.al:
            cv = st.content.get(r)
            if cv is not None:
                s.dp = s.dp | cv.dp
    if v.k in ("tuple", "union"):
        s.elts = [summarise(I, e, st, depth - 1, seen) for e in v.c]
    elif v.k == "const":
        s.c = v.c if isinstance(v.c, (int, float, complex, str, bytes, bool, type(None))) else repr(v.c)
    elif v.k in ("list", "dict", "inst"):
        s.rid = str(v.c)
        o = st.heap.get(v.c)
        if o is not None and depth > 0 and v.c not in seen:
            seen = seen + (v.c,)
            if o.elts is not None:
                s.elts = [summarise(I, e, st, depth - 1, seen) for e in o.elts]
            if o.elem is not None:
                s.elem = summarise(I, o.elem, st, depth - 1, seen)
            if v.k == "dict":
                s.attrs = {str(k): summarise(I, e, st, depth - 1, seen) for k, e in (o.items or {}).items()}
                if o.other is not None:
                    s.elem = summarise(I, o.other, st, depth - 1, seen)
            if v.k == "inst":
                s.attrs = {k: summarise(I, e, st, min(depth - 1, 1), seen) for k, e in (o.attrs or {}).items()}
            s.maybe = tuple(sorted(map(str, o.maybe)))
        cls = o.cls if o is not None else v.cls
        if isinstance(cls, ClassInfo):
            s.cls = cls.fullname
    elif v.k == "iter" and isinstance(v.c, V):
        s.elem = summarise(I, v.c, st, depth - 1, seen)
    elif v.k == "class":
        s.cls = v.c.fullname
    elif v.k == "func":
        s.c = v.c.fullname
    return s


class Ev:
    """a picklable event"""
    __slots__ = ("kind", "where", "qual", "data", "text", "stack", "site")

    def __init__(self, e):
        self.kind, self.where, self.qual, self.data = e.kind, e.where(), e.qual, {k: v for k, v in e.data.items()}
        self.site = (e.module.name if e.module else "", getattr(e.node, "lineno", 0), getattr(e.node, "col_offset", 0))
        try:
            self.text = ast.unparse(e.node)
        except Exception:
            self.text = ""
        if len(self.text) > 140:
            self.text = self.text[:137] + "..."
        self.stack = e.stack


class Run:
    """one analysed entry point configuration"""
    __slots__ = ("root", "cfg", "desc", "result", "events", "analysed", "calls", "truncated", "used", "error", "params",
                 "extra", "unknown", "defaulted", "steps", "final", "tested", "open_ifs", "forced")

    def name(self):
        return "%s(%s)" % (self.root, self.desc)


def run_one(p, root, cfg, hooks=None, opts=None, keep=None, post=None):
    f = p.func(root)
    I = Interp(p, hooks=hooks() if callable(hooks) else hooks)
    if opts:
        I.opts.update(opts)
    params = set(f.pos) | set(f.kwonly)
    given = {}

    def init(I):
        for k, d in cfg.items():
            if k in params or f.kwarg:
                given[k] = d(I, k)
        return given
    r = Run()
    r.root, r.cfg = root, None
    r.desc = ", ".join("%s=%s" % (k, v.desc) for k, v in cfg.items() if k in params or f.kwarg)
    v, st = I.run(f, init=init)
    r.result = summarise(I, v, st)
    # the state the arguments are left in
    r.final = {k: summarise(I, a, st, 2) for k, a in given.items() if a.k in ("inst", "list", "dict")}
    r.events = [Ev(e) for e in I.events if keep is None or e.kind in keep]
    # unbound on one path (the first pass through a loop, say) but bound on another: not definite
    r.events = [e for e in r.events if e.kind != "unbound" or e.site not in I.okload]
    r.analysed = frozenset(I.analysed)
    r.calls, r.truncated, r.steps = I.calls, I.truncated, I.steps
    r.used = frozenset(I.used)
    r.tested = frozenset(I.tested)
    r.open_ifs, r.forced = frozenset(I.open_ifs), None
    r.params = [q for q in list(f.pos) + list(f.kwonly)]
    r.defaulted = [q for q in r.params if q not in cfg]
    r.unknown = dict(I.unknown_ext) if isinstance(I.unknown_ext, dict) else {}
    fo = (opts or {}).get("force")
    if fo:
        r.forced = tuple(sorted(fo.items()))
        r.desc += "; " + ", ".join("line %d %s" % (k[1], "taken" if b else "not taken") for k, b in r.forced)
    r.extra = post(I, v, st, f) if post is not None else None
    return r


_P = {}


def project():
    if "p" not in _P:
        _P["p"] = Project()
    return _P["p"]


def _job(a):
    root, cfg, kw = a
    try:
        return run_one(project(), root, cfg, **kw)
    except AnalysisBroken as x:
        return ("broken", root, str(x))
    except RecursionError:
        return ("broken", root, "recursion limit")


class AnchorsMissing(AnalysisBroken):
    pass


def run_all(roots, tolerate=False, **kw):
    """roots: dict name -> list of configurations.  Returns the list of Runs."""
    sys.setrecursionlimit(20000)
    p = project()
    for n in roots:
        p.func(n)                       # a vanished entry point: AnalysisBroken
    jobs = [(n, c, kw) for n, cs in roots.items() for c in cs]
    # expensive ones first
    jobs.sort(key=lambda j: (0 if "pilot_equaliser" in j[0] else 1 if "equal" in j[0] else 2))
    out = []
    n = min(8, os.cpu_count() or 1)
    if n > 1 and len(jobs) > 4:
        _P["kw"] = kw
        global _JOBS
        _JOBS = jobs
        with mp.get_context("fork").Pool(n) as pool:
            for r in pool.imap_unordered(_idx_job, range(len(jobs)), 1):
                out.append(r)
    else:
        out = [_job(j) for j in jobs]
    bad = [r for r in out if isinstance(r, tuple)]
    if tolerate and len(bad) <= max(3, len(jobs) // 50):
        out = [r for r in out if not isinstance(r, tuple)]
    elif bad:
        raise AnalysisBroken("; ".join("%s: %s" % (b[1], b[2]) for b in bad[:5]))
    out.sort(key=lambda r: (r.root, r.desc))
    return out


def resplit(runs, roots, wanted, limit=40, **kw):
    """Runs whose result was left open at a join: analysed again with each branch the
    interpretation could not decide taken one way and the other.  -> list of extra Runs"""
    by = {}
    for n, cs in roots.items():
        f = project().func(n)
        ps = set(f.pos) | set(f.kwonly)
        for c in cs:
            by[n, ", ".join("%s=%s" % (k, v.desc) for k, v in c.items() if k in ps or f.kwarg)] = c
    jobs = []
    for r in runs:
        if not wanted(r):
            continue
        c = by.get((r.root, r.desc))
        if c is None:
            continue
        sites = sorted(r.open_ifs)[:limit]
        for s in sites:
            for b in (True, False):
                k = dict(kw)
                k["opts"] = dict(kw.get("opts") or {}, force={s: b})
                jobs.append((r.root, c, k))
    global _JOBS
    _JOBS = jobs
    if not jobs:
        return []
    n = min(8, os.cpu_count() or 1)
    if n > 1 and len(jobs) > 4:
        with mp.get_context("fork").Pool(n) as pool:
            out = list(pool.imap_unordered(_idx_job, range(len(jobs)), 1))
    else:
        out = [_job(j) for j in jobs]
    out = [r for r in out if not isinstance(r, tuple)]
    out.sort(key=lambda r: (r.root, r.desc, str(r.forced)))
    return out


_JOBS = []


def _idx_job(i):
    return _job(_JOBS[i])
