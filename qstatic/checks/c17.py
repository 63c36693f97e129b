"""C17 unknown option strings are rejected."""
import ast
from .common import *
from ..params import *
from ..roots import R

EXPLANATION = ("Every public parameter whose default or documented values are option strings is found from the signatures and the entry-point table. The "
               "entry point is analysed with that option bound to a string that equals none of the strings the code compares it with: every path must end "
               "in a deliberate exception (raise or assert), not in a result, a silently chosen default branch, or an unbound name.")
FLOOR = 20
EXEMPT = {("core.segmentaxis.segment_axis", "end"): "only consulted when the length does not divide evenly, and the check of that branch ends in an assertion"}


def unknown_string():
    s = StrOther()
    s.desc = "unknown option"
    return s


def options(p):
    """(root, parameter, tuple position or None)"""
    out = []
    for root, cfgs in R.items():
        f = p.func(root)
        for q in f.pos + f.kwonly:
            d = f.defaults.get(q)
            if isinstance(d, ast.Constant) and isinstance(d.value, str):
                out.append((root, q, None))
            elif isinstance(d, (ast.Tuple, ast.List)) and d.elts and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in d.elts):
                out += [(root, q, i) for i in range(len(d.elts))]
            elif any(isinstance(c.get(q), K) and isinstance(c[q].v, str) for c in cfgs):
                out.append((root, q, None))
    return out


def known_values(p, root, q, cfgs):
    f = p.func(root)
    d = f.defaults.get(q)
    if isinstance(d, (ast.Tuple, ast.List)):
        return [x.value for x in d.elts]
    for c in cfgs:
        if isinstance(c.get(q), K):
            return c[q].v
    return None


def config(p, root, q, i):
    out = []
    seen = set()
    for c in R[root]:
        c = dict(c)
        kv = known_values(p, root, q, R[root])
        if i is None:
            c[q] = unknown_string()
        else:
            c[q] = Tup(*[unknown_string() if j == i else K(v) for j, v in enumerate(kv)])
        k = tuple(sorted((a, b.desc) for a, b in c.items()))
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def verdict(r):
    """None if rejected, else what happens instead"""
    bad = [e for e in r.events if e.kind in ("unbound", "noname", "noattr")]
    if r.result.k == "never" and not bad:
        return None
    if bad:
        return "runs into %s" % ("an unbound name" if bad[0].kind == "unbound" else "an undefined name"), bad[0].where
    return "returns %s" % short(repr(r.result)), ""


def check(ctx):
    p = project()
    ops = options(p)
    roots = {}
    which = {}
    for root, q, i in ops:
        for c in config(p, root, q, i):
            roots.setdefault(root, []).append(c)
    rs = run_all(roots, keep={"raise", "assertfalse", "unbound", "noname", "noattr"}, opts={"trip": True})       # an input has at least one mode, one frame
    ctx.use(rs)
    ctx.cov["exempt"] = ["%s.%s: %s" % (a, b, c) for (a, b), c in EXEMPT.items()]
    ctx.cov["options"] = ["%s.%s%s" % (short(a), b, "" if i is None else "[%d]" % i) for a, b, i in ops]
    for r in rs:
        ctx.ob()
        q = [k for k in r.desc.split(", ") if "unknown option" in k]
        q = (q[0].split("=")[0].strip("('\" ") if q else "?") if "=" in (q[0] if q else "") else "methods"
        if (short(r.root), q) in EXEMPT:
            continue
        v = verdict(r)
        if v is None:
            ctx.sample("%s rejects an unknown %s" % (short(r.root), q))
            continue
        ctx.bad("accepted|%s|%s" % (short(r.root), q), "an unknown value of '%s' of %s is not rejected: the call %s" % (q, r.name(), v[0]), v[1] or short(r.root))


def selftest():
    r = fixture_runs("lenient", {"x": Arr(), "method": unknown_string()}, keep={"unbound"})
    if verdict(r) is None:
        return "lenient option of the fixture not reported"
    r = fixture_runs("strict", {"x": Arr(), "method": unknown_string()}, keep={"unbound"})
    if verdict(r) is not None:
        return "strict option of the fixture reported"
