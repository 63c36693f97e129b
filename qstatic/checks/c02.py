"""C02 no hidden state: nothing a call does is remembered outside its arguments and results."""
import ast
from .common import *
from ..params import *

EXPLANATION = ("Region analysis over every public entry point: stores into module-level objects, class attributes, function attributes or "
               "default-argument objects, 'global' rebindings and reseeding are state writes; a result (or an attribute of a returned or updated "
               "object) that aliases such a mutable object is shared state; memoising decorators on functions returning mutable arrays are "
               "shared state as well.")
FLOOR = 300
SHARED = ("G:", "C:", "DEF:", "F:")
CACHES = ("lru_cache", "cache", "memoize", "cached_property", "memory.cache")


def check(ctx):
    rs = runs(ctx, keep={"mutate", "globalwrite", "reseed"}, post=escapes)
    for r in rs:
        root = short(r.root)
        ctx.ob(2)
        for e in r.events:
            if e.kind in ("globalwrite", "reseed"):
                nm = e.data.get("name") or e.data.get("what")
                ctx.bad("globalwrite|%s|%s" % (short(e.qual), nm), "%s writes the shared object %s" % (short(e.qual), nm), e.where, path(e))
            elif e.data["region"].startswith(SHARED):
                ctx.bad("mutate|%s|%s" % (short(e.qual), e.data["region"]), "shared object %s is modified (%s)" % (e.data["region"], e.text),
                        e.where, path(e))
        for p, reg in r.extra:
            ctx.ob()
            ctx.bad("escape|%s|%s" % (root, reg), "%s of %s aliases the shared mutable object %s" % (p, r.name(), reg), root)
    # module state: functions that rebind globals, caching decorators, in every function of the package
    for f in project().all_functions():
        ctx.ob()
        ctx.analysed.add(f.fullname)
        for d in f.decos:
            nm = d.split("(")[0].split(".")[-1]
            if nm in CACHES:
                ctx.bad("cache|%s" % short(f.fullname), "%s memoises its results (@%s): callers share one mutable object" % (short(f.fullname), d),
                        short(f.fullname))
        g = {n for x in ast.walk(f.node) if isinstance(x, ast.Global) for n in x.names}
        if g:
            for x in ast.walk(f.node):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in g:
                    ctx.bad("global|%s|%s" % (short(f.fullname), x.id), "%s rebinds the module variable %s" % (short(f.fullname), x.id),
                            "%s:%d" % (f.module.name, x.lineno))


def escapes(I, v, st, f):
    """(path, region) of shared mutable objects reachable from the result"""
    out = []

    def rec(x, p, seen):
        if len(seen) > 8:
            return
        if x.k in ("tuple", "union"):
            for i, e in enumerate(x.c):
                rec(e, p if x.k == "union" else "%s[%d]" % (p, i), seen)
            return
        for r in x.al:
            if r.startswith(SHARED) and mutable(x):
                out.append((p, r))
        if x.k in ("list", "dict", "inst") and x.c is not None:
            c = str(x.c)
            if c.startswith(SHARED) and x.k in ("list", "dict"):
                out.append((p, c))
            o = st.heap.get(x.c)
            if o is None or x.c in seen:
                return
            seen = seen | {x.c}
            for i, e in enumerate(o.elts or ()):
                rec(e, "%s[%d]" % (p, i), seen)
            if o.elem is not None:
                rec(o.elem, p + "[]", seen)
            for k, e in (o.attrs or {}).items():
                if isinstance(o.cls, ClassInfo) and k.startswith("_") and not public(o.cls, k):
                    continue
                rec(e, p + "." + k, seen)
            for k, e in (o.items or {}).items():
                rec(e, "%s[%r]" % (p, k), seen)
    rec(v, "result", frozenset())
    return sorted(set(out))


def public(ci, attr):
    """a property hands the private attribute out"""
    r = ci.lookup(attr.lstrip("_"))
    return r is not None and isinstance(r[1], FuncInfo) and r[1].kind == "prop"


def mutable(x):
    return x.k in ("num", "list", "dict", "inst") and not (x.k == "num" and x.f is not None and x.f.shape == ())


def selftest():
    r = fixture_runs("remembers", {"x": Arr()}, keep={"mutate", "globalwrite"}, post=escapes)
    if not any(e.data.get("region", "").startswith(SHARED) for e in r.events):
        return "store into a default-argument object not reported"
    r = fixture_runs("counts", {"x": Arr()}, keep={"mutate", "globalwrite"}, post=escapes)
    if not any(e.kind == "globalwrite" for e in r.events):
        return "rebinding of a module variable not reported"
    r = fixture_runs("shares", {"x": Arr()}, keep={"mutate"}, post=escapes)
    if not r.extra:
        return "escaping default-argument object not reported"
