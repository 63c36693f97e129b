"""C16 every name, attribute, argument list and index that is reached resolves."""
import ast
import builtins
import symtable
from .common import *
from ..params import *

EXPLANATION = ("Abstract interpretation of every public entry point with the arguments its documentation describes, and of every function of the package "
               "with unknown arguments: a name that resolves to nothing, a local read on a path where it was never bound, an attribute no object that "
               "reaches the access has, a call whose arguments do not fit the callee, an index outside the rank of the array, arithmetic on None, an "
               "import of a name that does not exist, a call that returns nothing on every path. A symbol-table "
               "pass resolves every global name of every scope, reached or not.")
FLOOR = 2500
# raised for the documented arguments of an entry point
ROOT_KINDS = {"unbound", "noname", "missingimport", "noattr", "badcall", "badindex", "badkey", "noneitem", "noneop", "noneattr", "badunpack",
              "deprecated"}
# raised whatever the arguments are
ANY_KINDS = {"unbound", "noname", "missingimport"}
SAY = {"unbound": "the local %(name)s is read before anything is bound to it", "noname": "the name %(name)s is defined nowhere",
       "missingimport": "%(name)s does not exist", "noattr": "%(cls)s has no attribute %(attr)s (%(why)s)", "badcall": "%(callee)s: %(why)s",
       "badindex": "%(why)s", "badkey": "no key %(key)s", "noneitem": "None is indexed", "noneop": "arithmetic on None", "noneattr": "None has no attribute %(attr)s",
       "badunpack": "%(why)s", "deprecated": "numpy has removed %(name)s"}


def key(e):
    d = e.data
    t = d.get("name") or d.get("attr") or d.get("callee") or d.get("why") or d.get("key") or e.text[:60]
    return "%s|%s|%s" % (e.kind, short(e.qual), short(str(t)))


def report(ctx, e, r):
    ctx.bad(key(e), "%s: %s" % (e.text[:80], SAY[e.kind] % dict({"name": "", "attr": "", "cls": "", "why": "", "callee": "", "key": ""}, **e.data)), e.where, path(e))


def check(ctx):
    rs = runs(ctx, keep=ROOT_KINDS)
    for r in rs:
        ctx.ob(1 + len(r.analysed))
        for e in r.events:
            report(ctx, e, r)
        if r.result.k == "never":
            ctx.bad("never|%s" % short(r.root), "%s returns on no path: every path ends in an exception" % short(r.root), r.name())
    p = project()
    every = {f.fullname: [{}] for f in p.all_functions()}
    rs = run_all(every, keep=ANY_KINDS, tolerate=True)
    ctx.use(rs)
    for r in rs:
        ctx.ob()
        for e in r.events:
            report(ctx, e, r)
    for k, why in scopes(p, ctx):
        ctx.bad(k[0], why, k[1])


def scopes(p, ctx=None):
    """global names of every scope that neither the module nor the builtins define"""
    out = []
    known = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__class__", "__package__"}
    for m in p.modules.values():
        if any(not s.startswith("qampy") for s in m.stars):
            continue
        lines = {}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                lines.setdefault(n.id, []).append(n.lineno)

        def rec(t, qual):
            for s in t.get_symbols():
                nm = s.get_name()
                if ctx is not None:
                    ctx.ob()
                if s.is_referenced() and s.is_global() and nm not in known and m.lookup(nm) is None:
                    lo = t.get_lineno()
                    ln = min([x for x in lines.get(nm, []) if x >= lo] or [lo])
                    out.append((("noname|%s|%s" % (short(m.name + ("." + qual if qual else "")), nm), "%s:%d" % (p.relpath(m), ln)),
                                "the name %s is defined nowhere" % nm))
            for c in t.get_children():
                q = c.get_name() if not qual else qual + "." + c.get_name()
                rec(c, q if c.get_type() in ("class", "function") and c.get_name() not in ("listcomp", "genexpr", "dictcomp", "setcomp", "lambda") else qual)
        rec(symtable.symtable(m.src, m.path, "exec"), "")
    return out


def selftest():
    kinds = {"unbound", "noname", "noattr", "badcall", "badindex"}
    for fn, cfg, want in (("nameless", {"x": Arr()}, "noname"), ("unboundlocal", {"x": Arr()}, "unbound"), ("wrongargs", {"x": Arr()}, "badcall"),
                          ("tooflat", {"x": Arr(("L",))}, "badindex")):
        r = fixture_runs(fn, cfg, keep=kinds)
        if not any(e.kind == want for e in r.events):
            return "%s in fixture %s not reported" % (want, fn)
    r = fixture_runs("pure", {"x": Arr()}, keep=kinds)
    if r.events:
        return "false report in fixture pure"
    if not any("undefined_helper" in k[0] for k, w in scopes(fixture())):
        return "undefined global not reported"
