"""C05 saving and loading."""
import os
from .common import *
from . import meta
from .c04 import CLASSES, COMMON, expected
from ..params import *
from ..project import Project
from ..engine import _P
from ..roots import INT, FB, RATE, E2, STR
from ..params import Lst, Arr

EXPLANATION = ("Probe programs (save, then load; save twice, then load; store by method; reduce and set the state of another array; create a signal from a matlab file) are analysed together with the current source for every "
               "signal class. Files and byte encodings are modelled as layers: the reader has to undo, in reverse order, exactly the encodings the writer applied, on a file of the same name, opened in binary mode, "
               "replaced, wholly read and closed; the object that comes back must be of the class and carry the attributes of the one that was stored.")
FLOOR = 200
PROBES = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "probes", "files.py")
DOUBLE = [Sig("qampy.signals.%s" % c, prec="D", **dict(COMMON, dtype=DType("numpy.complex128"))) for c in ("SignalQAMGrayCoded", "SignalPSKGrayCoded")]
KEEP = {"codec", "noattr", "badunpack", "badcall"}


def unclosed(I, v, st, f):
    return [(fl["mode"], "%s:%d" % (fl["node"].__class__.__name__, fl["node"].lineno)) for fl in I.files if not fl["closed"]] + \
        [("untruncated", fl["mode"]) for fl in I.files if fl["out"] and not fl.get("truncated") and any("r+" in x.replace("b", "") for x in fl["modes"])]


def parts(p, ctx):
    """real part + 1j * imaginary part of the same mode, in that order, in the matlab reader"""
    import ast
    f = p.functions.get("qampy.core.io.ndarray_from_matlab") if hasattr(p, "functions") else p.modules["qampy.core.io"].functions.get("ndarray_from_matlab")
    if f is None:
        raise AnalysisBroken("the matlab reader is gone")

    def chain(e):
        for n in ast.walk(e):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Name) and n.value.value.id in ("keys", "portmap"):
                return n.value.value.id, n.value.slice, n.slice

    def imag(e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            for a, b in ((e.left, e.right), (e.right, e.left)):
                if isinstance(a, ast.Constant) and isinstance(a.value, complex):
                    return b

    n = 0

    def visit(node, loops):
        nonlocal n
        if isinstance(node, ast.For) and isinstance(node.target, ast.Name):
            loops = loops + [node.target.id]
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            for re_, im_ in ((node.left, imag(node.right)), (node.right, imag(node.left))):
                if im_ is None:
                    continue
                a, b = chain(re_), chain(im_)
                if a is None or b is None:
                    continue
                n += 1
                ctx.ob()
                what = None
                if a[0] != b[0] or ast.dump(a[1]) != ast.dump(b[1]):
                    what = "real and imaginary part are taken from different modes"
                elif isinstance(a[2], ast.Constant) and isinstance(b[2], ast.Constant) and (a[2].value, b[2].value) != (0, 1):
                    what = "real and imaginary part are not the first and second entry"
                elif loops and not any(isinstance(x, ast.Name) and x.id in loops for x in ast.walk(a[1])):
                    what = "every mode is taken from the same entry"
                if what:
                    ctx.bad("matlab-parts|%s" % a[0], "%s: %s" % (ast.unparse(node), what), "%s:%d" % ("core/io.py", node.lineno))
        for c in ast.iter_child_nodes(node):
            visit(c, loops)
    visit(f.node, [])
    ctx.cov["complex_numbers_put_together_in_the_matlab_reader"] = n


def check(ctx):
    p = Project()
    parts(p, ctx)
    p.add_source("qampy._probe_files", open(PROBES).read())
    m = p.modules["qampy._probe_files"]
    _P["p"] = p
    args = {"fn": STR, "lvl": INT, "other": QAM(), "arr": E2, "fs": RATE, "keys": Lst(STR)}
    roots = {}
    for nm, f in m.functions.items():
        for sd in list(CLASSES.values()) + DOUBLE:
            roots.setdefault("qampy._probe_files." + nm, []).append(dict({k: v for k, v in args.items() if k in f.pos}, sig=sd))
    rs = run_all(roots, keep=KEEP, post=unclosed)
    ctx.use(rs)
    done = 0
    for r in rs:
        nm = r.root.split(".")[-1]
        src = r.final["sig"]
        cn = src.cls.split(".")[-1]
        exp = expected(p, CLASSES[cn], {"fs": "fs"} if nm == "matlab" else {})
        for e in r.events:
            ctx.bad("%s|%s" % (e.kind, short(e.qual)), "%s of a %s: %s: %s" % (nm, cn, e.text, e.data.get("what") or e.data), e.where, path(e))
        for mode, w in r.extra:
            if mode == "untruncated":
                ctx.bad("untruncated|%s" % nm, "%s of a %s: the file is written without being truncated: the tail of a longer old file stays" % (nm, cn), "core.io")
                continue
            ctx.bad("unclosed|%s|%s" % (nm, mode), "%s of a %s: the file opened with mode %r is never closed" % (nm, cn, mode), "core.io")
        sigs = [s for s in r.result.alts() if s.k == "inst"]
        if not sigs:
            ctx.ob()
            if r.result.k == "never":
                ctx.bad("raises|%s" % nm, "%s of a %s raises" % (nm, cn), r.root)
            elif all(s.k in ("num", "const", "tuple", "list", "dict", "bytes") for s in r.result.alts()):
                ctx.bad("class|%s" % nm, "%s of a %s: what comes back is no signal object" % (nm, cn), r.root)
            else:
                ctx.undecided("%s %s" % (cn, nm))
            continue
        for s in sigs:
            ctx.ob(1 + len(src.attrs))
            done += 1
            for k, what in meta.compare(src, s, "sig", exp):
                ctx.bad("lost|%s|%s" % (nm, k), "after '%s' of a %s: %s %s" % (nm, cn, k, what), "signals." + cn)
            if nm not in ("matlab", "pickled") and s.f is not None:
                for k in ("kind", "prec", "shape", "unit", "deg"):
                    a, b = getattr(src.f, k), getattr(s.f, k)
                    if a is not None and b is not None and a != b:
                        ctx.bad("content|%s|%s" % (nm, k), "after '%s' of a %s the array is another one (%s %s, not %s)" % (nm, cn, k, b, a), "signals." + cn)
        ctx.sample("%s %s: %d attributes come back" % (cn, nm, len(src.attrs)))
    ctx.cov["probes"] = sorted(m.functions)
    ctx.cov["classes"] = sorted(CLASSES)
    ctx.cov["round_trips_followed"] = done
    if len(rs) < 35:
        raise AnalysisBroken("only %d round trips analysed" % len(rs))


def selftest():
    for n, bad in (("codec_ok", False), ("codec_layers", True), ("codec_text", True), ("codec_append", True)):
        r = fixture_runs(n, {"fn": STR, "x": Arr()}, keep={"codec"})
        if bool(r.events) != bad:
            return "%s misjudged" % n
