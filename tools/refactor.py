#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole package, to see that the checks stay quiet on them.
usage: refactor.py [-l] [-k DIR] [--only SUBSTR] TRANSFORM ... -- CHECK ...      (defaults: all transforms, all checks)"""
import ast
import builtins
import copy
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def pure(e):
    return not any(isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(e))


class T:
    """one transform: func(f, mod) changes a function in place and may add helper definitions to mod.extra"""
    omp = False


ALL = {}


def transform(fn):
    ALL[fn.__name__] = fn
    return fn


def blocks(f):
    for n in ast.walk(f):
        for k in ("body", "orelse", "finalbody"):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, k, b


@transform
def rename(f, mod):
    loc = names(f, ast.Store)
    for x in ast.walk(f):
        if isinstance(x, (ast.Global, ast.Nonlocal)):
            loc -= set(x.names)
        if isinstance(x, (ast.FunctionDef, ast.Lambda)):
            loc -= set(params(x))
    m = {n: n + "_v" for n in loc}
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and x.id in m:
            x.id = m[x.id]
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant) and str(x.value.value).startswith("#omp"):
            x.value.value = re.sub(r"\b\w+\b", lambda q: m.get(q.group(0), q.group(0)), x.value.value)


@transform
def rettemp(f, mod):
    for n, k, b in list(blocks(f)):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                out.append(ast.Assign([ast.Name("result_", ast.Store())], s.value, lineno=0))
                s = ast.Return(ast.Name("result_", ast.Load()))
            out.append(s)
        b[:] = out


@transform
def invert(f, mod):
    for n in ast.walk(f):
        if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body


@transform
def commute(f, mod):
    for n in ast.walk(f):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.List, ast.Tuple, ast.Constant)) and not isinstance(getattr(x, "value", 1), (int, float, complex)) for x in (n.left, n.right)):
            n.left, n.right = n.right, n.left


@transform
def compare(f, mod):
    sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in ast.walk(f):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in sw:
            n.left, n.comparators, n.ops = n.comparators[0], [n.left], [sw[type(n.ops[0])]()]


@transform
def hoist(f, mod):
    """the first argument of a call gets a name"""
    c = [0]
    for n, k, b in list(blocks(f)):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
            if isinstance(v, ast.Call) and v.args and isinstance(v.args[0], (ast.BinOp, ast.Call, ast.Subscript, ast.Attribute)):
                c[0] += 1
                t = "arg_%d" % c[0]
                out.append(ast.Assign([ast.Name(t, ast.Store())], v.args[0], lineno=0))
                v.args[0] = ast.Name(t, ast.Load())
            out.append(s)
        b[:] = out


@transform
def helper(f, mod):
    """right-hand sides become module functions"""
    glob = mod.globals | set(dir(builtins))
    for n in ast.walk(f):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f:
            return
    for s in ast.walk(f):
        if isinstance(s, ast.Assign) and isinstance(s.value, (ast.BinOp, ast.Call)) and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Starred, ast.NamedExpr)) for x in ast.walk(s.value)):
            if "super" in names(s.value) or "__class__" in names(s.value):
                continue
            a = sorted(names(s.value) - glob | (names(s.value) & mod.shadow(f)))
            if not a:
                continue
            h = "_part_%d" % len(mod.extra)
            mod.extra.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(x) for x in a], None, [], [], None, []), [ast.Return(s.value)], [], lineno=0))
            s.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(x, ast.Load()) for x in a], [])


@transform
def body(f, mod):
    """the function's body becomes a helper function (methods keep theirs)"""
    if f in mod.methods or f.decorator_list or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)):
        return
    h = "_%s_body" % f.name.lstrip("_")
    g = copy.deepcopy(f)
    g.name = h
    g.args.defaults, g.args.kw_defaults = [], [None] * len(g.args.kwonlyargs)
    mod.extra.append(g)
    a = f.args
    call = ast.Call(ast.Name(h, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()))] if a.vararg else []),
                    [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
    f.body = [ast.Return(call)]


@transform
def methodbody(f, mod):
    """the body of methods becomes a module function"""
    if f not in mod.methods or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f)) or f.name == "__new__" or any(x in names(f) for x in ("super", "__class__")):
        return
    h = "_%s_body_%d" % (f.name.strip("_"), len(mod.extra))
    g = copy.deepcopy(f)
    g.name = h
    g.decorator_list = []
    g.args.defaults, g.args.kw_defaults = [], [None] * len(g.args.kwonlyargs)
    mod.extra.append(g)
    a = f.args
    call = ast.Call(ast.Name(h, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()))] if a.vararg else []),
                    [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
    f.body = [ast.Return(call)]


@transform
def ifexp(f, mod):
    for n, k, b in list(blocks(f)):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                e = s.value
                s = ast.If(e.test, [ast.Assign(s.targets, e.body, lineno=0)], [ast.Assign(copy.deepcopy(s.targets), e.orelse, lineno=0)])
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                e = s.value
                s = ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])
            out.append(s)
        b[:] = out


@transform
def toifexp(f, mod):
    for n, k, b in list(blocks(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]) and isinstance(x.targets[0], ast.Name):
                    b[i] = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value), lineno=0)
                elif isinstance(x, ast.Return) and isinstance(y, ast.Return) and x.value is not None and y.value is not None:
                    b[i] = ast.Return(ast.IfExp(s.test, x.value, y.value))


@transform
def elseless(f, mod):
    """no else after return or raise"""
    for n, k, b in list(blocks(f)):
        while b and isinstance(b[-1], ast.If) and b[-1].orelse and isinstance(b[-1].body[-1], (ast.Return, ast.Raise)):
            s = b[-1]
            b += s.orelse
            s.orelse = []


@transform
def swap(f, mod):
    """independent neighbouring assignments change places"""
    for n, k, b in list(blocks(f)):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not any(isinstance(q, (ast.Attribute,)) and False for q in ast.walk(s)) for s in (x, y)):
                calls = [not pure(s.value) for s in (x, y)]
                if x.targets[0].id not in names(y) and y.targets[0].id not in names(x) and (not all(calls)) and not (any(calls) and any(isinstance(q, (ast.Subscript, ast.Attribute)) for s in (x, y) for q in ast.walk(s.value) if pure(s.value))):
                    b[i], b[i + 1] = y, x
                    i += 1
            i += 1


@transform
def tuples(f, mod):
    """independent neighbouring assignments become one"""
    for n, k, b in list(blocks(f)):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if all(isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) for s in (x, y)) and x.targets[0].id not in names(y) and x.targets[0].id != y.targets[0].id:
                b[i:i + 2] = [ast.Assign([ast.Tuple([x.targets[0], y.targets[0]], ast.Store())], ast.Tuple([x.value, y.value], ast.Load()), lineno=0)]
            i += 1


@transform
def unaug(f, mod):
    """x += 1 written out, for names"""
    scal = {s.targets[0].id for s in ast.walk(f) if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float))}
    for n, k, b in list(blocks(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in scal and not (i and isinstance(b[i - 1], ast.Expr)):
                b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value), lineno=0)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript) and pure(s.target):
                l = copy.deepcopy(s.target)
                for q in ast.walk(l):
                    if hasattr(q, "ctx"):
                        q.ctx = ast.Load()
                b[i] = ast.Assign([s.target], ast.BinOp(l, s.op, s.value), lineno=0)


@transform
def square(f, mod):
    for p in ast.walk(f):
        for k, v in ast.iter_fields(p):
            for i, e in enumerate(v if isinstance(v, list) else [v]):
                if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant) and e.right.value == 2 and pure(e.left):
                    r = ast.BinOp(e.left, ast.Mult(), copy.deepcopy(e.left))
                    if isinstance(v, list):
                        v[i] = r
                    else:
                        setattr(p, k, r)


@transform
def methods(f, mod):
    """np.mean(x, ...) as x.mean(...) and back"""
    ok = {"mean", "sum", "max", "min", "conj", "cumsum", "std", "flatten", "astype", "copy"}
    for e in ast.walk(f):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            if isinstance(e.func.value, ast.Name) and e.func.value.id == "np" and e.func.attr in ("mean", "sum", "max", "min", "cumsum", "std") and e.args and isinstance(e.args[0], ast.BinOp) and not any(isinstance(x, ast.Name) and x.id in params(f) and False for x in ast.walk(e.args[0])):
                e.func.value = e.args.pop(0)
            elif e.func.attr == "conj" and not e.args and "np" in mod.globals and not (isinstance(e.func.value, ast.Name) and e.func.value.id == "np"):
                e.args = [e.func.value]
                e.func = ast.Attribute(ast.Name("np", ast.Load()), "conj", ast.Load())


@transform
def keywords(f, mod):
    """positional arguments by name, for functions of the same module"""
    for e in ast.walk(f):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in mod.funcs and not any(isinstance(a, ast.Starred) for a in e.args):
            g = mod.funcs[e.func.id]
            ps = [a.arg for a in g.args.args]
            if g.args.vararg or len(e.args) > len(ps) or g.args.posonlyargs or names(f, ast.Store) & {e.func.id}:
                continue
            e.keywords = [ast.keyword(p, a) for p, a in zip(ps, e.args)] + e.keywords
            e.args = []


@transform
def loops(f, mod):
    """for i in range(n) as a while loop; comprehensions of a single for as loops"""
    for n, k, b in list(blocks(f)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range" and len(s.iter.args) == 1 \
                    and not any(isinstance(x, (ast.Continue,)) for x in ast.walk(s)) and s.target.id not in names(ast.Module(s.body, []), ast.Store) and not (i and isinstance(b[i - 1], ast.Expr)) and isinstance(s.iter.args[0], (ast.Name, ast.Constant, ast.Attribute)):
                t = s.target.id
                inc = ast.AugAssign(ast.Name(t, ast.Store()), ast.Add(), ast.Constant(1))
                b[i:i + 1] = [ast.Assign([ast.Name(t, ast.Store())], ast.Constant(0), lineno=0), ast.While(ast.Compare(ast.Name(t, ast.Load()), [ast.Lt()], [s.iter.args[0]]), s.body + [inc], [])]
                i += 1
            i += 1


@transform
def ranges(f, mod):
    """range(n) as range(0, n), np.arange likewise"""
    for e in ast.walk(f):
        if isinstance(e, ast.Call) and len(e.args) == 1 and not e.keywords and (isinstance(e.func, ast.Name) and e.func.id == "range" or isinstance(e.func, ast.Attribute) and e.func.attr == "arange"):
            e.args.insert(0, ast.Constant(0))


@transform
def comps(f, mod):
    c = [0]
    for n, k, b in list(blocks(f)):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            tgt = None
            if isinstance(v, ast.ListComp):
                tgt = v
            elif isinstance(v, ast.Call) and len(v.args) == 1 and isinstance(v.args[0], ast.ListComp):
                tgt = v.args[0]
            if tgt is not None and len(tgt.generators) == 1 and not (names(tgt.generators[0].target) & names(f, ast.Store) - names(tgt, ast.Store)):
                c[0] += 1
                t = "items_%d" % c[0]
                g = tgt.generators[0]
                inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append", ast.Load()), [tgt.elt], []))]
                for q in g.ifs:
                    inner = [ast.If(q, inner, [])]
                out += [ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load()), lineno=0), ast.For(g.target, g.iter, inner, [], lineno=0)]
                if tgt is v:
                    s.value = ast.Name(t, ast.Load())
                else:
                    v.args[0] = ast.Name(t, ast.Load())
            out.append(s)
        b[:] = out


@transform
def nothing(f, mod):
    f.body.insert(1 if ast.get_docstring(f) is not None and len(f.body) > 1 else 0, ast.Assign([ast.Name("unused_", ast.Store())], ast.Constant(0), lineno=0))


@transform
def splitexpr(f, mod):
    """products and sums are computed in two steps"""
    c = [0]
    for n, k, b in list(blocks(f)):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return)) else None
            if isinstance(v, ast.BinOp) and isinstance(v.left, (ast.BinOp, ast.Call)):
                c[0] += 1
                t = "lhs_%d" % c[0]
                out.append(ast.Assign([ast.Name(t, ast.Store())], v.left, lineno=0))
                v.left = ast.Name(t, ast.Load())
            out.append(s)
        b[:] = out


@transform
def divide(f, mod):
    """x/c as x*(1/c) for literals that divide exactly; -x as 0 - x is left alone"""
    for e in ast.walk(f):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Div) and isinstance(e.right, ast.Constant) and e.right.value in (2, 4, 8, 2., 4.):
            e.op, e.right = ast.Mult(), ast.Constant(1 / e.right.value)
        elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult) and isinstance(e.right, ast.Constant) and e.right.value == 1j and False:
            pass


@transform
def tern(f, mod):
    """conditions get a name"""
    c = [0]
    for n, k, b in list(blocks(f)):
        out = []
        for s in b:
            if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp, ast.Call)) and not (isinstance(n, ast.If) and k == "orelse" and len(b) == 1):
                c[0] += 1
                out.append(ast.Assign([ast.Name("cond_%d" % c[0], ast.Store())], s.test, lineno=0))
                s.test = ast.Name("cond_%d" % c[0], ast.Load())
            out.append(s)
        b[:] = out


@transform
def lastdim(f, mod):
    """shape[-1] by way of a name, x.shape by np.shape(x)"""
    if "np" not in mod.globals:
        return
    class V(ast.NodeTransformer):
        def visit_Attribute(self, a):
            self.generic_visit(a)
            if a.attr == "shape" and isinstance(a.ctx, ast.Load) and isinstance(a.value, ast.Name):
                return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "shape", ast.Load()), [a.value], [])
            return a
    V().visit(f)


class Mod:
    pass


def enc(src):
    return re.sub(r"^(\s*)#\s*omp (.*)$", lambda m: "%s%r" % (m.group(1), "#omp " + m.group(2)), src, flags=re.M)


def dec(src):
    return re.sub(r"^(\s*)(['\"])#omp (.*)\2$", lambda m: m.group(1) + "#omp " + m.group(3), src, flags=re.M)


def apply(root, tname, only=None):
    tr = ALL[tname]
    n = 0
    for d, _, fs in os.walk(os.path.join(root, "qampy")):
        for fn in fs:
            p = os.path.join(d, fn)
            if not fn.endswith(".py") or "/test" in d or only and only not in p:
                continue
            raw = open(p).read()
            src = enc(raw)
            try:
                tree = ast.parse(src)
            except SyntaxError:
                print("cannot parse", p)
                continue
            mod = Mod()
            mod.extra = []
            mod.globals = {x.id for s in tree.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not isinstance(s, (ast.FunctionDef, ast.ClassDef))}
            for s in ast.walk(tree):
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    mod.globals |= {(a.asname or a.name).split(".")[0] for a in s.names}
            mod.globals |= {s.name for s in tree.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
            mod.funcs = {s.name: s for s in tree.body if isinstance(s, ast.FunctionDef)}
            mod.methods = {s for c in tree.body if isinstance(c, ast.ClassDef) for s in c.body if isinstance(s, ast.FunctionDef)}
            mod.shadow = lambda f: set(params(f)) | names(f, ast.Store)
            lines = src.split("\n")
            tops = list(mod.funcs.values()) + sorted(mod.methods, key=lambda f: f.lineno)
            spans = []
            for f in tops:
                a = min([f.lineno] + [x.lineno for x in f.decorator_list]) - 1
                b = f.end_lineno
                ind = f.col_offset
                before = ast.unparse(f)
                k = len(mod.extra)
                tr(f, mod)
                ast.fix_missing_locations(f)
                after = ast.unparse(f)
                if before != after:
                    n += 1
                    spans.append((a, b, "\n".join(" " * ind + l if l else l for l in after.split("\n"))))
            for a, b, t in sorted(spans, reverse=True):
                lines[a:b] = [t]
            for g in mod.extra:
                lines.append("\n" + ast.unparse(ast.fix_missing_locations(g)))
            out = dec("\n".join(lines) + "\n")
            if spans:
                ast.parse(out)
                open(p, "w").write(out)
    return n


def main():
    av = sys.argv[1:]
    if av and av[0] == "-l":
        print(" ".join(ALL))
        return
    keep = only = None
    if "-k" in av:
        i = av.index("-k")
        keep = av[i + 1]
        del av[i:i + 2]
    if "--only" in av:
        i = av.index("--only")
        only = av[i + 1]
        del av[i:i + 2]
    cs = av[av.index("--") + 1:] if "--" in av else sorted(f[:-3].upper() for f in os.listdir(VERIF + "/qstatic/checks") if re.match(r"c\d+\.py$", f))
    ts = (av[:av.index("--")] if "--" in av else av) or list(ALL)
    for t in ts:
        root = keep or "/tmp/refactor_%d_%s" % (os.getpid(), t)
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        shutil.copytree(REPO + "/qampy", root + "/qampy", ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.cpp", "test"))
        try:
            n = apply(root, t, only)
            if keep:
                print(t, n, "functions")
                continue

            def one(c):
                r = subprocess.run([sys.executable, "-m", "qstatic.run", c], cwd=work, env=dict(os.environ, QSTATIC_ROOT=root, PYTHONHASHSEED="0"), capture_output=True, text=True)
                v = [l for l in r.stdout.splitlines() if l.startswith("  ")]
                u = re.search(r"(\d+) undecided", r.stdout)
                return c, r.returncode, v, u.group(1) if u else "?", r.stderr[-300:] if r.returncode not in (0, 1) else ""
            work = "/tmp/refactor_work_%d" % os.getpid()
            shutil.rmtree(work, ignore_errors=True)
            shutil.copytree(VERIF, work, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(one, cs))
            shutil.rmtree(work, ignore_errors=True)
            print("%-10s %4d functions  %s" % (t, n, " ".join("%s:%s%s" % (c, "ok" if rc == 0 else "ALARM" if rc == 1 else "ERROR", "" if u == "0" else "(%s)" % u) for c, rc, v, u, e in res)), flush=True)
            for c, rc, v, u, e in res:
                for l in v[:6]:
                    if rc:
                        print("      %s %s" % (c, l[:300]))
                if e:
                    print("      %s %s" % (c, e))
        finally:
            if not keep:
                shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
