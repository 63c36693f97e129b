"""Interprocedural, context-sensitive abstract interpreter for the subset of
Python used by the package.  It never executes repository code: it walks the
syntax trees and propagates abstract values (values.V)."""
import ast
import zlib
from fractions import Fraction
from .values import *
from .project import FuncInfo, ClassInfo, Module, AnalysisBroken
from . import npmodel


class Obj:
    __slots__ = ("kind", "elts", "elem", "items", "other", "attrs", "maybe", "cls", "aux")

    def __init__(self, kind, elts=None, elem=None, items=None, other=None, attrs=None, cls=None, maybe=None, aux=None):
        self.kind, self.elts, self.elem, self.items, self.other = kind, elts, elem, items, other
        self.attrs, self.cls = attrs, cls
        self.maybe = maybe if maybe is not None else set()
        self.aux = aux

    def copy(self):
        return Obj(self.kind, list(self.elts) if self.elts is not None else None, self.elem,
                   dict(self.items) if self.items is not None else None, self.other,
                   dict(self.attrs) if self.attrs is not None else None, self.cls, set(self.maybe), self.aux)


def join_obj(a, b):
    if a is b:
        return a
    if a.kind != b.kind:
        return a
    o = a.copy()
    if a.kind in ("list", "set"):
        if a.elts is not None and b.elts is not None and len(a.elts) == len(b.elts):
            o.elts = [join(x, y) for x, y in zip(a.elts, b.elts)]
        else:
            vals = (a.elts or []) + (b.elts or []) + [x for x in (a.elem, b.elem) if x is not None]
            e = None
            for x in vals:
                e = x if e is None else join(e, x)
            o.elts, o.elem = None, e
        o.aux = a.aux if a.aux == b.aux else (a.aux or b.aux)
    elif a.kind == "dict":
        ks = set(a.items) | set(b.items)
        it = {}
        for k in ks:
            if k in a.items and k in b.items:
                it[k] = join(a.items[k], b.items[k])
            else:
                it[k] = a.items.get(k) or b.items.get(k)
                o.maybe.add(k)
        o.items = it
        o.maybe |= b.maybe
        o.other = a.other if b.other is None else b.other if a.other is None else join(a.other, b.other)
    elif a.kind == "inst":
        ks = set(a.attrs) | set(b.attrs)
        for k in ks:
            if k in a.attrs and k in b.attrs:
                o.attrs[k] = join(a.attrs[k], b.attrs[k])
            else:
                o.attrs[k] = a.attrs[k] if k in a.attrs else b.attrs[k]
                o.maybe.add(k)
        o.maybe |= b.maybe
    return o


class State:
    __slots__ = ("env", "heap", "content", "maybe", "facts")

    def __init__(self, env=None, heap=None, content=None, maybe=None, facts=None):
        self.facts = facts if facts is not None else {}
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.content = content if content is not None else {}
        self.maybe = maybe if maybe is not None else set()

    def copy(self):
        return State(dict(self.env), dict(self.heap), dict(self.content), set(self.maybe), dict(self.facts))


def join_state(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b:
        return a
    s = State(maybe=a.maybe | b.maybe)
    if a.facts and b.facts:
        s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) == v}
    for k in set(a.env) | set(b.env):
        if k in a.env and k in b.env:
            s.env[k] = join(a.env[k], b.env[k])
        else:
            s.env[k] = a.env[k] if k in a.env else b.env[k]
            s.maybe.add(k)
    for k in set(a.heap) | set(b.heap):
        if k in a.heap and k in b.heap:
            s.heap[k] = join_obj(a.heap[k], b.heap[k])
        else:
            s.heap[k] = a.heap[k] if k in a.heap else b.heap[k]
    for k in set(a.content) | set(b.content):
        if k in a.content and k in b.content:
            s.content[k] = join(a.content[k], b.content[k])
        else:
            s.content[k] = a.content[k] if k in a.content else b.content[k]
    return s


def same_obj(a, b):
    if a is b:
        return True
    return (a.kind == b.kind and a.elts == b.elts and a.elem == b.elem and a.items == b.items and a.other == b.other
            and a.attrs == b.attrs and a.maybe == b.maybe and a.aux == b.aux)


def same_state(a, b):
    if a is b:
        return True
    if a.maybe != b.maybe or a.facts != b.facts or len(a.env) != len(b.env) or len(a.heap) != len(b.heap) or len(a.content) != len(b.content):
        return False
    for x, y in ((a.env, b.env), (a.content, b.content)):
        for k, v in x.items():
            w = y.get(k)
            if w is not v and w != v:
                return False
    for k, v in a.heap.items():
        w = b.heap.get(k)
        if w is None or not same_obj(v, w):
            return False
    return True


class Frame:
    def __init__(self, fi, module, closure=None, cls=None, selfv=None):
        self.fi, self.module, self.closure, self.cls, self.selfv = fi, module, closure, cls, selfv
        self.returns = []
        self.yields = []
        self.loops = []      # stack of dict(break=[], cont=[])
        self.st = None
        self.globals = set()
        self.loopsyms = []
        self.parloops = []


class Event:
    __slots__ = ("kind", "node", "func", "module", "data", "stack")

    def __init__(self, kind, node, func, module, data, stack):
        self.kind, self.node, self.func, self.module, self.data, self.stack = kind, node, func, module, data, stack

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    @property
    def qual(self):
        return self.func.fullname if self.func is not None else self.module.name

    def where(self):
        return "%s:%d" % (self.module.path.split("/repo/")[-1], self.line)


NOFORCE = {}


def given(test, t):
    """`x is None` decided for an x that has a value: filling in a default does not use the value"""
    return isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None \
        and (isinstance(test.ops[0], ast.Is) and t is False or isinstance(test.ops[0], ast.IsNot) and t is True)


class Interp:
    MAXDEPTH = 26
    MAXSTEPS = 400000

    def __init__(self, project, hooks=None):
        self.p = project
        self.events = []
        self._evkeys = set()
        self.okload = set()
        self.stack = []         # frames
        self.pc = EMPTY
        self.open_ifs = set()     # branches the analysis cannot decide
        self.pcmx = None          # the polarisation the current path was selected by
        self.pcx = (False, False) # was the current path selected by the amplitude, the phase?
        self.steps = 0
        self.hooks = hooks or {}
        self.analysed = set()   # FuncInfo fullnames
        self.calls = 0
        self.unknown_ext = {}
        self.modvars = {}
        self.clsattrs = {}
        self.truncated = 0
        self.used = EMPTY       # params consumed by raises / prints / external effects
        self.tested = EMPTY     # params some branch was decided by
        self.ctx = 0
        self.opts = {}
        self.files = []         # opened files
        self.disk = {}          # what was written: path -> value
        self.caught = []        # exception names handled by the enclosing try statements

    # the exception a definite error event stands for
    RAISES = {"noattr": "AttributeError", "badindex": "IndexError TypeError", "badkey": "KeyError", "noneitem": "TypeError",
              "noneop": "TypeError", "noneattr": "AttributeError", "badcall": "TypeError", "badunpack": "TypeError ValueError",
              "noname": "NameError", "unbound": "NameError UnboundLocalError", "missingimport": "ImportError AttributeError"}
    ANY = {"*", "Exception", "BaseException"}

    def caught_by(self, kind):
        return self.ANY | set(self.RAISES[kind].split())

    # ------------------------------------------------------------ events
    def ev(self, kind, node, **data):
        fr = self.stack[-1] if self.stack else None
        if self.caught and kind in self.RAISES and any(x & self.caught_by(kind) for x in self.caught):
            return
        key = (kind, fr.module.name if fr else None, getattr(node, "lineno", 0), getattr(node, "col_offset", 0),
               tuple(sorted((k, str(v)) for k, v in data.items())), self.opts.get("cfg"))
        if key in self._evkeys:
            return
        self._evkeys.add(key)
        self.events.append(Event(kind, node, fr.fi if fr else None, fr.module if fr else None, data,
                                 tuple(f.fi.fullname if f.fi else f.module.name for f in self.stack)))

    @property
    def fr(self):
        return self.stack[-1]

    @property
    def st(self):
        return self.stack[-1].st

    def site(self, node, tag="A"):
        return "%s:%s:%d:%d:%d" % (tag, self.fr.module.name.split(".")[-1], getattr(node, "lineno", 0),
                                   getattr(node, "col_offset", 0), self.ctx)

    # ------------------------------------------------------------ heap
    def alloc(self, node, obj, tag="H", f=None, al=EMPTY, k=None):
        rid = self.site(node, tag)
        n = 0
        self.st.heap[rid] = obj
        return V(k or obj.kind, rid, f, al, EMPTY, obj.cls)

    def obj(self, v):
        return self.st.heap.get(v.c)

    def wobj(self, v):
        o = self.st.heap.get(v.c)
        if o is None:
            return None
        o = o.copy()
        self.st.heap[v.c] = o
        return o

    def newlist(self, node, elts=None, elem=None):
        return self.alloc(node, Obj("list", elts=elts, elem=elem), "L")

    def newdict(self, node, items, other=None):
        return self.alloc(node, Obj("dict", items=items, other=other), "D")

    def fresh_num(self, node, f, dp=EMPTY):
        r = self.site(node, "A")
        self.st.content.pop(r, None)
        return V("num", None, f, frozenset([r]), dp)

    # ------------------------------------------------------------ functions
    def run(self, fi, args=None, kwargs=None, init=None, selfv=None):
        """Analyse fi as a root.  args: dict param->V (missing: default expression or unknown).
        init: callable(interp) run with an initial state to build heap objects, returns the args dict."""
        root = Frame(None, fi.module)
        root.st = State()
        self.stack = [root]
        self.pc = EMPTY
        self.used = EMPTY
        self.tested = EMPTY
        self.steps = 0
        if init is not None:
            args = init(self)
        r = self.call_func(fi, fi.node, [], {}, bound=dict(args or {}), root=True)
        st = root.st
        self.stack = []
        return r, st

    def bind(self, fi, node, pos, kw, selfv=None, star=None, dstar=None, bound=None, root=False):
        """bind arguments; returns (env, missing list)"""
        env = {}
        if bound is not None:
            env.update(bound)
        params = list(fi.pos)
        pos = list(pos)
        if selfv is not None:
            pos = [selfv] + pos
        i = 0
        for v in pos:
            if i < len(params):
                env[params[i]] = v
                i += 1
            else:
                break
        extra = pos[len(params):]
        if extra and fi.vararg is None:
            self.ev("badcall", node, callee=fi.fullname, why="too many positional arguments (%d for %d)" % (len(pos), len(params)))
        if fi.vararg:
            if star is not None and not extra:
                env[fi.vararg] = star
            else:
                env[fi.vararg] = tup(extra)
        rest = {}
        if bound is not None and fi.kwarg:
            for k in [k for k in env if k not in params and k not in fi.kwonly and k not in (fi.vararg, fi.kwarg)]:
                rest[k] = env.pop(k)
            if root and dstar is None:
                dstar = top(frozenset([fi.kwarg]))
        for k, v in kw.items():
            if k in params or k in fi.kwonly:
                if k in env and bound is None:
                    self.ev("badcall", node, callee=fi.fullname, why="argument '%s' given twice" % k)
                env[k] = v
            elif fi.kwarg:
                rest[k] = v
            else:
                self.ev("badcall", node, callee=fi.fullname, why="unexpected keyword argument '%s'" % k)
        if fi.kwarg and fi.kwarg not in env:
            env[fi.kwarg] = V("dict", None)     # replaced in frame
            env["\0kw"] = (rest, dstar)
        missing = []
        for p in params + fi.kwonly:
            if p not in env:
                if p in fi.defaults:
                    env[p] = ("default", fi.defaults[p])
                elif star is not None and p in params:
                    env[p] = npmodel.elem_of(self, star, node)
                elif dstar is not None and not root:
                    env[p] = dstar
                else:
                    missing.append(p)
        if missing and not root:
            self.ev("badcall", node, callee=fi.fullname, why="missing argument(s) %s" % ", ".join(missing))
        for p in missing:
            env[p] = top(frozenset([p]) if root else EMPTY)
        return env

    def eval_default(self, fi, p, expr):
        fr = self.fr
        v = self.eval(expr)
        if v.k in ("list", "dict"):
            rid = "DEF:%s:%s" % (fi.fullname, p)
            self.st.heap[rid] = self.obj(v)
            v = v.cp(c=rid)
        return v

    def call_func(self, fi, node, pos, kw, selfv=None, star=None, dstar=None, bound=None, root=False, closure=None):
        self.calls += 1
        if len(self.stack) > self.MAXDEPTH or any(f.fi is fi for f in self.stack[-8:]) and sum(f.fi is fi for f in self.stack) >= 2:
            self.truncated += 1
            return top(self.args_deps(pos, kw))
        hook = self.hooks.get("call")
        env = self.bind(fi, node, pos, kw, selfv, star, dstar, bound, root)
        caller = self.fr
        fr = Frame(fi, fi.module, closure, fi.cls, selfv)
        fr.st = State({}, caller.st.heap, caller.st.content, set())
        octx = self.ctx
        self.ctx = zlib.crc32(("%d,%d,%d,%s" % (octx, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), fi.fullname)).encode()) % 1000003 if not root else 0
        if self.st.content and not root:
            # buffers this call allocates are new ones: forget what an earlier loop pass stored in their predecessors
            suf = ":%d" % self.ctx
            for r in [r for r in self.st.content if r.endswith(suf)]:
                del self.st.content[r]
        self.stack.append(fr)
        opc = self.pc
        try:
            kwrest = env.pop("\0kw", None)
            for p, v in env.items():
                if isinstance(v, tuple) and v and v[0] == "default":
                    fr.st.env[p] = self.eval_default(fi, p, v[1])
                    if root:
                        fr.st.env[p] = fr.st.env[p].dep(frozenset([p]))
                else:
                    fr.st.env[p] = v
            if kwrest is not None:
                rest, ds = kwrest
                fr.st.env[fi.kwarg] = self.newdict(fi.node, dict(rest), ds)
            if hook is not None:
                r = hook(self, fi, node, fr.st.env, caller)
                if r is not None:
                    return r
            self.analysed.add(fi.fullname)
            if isinstance(fi.node, ast.Lambda):
                r = self.eval(fi.node.body)
                caller.st.heap, caller.st.content = fr.st.heap, fr.st.content
                return r
            end = self.block(fi.node.body)
            if end is not None:
                fr.returns.append((NONE.dep(self.pc - opc), end, None))
            if not fr.returns:
                # every path raises (or a generator that never ends)
                if not fi.isgen:
                    return V("never")
                fr.returns.append((NONE, State({}, caller.st.heap, caller.st.content, set()), None))
            if fi.isgen:
                e = None
                for y in fr.yields:
                    e = y if e is None else join(e, y)
                out = fr.returns[0][1]
                for _, s, _n in fr.returns[1:]:
                    out = join_state(out, s)
                caller.st.heap, caller.st.content = out.heap, out.content
                return V("iter", e or top())
            # the joined heap
            out = None
            rv = None
            for v, s, _n in fr.returns:
                out = s if out is None else join_state(out, s)
                rv = v if rv is None else join(rv, v)
            caller.st.heap, caller.st.content = out.heap, out.content
            rh = self.hooks.get("return")
            if rh is not None:
                r2 = rh(self, fi, node, fr, rv, caller)
                if r2 is not None:
                    rv = r2
            if root:
                self.root_frame = fr
            return rv
        finally:
            self.stack.pop()
            self.ctx = octx
            self.pc = opc

    def args_deps(self, pos, kw):
        d = EMPTY
        for v in list(pos) + list(kw.values()):
            d |= self.deep_deps(v)
        return d

    def deep_deps(self, v, depth=3):
        d = v.dp
        if v.k in ("num", "inst"):
            for r in v.al:
                cv = self.st.content.get(r)
                if cv is not None:
                    d |= cv.dp
        if depth == 0:
            return d
        if v.k in ("tuple", "union"):
            for e in v.c:
                d |= self.deep_deps(e, depth - 1)
        elif v.k in ("list", "dict", "inst"):
            o = self.obj(v)
            if o is not None:
                for e in (o.elts or []):
                    d |= self.deep_deps(e, depth - 1)
                for e in (o.elem, o.other):
                    if e is not None:
                        d |= self.deep_deps(e, depth - 1)
                if o.items:
                    for e in o.items.values():
                        d |= self.deep_deps(e, depth - 1)
                if v.k == "inst" and o.attrs and depth > 1:
                    for e in o.attrs.values():
                        d |= self.deep_deps(e, 1)
        elif v.k == "iter" and isinstance(v.c, V):
            d |= self.deep_deps(v.c, depth - 1)
        elif v.k in ("bound",):
            d |= self.deep_deps(v.c[1], depth - 1)
        return d

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        """execute statements from the current frame state; returns the end state or None"""
        fr = self.fr
        for s in stmts:
            self.steps += 1
            if self.steps > self.MAXSTEPS:
                raise AnalysisBroken("abstract interpretation step budget exceeded in %s" % fr.module.name)
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise AnalysisBroken("unsupported statement %s at %s:%d" % (type(s).__name__, fr.module.name, s.lineno))
            m(s)
            if fr.st is None:
                return None
        return fr.st

    def s_Expr(self, s):
        v = self.eval(s.value)
        if v.k == "never":
            self.fr.st = None

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            r = self.p.resolve_import(a.name if a.asname else nm, None)
            self.st.env[nm] = self.from_res(r, nm)

    def s_ImportFrom(self, s):
        base = s.module or ""
        if s.level:
            parts = self.fr.module.name.split(".")
            if not self.fr.module.is_pkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == "*":
                continue
            r = self.p.resolve_import(base, a.name)
            self.st.env[a.asname or a.name] = self.from_res(r, a.name)

    def s_Global(self, s):
        self.fr.globals.update(s.names)

    def s_Nonlocal(self, s):
        self.fr.globals.update(s.names)

    def s_FunctionDef(self, s):
        q = (self.fr.fi.qual + "." if self.fr.fi else "") + s.name
        fi = FuncInfo(self.fr.module, s, q)
        self.st.env[s.name] = V("func", fi, cls=self.fr)

    def s_ClassDef(self, s):
        self.st.env[s.name] = top()

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.eval(t.value)
                self.mutate(t, b, "del item")

    def s_Return(self, s):
        fr = self.fr
        v = self.eval(s.value) if s.value is not None else NONE
        if v.k == "never":
            fr.st = None
            return
        v = self.settle(v.dep(self.pc))
        fr.returns.append((v, fr.st, s))
        fr.st = None

    def settle(self, v):
        """fold the stored content of the arrays a value refers to into the value itself"""
        if v.k == "num":
            return self.overlay(v)
        if v.k == "inst":
            return self.overlay(v)
        if v.k == "tuple":
            return v.cp(c=tuple(self.settle(e) for e in v.c))
        if v.k == "union":
            return union([self.settle(e) for e in v.c])
        return v

    def s_Raise(self, s):
        if s.exc is not None:
            v = self.eval(s.exc)
            self.used |= self.deep_deps(v)
        self.used |= self.pc
        self.ev("raise", s)
        self.fr.st = None

    def s_Assert(self, s):
        v = self.eval(s.test)
        self.used |= self.deep_deps(v) | self.pc
        t = self.truth(v)
        if t is False:
            self.ev("assertfalse", s)
            self.fr.st = None
            return
        self.refine(s.test, True)
        if s.msg is not None:
            # only evaluated on failure; evaluate on a copy for name resolution
            sv = self.fr.st
            self.fr.st = sv.copy()
            self.eval(s.msg)
            self.fr.st = sv

    def s_Assign(self, s):
        v = self.eval(s.value)
        if v.k == "never":
            self.fr.st = None
            return
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.eval(s.value)
            self.assign(s.target, v, s)

    def bindname(self, name, v, node):
        fr = self.fr
        if name in fr.globals:
            self.ev("globalwrite", node, name=name, module=fr.module.name)
            return
        if (self.pcmx is not None or self.pcx != (False, False)) and v.k == "num":
            v = self.chosen(v)
        fr.st.env[name] = v.dep(self.pc)
        fr.st.maybe.discard(name)
        if fr.st.facts:
            self.drop_facts(name)

    def drop_facts(self, name):
        f = self.fr.st.facts
        for k in [k for k, (b, names) in f.items() if name in names]:
            del f[k]

    PURE_CALLS = {"isinstance", "issubclass", "hasattr", "callable", "len", "iscomplexobj", "isrealobj", "ndim", "isscalar", "type"}

    def fact_key(self, e):
        """(text, polarity, names) of a test whose value cannot change unless one of the names is rebound"""
        pol = True
        while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e, pol = e.operand, not pol
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.NotEq, ast.IsNot, ast.NotIn)):
            op = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[type(e.ops[0])]()
            e, pol = ast.Compare(e.left, [op], e.comparators), not pol
        names = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Name):
                names.add(n.id)
            elif isinstance(n, ast.Call):
                fn = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if fn not in self.PURE_CALLS:
                    return None
            elif isinstance(n, ast.Attribute):
                if n.attr not in ("ndim", "size", "shape", "dtype") and n.attr not in self.PURE_CALLS:
                    return None
            elif isinstance(n, (ast.Subscript, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.Yield, ast.Await)):
                return None
        return ast.unparse(e), pol, frozenset(names)

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.bindname(t.id, v, node)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, node)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value)
            self.setattr(b, t.attr, v, node)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value)
            idx = self.eval_index(t.slice)
            self.store_item(b, idx, v, t)

    def unpack(self, t, v, node):
        n = len(t.elts)
        st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        vs = []
        for a in alts(v):
            els = None
            if a.k == "tuple":
                els = list(a.c)
            elif a.k == "list":
                o = self.obj(a)
                if o is not None and o.elts is not None:
                    els = list(o.elts)
            elif a.k == "const" and isinstance(a.c, str):
                els = [const(x) for x in a.c]
            if els is not None and not st:
                if len(els) != n:
                    self.ev("badunpack", node, why="%d targets for %d values" % (n, len(els)))
                    els = (els + [top()] * n)[:n]
                els = [e.dep(a.dp) for e in els]
                vs.append(els)
            elif a.k == "const" and (a.c is None or isinstance(a.c, (int, float, bool))):
                self.ev("badunpack", node, why="cannot unpack %r" % (a.c,))
            elif a.k in ("never",):
                continue
            else:
                vs.append(npmodel.unpack_rows(self, a, n, node))
        if not vs:
            vs = [[top(v.dp)] * n]
        for i, e in enumerate(t.elts):
            x = vs[0][i]
            for w in vs[1:]:
                x = join(x, w[i])
            self.assign(e, x, node)

    def setattr(self, b, name, v, node):
        for a in alts(b):
            if a.k == "inst":
                o = self.obj(a)
                if o is None:
                    continue
                cls = o.cls
                if isinstance(cls, ClassInfo):
                    s = cls.lookup_setter(name)
                    if s is not None:
                        self.call_func(s, node, [v], {}, selfv=a)
                        continue
                    r = cls.lookup(name)
                    if r is not None and isinstance(r[1], FuncInfo) and r[1].kind == "prop":
                        self.ev("noattr", node, attr=name, cls=cls.name, why="property without setter")
                        continue
                o = self.wobj(a)
                o.attrs[name] = v.dep(self.pc)
                o.maybe.discard(name)
                self.ev("setattr", node, rid=str(a.c), attr=name)
                if str(a.c).startswith("P:"):
                    self.ev("mutate", node, region=str(a.c), how="attribute '%s' assigned" % name, attr=name)
            elif a.k == "class":
                self.ev("globalwrite", node, name=a.c.fullname + "." + name, module=self.fr.module.name)
            elif a.k == "func":
                self.ev("globalwrite", node, name=a.c.fullname + "." + name, module=self.fr.module.name)
            elif a.k == "mod":
                self.ev("globalwrite", node, name=str(a.c) + "." + name, module=self.fr.module.name)
            elif a.k in ("num", "top") and a.al:
                if name in ("shape", "dtype", "strides"):
                    self.mutate(node, a, "attribute '%s' assigned" % name)
                elif name in ("real", "imag", "flat"):
                    self.mutate(node, a, "assigned through .%s" % name)
                elif a.k == "top":
                    self.mutate(node, a, "attribute '%s' assigned" % name)

    def mutate(self, node, v, how, val=None):
        for a in alts(v):
            if a.k in ("list", "dict"):
                self.ev("mutate", node, region=str(a.c), how=how)
            if a.k == "inst" and not a.al:
                self.ev("mutate", node, region=str(a.c), how=how)
            for r in a.al:
                self.ev("mutate", node, region=str(r), how=how)

    def chosen(self, v):
        """a value picked on a path selected by one polarisation depends on that polarisation"""
        if self.pcx != (False, False) and v.k == "num" and v.f is not None:
            v = v.cp(f=v.f.cp(deg="X" if self.pcx[0] else v.f.deg, chg="X" if self.pcx[1] else v.f.chg))
        f = v.f
        if self.pcmx is None or f is None or f.mx not in ("C", "Z") or v.k not in ("num", "const") or (v.k == "const" and not isinstance(v.c, (int, float, complex))):
            return v
        return V("num", None, f.cp(mx=self.pcmx), v.al, v.dp)

    def store_item(self, b, idx, v, node):
        """b[idx] = v"""
        v = self.chosen(v)
        for a in alts(b):
            if a.k == "list":
                o = self.wobj(a)
                self.mutate(node, a, "item assigned")
                if o is None:
                    continue
                if o.elts is not None and idx.k == "const" and isinstance(idx.c, int) and -len(o.elts) <= idx.c < len(o.elts):
                    o.elts[idx.c] = v.dep(self.pc)
                else:
                    x = v.dep(self.pc | idx.dp)
                    for e in (o.elts or []):
                        x = join(x, e)
                    if o.elem is not None:
                        x = join(x, o.elem)
                    o.elts, o.elem = None, x
            elif a.k == "dict":
                self.mutate(node, a, "item assigned")
                o = self.wobj(a)
                if o is None:
                    continue
                if idx.k == "const":
                    o.items[idx.c] = v.dep(self.pc)
                    o.maybe.discard(idx.c)
                else:
                    x = v.dep(self.pc | idx.dp)
                    o.other = x if o.other is None else join(o.other, x)
            elif a.k in ("num", "inst", "top"):
                npmodel.store(self, a, idx, v.dep(self.pc), node)

    def overlay(self, v):
        """value with the stored contents of its buffers folded in"""
        return npmodel.overlay(self, v)

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            r = self.eval(s.value)
            if cur.k == "never" or r.k == "never":
                self.fr.st = None
                return
            outs = []
            for a in alts(cur):
                if a.k == "list" and isinstance(s.op, ast.Add):
                    npmodel.list_extend(self, a, r, s)
                    outs.append(a)
                    continue
                res = npmodel.binop(self, s, s.op, a, r)
                if a.k in ("num", "inst", "top") and npmodel.maybe_array(a):
                    self.mutate(s, a, "augmented assignment to '%s'" % t.id)
                    npmodel.store_content(self, a, res, s, whole=True)
                    keep = a.cp(dp=a.dp | res.dp)
                    if a.k == "num" and res.k in ("num", "inst") and res.f is not None:
                        keep = keep.cp(f=npmodel.inplace_facets(a.f, res.f))
                    elif a.k == "inst" and res.f is not None and a.f is not None:
                        keep = keep.cp(f=npmodel.inplace_facets(a.f, res.f))
                    outs.append(keep)
                else:
                    outs.append(res)
            if t.id in self.fr.globals:
                self.ev("globalwrite", s, name=t.id, module=self.fr.module.name)
            v = union(outs) if len(outs) > 1 else outs[0]
            self.st.env[t.id] = v.dep(self.pc)
            self.drop_facts(t.id)
        elif isinstance(t, ast.Attribute):
            b = self.eval(t.value)
            cur = self.getattr(b, t.attr, t)
            r = self.eval(s.value)
            res = npmodel.binop(self, s, s.op, cur, r)
            for a in alts(cur):
                if a.k in ("num", "inst", "top") and npmodel.maybe_array(a):
                    self.mutate(s, a, "augmented assignment to attribute '%s'" % t.attr)
            self.setattr(b, t.attr, res, s)
        elif isinstance(t, ast.Subscript):
            b = self.eval(t.value)
            idx = self.eval_index(t.slice)
            cur = self.getitem(b, idx, t)
            r = self.eval(s.value)
            res = npmodel.binop(self, s, s.op, cur, r)
            self.augsub = True
            self.store_item(b, idx, res, t)

    # control flow -------------------------------------------------------
    def s_If(self, s):
        fr = self.fr
        tv = self.eval(s.test)
        if tv.k == "never":
            fr.st = None
            return
        t = self.truth(tv)
        d = self.deep_deps(tv)
        if not given(s.test, t):
            self.tested |= d
        fk = None
        if t is None:
            fk = self.fact_key(s.test)
            if fk is not None:
                known = fr.st.facts.get(fk[0])
                if known is not None:
                    t = known[0] == fk[1]
        hook = self.hooks.get("branch")
        if hook is not None:
            hook(self, s, tv, t)
        if t is None:
            key = (fr.module.name, s.lineno, s.col_offset)
            self.open_ifs.add(key)
            t = self.opts.get("force", NOFORCE).get(key)
        opc = self.pc
        if t is True:
            self.refine(s.test, True)
            self.pc = opc | d if self.opts.get("const_pc") else opc
            self.block(s.body)
            self.pc = opc
            return
        if t is False:
            self.refine(s.test, False)
            self.pc = opc | d if self.opts.get("const_pc") else opc
            self.block(s.orelse)
            self.pc = opc
            return
        st0 = fr.st
        self.pc = opc | d
        opcmx = self.pcmx
        if tv.k == "num" and tv.f is not None and isinstance(tv.f.mx, tuple) and tv.f.mx[0] == "R" and opcmx is None:
            self.pcmx = tv.f.mx
        opcx = self.pcx
        if tv.k == "num" and tv.f is not None and "X" in (tv.f.deg, tv.f.chg):
            self.pcx = (tv.f.deg == "X" or opcx[0], tv.f.chg == "X" or opcx[1])
        fr.st = st0.copy()
        ok = self.refine(s.test, True)
        if fk is not None:
            fr.st.facts[fk[0]] = (fk[1], fk[2])
        a = self.block(s.body) if ok else None
        self.pc = opc | d
        fr.st = st0.copy()
        ok2 = self.refine(s.test, False)
        if fk is not None:
            fr.st.facts[fk[0]] = (not fk[1], fk[2])
        b = self.block(s.orelse) if ok2 else None
        self.pcmx = opcmx
        self.pcx = opcx
        if a is not None and b is not None:
            self.pc = opc
        else:
            self.pc = opc | d          # the rest of the function is control dependent
        fr.st = join_state(a, b)

    def s_While(self, s):
        fr = self.fr
        opc = self.pc
        loop = {"break": [], "cont": []}
        fr.loops.append(loop)
        exit_st = None
        cur = fr.st
        for it in range(4):
            fr.st = cur.copy()
            tv = self.eval(s.test)
            t = self.truth(tv)
            d = self.deep_deps(tv)
            if t is not True:
                sv = fr.st
                fr.st = sv.copy()
                if self.refine(s.test, False) and it > 0:
                    exit_st = join_state(exit_st, fr.st)
                elif it == 0:
                    zero = fr.st
                fr.st = sv
            if t is False:
                if it == 0:
                    exit_st = fr.st
                break
            self.pc = opc | d
            self.refine(s.test, True)
            fr.loopsyms.append(None)
            body = self.block(s.body)
            fr.loopsyms.pop()
            for c in loop["cont"]:
                body = join_state(body, c)
            loop["cont"] = []
            if body is None:
                break
            nxt = join_state(cur, body)
            if it and same_state(cur, nxt):
                break
            cur = nxt
        for b in loop["break"]:
            exit_st = join_state(exit_st, b)
        fr.loops.pop()
        if exit_st is None and cur is not None and not (isinstance(s.test, ast.Constant) and s.test.value):
            exit_st = cur
        fr.st = exit_st
        self.pc = opc
        if fr.st is not None and s.orelse:
            self.block(s.orelse)

    def s_For(self, s):
        fr = self.fr
        itv = self.eval(s.iter)
        if itv.k == "never":
            fr.st = None
            return
        opc = self.pc
        d = self.deep_deps(itv)
        exact = npmodel.exact_items(self, itv)
        loop = {"break": [], "cont": []}
        fr.loops.append(loop)
        if exact is not None and len(exact) <= 40:
            exit_st = None
            cur = fr.st
            for e in exact:
                fr.st = cur
                self.assign(s.target, e, s)
                fr.loopsyms.append(len(exact))
                b = self.block(s.body)
                fr.loopsyms.pop()
                for c in loop["cont"]:
                    b = join_state(b, c)
                loop["cont"] = []
                cur = b
                if cur is None:
                    break
            for b in loop["break"]:
                exit_st = join_state(exit_st, b)
            fr.loops.pop()
            if cur is not None:
                fr.st = cur
                if s.orelse:
                    self.block(s.orelse)
                cur = fr.st
            fr.st = join_state(exit_st, cur)
            self.pc = opc
            return
        sym = "%s%d" % (fr.module.name.split(".")[-1] + ":", s.lineno) + ":%d" % self.ctx
        hook = self.hooks.get("for")
        if hook is not None:
            hook(self, s, itv, sym)
        pre = fr.st
        cur = fr.st
        body_out = None
        self.pc = opc | d
        for it in range(4):
            fr.st = cur.copy()
            e = npmodel.iter_elem(self, itv, sym, s)
            self.assign(s.target, e.dep(d), s)
            fr.loopsyms.append(npmodel.iter_dim(itv))
            b = self.block(s.body)
            fr.loopsyms.pop()
            self.pc = opc | d
            for c in loop["cont"]:
                b = join_state(b, c)
            loop["cont"] = []
            if b is None:
                break
            body_out = b
            nxt = join_state(cur, npmodel.age(b, sym))
            nxt.maybe = set(cur.maybe) | {k for k in nxt.maybe if k not in cur.env}
            if it and same_state(cur, nxt):
                break
            cur = nxt
        exit_st = body_out
        for b in loop["break"]:
            exit_st = join_state(exit_st, b)
        fr.loops.pop()
        self.pc = opc
        if exit_st is None:
            # body never completes normally: only the zero-trip path leaves the loop
            fr.st = pre if body_out is None and not loop["break"] and not self.opts.get("trip") else None
        else:
            # contents of buffers from before the loop may survive (zero trips / other rows)
            for k, v in pre.content.items():
                if k in exit_st.content and exit_st.content[k] is not v:
                    exit_st.content[k] = join(exit_st.content[k], npmodel.age_v(v, sym))
            fr.st = npmodel.close_loop(self, exit_st, sym, pre, npmodel.iter_dim(itv))
        if fr.st is not None and s.orelse:
            self.block(s.orelse)

    def s_Break(self, s):
        self.fr.loops[-1]["break"].append(self.fr.st)
        self.fr.st = None

    def s_Continue(self, s):
        self.fr.loops[-1]["cont"].append(self.fr.st)
        self.fr.st = None

    def s_Try(self, s):
        fr = self.fr
        st0 = fr.st.copy()
        names = set()
        for h in s.handlers:
            if h.type is None:
                names.add("*")
            else:
                names |= {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(h.type)
                          if isinstance(n, (ast.Name, ast.Attribute))}
        self.caught.append(names)
        nret = len(fr.returns)
        try:
            a = self.block(s.body)
        finally:
            self.caught.pop()
        # 'happy': leave out the handlers of a body that gets through
        skip = self.opts.get("happy") and (a is not None or len(fr.returns) > nret)
        if a is not None and s.orelse:
            a = self.block(s.orelse)
        out = a
        for h in (() if skip else s.handlers):
            fr.st = join_state(st0.copy(), a.copy() if a is not None else None)
            fr.st.maybe = set(fr.st.maybe)
            if h.name:
                fr.st.env[h.name] = top()
            b = self.block(h.body)
            out = join_state(out, b)
        fr.st = out
        if s.finalbody and fr.st is not None:
            self.block(s.finalbody)

    def s_Match(self, s):
        fr = self.fr
        v = self.eval(s.subject)
        opc = self.pc
        self.pc = opc | self.deep_deps(v)
        st0, out, total = fr.st, None, False
        for c in s.cases:
            fr.st = st0.copy()
            for n in ast.walk(c.pattern):
                nm = getattr(n, "name", None) or getattr(n, "rest", None)
                if isinstance(nm, str):
                    fr.st.env[nm] = top(self.deep_deps(v), v.al)
            pat = c.pattern
            if isinstance(pat, ast.MatchValue):
                t = npmodel.compare_truth(self, ast.Eq(), v, self.eval(pat.value))
                if t is False:
                    continue
                total = total or (t is True and c.guard is None)
            elif isinstance(pat, ast.MatchAs) and pat.pattern is None and c.guard is None:
                total = True
            if c.guard is not None:
                self.eval(c.guard)
            out = join_state(out, self.block(c.body))
            if total:
                break
        if not total:
            out = join_state(out, st0)
        fr.st = out
        self.pc = opc

    def s_With(self, s):
        opened = []
        for i in s.items:
            v = self.eval(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, s)
            if v.k == "file":
                opened.append(v.c)
        self.block(s.body)
        for h in opened:
            self.files[h]["closed"] = True

    # ------------------------------------------------------------ truth / refinement
    def truth(self, v):
        if v.k == "const":
            return bool(v.c)
        if v.k in ("func", "class", "mod", "bound", "lambda", "dtype", "ext"):
            return True
        if v.k == "tuple":
            return len(v.c) > 0
        if v.k in ("list",):
            o = self.obj(v)
            if o is not None and o.elts is not None:
                return len(o.elts) > 0
        if v.k == "dict":
            o = self.obj(v)
            if o is not None and o.other is None and not o.maybe:
                return len(o.items) > 0
        if v.k == "union":
            ts = {self.truth(a) for a in v.c}
            if len(ts) == 1:
                return ts.pop()
        return None

    def refine(self, e, branch):
        """refine the state under test e == branch; returns False if infeasible"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, not branch)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) and branch or isinstance(e.op, ast.Or) and not branch:
                ok = True
                for x in e.values:
                    ok = self.refine(x, branch) and ok
                return ok
            return True
        if isinstance(e, ast.Name):
            v = self.st.env.get(e.id)
            if v is not None and v.k == "union":
                keep = [a for a in v.c if self.truth(a) in (branch, None)]
                if not keep:
                    return False
                self.st.env[e.id] = union(keep).dep(v.dp)
            return True
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = e.ops[0]
            l, r = e.left, e.comparators[0]
            if isinstance(r, ast.Name) and not isinstance(l, ast.Name):
                if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                    l, r = r, l
            if isinstance(l, ast.NamedExpr):
                l = l.target
            if isinstance(l, ast.Name) and l.id in self.st.env:
                v = self.st.env[l.id]
                if v.k == "union" or v.k == "const":
                    rv = self.quiet_eval(r)
                    keep = []
                    for a in alts(v):
                        t = npmodel.compare_truth(self, op, a, rv)
                        if t is None or t == branch:
                            keep.append(a)
                    if not keep:
                        return False
                    if v.k == "union":
                        self.st.env[l.id] = union(keep).dep(v.dp)
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "issubclass", "callable", "hasattr"):
            if e.args and isinstance(e.args[0], ast.Name) and e.args[0].id in self.st.env:
                nm = e.args[0].id
                v = self.st.env[nm]
                if v.k == "union":
                    keep = []
                    for a in v.c:
                        sv = self.st.env[nm]
                        self.st.env[nm] = a
                        t = self.truth(self.quiet_eval(e))
                        self.st.env[nm] = sv
                        if t is None or t == branch:
                            keep.append(a)
                    if not keep:
                        return False
                    self.st.env[nm] = union(keep).dep(v.dp)
            return True
        return True

    def quiet_eval(self, e):
        ev, keys = self.events, set(self._evkeys)
        self.events = []
        sv = self.fr.st
        self.fr.st = sv.copy()
        try:
            return self.eval(e)
        finally:
            self.fr.st = sv
            self.events, self._evkeys = ev, keys

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken("unsupported expression %s at %s:%d" % (type(e).__name__, self.fr.module.name, e.lineno))
        v = m(e)
        h = self.hooks.get("expr")
        if h is not None:
            v = h(self, e, v) or v
        return v

    def e_Constant(self, e):
        return const(e.value)

    def e_JoinedStr(self, e):
        d = EMPTY
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                d |= self.deep_deps(self.eval(x.value))
        return V("str", dp=d)

    def e_FormattedValue(self, e):
        return V("str", dp=self.deep_deps(self.eval(e.value)))

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Name(self, e):
        fr = self.fr
        st = fr.st
        if e.id in st.env:
            if e.id in st.maybe and fr.fi is not None:
                self.ev("maybeunbound", e, name=e.id)
            self.okload.add((fr.module.name, e.lineno, e.col_offset))
            return st.env[e.id]
        f2 = fr
        if fr.fi is not None and e.id in fr.fi.locals and e.id not in fr.globals and not fr.fi.name == "<lambda>":
            if getattr(fr, "comp", 0) == 0:
                self.ev("unbound", e, name=e.id)
                return top()
        cl = fr.closure
        while cl is not None:
            if cl.st is not None and e.id in cl.st.env:
                return cl.st.env[e.id]
            cl = cl.closure
        return self.global_name(fr.module, e.id, e)

    BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)

    def global_name(self, mod, name, e):
        r = mod.lookup(name)
        if r is None:
            if name in self.BUILTINS or name in ("__name__", "__file__"):
                return V("ext", "builtins." + name)
            if name == "__class__" and self.fr.cls is not None:
                return V("class", self.fr.cls)
            star_ext = any(not s.startswith("qampy") for s in mod.stars)
            if not star_ext:
                self.ev("noname", e, name=name)
            return top()
        return self.from_res(r, name, e)

    def from_res(self, r, name, e=None):
        if r is None:
            return top()
        if isinstance(r, FuncInfo):
            return V("func", r)
        if isinstance(r, ClassInfo):
            return V("class", r)
        if isinstance(r, Module):
            return V("mod", r)
        if r[0] == "ext":
            return npmodel.ext_value(self, r[1])
        if r[0] == "missing":
            if e is not None:
                self.ev("missingimport", e, name=r[1])
            return top()
        if r[0] == "var":
            return self.module_var(r[1], r[2])
        return top()

    def module_var(self, mod, name):
        key = (mod.name, name)
        if key in self.modvars:
            v = self.modvars[key]
            if v is None:
                return top()
            val, heap = v
            for k, o in heap.items():
                self.st.heap.setdefault(k, o)
            return val
        self.modvars[key] = None
        expr = mod.assigns.get(name)
        if expr is None:
            return top()
        fr = Frame(None, mod)
        fr.st = State()
        self.stack.append(fr)
        octx = self.ctx
        self.ctx = 7
        try:
            v = self.eval(expr)
            heap = {}
            if v.k in ("list", "dict"):
                rid = "G:%s.%s" % (mod.name, name)
                heap[rid] = self.obj(v)
                v = v.cp(c=rid)
            elif v.k in ("num", "inst", "top"):
                v = v.cp(al=frozenset(["G:%s.%s" % (mod.name, name)]))
            for k, o in fr.st.heap.items():
                heap.setdefault(k, o)
        finally:
            self.stack.pop()
            self.ctx = octx
        self.modvars[key] = (v, heap)
        for k, o in heap.items():
            self.st.heap.setdefault(k, o)
        return v

    def e_Tuple(self, e):
        els = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                it = npmodel.exact_items(self, v)
                if it is None:
                    return V("iter", npmodel.elem_of(self, v, e), dp=self.deep_deps(v))
                els.extend(it)
            else:
                els.append(self.eval(x))
        return tup(els)

    def e_List(self, e):
        t = self.e_Tuple(e)
        if t.k == "iter":
            return self.newlist(e, None, t.c)
        return self.newlist(e, list(t.c))

    def e_Set(self, e):
        t = self.e_Tuple(e)
        if t.k == "iter":
            return self.newlist(e, None, t.c)
        return self.newlist(e, list(t.c))

    def e_Dict(self, e):
        items, other = {}, None
        for k, v in zip(e.keys, e.values):
            vv = self.eval(v)
            if k is None:
                for a in alts(vv):
                    if a.k == "dict" and self.obj(a) is not None:
                        o = self.obj(a)
                        items.update(o.items)
                        if o.other is not None:
                            other = o.other if other is None else join(other, o.other)
                    else:
                        other = top(self.deep_deps(a))
                continue
            kk = self.eval(k)
            if kk.k == "const":
                items[kk.c] = vv
            else:
                other = vv if other is None else join(other, vv)
        return self.newdict(e, items, other)

    def e_Lambda(self, e):
        fi = FuncInfo(self.fr.module, e, (self.fr.fi.qual + "." if self.fr.fi else "") + "<lambda>")
        return V("func", fi, cls=self.fr)

    def comp(self, e, elt):
        """list/generator comprehension"""
        fr = self.fr
        saved = dict(fr.st.env)
        savedm = set(fr.st.maybe)
        fr.comp = getattr(fr, "comp", 0) + 1
        opc = self.pc
        syms = []
        res = []

        def rec(i):
            if i == len(e.generators):
                res.append(elt())
                return
            g = e.generators[i]
            itv = self.eval(g.iter)
            ex = npmodel.exact_items(self, itv)
            if ex is not None and len(ex) <= 40:
                fr.loopsyms.append(len(ex))
                for x in ex:
                    self.assign(g.target, x, e)
                    for c in g.ifs:
                        self.eval(c)
                    rec(i + 1)
                fr.loopsyms.pop()
                return "exact" if not g.ifs else None
            sym = "%s%d:%d" % (fr.module.name.split(".")[-1] + ":c", e.lineno, e.col_offset) + ":%d" % self.ctx
            syms.append(sym)
            d = self.deep_deps(itv)
            self.assign(g.target, npmodel.iter_elem(self, itv, sym, e).dep(d), e)
            self.pc = self.pc | d
            for c in g.ifs:
                cv = self.eval(c)
                self.pc = self.pc | self.deep_deps(cv)
            fr.loopsyms.append(npmodel.iter_dim(itv))
            rec(i + 1)
            fr.loopsyms.pop()
            return None

        x = rec(0)
        exact = len(e.generators) == 1 and x == "exact"
        pcd = self.pc - opc
        self.pc = opc
        fr.comp -= 1
        # restore the scope
        for k in list(fr.st.env):
            if k not in saved:
                del fr.st.env[k]
        for k in saved:
            fr.st.env[k] = saved[k]
        fr.st.maybe = savedm
        res = [r.dep(pcd) for r in res]
        return res, syms, exact

    def e_ListComp(self, e):
        res, syms, exact = self.comp(e, lambda: self.eval(e.elt))
        if exact:
            return self.newlist(e, res)
        el = None
        for r in res:
            el = r if el is None else join(el, r)
        v = self.newlist(e, None, el)
        if el is not None and syms:
            npmodel.close_list(self, v, syms[0])
        return v

    def e_GeneratorExp(self, e):
        return self.e_ListComp(e)

    e_SetComp = e_ListComp

    def e_DictComp(self, e):
        res, syms, exact = self.comp(e, lambda: tup([self.eval(e.key), self.eval(e.value)]))
        items, other = {}, None
        for r in res:
            if r.c[0].k == "const":
                items[r.c[0].c] = r.c[1]
            else:
                other = r.c[1] if other is None else join(other, r.c[1])
        return self.newdict(e, items, other)

    def e_IfExp(self, e):
        tv = self.eval(e.test)
        t = self.truth(tv)
        if not given(e.test, t):
            self.tested |= self.deep_deps(tv)
        if t is True:
            return self.eval(e.body)
        if t is False:
            return self.eval(e.orelse)
        d = self.deep_deps(tv)
        fr = self.fr
        st0 = fr.st
        fr.st = st0.copy()
        self.refine(e.test, True)
        a = self.eval(e.body)
        sa = fr.st
        fr.st = st0.copy()
        self.refine(e.test, False)
        b = self.eval(e.orelse)
        sb = fr.st
        env = st0.env
        fr.st = join_state(sa, sb)
        fr.st.env = dict(env)
        fr.st.maybe = st0.maybe
        return join(a, b).dep(d)

    def e_BoolOp(self, e):
        out = None
        isand = isinstance(e.op, ast.And)
        sv = dict(self.st.env)
        res = None
        undecided = False
        dd = EMPTY
        for x in e.values:
            v = self.eval(x).dep(dd)
            dd = dd | self.deep_deps(v)         # every operand evaluated so far had a say
            t = self.truth(v)
            if t is None:
                undecided = True
                res = v if res is None else join(res, v)
            elif t is isand:
                last = v
                if x is e.values[-1]:
                    res = v if res is None else join(res, v)
            else:
                res = v if res is None else join(res, v)
                if not undecided:
                    self.st.env.update(sv)
                    return res
                break
            self.refine(x, isand)
        for k, v in sv.items():
            self.st.env[k] = v
        return res if res is not None else top()

    def e_Yield(self, e):
        if e.value is not None:
            v = self.eval(e.value)
            if v.k != "never":
                self.fr.yields.append(v.dep(self.pc))
        return top()

    def e_YieldFrom(self, e):
        v = self.eval(e.value)
        self.fr.yields.append(npmodel.elem_of(self, v, e))
        return top()

    def e_Await(self, e):
        return self.eval(e.value)

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        return npmodel.unop(self, e, e.op, v)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        if a.k == "never" or b.k == "never":
            return V("never")
        return npmodel.binop(self, e, e.op, a, b)

    def e_Compare(self, e):
        l = self.eval(e.left)
        res = None
        for op, c in zip(e.ops, e.comparators):
            r = self.eval(c)
            v = npmodel.compare(self, e, op, l, r)
            res = v if res is None else npmodel.bool_and(self, res, v)
            l = r
        return res

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Slice(self, e):
        lo = self.eval(e.lower) if e.lower is not None else NONE
        up = self.eval(e.upper) if e.upper is not None else NONE
        st = self.eval(e.step) if e.step is not None else NONE
        return V("slice", (lo, up, st), dp=self.deep_deps(lo) | self.deep_deps(up) | self.deep_deps(st))

    def eval_index(self, e):
        return self.eval(e)

    def e_Subscript(self, e):
        b = self.eval(e.value)
        idx = self.eval_index(e.slice)
        if b.k == "never":
            return b
        return self.getitem(b, idx, e)

    def getitem(self, b, idx, node):
        outs = []
        for a in alts(b):
            outs.append(npmodel.getitem(self, a, idx, node))
        v = union(outs) if len(outs) > 1 else outs[0]
        return v

    def e_Attribute(self, e):
        b = self.eval(e.value)
        if b.k == "never":
            return b
        return self.getattr(b, e.attr, e)

    def getattr(self, b, name, node, default=None, quiet=False):
        outs = []
        for a in alts(b):
            outs.append(self.getattr1(a, name, node, default, quiet))
        v = outs[0]
        for o in outs[1:]:
            v = join(v, o)
        return v

    def getattr1(self, a, name, node, default=None, quiet=False):
        if a.k == "mod":
            m = a.c
            if isinstance(m, Module):
                r = m.lookup(name)
                if r is None:
                    sub = self.p.modules.get(m.name + "." + name)
                    if sub is not None:
                        return V("mod", sub)
                    if name in ("__name__", "__file__", "__doc__"):
                        return V("str")
                    if not any(not s.startswith("qampy") for s in m.stars) and not quiet:
                        self.ev("noattr", node, attr=name, cls="module " + m.name, why="no such name in module")
                    return top()
                return self.from_res(r, name, node)
        if a.k == "ext":
            return npmodel.ext_value(self, a.c + "." + name)
        if a.k == "class":
            ci = a.c
            if name == "__name__":
                return V("str")
            r = ci.lookup(name)
            if r is None:
                if name in ("__mro__", "__bases__", "__dict__"):
                    return top()
                self.ev("noattr", node, attr=name, cls=ci.name, why="no such class attribute")
                return top()
            owner, o = r
            if isinstance(o, FuncInfo):
                if o.kind == "classm":
                    return V("bound", (o, a))
                return V("func", o)
            if o is None:
                return V("extmeth", (owner[1] if isinstance(owner, tuple) else owner, name, None))
            return self.class_attr(owner, name, o)
        if a.k == "super":
            cls, selfv = a.c
            real = cls
            if selfv is not None:
                for s in alts(selfv):
                    if s.k == "inst" and isinstance(s.cls, ClassInfo):
                        real = s.cls
                    elif s.k == "class":
                        real = s.c
            r = real.lookup(name, after=cls)
            if r is None:
                self.ev("noattr", node, attr=name, cls="super of " + cls.name, why="not defined in any base")
                return top()
            owner, o = r
            if isinstance(o, FuncInfo):
                if o.kind in ("static", "func"):
                    return V("func", o)
                if o.kind == "classm" and selfv.k == "inst":
                    return V("bound", (o, V("class", selfv.cls)))
                if o.kind == "prop":
                    return self.call_func(o, node, [], {}, selfv=selfv)
                return V("bound", (o, selfv))
            return V("extmeth", (owner[1] if isinstance(owner, tuple) else owner, name, selfv))
        if a.k == "inst":
            return self.inst_attr(a, name, node, default, quiet)
        if a.k == "rngobj":
            return V("rngm", (a, name), dp=a.dp)
        return npmodel.attr(self, a, name, node, default, quiet)

    def class_attr(self, owner, name, expr):
        key = (owner.fullname, name)
        if key not in self.clsattrs:
            fr = Frame(None, owner.module)
            fr.st = State()
            # class body names visible to later class level expressions
            self.stack.append(fr)
            octx = self.ctx
            self.ctx = 11
            try:
                for n2, e2 in owner.attrs.items():
                    if n2 == name:
                        break
                    fr.st.env[n2] = self.eval(e2)
                v = self.eval(expr)
                heap = dict(fr.st.heap)
                if v.k in ("list", "dict"):
                    rid = "C:%s.%s" % key
                    heap[rid] = self.obj(v)
                    v = v.cp(c=rid)
                elif v.k in ("num", "top"):
                    v = v.cp(al=frozenset(["C:%s.%s" % key]))
            finally:
                self.stack.pop()
                self.ctx = octx
            self.clsattrs[key] = (v, heap)
        v, heap = self.clsattrs[key]
        for k, o in heap.items():
            self.st.heap.setdefault(k, o)
        return v

    def inst_attr(self, a, name, node, default=None, quiet=False):
        o = self.obj(a)
        cls = o.cls if o is not None else a.cls
        h = self.hooks.get("instattr")
        if h is not None:
            r = h(self, a, name, node)
            if r is not None:
                return r
        if name == "__class__":
            return V("class", cls) if isinstance(cls, ClassInfo) else top()
        ca = cls.lookup(name) if isinstance(cls, ClassInfo) else None
        if ca is not None and isinstance(ca[1], FuncInfo) and ca[1].kind == "prop":
            return self.call_func(ca[1], node, [], {}, selfv=a)
        if o is not None and name in o.attrs:
            if name in o.maybe and not quiet:
                self.ev("maybeattr", node, attr=name, cls=getattr(cls, "name", "?"), rid=str(a.c))
            return o.attrs[name]
        if ca is not None:
            owner, x = ca
            if isinstance(x, FuncInfo):
                if x.kind == "classm":
                    return V("bound", (x, V("class", cls)))
                if x.kind == "static":
                    return V("func", x)
                return V("bound", (x, a))
            if x is not None:
                return self.class_attr(owner, name, x)
        # ndarray attributes
        if npmodel.is_nd_attr(name):
            return npmodel.attr(self, a, name, node, default, quiet)
        if isinstance(cls, ClassInfo):
            ga = cls.lookup("__getattr__")
            if ga is not None and isinstance(ga[1], FuncInfo) and not name.startswith("__"):
                if default is None or name not in ("_symbols",):
                    return self.call_func(ga[1], node, [const(name)], {}, selfv=a)
        if default is not None:
            return default
        if o is not None and getattr(o, "aux", None) == "open":
            return top(frozenset(["attr:" + name]))
        if not quiet:
            self.ev("noattr", node, attr=name, cls=getattr(cls, "name", "?"), why="attribute is not set on this object", rid=str(a.c))
        return top()

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and "super" not in self.st.env:
            if e.args:
                c = self.eval(e.args[0])
                s = self.eval(e.args[1]) if len(e.args) > 1 else None
                return V("super", (c.c if c.k == "class" else self.fr.cls, s))
            selfn = self.fr.fi.pos[0] if self.fr.fi is not None and self.fr.fi.pos else None
            return V("super", (self.fr.cls, self.st.env.get(selfn)))
        fv = self.eval(f)
        pos, star = [], None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                it = npmodel.exact_items(self, v)
                if it is not None and star is None:
                    pos.extend(x.dep(v.dp) for x in it)
                else:
                    star = v
            else:
                v = self.eval(a)
                if v.k == "never":
                    return v
                pos.append(v)
        kw, dstar = {}, None
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                for a in alts(v):
                    if a.k == "dict" and self.obj(a) is not None:
                        o = self.obj(a)
                        for kk, vv in o.items.items():
                            if isinstance(kk, str):
                                if kk in kw:
                                    self.ev("badcall", e, callee=ast.unparse(f), why="argument '%s' given twice" % kk)
                                kw[kk] = vv.dep(v.dp)
                        if o.other is not None:
                            if not o.other.dp <= self.used:
                                self.used = self.used | o.other.dp
                            dstar = o.other if dstar is None else join(dstar, o.other)
                    else:
                        dstar = top(self.deep_deps(a))
            else:
                if k.arg in kw:
                    self.ev("badcall", e, callee=ast.unparse(f), why="argument '%s' given twice" % k.arg)
                kw[k.arg] = v
        if fv.k == "never":
            return fv
        fvs = alts(fv)
        if fv.dp and not fv.dp <= self.used and fv.k in ("class", "func", "union", "top"):
            self.used = self.used | fv.dp       # an argument that is called is consulted
        if len(fvs) == 1:
            return self.call(fvs[0], e, pos, kw, star, dstar)
        st0 = self.fr.st
        outs, ss = None, None
        for x in fvs:
            self.fr.st = st0.copy()
            r = self.call(x, e, pos, kw, star, dstar)
            if r.k == "never":
                continue
            r = r.dep(fv.dp)
            outs = r if outs is None else join(outs, r)
            ss = join_state(ss, self.fr.st)
        if outs is None:
            self.fr.st = st0
            return V("never")
        self.fr.st = ss
        return outs

    def call(self, fv, e, pos, kw, star=None, dstar=None):
        h = self.hooks.get("precall")
        if h is not None:
            r = h(self, fv, e, pos, kw)
            if r is not None:
                return r
        if fv.k == "func":
            return self.call_func(fv.c, e, pos, kw, star=star, dstar=dstar, closure=fv.cls)
        if fv.k == "bound":
            return self.call_func(fv.c[0], e, pos, kw, selfv=fv.c[1], star=star, dstar=dstar)
        if fv.k == "class":
            return self.construct(fv.c, e, pos, kw, star, dstar)
        if fv.k in ("ext", "extmeth", "meth", "rngm", "num", "top", "str", "const", "dtype", "inst"):
            return npmodel.call_ext(self, fv, e, pos, kw, star, dstar)
        return top(self.args_deps(pos, kw))

    def construct(self, ci, e, pos, kw, star=None, dstar=None):
        r = ci.lookup("__new__")
        if r is not None and isinstance(r[1], FuncInfo):
            v = self.call_func(r[1], e, [V("class", ci)] + pos, kw, star=star, dstar=dstar)
            return v
        ini = ci.lookup("__init__")
        v = self.alloc(e, Obj("inst", attrs={}, cls=ci), "I")
        if ini is not None and isinstance(ini[1], FuncInfo):
            self.call_func(ini[1], e, pos, kw, selfv=v, star=star, dstar=dstar)
        else:
            if any(isinstance(c, tuple) and "xception" in c[1] for c in ci.mro()):
                return V("exc")
        return v

    def make_view(self, node, src, ci, f=None, al=None):
        """src.view(ci): a new instance of ci sharing src's buffer, attributes per __array_finalize__"""
        rid = self.site(node, "I")
        if src.k == "inst" and src.c == rid and rid in self.st.heap:
            self.st.heap[rid + "'"] = self.st.heap[rid]
            src = src.cp(c=rid + "'")
        v = self.alloc(node, Obj("inst", attrs={}, cls=ci), "I", f if f is not None else src.f,
                       src.al if al is None else al)
        v = v.cp(dp=src.dp)
        # avoid clobbering a live object allocated at the same site with the same context
        fin = ci.lookup("__array_finalize__")
        if fin is not None and isinstance(fin[1], FuncInfo):
            self.call_func(fin[1], node, [src], {}, selfv=v)
        return v
