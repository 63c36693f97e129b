"""Evaluation of the index arithmetic of framed signals.

A frame of F symbols consists of S pilots, then every R-th symbol is a pilot.  A position in a frame belongs to one of
the classes s+ / s- (in the sequence, on / off the raster of the phase pilots), e (the first symbol after it), g+ (a later
one on the raster) and g- (off it).  Arrays along the symbol axis are described by which positions they hold, in how many
frames; masks and index vectors by which positions they select.  Lengths and bounds are polynomials (formula.py)."""
import ast
import functools
from . import formula as F
from .formula import Ev, Cx, Const, Opaque, Unknown, Raised, Returned, Fn, Ext, Arr, Bound, num, cadd, cmul, cneg, cdiv, key, sub
from .project import FuncInfo, ClassInfo, Module

ALL = frozenset(("s+", "s-", "e", "g+", "g-"))
SEQ = frozenset(("s+", "s-"))


def P(n):
    return F.real("p." + n, positive=True, scalar=True)


FL, SL, R, NF, OS, NPIL = P("frame_len"), P("seq_len"), P("ins_rat"), P("nframes"), P("os"), P("npilots")
NDAT = cadd(FL, cneg(NPIL))
IX = "ix"


def eq(a, b):
    return isinstance(a, Cx) and isinstance(b, Cx) and a.re == b.re and a.im == b.im


def size(cls):
    """symbols of these classes in one frame"""
    if cls == ALL:
        return FL
    if cls == SEQ:
        return SL
    if cls == frozenset():
        return num(0)
    if cls == Frame.pil:
        return NPIL
    if cls == Frame.dat:
        return NDAT
    if cls == Frame.pil - SEQ:
        return cadd(NPIL, cneg(SL))
    return P("n(%s)" % name(cls))


class Frame:
    """which positions are pilots: set by the check (with or without phase pilots)"""
    pil = frozenset(("s+", "s-", "e", "g+"))
    dat = frozenset(("g-",))

    @classmethod
    def use(cls, ph=True):
        cls.pil = frozenset(("s+", "s-", "e", "g+")) if ph else SEQ
        cls.dat = ALL - cls.pil


def name(cls):
    if not isinstance(cls, frozenset):
        return str(cls)
    return {ALL: "whole frame", SEQ: "pilot sequence", Frame.pil: "pilots", Frame.dat: "payload", Frame.pil - SEQ: "phase pilots",
            frozenset(): "nothing"}.get(cls, "positions " + "/".join(sorted(cls)))


class Frames:
    """frame numbers: all of them, or the ones asked for"""

    def __init__(self, n, uniq=False):
        self.n, self.uniq = n, uniq


def below(v):
    """negative for an odd number of averages"""
    at = {"seed": 0, "p.N": 5.}
    try:
        r = F.value(v.re, at)
    except (Unknown, ValueError, ZeroDivisionError, KeyError):
        return False
    return set(at) == {"seed", "p.N"} and not isinstance(r, list) and r < 0


class Seq:
    """the symbols of the given classes of the given frames ("1", "N", name) in order; bad: why they are no such thing"""

    def __init__(self, src, cls, frames, rate=None, bad=None):
        self.src, self.cls, self.frames, self.rate, self.bad = src, cls, frames, rate or num(1), bad

    def what(self):
        if self.bad:
            return self.bad
        return "%s of %s" % (name(self.cls), {"1": "one frame", "N": "all frames"}.get(self.frames, "frames '%s'" % self.frames))

    def len(self):
        if self.bad:
            return P("len(%s)" % self.bad)
        n = {"1": num(1), "N": NF}.get(self.frames)
        if n is None:
            n = P("len(%s)" % self.frames)
        return cmul(cmul(size(self.cls), n), self.rate)

    def cp(self, **kw):
        r = Seq(self.src, self.cls, self.frames, self.rate, self.bad)
        for k, v in kw.items():
            setattr(r, k, v)
        return r


class Mask:
    """truth per position of the population (classes base, frames)"""

    def __init__(self, base, sel, frames, bad=None):
        self.base, self.sel, self.frames, self.bad = base, sel, frames, bad

    def what(self):
        return self.bad or "a mask of the %s%s" % (name(self.sel), {"1": " of a frame", "N": " of all frames"}.get(self.frames, " of frames '%s'" % self.frames))


class Idx:
    """positions within the population (base): those of the classes sel of the frames"""

    def __init__(self, base, sel, frames, bad=None):
        self.base, self.sel, self.frames, self.bad = base, sel, frames, bad

    def what(self):
        return self.bad or "indices of the %s%s" % (name(self.sel), {"1": " of a frame", "N": " of all frames"}.get(self.frames, " of frames '%s'" % self.frames))


class Rep:
    """one entry per frame number: [x for i in frames]"""

    def __init__(self, body, i, frames):
        self.body, self.i, self.frames = body, i, frames


class Obj:
    """an instance; data: what it holds as an array"""
    count = 0

    def __init__(self, cls, data, attrs=None, name="obj"):
        self.cls, self.data, self.a, self.name = cls, data, dict(attrs or {}), name
        self.stores = []

    def cp(self):
        o = Obj(self.cls, self.data, self.a, self.name)
        return o


class L(Ev):
    def __init__(self, project, prims=None, assume=None, overrides=None):
        Ev.__init__(self, project, prims, assume)
        self.over = overrides or {}
        self.calls = []

    # ---- all paths; mk() makes fresh arguments
    def all(self, f, mk, limit=256):
        out, todo = [], [[]]
        while todo:
            ch = todo.pop()
            self.choices, self.conds, self.carries, self.calls = list(ch), [], [], []
            args, kw = mk()
            try:
                v = self.call(f, args, kw)
            except Raised:
                v = Raised
            out.append((list(self.conds), v, list(self.calls), args))
            for k in range(len(ch), len(self.conds)):
                todo.append([c[2] for c in self.conds[:k]] + [not self.conds[k][2]])
            if len(out) > limit:
                raise Unknown("too many paths")
        self.choices = None
        return out

    def call(self, f, args, kw=None):
        kw = dict(kw or {})
        if f.fullname in self.prims:
            return self.prims[f.fullname](self, args, kw)
        if self.depth > 12:
            raise Unknown("recursion")
        env = {}
        for n, a in zip(f.pos, args):
            env[n] = a
        if f.vararg:
            env[f.vararg] = tuple(args[len(f.pos):])
        for n in f.pos + f.kwonly:
            if n in env:
                continue
            if n in kw:
                env[n] = kw.pop(n)
            elif n in f.defaults:
                env[n] = self.lazy(f.defaults[n], {}, f.module)
            else:
                raise Unknown("argument %s" % n)
        rest = {k: v for k, v in kw.items() if k not in f.pos + f.kwonly}
        if f.kwarg:
            env[f.kwarg] = rest
        if f.cls is not None and f.pos and f.kind != "static":
            env["__self__"] = env.get(f.pos[0])
        self.used.add(f.fullname)
        self.depth += 1
        self.cls_stack = getattr(self, "cls_stack", []) + [f.cls]
        try:
            self.block(f.node.body, env, f.module)
        except Returned as r:
            return r.v
        finally:
            self.depth -= 1
            self.cls_stack = self.cls_stack[:-1]
        return Const(None)

    # ---- statements
    def stmt(self, s, env, m):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            self.lazy(s.value, env, m)
            return
        if isinstance(s, ast.Try):
            return self.block(s.body, env, m)
        if isinstance(s, ast.If):
            t = self.test(s.test, env, m)
            if t is None:
                t = self.choose(self.condkey(s.test, env, m), "?")
            return self.block(s.body if t else s.orelse, env, m)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute, ast.Subscript)):
            v = self.named(s.value, env, m)
            return self.assign(s.targets[0], self.lazy(s.value, env, m) if v is None else v, env, m)
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)):
            v = self.lazy(s.value, env, m)
            if isinstance(v, Opaque):
                v = tuple(Opaque("%s.%d" % (v.n, k)) for k in range(len(s.targets[0].elts)))
            return self.assign(s.targets[0], v, env, m)
        if isinstance(s, ast.AugAssign):
            cur = self.lazy(F._load(s.target), env, m)
            w = self.lazy(s.value, env, m)
            if isinstance(cur, tuple) and isinstance(s.op, ast.Add) and isinstance(w, tuple):
                return self.assign(s.target, cur + w, env, m)
            try:
                v = self.binop(s.op, cur, w)
            except Unknown as u:
                v = Opaque(str(u))
            return self.assign(s.target, v, env, m)
        if isinstance(s, ast.FunctionDef):
            env[s.name] = Fn(FuncInfo(m, s, s.name))
            return
        if isinstance(s, (ast.Delete, ast.Global, ast.Nonlocal)):
            return
        Ev.stmt(self, s, env, m)

    def condkey(self, e, env, m):
        """what a condition tests, independent of how it is written: its source with the names replaced by what they hold"""
        if isinstance(e, ast.Name) and isinstance(env.get(e.id), F.Later):
            l = env[e.id]
            return self.condkey(l.e, l.env, l.m)
        try:
            v = self.expr(e, env, m)
            if isinstance(v, F.Cond):
                return v.key()
        except Unknown:
            pass
        return ast.unparse(e)

    def test(self, e, env, m):
        if isinstance(e, ast.Name) and isinstance(env.get(e.id), F.Later):
            l = env[e.id]
            return self.test(l.e, l.env, l.m)
        r = self.assume(ast.unparse(e))
        if r is not None:
            return r
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.test(e.operand, env, m)
            return None if t is None else not t
        if isinstance(e, ast.BoolOp):
            un = False
            for x in e.values:
                t = self.test(x, env, m)
                if t is None:
                    t = self.choose(self.condkey(x, env, m), "?")
                if t is isinstance(e.op, ast.Or):
                    return t
            return not isinstance(e.op, ast.Or)
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            a, b = self.lazy(e.left, env, m), self.lazy(e.comparators[0], env, m)
            if isinstance(b, Const) and b.v is None and not isinstance(a, (Opaque, Const)):
                return isinstance(e.ops[0], ast.IsNot)
        v = None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.lazy(e.left, env, m), self.lazy(e.comparators[0], env, m)
            if isinstance(e.ops[0], (ast.In, ast.NotIn)) and isinstance(a, Const):
                c = list(b) if isinstance(b, dict) else [x.v for x in b] if isinstance(b, tuple) and all(isinstance(x, Const) for x in b) else None
                if c is not None:
                    return (a.v in c) == isinstance(e.ops[0], ast.In)
            if isinstance(a, Cx) and isinstance(b, Cx) and a.real and b.real:
                d = sub(a.re, b.re)
                c = Cx(d).const()
                op = type(e.ops[0])
                if c is None and d and op in (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq):
                    lo = least(d)
                    if lo is not None and lo > 0:
                        return op in (ast.Gt, ast.GtE, ast.NotEq)
                    if lo is not None and lo >= 0 and op in (ast.Lt, ast.GtE):
                        return op is ast.GtE
                    lo = least(F.neg(d))
                    if lo is not None and lo > 0:
                        return op in (ast.Lt, ast.LtE, ast.NotEq)
                    if lo is not None and lo >= 0 and op in (ast.Gt, ast.LtE):
                        return op is ast.LtE
        t = Ev.test(self, e, env, m)
        if t is None and isinstance(e, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
            v = self.lazy(e, env, m)
            if isinstance(v, (Obj, Seq, Mask, Idx)):
                return None
            if isinstance(v, dict):
                return bool(v)
        return t

    # ---- loops
    def loop(self, s, env, m):
        it = self.lazy(s.iter, env, m)
        if isinstance(it, Frames):
            i = Cx(F.var("i@" + it.n))
            pre = {k: v for k, v in env.items()}
            self.assign(s.target, i, env, m)
            self.block(s.body, env, m)
            for k, v in list(env.items()):
                if isinstance(v, tuple) and isinstance(pre.get(k), tuple) and v is not pre[k] and len(v) == len(pre[k]) + 1 and not pre[k]:
                    env[k] = Rep(v[-1], i, it)
            return
        if isinstance(it, Rep):
            self.assign(s.target, it.body, env, m)
            return self.block(s.body, env, m)
        if isinstance(it, (tuple, list)) and len(it) <= 40:
            for x in it:
                self.assign(s.target, x, env, m)
                self.block(s.body, env, m)
            return
        if isinstance(it, Opaque):
            pre = dict(env)
            self.assign(s.target, Cx(self.new("e", s)) if isinstance(s.target, ast.Name) else Opaque("each " + it.n), env, m)
            self.block(s.body, env, m)
            self.collect(env, pre)
            return
        pre = dict(env)
        Ev.loop(self, s, env, m)
        self.collect(env, pre)

    def collect(self, env, pre):
        for k, v in list(env.items()):
            if isinstance(v, tuple) and isinstance(pre.get(k), tuple) and v is not pre[k] and not isinstance(v, F.Shape):
                env[k] = Rep(v[-1], None, None) if v else v

    def generic(self, t, env, m):
        return False if self.isdata(env.get(getattr(t.value, "id", None))) else Ev.generic(self, t, env, m)

    def isdata(self, v):
        return isinstance(v, (Obj, Seq, Mask, Idx, Frames, Rep))

    # ---- assignment
    def assign(self, t, v, env, m=None):
        if isinstance(t, ast.Attribute):
            o = self.lazy(t.value, env, m)
            if isinstance(o, Obj):
                st = o.cls.lookup_setter(t.attr) if isinstance(o.cls, ClassInfo) else None
                if st is not None:
                    self.call(st, [o, v])
                else:
                    o.a[t.attr] = v
            return
        if isinstance(t, ast.Subscript):
            x = self.lazy(F._load(t.value), env, m)
            els = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
            if isinstance(x, Obj):
                x.stores.append(([self.lazy(e, env, m) if not isinstance(e, ast.Slice) else self.slice(e, env, m) for e in els], v))
                return
            if isinstance(x, Mask):
                return self.maskstore(x, els[-1], v, env, m)
            if isinstance(x, Cell):
                x.stores.append(([self.lazy(e, env, m) if not isinstance(e, ast.Slice) else self.slice(e, env, m) for e in els], v))
                return
            if isinstance(x, dict):
                k = self.lazy(t.slice, env, m)
                if isinstance(k, Const):
                    x[k.v] = v
                return
            if isinstance(x, Opaque):
                return
            if isinstance(t.value, ast.Name) and isinstance(x, Cx):
                try:
                    return Ev.assign(self, t, v, env, m)
                except Unknown:
                    env[t.value.id] = Opaque("stored to")
                    return
            return
        if isinstance(t, (ast.Tuple, ast.List)) and not isinstance(v, (tuple, list)):
            for k, x in enumerate(t.elts):
                self.assign(x, Opaque("part %d of %s" % (k, getattr(v, "n", "a value"))), env, m)
            return
        Ev.assign(self, t, v, env, m)

    def slice(self, e, env, m):
        g = lambda x: None if x is None else self.lazy(x, env, m)
        return ("slice", g(e.lower), g(e.upper), g(e.step))

    def maskstore(self, x, e, v, env, m):
        """zeros, then m[...] = truth"""
        if isinstance(v, Cx) and v.const() in (0, 1):
            v = Const(bool(v.const()))
        if isinstance(e, ast.Slice):
            _, lo, hi, st = self.slice(e, env, m)
            lo = num(0) if lo is None else lo
            if isinstance(v, Mask) and v.frames == "1" and isinstance(lo, Cx):
                i = [a for mm in lo.re for a, _ in mm if a.startswith("i@")]
                if i:
                    iv = Cx(F.var(i[0]))
                    good = eq(lo, cmul(iv, FL)) and (eq(hi, cmul(cadd(iv, num(1)), FL)))
                    x.sel, x.frames, x.base = v.sel, i[0][2:], v.base
                    if not good:
                        x.bad = "the frame mask put at [%s:%s] for frame i" % (key(lo.re), key(hi.re) if isinstance(hi, Cx) else "")
                    return
                raise Unknown("mask part")
            if isinstance(v, Const) and x.frames == "1":
                c = None
                if hi is None and st is None and eq(lo, SL):
                    c = ALL - SEQ
                elif isinstance(hi, Cx) and eq(lo, num(0)) and eq(hi, SL) and st is None:
                    c = SEQ
                elif hi is None and eq(lo, SL) and eq(st, R):
                    c = frozenset(("e", "g+"))
                elif hi is None and eq(lo, num(0)) and st is None:
                    c = ALL
                elif isinstance(lo, Cx) and (hi is None or isinstance(hi, Cx)) and (st is None or isinstance(st, Cx)):
                    x.bad = "a mask set at [%s:%s:%s]" % (key(lo.re), key(hi.re) if hi else "", key(st.re) if st else "")
                    return
                if c is None:
                    raise Unknown("mask part")
                x.sel = x.sel | c if v.v else x.sel - c
                return
            raise Unknown("mask part")
        k = self.lazy(e, env, m)
        if isinstance(k, Opaque) and k.n == "pilot_idx" and isinstance(v, Const):
            x.sel = frozenset(Frame.pil) if v.v else x.sel - Frame.pil
            return
        if isinstance(k, (Mask, Idx)) and isinstance(v, Const) and not k.bad and k.frames == x.frames:
            x.sel = x.sel | k.sel if v.v else x.sel - k.sel
            return
        x.bad = None
        raise Unknown("mask store")

    # ---- expressions
    def expr(self, e, env, m):
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and not e.generators[0].ifs:
            g = e.generators[0]
            it = self.lazy(g.iter, env, m)
            sub_ = dict(env)
            if isinstance(it, Frames):
                i = Cx(F.var("i@" + it.n))
                self.assign(g.target, i, sub_, m)
                return Rep(self.lazy(e.elt, sub_, m), i, it)
            if isinstance(it, (tuple, list)):
                out = []
                for x in it:
                    self.assign(g.target, x, sub_, m)
                    out.append(self.lazy(e.elt, sub_, m))
                return tuple(out)
            self.assign(g.target, Cx(self.new("e", g.target)) if isinstance(g.target, ast.Name) else Opaque("each"), sub_, m)
            return Rep(self.lazy(e.elt, sub_, m), None, None)
        if isinstance(e, (ast.Tuple, ast.List)):
            return tuple(self.lazy(x, env, m) for x in e.elts)
        if isinstance(e, ast.Dict):
            d = {}
            for k, x in zip(e.keys, e.values):
                if k is None:
                    y = self.lazy(x, env, m)
                    if isinstance(y, dict):
                        d.update(y)
                    continue
                k = self.lazy(k, env, m)
                if isinstance(k, Const):
                    d[k.v] = self.lazy(x, env, m)
            return d
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Invert):
            v = self.expr(e.operand, env, m)
            if isinstance(v, Mask):
                return self.invert(v)
            if isinstance(v, F.Cond):
                return F.Cond(("not", v))
            raise Unknown("~")
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.lazy(e.left, env, m), self.lazy(e.right, env, m))
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.lazy(e.left, env, m), self.lazy(e.comparators[0], env, m)
            r = self.compare(a, b, e.ops[0])
            if r is not None:
                return r
        if isinstance(e, ast.IfExp):
            t = self.test(e.test, env, m)
            if t is None:
                t = self.choose(self.condkey(e.test, env, m), "?")
            return self.expr(e.body if t else e.orelse, env, m)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
                me = env.get("__self__")
                c = me.cls if isinstance(me, Obj) else me
                r = c.lookup(e.func.attr, after=self.cls_stack[-1]) if isinstance(c, ClassInfo) else None
                if r is None or not isinstance(r[1], FuncInfo):
                    raise Unknown("super")
                a = [self.lazy(x, env, m) for x in e.args]
                kw = {}
                for k in e.keywords:
                    v = self.lazy(k.value, env, m)
                    if k.arg is None:
                        kw.update(v if isinstance(v, dict) else {})
                    else:
                        kw[k.arg] = v
                return self.call(r[1], [me] + a, kw)
            f = self.lazy(e.func, env, m)
            args, kw = [], {}
            for a in e.args:
                if isinstance(a, ast.Starred):
                    x = self.lazy(a.value, env, m)
                    if isinstance(x, Rep):
                        args.append(("star", x))
                    elif isinstance(x, (tuple, list)):
                        args.extend(x)
                    else:
                        args.append(Opaque("*"))
                else:
                    args.append(self.lazy(a, env, m))
            for k in e.keywords:
                v = self.lazy(k.value, env, m)
                if k.arg is None:
                    if isinstance(v, dict):
                        kw.update(v)
                else:
                    kw[k.arg] = v
            if isinstance(f, Bound) and f.name in ("append", "extend") and isinstance(e.func, ast.Attribute) and not hasattr(f.v, "xs"):
                if isinstance(e.func.value, ast.Name) and isinstance(f.v, tuple):
                    env[e.func.value.id] = f.v + ((args[0],) if f.name == "append" else tuple(args[0]) if isinstance(args[0], tuple) else (args[0],))
                return Const(None)
            return self.apply(f, args, kw)
        return Ev.expr(self, e, env, m)

    def compare(self, a, b, op):
        """comparisons of positions give masks"""
        if isinstance(a, Idx) and isinstance(b, Cx):
            return Limit()
        if not (isinstance(a, Cx) and isinstance(b, Cx) and a.real and b.real):
            return None
        d = sub(a.re, b.re)
        ix = {x for mm in d for x, _ in mm if x.startswith(IX)}
        mods = {x for mm in d for x, _ in mm if x.startswith("mod[")}
        if not ix and not mods:
            return None
        if isinstance(op, (ast.Gt, ast.LtE)):            # a > b: b < a
            d, op = F.neg(d), {ast.Gt: ast.Lt(), ast.LtE: ast.GtE()}[type(op)]
        if len(mods) == 1 and not ix:
            return self.modcmp(d, mods.pop(), op)
        if len(ix) == 1 and not mods:
            x = ix.pop()
            sgn = d.get(((x, F.Fr(1)),))
            rest = {mm: c for mm, c in d.items() if mm != ((x, F.Fr(1)),)}
            if sgn not in (1, -1) or any(x == y for mm in rest for y, _ in mm):
                raise Unknown("comparison of positions")
            if x != IX:                                   # rank in the pilots of a frame
                base, fr = RANKS[x]
            else:
                base, fr = ALL, "1"
            if isinstance(op, (ast.Eq, ast.NotEq)):
                t = F.scale(rest, -sgn)
                s = frozenset(("e",)) if t == SL.re and base == ALL else None
                if s is None:
                    return Mask(base, None, fr, bad="a mask of position %s" % key(t))
                return Mask(base, s if isinstance(op, ast.Eq) else base - s, fr)
            # sgn*x + rest < 0  or >= 0
            if sgn == 1:
                t, less = F.neg(rest), isinstance(op, ast.Lt)          # x < t / x >= t
            else:
                t, less = F.add(rest, F.C(1)), not isinstance(op, ast.Lt)   # -x + r < 0: x > r: x >= r+1
            if t == SL.re:
                s = base & SEQ
            elif t == F.add(SL.re, F.C(1)) and base == ALL:
                s = base & (SEQ | {"e"})
            elif t == F.C(0):
                s = frozenset()
            else:
                return Mask(base, None, fr, bad="a mask of the positions %s %s" % ("below" if less else "from", key(t)))
            return Mask(base, s if less else base - s, fr)
        return None

    def modcmp(self, d, x, op):
        arg, by = MODS[x]
        sgn = d.get(((x, F.Fr(1)),))
        rest = {mm: c for mm, c in d.items() if mm != ((x, F.Fr(1)),)}
        if by == R.re and arg == sub(F.var(IX), SL.re):
            on = frozenset(("s+", "e", "g+"))
            if isinstance(op, (ast.Eq, ast.NotEq)) and not rest:
                return Mask(ALL, on if isinstance(op, ast.Eq) else ALL - on, "1")
            if sgn == -1 and not rest and isinstance(op, (ast.Lt, ast.GtE)):      # 0 < mod
                return Mask(ALL, ALL - on if isinstance(op, ast.Lt) else on, "1")
            if sgn == 1 and rest == F.C(-1) and isinstance(op, (ast.Lt, ast.GtE)):
                return Mask(ALL, on if isinstance(op, ast.Lt) else ALL - on, "1")
        c = Cx(sub(arg, F.var(IX)))
        return Mask(ALL, None, "1", bad="a mask by (%s) %% (%s)" % (key(arg), key(by)))

    def invert(self, v):
        return Mask(v.base, None if v.sel is None else v.base - v.sel, v.frames, v.bad and "the complement of " + v.bad)

    def binop_(self, op, a, b):
        if isinstance(a, Mask) and isinstance(b, Mask) and isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Mult, ast.Add)):
            if a.bad or b.bad:
                return Mask(a.base, None, a.frames, a.bad or b.bad)
            if a.base != b.base or a.frames != b.frames:
                raise Unknown("masks")
            f = {ast.BitAnd: a.sel & b.sel, ast.Mult: a.sel & b.sel, ast.BitOr: a.sel | b.sel, ast.Add: a.sel | b.sel, ast.BitXor: a.sel ^ b.sel}[type(op)]
            return Mask(a.base, f, a.frames)
        if isinstance(b, Idx) and isinstance(a, Cx) and isinstance(op, ast.Add):
            a, b = b, a
        if isinstance(a, Idx) and isinstance(b, Cx) and isinstance(op, (ast.Add, ast.Sub)):
            i = [x for mm in b.re for x, _ in mm if x.startswith("i@")]
            if not i and b.const() == 0:
                return a
            if a.frames == "1" and i:
                good = isinstance(op, ast.Add) and eq(b, cmul(Cx(F.var(i[0])), self.period(a)))
                return Idx(a.base, a.sel, "@" + i[0][2:], None if good else "indices moved by %s for frame i" % key(b.re))
            if a.frames == "1" and isinstance(op, ast.Add) and eq(b, FRAMES0):
                return Idx(a.base, a.sel, "N")
            return Idx(a.base, a.sel, a.frames, "indices moved by %s" % key(b.re))
        if isinstance(a, (Obj, Seq)) or isinstance(b, (Obj, Seq)):
            return self.elementwise(a, b, op)
        if isinstance(op, (ast.FloorDiv,)) and isinstance(a, Cx) and isinstance(b, Cx):
            x, y = a.const(), b.const()
            if x is not None and y:
                return num(x // y)
            return cdiv(a, b)
        if isinstance(op, ast.Mod) and isinstance(a, Cx) and isinstance(b, Cx) and b.const() is None or isinstance(op, ast.Mod) and isinstance(a, Cx) and isinstance(b, Cx) and a.const() is None:
            return self.mod(a, b)
        if isinstance(a, Const) and isinstance(b, Const) and isinstance(op, ast.Mod):
            return Const("")
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, tuple) and isinstance(op, ast.Mult):
            return Opaque("repeated list")
        if (isinstance(a, Const) or isinstance(b, Const)) and not (isinstance(a, Const) and isinstance(b, Const) and isinstance(op, ast.Add)):
            return Opaque("operand")
        if isinstance(a, Frames) and isinstance(b, Cx) or isinstance(b, Frames) and isinstance(a, Cx):
            a, b = (a, b) if isinstance(a, Frames) else (b, a)
            return FRAMES0 if isinstance(op, ast.Mult) and eq(b, FL) else Cx(F.var("frames*(%s)" % key(b.re)))
        return Ev.binop_(self, op, a, b)

    def mod(self, a, b):
        ix = {x for mm in a.re for x, _ in mm if x.startswith(IX)}
        if ix:
            # position in the concatenated pilots modulo the pilots of a frame: rank in the frame
            if len(ix) == 1 and a.re == F.var(next(iter(ix))) and next(iter(ix)) in POPS:
                cls, frames = POPS[next(iter(ix))]
                if b.re == size(cls).re:
                    n = IX + "%" + name(cls) + "," + frames
                    RANKS[n] = (cls, frames)
                    return Cx(F.var(n))
            n = "mod[%s, %s]" % (key(a.re), key(b.re))
            MODS[n] = (a.re, b.re)
            return Cx(F.var(n))
        return Cx(F.atomn("modulo", [a.re, b.re]))

    def period(self, a):
        return size(a.base)

    def elementwise(self, a, b, op):
        xs = [x.data if isinstance(x, Obj) else x for x in (a, b)]
        if all(isinstance(x, Seq) for x in xs):
            self.calls.append(("pair", xs, {}))
        return a if isinstance(a, (Obj, Seq)) else b

    # ---- attributes
    def attr(self, v, n):
        if isinstance(v, Obj):
            return self.getattr(v, n)
        if isinstance(v, (Seq, Mask, Idx)):
            return self.arrattr(v, n)
        if isinstance(v, ClassInfo):
            r = v.lookup(n)
            if r and isinstance(r[1], FuncInfo):
                return Bound(v, n)
            return Opaque(v.name + "." + n)
        if isinstance(v, (Rep, Frames)):
            return self.arrattr(v, n)
        if isinstance(v, Raw):
            if n == "shape":
                return (P("modes"), P("length"))
            return Opaque(n) if n in ("size", "dtype", "ndim") else Bound(v, n)
        if isinstance(v, (dict, Const)) or isinstance(v, tuple) and n in ("append", "extend"):
            return Bound(v, n)
        if isinstance(v, (Rolled, Taken, Stacked)):
            return Bound(v, n)
        if isinstance(v, Cell):
            return v.attrs[n] if n in v.attrs else Bound(v, n)
        if isinstance(v, F.Cond) or isinstance(v, Fn):
            return Opaque(n)
        if isinstance(v, Cx) and n in ("shape", "size"):
            x = [a for mm in v.re for a, _ in mm if a.startswith(IX)]
            if len(x) == 1 and (x[0] == IX or x[0] in POPS):
                l = FL if x[0] == IX else cmul(size(POPS[x[0]][0]), NF if POPS[x[0]][1] == "N" else num(1))
                return (l,) if n == "shape" else l
        return Ev.attr(self, v, n)

    def arrattr(self, v, n):
        if n in ("shape", "size"):
            if isinstance(v, Seq):
                return (P("modes"), v.len()) if n == "shape" else Opaque("size")
            if isinstance(v, (Mask, Idx)):
                c = v.base if isinstance(v, Mask) else v.sel
                if v.bad:
                    return (P("len?"),)
                k = {"1": num(1), "N": NF}.get(v.frames, P("len(%s)" % v.frames))
                r = cmul(size(c), k)
                return (r,) if n == "shape" else r
            return Opaque(n)
        if n == "T":
            raise Unknown("T")
        if n in ("dtype", "ndim"):
            return Opaque(n)
        return Bound(v, n)

    def getattr(self, o, n):
        if n in o.a:
            return o.a[n]
        if isinstance(o.data, Raw) and n in ("shape", "size", "dtype", "ndim"):
            return self.attr(o.data, n)
        if n in self.over and o.name in ("self", "sig"):
            return self.over[n]
        if isinstance(o.cls, ClassInfo):
            r = o.cls.lookup(n)
            if r is not None and isinstance(r[1], FuncInfo):
                if r[1].kind == "prop":
                    return self.call(r[1], [o])
                return Bound(o, n)
            if r is not None and isinstance(r[1], ast.AST):
                return self.lazy(r[1], {}, o.cls.module)
        if n == "__class__":
            return o.cls
        if n in ("shape", "size", "dtype", "ndim"):
            return self.arrattr(o.data, n)
        return Bound(o, n)

    # ---- indexing
    def index(self, v, s, env, m):
        if isinstance(v, (Obj, Seq, Mask, Idx)):
            els = s.elts if isinstance(s, ast.Tuple) else [s]
            return self.take(v, [self.slice(x, env, m) if isinstance(x, ast.Slice) else self.lazy(x, env, m) for x in els])
        if isinstance(v, Cell):
            els = s.elts if isinstance(s, ast.Tuple) else [s]
            return v.take(self, [self.slice(x, env, m) if isinstance(x, ast.Slice) else self.lazy(x, env, m) for x in els])
        if isinstance(v, Rep):
            return v.body if not isinstance(s, ast.Slice) else v
        if isinstance(v, Frames):
            k = self.lazy(s, env, m) if not isinstance(s, ast.Slice) else None
            if isinstance(k, Cx) and k.const() in (0, -1):
                return P("%s(%s)" % ("first" if k.const() == 0 else "last", v.n))
            return Opaque("frame number")
        if isinstance(v, Raw):
            els = s.elts if isinstance(s, ast.Tuple) else [s]
            return v.take([self.slice(x, env, m) if isinstance(x, ast.Slice) else self.lazy(x, env, m) for x in els])
        if isinstance(v, tuple) and isinstance(s, ast.Slice):
            a, b = (None if x is None else self.lazy(x, env, m) for x in (s.lower, s.upper))
            g = lambda x: None if x is None else int(x.const()) if isinstance(x, Cx) and x.const() is not None else ()
            if g(a) != () and g(b) != () and s.step is None:
                return v[g(a):g(b)]
        if isinstance(v, Cx):
            t = ast.Subscript(value=ast.Name(id="_", ctx=ast.Load()), slice=s, ctx=ast.Load())
            if F.full(t):
                return v
            els = s.elts if isinstance(s, ast.Tuple) else [s]
            ks = [self.slice(x, env, m) if isinstance(x, ast.Slice) else self.lazy(x, env, m) for x in els]
            ks = [k for k in ks if not (isinstance(k, tuple) and k[1:] == (None, None, None)) and not (isinstance(k, Const) and k.v is None)]
            if len(ks) == 1 and isinstance(ks[0], Cx):
                return picked(v, key(ks[0].re))
            if len(ks) == 1 and isinstance(ks[0], Opaque):
                return picked(v, ks[0].n)
            if len(ks) == 1 and isinstance(ks[0], Mask) and v.re == F.var(IX) and ks[0].base == ALL and ks[0].frames == "1":
                return Idx(ALL, ks[0].sel, "1", ks[0].bad)
            if len(ks) == 1 and isinstance(ks[0], F.Cond):
                return Cx(F.restrict(v.re, ks[0]), F.restrict(v.im, ks[0]), v.cplx)
            return Opaque("part")
        return Ev.index(self, v, s, env, m)

    def take(self, v, ks):
        if isinstance(v, Obj):
            if len(ks) == 2 and isinstance(ks[1], tuple) and ks[1][1:] == (None, None, None) and not isinstance(ks[0], tuple) or len(ks) == 1 and isinstance(ks[0], (Opaque, Cx)):
                return Taken(v, ks[0])
            if isinstance(v.data, Raw):
                return v.data.take(ks)
            d = self.take(v.data, ks)
            return Obj(v.cls, d, v.a, v.name + "[]") if isinstance(d, Seq) else d
        nd = 2 if isinstance(v, Seq) else 1
        ks = [k for k in ks if not (isinstance(k, Const) and k.v is None)]
        if ks and isinstance(ks[0], Const) and ks[0].v is Ellipsis:
            ks = ([("slice", None, None, None)] * nd + ks[1:])[-nd:]
        if len(ks) < nd:
            ks = ks + [("slice", None, None, None)] * (nd - len(ks))
        if nd == 2 and isinstance(ks[0], (Cx, Opaque, Const)) or nd == 2 and isinstance(ks[0], tuple) and ks[0][1:] != (None, None, None):
            row = v          # a mode or some modes
        k = ks[-1]
        if isinstance(k, Cx) and len(k.re) == 1:
            x = list(k.re)[0]
            x = x[0][0] if len(x) == 1 and x[0][1] == 1 else None
            if x in POPS:
                k = Idx(POPS[x][0], POPS[x][0], POPS[x][1])
        if isinstance(v, (Idx, Mask)) and isinstance(k, Limit):
            return v
        if isinstance(k, tuple) and k and k[0] == "slice":
            return self.cut(v, *k[1:])
        if v.bad if isinstance(v, Seq) else None:
            return v
        if isinstance(v, Seq):
            if isinstance(k, Mask):
                if k.bad:
                    return v.cp(cls=None, frames=None, bad="selected by %s" % k.bad)
                if k.frames != "1" and k.frames != v.frames and v.frames == "N" and k.base == v.cls:
                    return v.cp(cls=k.sel, frames=k.frames)
                if k.base != v.cls or k.frames != v.frames:
                    return v.cp(cls=None, frames=None, bad="%s, selected by %s" % (v.what(), k.what()))
                return v.cp(cls=k.sel)
            if isinstance(k, Idx):
                if k.bad:
                    return v.cp(cls=None, frames=None, bad="selected by %s" % k.bad)
                if k.base != v.cls:
                    return v.cp(cls=None, frames=None, bad="%s, selected by %s" % (v.what(), k.what()))
                return v.cp(cls=k.sel, frames=k.frames)
        if isinstance(v, (Mask, Idx)) and isinstance(k, Cx):
            return Opaque("position")
        raise Unknown("selection")

    def cut(self, v, lo, hi, st):
        if (lo is None or eq(lo, num(0))) and hi is None and (st is None or eq(st, num(1))):
            return v
        if isinstance(v, Seq) and v.bad or isinstance(v, (Idx, Mask)) and v.bad:
            return v
        cls = v.base if isinstance(v, Mask) else v.cls if isinstance(v, Seq) else v.sel
        one = v.frames == "1"
        ln = v.len() if isinstance(v, Seq) else self.arrattr(v, "size")

        def mk(c, fr="1", bad=None):
            if isinstance(v, Seq):
                return v.cp(cls=c, frames=fr, bad=bad)
            if isinstance(v, Idx):
                return Idx(v.base, c, fr, bad)
            return Mask(c, v.sel & c if c is not None and v.sel is not None else None, fr, bad)
        if st is not None and not eq(st, num(1)) or isinstance(hi, Opaque):
            t = [key(x.re) if isinstance(x, Cx) else x.n if isinstance(x, Opaque) and x.n.startswith("arg ") else "" if x is None or isinstance(x, Const) and x.v is None else "?" for x in (lo, hi, st)]
            if "?" in t:
                raise Unknown("step")
            return mk("%s[%s]" % (name(cls), ":".join(t)), v.frames, None if one else "%s thinned out over the frame borders" % v.what())
        if isinstance(v, Idx) and isinstance(lo, Cx) and isinstance(hi, Cx):
            r = Idx(v.base, v.sel, v.frames, v.bad)
            r.trim = (lo, hi)
            return r
        if isinstance(v, Idx) and (lo is None or eq(lo, num(0))) and isinstance(hi, Cx) and below(hi):
            r = Idx(v.base, v.sel, v.frames, v.bad)
            r.trim = (num(0), hi)
            return r
        if isinstance(v, Idx) and hi is None and isinstance(lo, Cx) and below(cneg(lo)):
            r = Idx(v.base, v.sel, v.frames, v.bad)
            r.trim = (lo, num(0))
            return r
        if lo is None or eq(lo, num(0)):
            if eq(hi, ln):
                return v
            if eq(hi, SL) and SEQ <= cls:
                return mk(SEQ)
            if eq(hi, size(cls)):
                return mk(cls, "1")
            if isinstance(hi, Cx) and hi.const() is None:
                return mk(None, None, "the first %s of %s" % (key(hi.re), v.what()))
        elif hi is None and isinstance(lo, Cx):
            if eq(lo, SL) and SEQ <= cls:
                if one:
                    return mk(cls - SEQ)
                return mk(None, None, "%s without the first pilot sequence only" % v.what())
            return mk(None, None, "%s from %s on" % (v.what(), key(lo.re)))
        elif isinstance(lo, Cx) and isinstance(hi, Cx):
            return mk(None, None, "%s from %s to %s" % (v.what(), key(lo.re), key(hi.re)))
        raise Unknown("slice")

    # ---- calls
    def apply(self, f, args, kw):
        if isinstance(f, ClassInfo):
            if f.fullname in self.prims:
                return self.prims[f.fullname](self, args, kw)
            if "*class" in self.prims:
                return self.prims["*class"](self, f, args, kw)
            raise Unknown("class")
        if isinstance(f, Opaque):
            if ("opaque " + f.n) in self.prims:
                return self.prims["opaque " + f.n](self, args, kw)
            return Opaque(f.n + "()")
        if isinstance(f, Bound):
            return self.method(f.v, f.name, args, kw)
        return Ev.apply(self, f, args, kw)

    def wrap(self, r):
        if isinstance(r, ClassInfo):
            return r
        return Ev.wrap(self, r)

    def method(self, v, n, args, kw):
        if isinstance(v, Obj):
            r = v.cls.lookup(n) if isinstance(v.cls, ClassInfo) else None
            if r is not None and isinstance(r[1], FuncInfo):
                f = r[1]
                if ("method " + n) in self.prims:
                    x = self.prims["method " + n](self, v, args, kw)
                    if x is not NotImplemented:
                        return x
                if f.kind == "static":
                    return self.call(f, args, kw)
                if f.kind == "classm":
                    return self.call(f, [v.cls] + list(args), kw)
                return self.call(f, [v] + list(args), kw)
            if n in ("copy", "astype", "squeeze"):
                return v.cp()
            if n == "view":
                c = args[0] if args else None
                if isinstance(c, ClassInfo):
                    return Obj(c, v.data, v.a, v.name)
                return v
            if n in ("conj", "conjugate"):
                return v
            if n == "max" or n == "min":
                return Opaque(n)
            raise Unknown("method " + n)
        if isinstance(v, ClassInfo):
            r = v.lookup(n)
            f = r[1]
            if ("method " + n) in self.prims:
                x = self.prims["method " + n](self, v, args, kw)
                if x is not NotImplemented:
                    return x
            if f.kind == "static":
                return self.call(f, args, kw)
            return self.call(f, [v] + list(args), kw)
        if isinstance(v, Cell):
            if n in ("copy", "astype"):
                return v
            if n == "view":
                return v.view(args[0]) if args and isinstance(args[0], ClassInfo) else v
            return Opaque(n)
        if isinstance(v, Seq) and n == "view" and args and isinstance(args[0], ClassInfo):
            return Obj(args[0], v, {}, "viewed")
        if isinstance(v, (Seq, Mask, Idx, Frames, Raw)):
            if n in ("copy", "astype", "squeeze", "view", "flatten", "ravel", "tolist"):
                return v
            if n in ("conj", "conjugate"):
                return v
            if n in ("sum",) and isinstance(v, Mask):
                return self.ext("numpy.count_nonzero", [v], {})
            if n == "nonzero" and isinstance(v, Mask):
                return self.ext("numpy.nonzero", [v], {})
            if n in ("max", "min"):
                return self.ext("numpy." + n, [v], {})
            raise Unknown("method " + n)
        if isinstance(v, dict):
            if n == "get" and args and isinstance(args[0], Const):
                return v.get(args[0].v, args[1] if len(args) > 1 else Const(None))
            if n == "pop" and args and isinstance(args[0], Const):
                if args[0].v in v:
                    return v.pop(args[0].v)
                return args[1] if len(args) > 1 else Opaque("pop")
            if n == "update":
                if args and isinstance(args[0], dict):
                    v.update(args[0])
                v.update(kw)
                return Const(None)
            if n == "keys":
                return tuple(Const(k) for k in v)
            if n == "items":
                return tuple((Const(k), x) for k, x in v.items())
            if n == "values":
                return tuple(v.values())
            if n == "copy":
                return dict(v)
            return Opaque(n)
        if isinstance(v, Cx) and n in ("max", "min") and not args:
            return Cx(F.var("%s(%s)" % (n, key(v.re))))
        if isinstance(v, Const):
            return Const("")
        if isinstance(v, Rep):
            return v
        return Ev.method(self, v, n, args, kw)

    def ext_(self, n, args, kw):
        a = args[0] if args else None
        if n in self.prims:
            return self.prims[n](self, args, kw)
        b = n.split(".")[-1]
        if b == "dict" and n.startswith("builtins"):
            d = dict(a) if isinstance(a, dict) else {}
            d.update(kw)
            return d
        if b in ("hasattr",):
            if isinstance(a, Obj) and isinstance(args[1], Const):
                r = a.cls.lookup(args[1].v) if isinstance(a.cls, ClassInfo) else None
                return Const(args[1].v in a.a or args[1].v in self.over or r is not None)
            raise Unknown("hasattr")
        if b == "getattr" and isinstance(a, Obj) and isinstance(args[1], Const):
            try:
                v = self.getattr(a, args[1].v)
            except Unknown:
                v = None
            if v is None or isinstance(v, Bound):
                if len(args) > 2:
                    return args[2]
            return v
        if b == "setattr" and isinstance(a, Obj) and isinstance(args[1], Const):
            a.a[args[1].v] = args[2]
            return Const(None)
        if b in ("isinstance", "issubclass"):
            return self.isinst(b, a, args[1])
        if b == "type" and isinstance(a, Obj):
            return a.cls
        if b == "int" and isinstance(a, Cx):
            return a
        if b == "len" and isinstance(a, (Seq, Mask, Idx)):
            return self.arrattr(a, "shape")[0]
        if b == "len" and isinstance(a, Obj):
            return self.arrattr(a.data, "shape")[0]
        if b == "range" and len(args) == 1 and eq(a, NF):
            return Frames("N")
        if n.startswith("builtins") and b in ("list", "tuple", "set", "sorted", "iter"):
            if isinstance(a, (tuple, list)):
                return tuple(a)
            if isinstance(a, (Frames, Rep, Idx)):
                return a
            if a is None:
                return ()
            return Opaque(b)
        if n.startswith("builtins") and b == "zip":
            if len(args) == 1 and isinstance(a, tuple) and len(a) == 2 and a[0] == "star":
                e = a[1].body
                if isinstance(e, tuple):
                    return tuple(Rep(x, a[1].i, a[1].frames) for x in e)
                return (Rep(Opaque("rows of the entries"), a[1].i, a[1].frames),)
            raise Unknown("zip")
        if n.startswith("builtins") and b in ("print", "warn"):
            return Const(None)
        if n.startswith("warnings"):
            return Const(None)
        if n.startswith("builtins") and b in ("abs",) and isinstance(a, Cx):
            return F.cabs(a)
        if n.startswith("builtins") and b in ("max", "min") and len(args) == 1 and isinstance(a, (Frames, Cx)):
            return self.ext_("numpy." + b, args, kw)
        if not n.startswith(("numpy", "builtins", "math")):
            raise Unknown(n)
        if b == "tile":
            return self.tile(a, args[1] if len(args) > 1 else kw.get("reps"))
        if b in ("copy", "array", "asarray", "atleast_1d", "atleast_2d", "ascontiguousarray", "asanyarray", "ravel", "squeeze", "require") and isinstance(a, (Seq, Mask, Idx, Frames, Rep, Cell, Raw)):
            if b == "array" and isinstance(a, Rep):
                return a
            return a
        if b in ("array", "asarray", "atleast_2d", "ascontiguousarray", "copy", "squeeze", "vstack", "asanyarray") and isinstance(a, Obj):
            return a if b in ("atleast_2d", "squeeze") else a.data
        if b == "vstack":
            x = a.body if isinstance(a, Rep) else a[0] if isinstance(a, tuple) and a else a
            if isinstance(x, (Seq, Obj, Rep)):
                return x
            return Opaque("vstack")
        if b in ("array", "asarray") and isinstance(a, (tuple, Opaque)):
            return a
        if b in ("hstack", "concatenate"):
            return self.hstack(a)
        if b == "arange":
            return self.arange(args, kw)
        if b in ("count_nonzero", "sum") and isinstance(a, Mask):
            if a.bad:
                return P("count(%s)" % a.bad)
            return cmul(size(a.sel), {"1": num(1), "N": NF}.get(a.frames, P("len(%s)" % a.frames)))
        if b in ("nonzero", "flatnonzero", "where") and isinstance(a, Mask) and len(args) == 1:
            r = Idx(a.base, a.sel, a.frames, a.bad)
            return r if b == "flatnonzero" else (r,)
        if b in ("logical_not", "bitwise_not", "invert") and isinstance(a, Mask):
            return self.invert(a)
        if b in ("logical_and", "bitwise_and", "logical_or", "bitwise_or", "logical_xor", "bitwise_xor") and isinstance(a, Mask):
            op = {"and": ast.BitAnd(), "or": ast.BitOr(), "xor": ast.BitXor()}[b.split("_")[1]]
            return self.binop_(op, a, args[1])
        if b in ("zeros", "empty", "ones", "full"):
            return self.alloc(b, args, kw)
        if b in ("zeros_like", "empty_like", "ones_like"):
            x = a.data if isinstance(a, Obj) else a
            if isinstance(x, Cx):
                return x if kw.get("dtype") is None else self.alloc(b.split("_")[0], [(x,)], kw)
            return Opaque(b)
        if b == "unique" and isinstance(a, Frames):
            return Frames(a.n, True)
        if b in ("argmin", "argmax"):
            return Cx(F.var("%s(%s)" % (b, getattr(a, "n", type(a).__name__))))
        if b in ("max", "amax", "min", "amin") and isinstance(a, Frames):
            return P("%s(%s)" % (b.replace("amax", "max").replace("amin", "min"), a.n))
        if b in ("max", "amax", "min", "amin") and isinstance(a, Cx):
            return Cx(F.var("%s(%s)" % (b.replace("amax", "max").replace("amin", "min"), key(a.re))))
        if b == "roll" and isinstance(args[1] if len(args) > 1 else kw.get("shift"), Cx):
            return Rolled(a, args[1] if len(args) > 1 else kw["shift"])
        if b == "unique" and isinstance(a, Cx):
            return Opaque("unique")
        if b in ("floor", "round", "rint", "ceil") and isinstance(a, Cx):
            return a
        if b == "issubdtype":
            return Opaque(b)
        if b == "broadcast_to" and isinstance(a, Idx):
            return a
        if b == "repeat" and isinstance(a, (Idx, Seq)):
            r, ax = args[1] if len(args) > 1 else kw.get("repeats"), args[2] if len(args) > 2 else kw.get("axis")
            if isinstance(ax, Cx) and ax.const() == 0 and isinstance(a, Idx):
                return a
            if isinstance(r, Cx) and eq(r, num(1)):
                return a
            if isinstance(a, Seq) and isinstance(r, Cx) and isinstance(ax, Cx) and ax.const() in (1, -1):
                return a.cp(bad="%s, each repeated %s times" % (a.what(), key(r.re)))
            raise Unknown("repeat")
        if b == "take" and isinstance(a, (Seq, Obj)):
            return self.take(a, [("slice", None, None, None), args[1]])
        if b == "compress" and isinstance(args[1], (Seq, Obj)):
            return self.take(args[1], [("slice", None, None, None), a])
        try:
            return Ev.ext_(self, n, args, kw)
        except (KeyError, TypeError, AttributeError) as x:
            raise Unknown("%s: %s" % (n, x))

    def isinst(self, b, a, c):
        ci = a.cls if isinstance(a, Obj) and b == "isinstance" else a if isinstance(a, ClassInfo) and b == "issubclass" else None
        if isinstance(ci, ClassInfo) and isinstance(c, ClassInfo):
            return Const(ci.is_sub(c))
        if isinstance(a, (Cell, Seq)) and isinstance(c, ClassInfo):
            return Const(False)
        if isinstance(c, tuple) and c and b == "isinstance":
            rs = [self.isinst(b, a, x).v for x in c]
            return Const(any(rs))
        if isinstance(c, Ext) and c.n in ("builtins.tuple", "builtins.list", "builtins.dict", "builtins.str"):
            if isinstance(a, tuple) and c.n == "builtins.tuple":
                return Const(True)
            if isinstance(a, (Obj, Seq, Mask, Idx, Raw, Cx, F.Arr)) and b == "isinstance":
                return Const(False)
        raise Unknown(b)

    def alloc(self, b, args, kw):
        sh = args[0] if args else kw.get("shape")
        n = sh[-1] if isinstance(sh, tuple) and sh else sh
        dt = kw.get("dtype", args[1] if len(args) > 1 else None)
        isb = isinstance(dt, Ext) and dt.n in ("builtins.bool", "numpy.bool_", "numpy.bool")
        if isb and b in ("zeros", "ones") and isinstance(n, Cx):
            sel = frozenset() if b == "zeros" else ALL
            if eq(n, FL):
                return Mask(ALL, sel, "1")
            if eq(n, cmul(FL, NF)):
                return Mask(ALL, sel, "N")
            return Mask(ALL, sel, "length %s" % key(n.re))
        if isinstance(sh, tuple) and len(sh) == 2 and isinstance(n, Cx):
            return Cell(n)
        try:
            return Ev.ext_(self, "numpy." + b, args, kw)
        except KeyError:
            raise Unknown(b)

    def arange(self, args, kw):
        if not args:
            raise Unknown("arange")
        if len(args) == 1 and isinstance(args[0], Cx):
            n = args[0]
            if eq(n, NF):
                return Frames("N")
            if eq(n, FL):
                return Cx(F.var(IX))
            for cls, fr in ((Frame.pil, "N"), (Frame.pil, "1"), (Frame.dat, "N"), (Frame.dat, "1"), (ALL, "N")):
                if eq(n, cmul(size(cls), NF if fr == "N" else num(1))):
                    x = IX + "(%s,%s)" % (name(cls), fr)
                    POPS[x] = (cls, fr)
                    RANKS[x] = (cls, fr)
                    return Cx(F.var(x))
        if len(args) == 2 and isinstance(args[0], Cx) and isinstance(args[1], Cx):
            lo, hi = args
            i = [x for mm in lo.re for x, _ in mm if x.startswith("i@")]
            if i:
                iv = Cx(F.var(i[0]))
                for cls in (Frame.dat, Frame.pil, ALL):
                    n = size(cls)
                    if eq(lo, cmul(iv, n)) and eq(hi, cmul(cadd(iv, num(1)), n)):
                        return Idx(cls, cls, "@" + i[0][2:])
                return Idx(Frame.dat, Frame.dat, "@" + i[0][2:], "indices from %s to %s for frame i" % (key(lo.re), key(hi.re)))
        raise Unknown("arange")

    def tile(self, a, r):
        r1 = r[-1] if isinstance(r, tuple) and r else r
        if isinstance(r, tuple) and len(r) == 2 and not eq(r[0], num(1)):
            raise Unknown("tile")
        if not isinstance(r1, Cx):
            raise Unknown("tile")
        if isinstance(a, Obj):
            d = self.tile(a.data, r1)
            return Obj(a.cls, d, a.a, a.name + " tiled")
        if isinstance(a, (Seq, Mask)):
            if eq(r1, num(1)):
                return a
            if a.frames == "1":
                fr = "N" if eq(r1, NF) else "%s times" % key(r1.re)
                return a.cp(frames=fr) if isinstance(a, Seq) else Mask(a.base, a.sel, fr, a.bad)
            if isinstance(a, Seq):
                return a.cp(bad="%s, repeated %s times" % (a.what(), key(r1.re)))
            return Mask(a.base, None, a.frames, "%s, repeated %s times" % (a.what(), key(r1.re)))
        if isinstance(a, Cell):
            return a.tiled(r1)
        raise Unknown("tile")

    def hstack(self, a):
        if isinstance(a, Rep):
            x = a.body
            fr = a.frames.n if a.frames else None
            if isinstance(x, Idx) and fr is not None:
                if x.bad:
                    return Idx(x.base, x.sel, fr, x.bad)
                if x.frames == "@" + fr:
                    return Idx(x.base, x.sel, fr)
                return Idx(x.base, x.sel, fr, "the same indices for every frame")
            if isinstance(x, (Seq, Obj)) and fr is not None:
                d = x.data if isinstance(x, Obj) else x
                if isinstance(d, Seq) and d.frames == "@" + fr:
                    return d.cp(frames=fr)
            return Stacked(x)
        if isinstance(a, tuple) and len(a) == 1:
            return a[0]
        raise Unknown("hstack")


COUNTS = {"p.frame_len", "p.seq_len", "p.ins_rat", "p.nframes", "p.os", "p.npilots", "p.modes"}


def least(p):
    """the least value of a sum of products of counts (each at least one), None if that is not what p is"""
    r = p.get((), F.Fr(0))
    for mm, c in p.items():
        if mm:
            if c < 0 or not all(a in COUNTS and x > 0 for a, x in mm):
                return None
            r += c
    return r


def picked(v, k):
    """the element of every array in v that k selects"""
    def f(a):
        return F.var("%s@[%s]" % (a, k)) if a in PER_MODE else None

    def g(p):
        out = {}
        for mm, c in p.items():
            t = F.C(c)
            for a, x in mm:
                if a in F.PIECE and a.startswith("piece["):
                    d, parts = F.PIECE[a]
                    q = F.pieces(g(d), [(cond(cc), g(w)) for cc, w in parts])
                elif f(a) is not None:
                    q = f(a)
                else:
                    q = {((a, F.Fr(1)),): F.Fr(1)}
                t = F.mul(t, F.powr(q, x))
            out = F.add(out, t)
        return out

    def cond(c):
        if c.t[0] in ("lt", "eq"):
            return F.Cond((c.t[0], g(c.t[1])))
        if c.t[0] == "free":
            return c
        return F.Cond((c.t[0],) + tuple(cond(x) for x in c.t[1:]))
    return Cx(g(v.re), g(v.im), v.cplx)


PER_MODE = set()                # atoms that have one value per mode


def modes(n):
    PER_MODE.add("p." + n)
    return Cx(F.var("p." + n))


FRAMES0 = Cx(F.var("frames*frame_len"))
MODS, POPS, RANKS = {}, {}, {}


class Taken:
    """rows of an array"""

    def __init__(self, of, k):
        self.of, self.k = of, k


class Rolled:
    def __init__(self, of, k):
        self.of, self.k = of, k


class Stacked:
    def __init__(self, of):
        self.of = of


class Cell:
    """an array made by np.empty / np.zeros that is filled afterwards"""

    def __init__(self, n, stores=None, reps=None, attrs=None):
        self.n, self.stores, self.reps, self.attrs = n, stores if stores is not None else [], reps, attrs or {}

    def tiled(self, r):
        return Cell(cmul(self.n, r), self.stores, r)

    def view(self, c):
        o = Obj(c, self, {}, "made")
        return o

    def take(self, ev, ks):
        return Opaque("cell part")


class Limit:
    """which indices lie within the signal"""


class Raw:
    """a received field of any length; lo, hi: the part of it"""

    def __init__(self, name, lo=None, hi=None, row=None):
        self.name, self.lo, self.hi, self.row = name, lo, hi, row

    def take(self, ks):
        ks = [k for k in ks if not (isinstance(k, Const) and k.v is None)]
        k = ks[-1] if ks else None
        if len(ks) == 2 and isinstance(k, tuple) and k[0] == "slice":
            if self.lo is not None or self.hi is not None:
                if k[1:] == (None, None, None):
                    return Raw(self.name, self.lo, self.hi, ks[0])
                raise Unknown("part of a part")
            if k[3] is not None:
                raise Unknown("step")
            return Raw(self.name, k[1], k[2], None if isinstance(ks[0], tuple) else ks[0])
        if len(ks) == 1 and isinstance(ks[0], (Cx, Opaque)):
            return Raw(self.name, self.lo, self.hi, ks[0])
        raise Unknown("part")
