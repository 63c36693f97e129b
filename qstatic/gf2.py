"""Evaluates shift-register code over numbers whose bits are polynomials over GF(2) in the bits of the seed.

A bit is a frozenset of monomials (frozensets of variables); a number is a tuple of bits, lowest first.
Branches on an unknown bit are merged bit by bit, loops run a given number of rounds."""
import ast
from .formula import Unknown
from .project import FuncInfo

ZERO, ONE = frozenset(), frozenset([frozenset()])
LIMIT = 4000


def bit(v):
    return frozenset([frozenset([v])])


def xor(a, b):
    return a ^ b


def band(a, b):
    if a == ZERO or b == ZERO:
        return ZERO
    if a == ONE:
        return b
    if b == ONE:
        return a
    out = set()
    for x in a:
        for y in b:
            out ^= {x | y}
            if len(out) > LIMIT:
                raise Unknown("too many terms")
    return frozenset(out)


class Nat:
    """a natural number"""
    def __init__(self, bits):
        bits = list(bits)
        while bits and bits[-1] == ZERO:
            bits.pop()
        self.bits = tuple(bits)

    @staticmethod
    def of(v):
        if isinstance(v, Nat):
            return v
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int) and v >= 0:
            return Nat([ONE if v >> k & 1 else ZERO for k in range(v.bit_length())])
        raise Unknown("no natural number")

    def const(self):
        if all(b in (ZERO, ONE) for b in self.bits):
            return sum(1 << k for k, b in enumerate(self.bits) if b == ONE)
        return None

    def at(self, k):
        return self.bits[k] if k < len(self.bits) else ZERO


def low(v):
    """a plain int where the number is known"""
    if isinstance(v, Nat):
        c = v.const()
        return v if c is None else c
    return v


def zipb(f, a, b):
    a, b = Nat.of(a), Nat.of(b)
    return low(Nat(f(a.at(k), b.at(k)) for k in range(max(len(a.bits), len(b.bits)))))


def plus(a, b):
    a, b = Nat.of(a), Nat.of(b)
    out, c = [], ZERO
    for k in range(max(len(a.bits), len(b.bits)) + 1):
        x, y = a.at(k), b.at(k)
        out.append(x ^ y ^ c)
        c = band(x, y) ^ band(c, x ^ y)
    return low(Nat(out))


def choose(c, a, b):
    """a where the bit c is set, else b"""
    if c == ONE:
        return a
    if c == ZERO:
        return b
    if isinstance(a, list) or isinstance(b, list):
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [choose(c, x, y) for x, y in zip(a, b)]
        raise Unknown("lists differ between branches")
    if same(a, b):
        return a
    return zipb(lambda x, y: band(c, x) ^ band(c ^ ONE, y), a, b)


def same(a, b):
    if isinstance(a, (int, Nat)) and isinstance(b, (int, Nat)) and not (isinstance(a, int) and a < 0) and not (isinstance(b, int) and b < 0):
        return Nat.of(a).bits == Nat.of(b).bits
    return a is b or type(a) == type(b) and not isinstance(a, (list, Nat)) and a == b


class PyError(Exception):
    def __init__(self, n):
        self.n = n


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Enough(Exception):
    pass


class Any:
    """something that does not matter"""
    def __init__(self, n):
        self.n = n


class Gf:
    def __init__(self, project, prims=None, rounds=0):
        self.p, self.prims, self.rounds = project, prims or {}, rounds
        self.used = set()
        self.yielded = []
        self.loopvars = []
        self.steps = 0

    # ---- functions
    def call(self, fi, args, kw=None):
        self.used.add(fi.qual)
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = dict(zip(names, args))
        env.update(kw or {})
        for x, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if x not in env:
                env[x] = self.ex(d, {}, fi.module)
        if set(names) - set(env):
            raise Unknown("arguments")
        try:
            self.block(fi.node.body, env, fi.module)
        except Ret as r:
            return r.v
        return None

    def block(self, body, env, m):
        for s in body:
            self.stmt(s, env, m)

    def stmt(self, s, env, m):
        self.steps += 1
        if self.steps > 200000:
            raise Unknown("too long")
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Yield):
                v = s.value.value
                self.yielded.append([self.ex(x, env, m) for x in v.elts] if isinstance(v, ast.Tuple) else [self.ex(v, env, m)])
                if len(self.yielded) >= self.rounds:
                    raise Enough
            elif not isinstance(s.value, ast.Constant):
                self.ex(s.value, env, m)
            return
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
            return
        if isinstance(s, ast.Assign):
            v = self.ex(s.value, env, m)
            for t in s.targets:
                self.put(t, v, env, m)
            return
        if isinstance(s, ast.AnnAssign) and s.value is not None:
            return self.put(s.target, self.ex(s.value, env, m), env, m)
        if isinstance(s, ast.AugAssign):
            t = s.target
            ld = ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t) if isinstance(t, ast.Subscript) else ast.copy_location(ast.Name(t.id, ast.Load()), t)
            return self.put(t, self.op(s.op, self.ex(ld, env, m), self.ex(s.value, env, m)), env, m)
        if isinstance(s, ast.Return):
            raise Ret(None if s.value is None else self.ex(s.value, env, m))
        if isinstance(s, ast.Assert):
            c = self.truth(self.ex(s.test, env, m))
            if c == ZERO:
                raise PyError("AssertionError")
            return
        if isinstance(s, ast.Raise):
            raise PyError("raise")
        if isinstance(s, ast.If):
            c = self.truth(self.ex(s.test, env, m))
            if c == ONE:
                return self.block(s.body, env, m)
            if c == ZERO:
                return self.block(s.orelse, env, m)
            for x in ast.walk(s):
                if isinstance(x, (ast.Return, ast.Raise, ast.Yield, ast.Break, ast.Continue)):
                    raise Unknown("leaves a branch on an unknown bit")
            ea, eb = self.copy(env), self.copy(env)
            self.block(s.body, ea, m)
            self.block(s.orelse, eb, m)
            for k in set(ea) | set(eb):
                if k in ea and k in eb:
                    v = choose(c, ea[k], eb[k])
                    if isinstance(env.get(k), list) and isinstance(v, list):
                        env[k][:] = v
                    else:
                        env[k] = v
                else:
                    env.pop(k, None)
            return
        if isinstance(s, ast.For):
            it = self.ex(s.iter, env, m)
            if not isinstance(it, (list, tuple, range)):
                raise Unknown("iterable")
            n = 0
            for x in it:
                self.put(s.target, x, env, m)
                try:
                    self.block(s.body, env, m)
                except Continue_:
                    pass
                except Break_:
                    return
                n += 1
            return self.block(s.orelse, env, m)
        if isinstance(s, ast.While):
            n = 0
            while True:
                c = self.truth(self.ex(s.test, env, m))
                if c == ZERO:
                    return
                if c != ONE:
                    raise Unknown("loop on an unknown bit")
                try:
                    self.block(s.body, env, m)
                except Continue_:
                    pass
                except Break_:
                    return
                n += 1
                if n > 5000:
                    raise Unknown("endless loop")
        if isinstance(s, ast.Continue):
            raise Continue_()
        if isinstance(s, ast.Break):
            raise Break_()
        if isinstance(s, ast.Try) and not s.finalbody:
            saved = self.copy(env)
            try:
                self.block(s.body, env, m)
            except PyError as e:
                for h in s.handlers:
                    ns = None if h.type is None else [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if ns is None or e.n in ns or "Exception" in ns:
                        env.clear()
                        env.update(saved)
                        return self.block(h.body, env, m)
                raise
            return self.block(s.orelse, env, m)
        raise Unknown("statement %s" % type(s).__name__)

    def copy(self, env):
        return {k: list(v) if isinstance(v, list) else v for k, v in env.items()}

    def put(self, t, v, env, m):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, (list, tuple)) or len(v) != len(t.elts):
                raise Unknown("unpacking")
            for x, y in zip(t.elts, v):
                self.put(x, y, env, m)
        elif isinstance(t, ast.Subscript):
            o, k = self.ex(t.value, env, m), self.ex(t.slice, env, m)
            if isinstance(o, dict):
                o[k] = v
            elif isinstance(o, list) and isinstance(k, int):
                if not -len(o) <= k < len(o):
                    raise PyError("IndexError")
                o[k] = v
            else:
                raise Unknown("store")
        else:
            raise Unknown("target")

    def resolve(self, m, e):
        r = m.resolve_expr(e)
        if isinstance(r, FuncInfo):
            return r
        if isinstance(r, tuple) and r[0] == "ext":
            return r
        if isinstance(r, tuple) and r[0] == "var":
            v = r[1].assigns.get(r[2])
            if v is None:
                raise Unknown("name %s" % r[2])
            return self.ex(v, {}, r[1])
        return None

    # ---- expressions
    def truth(self, v):
        if isinstance(v, (bool, int)):
            return ONE if v else ZERO
        if v is None:
            return ZERO
        if isinstance(v, Nat):
            bs = [b for b in v.bits if b != ZERO]
            if any(b == ONE for b in bs):
                return ONE
            if len(bs) == 1:
                return bs[0]
            r = ONE
            for b in bs:
                r = band(r, b ^ ONE)
            return r ^ ONE
        if isinstance(v, (list, tuple, dict, str)):
            return ONE if v else ZERO
        raise Unknown("condition")

    def ex(self, e, env, m):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            r = self.resolve(m, e)
            if r is not None:
                return r
            if e.id in ("range", "len", "enumerate", "int", "bool", "list", "tuple", "sum", "reversed", "zip", "min", "max", "abs", "isinstance", "pow"):
                return ("builtin", e.id)
            raise Unknown("name %s" % e.id)
        if isinstance(e, (ast.List, ast.Tuple)):
            v = [self.ex(x, env, m) for x in e.elts]
            return v if isinstance(e, ast.List) else tuple(v)
        if isinstance(e, ast.Set):
            return [self.ex(x, env, m) for x in e.elts]
        if isinstance(e, ast.Dict):
            return {self.ex(k, env, m): self.ex(v, env, m) for k, v in zip(e.keys, e.values)}
        if isinstance(e, ast.BinOp):
            return self.op(e.op, self.ex(e.left, env, m), self.ex(e.right, env, m))
        if isinstance(e, ast.UnaryOp):
            v = self.ex(e.operand, env, m)
            if isinstance(e.op, ast.Not):
                return low(Nat([self.truth(v) ^ ONE]))
            if isinstance(e.op, ast.USub) and isinstance(v, (int, float)):
                return -v
            raise Unknown("operator")
        if isinstance(e, ast.BoolOp):
            r = self.truth(self.ex(e.values[0], env, m))
            for x in e.values[1:]:
                if isinstance(e.op, ast.And):
                    if r == ZERO:
                        return 0
                    r = band(r, self.truth(self.ex(x, env, m)))
                else:
                    if r == ONE:
                        return 1
                    t = self.truth(self.ex(x, env, m))
                    r = r ^ t ^ band(r, t)
            return low(Nat([r]))
        if isinstance(e, ast.IfExp):
            c = self.truth(self.ex(e.test, env, m))
            if c == ONE:
                return self.ex(e.body, env, m)
            if c == ZERO:
                return self.ex(e.orelse, env, m)
            return choose(c, self.ex(e.body, env, m), self.ex(e.orelse, env, m))
        if isinstance(e, ast.Compare):
            return self.compare(e, env, m)
        if isinstance(e, ast.Subscript):
            o = self.ex(e.value, env, m)
            if isinstance(e.slice, ast.Slice):
                if isinstance(o, (list, tuple)):
                    k = [None if x is None else self.ex(x, env, m) for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                    if all(x is None or isinstance(x, int) for x in k):
                        return o[slice(*k)]
                raise Unknown("slice")
            k = self.ex(e.slice, env, m)
            if isinstance(o, dict):
                if k in o:
                    return o[k]
                raise PyError("KeyError")
            if isinstance(o, (list, tuple)) and isinstance(k, int):
                if -len(o) <= k < len(o):
                    return o[k]
                raise PyError("IndexError")
            raise Unknown("index")
        if isinstance(e, ast.Attribute):
            b = e.value
            while isinstance(b, ast.Attribute):
                b = b.value
            r = self.resolve(m, e) if not (isinstance(b, ast.Name) and b.id in env) else None
            if r is not None:
                return r
            v = self.ex(e.value, env, m)
            if isinstance(v, list):
                if e.attr in ("shape", "size"):
                    return (len(v),) if e.attr == "shape" else len(v)
                return ("method", v, e.attr)
            if isinstance(v, (int, Nat)):
                return ("method", v, e.attr)
            raise Unknown("attribute %s" % e.attr)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1:
            g = e.generators[0]
            out = []
            for x in self.ex(g.iter, env, m):
                s = dict(env)
                self.put(g.target, x, s, m)
                cs = [self.truth(self.ex(c, s, m)) for c in g.ifs]
                if any(c not in (ZERO, ONE) for c in cs):
                    raise Unknown("filter on an unknown bit")
                if all(c == ONE for c in cs):
                    out.append(self.ex(e.elt, s, m))
            return out
        if isinstance(e, ast.Call):
            return self.docall(e, env, m)
        if isinstance(e, ast.JoinedStr):
            return "text"
        raise Unknown("expression %s" % type(e).__name__)

    def compare(self, e, env, m):
        if len(e.ops) != 1:
            raise Unknown("comparison")
        op, a, b = e.ops[0], self.ex(e.left, env, m), self.ex(e.comparators[0], env, m)
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = a is b or same(a, b) if b is None or a is None else None
            if r is None:
                raise Unknown("identity")
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (list, tuple, dict)) and isinstance(a, (int, str)) and all(isinstance(x, (int, str)) for x in b):
                return (a in b) == isinstance(op, ast.In)
            raise Unknown("membership")
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return {ast.Eq: a == b, ast.NotEq: a != b, ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        if isinstance(a, (int, Nat)) and isinstance(b, (int, Nat)):
            d = zipb(xor, a, b)
            if isinstance(op, (ast.Eq, ast.NotEq)):
                t = self.truth(d)
                return low(Nat([t if isinstance(op, ast.NotEq) else t ^ ONE]))
            # against zero
            if b == 0 and isinstance(op, ast.Gt) or b == 1 and isinstance(op, ast.GtE):
                return low(Nat([self.truth(a)]))
            if b == 0 and isinstance(op, ast.LtE) or b == 1 and isinstance(op, ast.Lt):
                return low(Nat([self.truth(a) ^ ONE]))
            # against a power of two: the bits from there on
            if isinstance(b, int) and b > 0 and not b & (b - 1) and isinstance(op, (ast.GtE, ast.Lt)):
                t = self.truth(self.op(ast.RShift(), a, b.bit_length() - 1))
                return low(Nat([t if isinstance(op, ast.GtE) else t ^ ONE]))
        if type(a) != type(b) and isinstance(op, (ast.Eq, ast.NotEq)) and (a is None or b is None):
            return isinstance(op, ast.NotEq)
        raise Unknown("comparison")

    def op(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b,
                        ast.LShift: lambda: a << b, ast.RShift: lambda: a >> b, ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b, ast.BitXor: lambda: a ^ b, ast.Div: lambda: a / b}[type(op)]()
            except (ZeroDivisionError, ValueError, TypeError, KeyError):
                raise Unknown("operator")
        if isinstance(a, str) or isinstance(b, str):
            return "text"
        if isinstance(a, (int, Nat)) and isinstance(b, (int, Nat)):
            if isinstance(op, ast.BitXor):
                return zipb(xor, a, b)
            if isinstance(op, ast.BitAnd):
                return zipb(band, a, b)
            if isinstance(op, ast.BitOr):
                return zipb(lambda x, y: x ^ y ^ band(x, y), a, b)
            if isinstance(op, ast.Add):
                return plus(a, b)
            if isinstance(op, ast.LShift) and isinstance(b, int) and 0 <= b < 200:
                return low(Nat((ZERO,) * b + Nat.of(a).bits))
            if isinstance(op, ast.RShift) and isinstance(b, int) and b >= 0:
                return low(Nat(Nat.of(a).bits[b:]))
            if isinstance(op, ast.Mult):
                if isinstance(a, int):
                    a, b = b, a
                if isinstance(b, int) and b >= 0 and not b & (b - 1):
                    return low(Nat((ZERO,) * (b.bit_length() - 1) + a.bits)) if b else 0
                if isinstance(b, Nat) and isinstance(a, Nat) and (len(a.bits) == 1 or len(b.bits) == 1):
                    one, o = (a, b) if len(a.bits) == 1 else (b, a)
                    return low(Nat(band(one.bits[0], x) for x in o.bits))
            if isinstance(op, (ast.Mod, ast.FloorDiv)) and isinstance(b, int) and b > 0 and not b & (b - 1):
                k = b.bit_length() - 1
                return low(Nat(a.bits[:k])) if isinstance(op, ast.Mod) else low(Nat(a.bits[k:]))
        raise Unknown("operator %s" % type(op).__name__)

    def docall(self, e, env, m):
        f = self.ex(e.func, env, m)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                args.extend(self.ex(x.value, env, m))
            else:
                args.append(self.ex(x, env, m) if not isinstance(x, ast.Attribute) or self.isval(x, env, m) else Any(ast.unparse(x)))
        kw = {k.arg: (self.ex(k.value, env, m) if k.arg not in ("dtype",) else Any("dtype")) for k in e.keywords}
        if None in kw:
            raise Unknown("keywords")
        if isinstance(f, FuncInfo):
            if f.qual in self.prims:
                return self.prims[f.qual](args, kw)
            return self.call(f, args, kw)
        if isinstance(f, tuple) and f[0] == "builtin":
            n = f[1]
            if n == "range" and all(isinstance(x, int) for x in args):
                return list(range(*args))
            if n in ("len",):
                if isinstance(args[0], (list, tuple, dict)):
                    return len(args[0])
                if isinstance(args[0], (int, Nat)):
                    raise PyError("TypeError")
            if n == "enumerate" and isinstance(args[0], (list, tuple)):
                return [(i + (args[1] if len(args) > 1 else kw.get("start", 0)), x) for i, x in enumerate(args[0])]
            if n in ("list", "tuple") and isinstance(args[0], (list, tuple)):
                return list(args[0])
            if n == "reversed" and isinstance(args[0], (list, tuple)):
                return list(args[0])[::-1]
            if n == "zip" and all(isinstance(a, (list, tuple)) for a in args):
                return list(zip(*args))
            if n == "int" and isinstance(args[0], (int, Nat)):
                return args[0]
            if n == "int" and isinstance(args[0], float):
                return int(args[0])
            if n == "bool":
                return low(Nat([self.truth(args[0])]))
            if n == "sum" and isinstance(args[0], (list, tuple)):
                r = args[1] if len(args) > 1 else 0
                for x in args[0]:
                    r = self.op(ast.Add(), r, x)
                return r
            if n in ("min", "max", "abs", "pow") and all(isinstance(x, (int, float)) for x in args):
                return {"min": min, "max": max, "abs": abs, "pow": pow}[n](*args)
            raise Unknown("builtin %s" % n)
        if isinstance(f, tuple) and f[0] == "method":
            v, n = f[1], f[2]
            if n == "bit_length" and isinstance(v, int):
                return v.bit_length()
            if n == "astype" and isinstance(v, list):
                t = ast.unparse(e.args[0]) if e.args else ""
                if t.split(".")[-1] in ("bool", "bool_"):
                    return [low(Nat([self.truth(x)])) for x in v]
                return list(v)
            if n == "astype" and isinstance(v, (int, Nat)):
                return v
            if n in ("copy", "tolist") and isinstance(v, list):
                return list(v)
            if n == "append" and isinstance(v, list) and len(args) == 1:
                v.append(args[0])
                return None
            raise Unknown("method %s" % n)
        name = f[1] if isinstance(f, tuple) and f[0] == "ext" else str(f)
        if isinstance(name, str) and name.startswith("numpy."):
            n = name[6:]
            if n in ("ones", "zeros", "empty") and isinstance(args[0], (int, tuple)):
                k = args[0] if isinstance(args[0], int) else args[0][0] if len(args[0]) == 1 else None
                if isinstance(k, int):
                    return [1 if n == "ones" else 0] * k
            if n == "full" and isinstance(args[0], int):
                return [args[1]] * args[0]
            if n in ("array", "asarray", "asanyarray", "copy", "atleast_1d"):
                v = args[0]
                if isinstance(v, (list, tuple)):
                    d = next((ast.unparse(k.value) for k in e.keywords if k.arg == "dtype"), ast.unparse(e.args[1]) if len(e.args) > 1 else "")
                    return [low(Nat([self.truth(x)])) for x in v] if d.split(".")[-1] in ("bool", "bool_") else list(v)
            if n == "arange" and all(isinstance(x, int) for x in args):
                return list(range(*args))
            if n in ("uint8", "uint64", "int64", "int_", "bool_") and isinstance(args[0], (int, Nat)):
                return args[0]
        raise Unknown("call of %s" % name)

    def isval(self, x, env, m):
        """attribute arguments that are values (not types)"""
        return ast.unparse(x).split(".")[0] not in ("np", "numpy", "N")


class Continue_(Exception):
    pass


class Break_(Exception):
    pass
