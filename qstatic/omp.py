"""Data-race analysis of the loops that carry an OpenMP directive.  Judges what iterations share: scalars carried from one
iteration to another, elements written by more than one iteration, reductions that are not declared."""
import ast
import copy
import io
import re
import tokenize

REDOPS = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "&": ast.BitAnd, "|": ast.BitOr, "^": ast.BitXor}


class Directive:
    def __init__(self, line, text):
        self.line, self.text = line, text
        self.parallel = bool(re.match(r"omp\s+(parallel\s+)?for\b", text))
        m = re.search(r"collapse\s*\(\s*(\d+)\s*\)", text)
        self.collapse = int(m.group(1)) if m else 1
        self.red = {}
        for op, names in re.findall(r"reduction\s*\(\s*([-+*&|^]|min|max)\s*:\s*([^)]*)\)", text):
            for n in names.split(","):
                self.red[n.strip()] = op
        self.private = set()
        for names in re.findall(r"\b(?:first)?private\s*\(\s*([^)]*)\)", text):
            self.private |= {n.strip() for n in names.split(",")}
        self.assume = assumptions(text)


def assumptions(text):
    """{name: bool} the loop only runs in parallel under, from an if clause"""
    m = re.search(r"\bif\s*\(", text)
    if not m:
        return {}
    depth, k = 1, m.end()
    while k < len(text) and depth:
        depth += {"(": 1, ")": -1}.get(text[k], 0)
        k += 1
    cond = text[m.end():k - 1]
    cond = re.sub(r"!(?!=)", " not ", cond).replace("&&", " and ").replace("||", " or ")
    cond = re.sub(r"^\s*parallel\s*:", "", cond).strip()
    try:
        e = ast.parse(cond, mode="eval").body
    except SyntaxError:
        return {}
    out = {}

    def add(e, want):
        if isinstance(e, ast.Name):
            out[e.id] = want
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            add(e.operand, not want)
        elif isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And if want else ast.Or):
            for x in e.values:
                add(x, want)
        elif isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name):
            c = e.comparators[0]
            if isinstance(c, ast.Name) and c.id in ("true", "false"):
                v = c.id == "true"
            elif isinstance(c, ast.Constant) and c.value in (0, 1):
                v = bool(c.value)
            else:
                return
            if isinstance(e.ops[0], ast.Eq):
                add(e.left, want == v)
            elif isinstance(e.ops[0], ast.NotEq):
                add(e.left, want != v)
    add(e, True)
    return out


def conditions(loop):
    """conditions that got a name: {name: expression}"""
    d, n = {}, {}
    for x in ast.walk(loop):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            n[x.id] = n.get(x.id, 0) + 1
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
            d[x.targets[0].id] = x.value
    return {k: v for k, v in d.items() if n[k] == 1}


class Specialise(ast.NodeTransformer):
    """the loop as it is when some flags have known values: branches that cannot be taken vanish"""
    def __init__(self, flags, named=None):
        self.flags, self.named = flags, named or {}

    def truth(self, e):
        if isinstance(e, ast.Name):
            if e.id not in self.flags and e.id in self.named:
                return self.truth(self.named[e.id])
            return self.flags.get(e.id)
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.truth(e.operand)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            vs = [self.truth(x) for x in e.values]
            stop = isinstance(e.op, ast.Or)
            if stop in vs:
                return stop
            return None if None in vs else not stop
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value in (0, 1):
            v = self.truth(e.left)
            if v is not None and isinstance(e.ops[0], (ast.Eq, ast.Is)):
                return v == bool(e.comparators[0].value)
            if v is not None and isinstance(e.ops[0], (ast.NotEq, ast.IsNot)):
                return v != bool(e.comparators[0].value)
        return None

    def visit_If(self, n):
        t = self.truth(n.test)
        n = self.generic_visit(n)
        if t is None:
            return n
        return (n.body if t else n.orelse) or ast.copy_location(ast.Pass(), n)

    def visit_IfExp(self, n):
        t = self.truth(n.test)
        n = self.generic_visit(n)
        return n if t is None else (n.body if t else n.orelse)


def directives(src):
    out = []
    for t in tokenize.generate_tokens(io.StringIO(src).readline):
        if t.type == tokenize.COMMENT:
            m = re.match(r"#\s*(omp\b.*)", t.string)
            if m:
                out.append(Directive(t.start[0], m.group(1).strip()))
    return out


def names(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


def elements(sub):
    s = sub.slice
    return list(s.elts) if isinstance(s, ast.Tuple) else [s]


def base_of(e):
    """(name, [index elements]) of a (nested) subscript"""
    idx = []
    while isinstance(e, ast.Subscript):
        idx = elements(e) + idx if not isinstance(e.value, ast.Subscript) else elements(e) + idx
        e = e.value
    return (e.id, idx) if isinstance(e, ast.Name) else (None, idx)


class Loop:
    def __init__(self, mod, func, loop, d, funcs, report, undecided):
        self.mod, self.func, self.loop, self.d, self.funcs = mod, func, loop, d, funcs
        self.report_, self.und = report, undecided
        self.facts = 0
        self.seen = set()

    def bad(self, what, node, kind, name):
        self.report_(kind, name, what, node)

    # ---------------------------------------------------------------- setup
    def run(self):
        d, loop = self.d, self.loop
        flags = {k: v for k, v in d.assume.items()
                 if not any(isinstance(n, ast.Name) and n.id == k and isinstance(n.ctx, ast.Store) for n in ast.walk(loop))}
        if flags:
            # what runs in parallel is the loop with these flags; otherwise the iterations run in order
            inside0 = set(id(n) for n in ast.walk(loop))
            loop = self.loop = Specialise(flags, conditions(loop)).visit(copy.deepcopy(loop))
        else:
            inside0 = None
        self.par, body, cur = [], None, loop
        for k in range(d.collapse):
            if not isinstance(cur, ast.For):
                self.und("collapse deeper than the loops")
                break
            if not isinstance(cur.target, ast.Name):
                self.und("loop over several variables")
                return
            if names(cur.iter) & set(self.par):
                self.bad("the collapsed loop over '%s' runs over a range that depends on '%s'" % (cur.target.id, ", ".join(sorted(names(cur.iter) & set(self.par)))),
                         cur, "collapse", cur.target.id)
            self.par.append(cur.target.id)
            body = cur.body
            inner = [s for s in body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if k + 1 < d.collapse:
                if len(inner) != 1:
                    self.bad("collapse(%d) needs perfectly nested loops" % d.collapse, cur, "collapse", cur.target.id)
                    break
                cur = inner[0]
        self.body = body
        inside = inside0 or set(id(n) for n in ast.walk(loop))
        self.outer_stores, self.outer_loads = {}, {}
        for n in ast.walk(self.func):
            if id(n) in inside or not isinstance(n, ast.Name):
                continue
            (self.outer_loads if isinstance(n.ctx, ast.Load) else self.outer_stores).setdefault(n.id, []).append(n)
        for a in self.func.args.args:
            self.outer_stores.setdefault(a.arg, []).append(a)
        # variables the loop assigns, with every right hand side
        self.defs = {}
        for s in ast.walk(loop):
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.defs.setdefault(t.id, []).append(s.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                self.defs.setdefault(x.id, []).append(None)
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.defs.setdefault(s.target.id, []).append(None)
            elif isinstance(s, ast.For) and s is not loop:
                for x in ast.walk(s.target):
                    if isinstance(x, ast.Name):
                        self.defs.setdefault(x.id, []).append(None)
        self.guarded = set()
        self.stores = []            # (name, elements, node)
        self.reads = []
        self.reported = set()
        done = set(self.par)
        self.block(body, done)
        self.arrays()
        # carried out of the loop
        end = loop.end_lineno
        for v in sorted(self.defs):
            if v in self.par or v in self.d.red or v in self.d.private or v in self.reported:
                continue
            after = [n for n in self.outer_loads.get(v, []) if n.lineno > end]
            if after and not any(isinstance(n, ast.Name) and n.lineno > end and n.lineno < min(x.lineno for x in after) for n in self.outer_stores.get(v, [])):
                self.bad("'%s' is assigned by every iteration and read after the loop: which iteration wins depends on the schedule" % v, after[0], "shared", v)
                self.reported.add(v)
        for v in self.d.red:
            self.facts += 1

    # ---------------------------------------------------------------- scalars
    def block(self, stmts, done):
        for s in stmts:
            done = self.stmt(s, done)
            if done is None:
                return None
        return done

    def use(self, e, done, skip=None):
        """reads in an expression"""
        if e is None:
            return
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.read_scalar(n, done)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                nm, idx = base_of(n)
                if nm is not None:
                    self.reads.append((nm, idx, n))
            elif isinstance(n, ast.Call):
                self.call(n)
        # whole arrays
        subs = set()
        for n in ast.walk(e):
            if isinstance(n, ast.Subscript):
                x = n
                while isinstance(x, ast.Subscript):
                    x = x.value
                subs.add(id(x))
            elif isinstance(n, ast.Attribute) and n.attr in ("shape", "size", "ndim", "dtype"):
                subs.add(id(n.value))
            elif isinstance(n, ast.Call):
                subs |= self.passed(n)
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in subs:
                self.reads.append((n.id, None, n))

    def read_scalar(self, n, done):
        v = n.id
        if v not in self.defs or v in done or v in self.reported or v in self.d.private:
            return
        if v in self.d.red:
            self.bad("the reduction variable '%s' is read inside the loop: its value depends on the schedule" % v, n, "reduction", v)
            self.reported.add(v)
            return
        self.carried(v, n)

    def carried(self, v, n):
        if v in self.reported:
            return
        self.reported.add(v)
        self.bad("'%s' carries a value from one iteration of the parallel loop to another" % v, n, "shared", v)

    def assign(self, t, done, node, value=None):
        if isinstance(t, ast.Name):
            self.facts += 1
            if t.id in self.d.red:
                self.bad("the reduction variable '%s' is assigned" % t.id, node, "reduction", t.id)
            return done | {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                done = self.assign(x, done, node)
            return done
        if isinstance(t, ast.Starred):
            return self.assign(t.value, done, node)
        if isinstance(t, ast.Subscript):
            nm, idx = base_of(t)
            for i in idx:
                self.use(i, done)
            if nm is not None:
                self.facts += 1
                self.stores.append((nm, idx, node))
            return done
        if isinstance(t, ast.Attribute):
            self.bad("the attribute %s is written by every iteration" % ast.unparse(t), node, "shared", ast.unparse(t))
        return done

    def stmt(self, s, done):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            t, v = s.targets[0].id, s.value
            if isinstance(v, ast.Name) and v.id == t:
                return done
            if t in self.d.red and isinstance(v, ast.BinOp):
                # x = x + e
                l, r = (isinstance(x, ast.Name) and x.id == t for x in (v.left, v.right))
                o = v.right if l else v.left
                if (l or r and isinstance(v.op, (ast.Add, ast.Mult))) and t not in names(o):
                    return self.stmt(ast.copy_location(ast.AugAssign(ast.copy_location(ast.Name(t, ast.Store()), s), v.op, o), s), done)
        if isinstance(s, ast.Assign):
            self.use(s.value, done)
            for t in s.targets:
                done = self.assign(t, done, s, s.value)
            return done
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.use(s.value, done)
                done = self.assign(s.target, done, s, s.value)
            return done
        if isinstance(s, ast.AugAssign):
            self.use(s.value, done)
            t = s.target
            if isinstance(t, ast.Name):
                self.facts += 1
                if t.id in self.d.red:
                    want = REDOPS.get(self.d.red[t.id])
                    if not isinstance(s.op, want or ast.AST) and not (want is ast.Add and isinstance(s.op, ast.Sub)):
                        self.bad("the reduction of '%s' is declared as %s but computed as %s" % (t.id, self.d.red[t.id], type(s.op).__name__), s, "reduction", t.id)
                elif t.id not in done and t.id not in self.d.private:
                    if t.id not in self.reported:
                        self.reported.add(t.id)
                        self.bad("'%s' is accumulated over the iterations of the parallel loop without a reduction" % t.id, s, "shared", t.id)
                return done
            if isinstance(t, ast.Subscript):
                nm, idx = base_of(t)
                for i in idx:
                    self.use(i, done)
                if nm is not None:
                    self.facts += 1
                    self.stores.append((nm, idx, s))
                return done
            return self.assign(t, done, s)
        if isinstance(s, ast.Expr):
            self.use(s.value, done)
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.attr in ("append", "extend", "insert", "add", "pop") \
                    and v.func.value.id not in done:
                self.bad("'%s' is changed by every iteration" % v.func.value.id, s, "shared", v.func.value.id)
            return done
        if isinstance(s, ast.If):
            self.use(s.test, done)
            k = len(self.stores)
            a = self.block(s.body, done)
            b = self.block(s.orelse, done)
            if any(names(s.test) & self.dependent(i) for i in self.par):
                self.guarded.update(id(x[2]) for x in self.stores[k:])
            if a is None or b is None:
                return b if a is None else a
            return (a & b) | {v for v in (a | b) if self.definite_else(v, done)}
        if isinstance(s, ast.For):
            self.use(s.iter, done)
            d2 = self.assign(s.target, done, s)
            # what the body assigns first is assigned in every round
            a = self.block(s.body, d2)
            if s.orelse:
                self.block(s.orelse, done)
            # loops are taken to run at least once
            return a if a is not None else done
        if isinstance(s, ast.While):
            self.use(s.test, done)
            self.block(s.body, done)
            return done
        if isinstance(s, (ast.Return, ast.Yield)):
            self.bad("return from inside a parallel loop", s, "exit", "return")
            return None
        if isinstance(s, ast.Break):
            return None if self.inner(s) else (self.bad("break out of a parallel loop", s, "exit", "break"), None)[1]
        if isinstance(s, (ast.Continue, ast.Raise)):
            return None
        if isinstance(s, (ast.Pass, ast.Assert, ast.Global, ast.Nonlocal)):
            if isinstance(s, ast.Assert):
                self.use(s.test, done)
            return done
        self.und("%s in a parallel loop" % type(s).__name__)
        return done

    def inner(self, brk):
        """the break leaves an inner loop only"""
        for n in ast.walk(self.loop):
            if isinstance(n, (ast.For, ast.While)) and any(x is brk for x in ast.walk(n)):
                if not any(n is p for p in self.parallel_loops()):
                    return True
        return False

    def parallel_loops(self):
        cur = self.loop
        for _ in self.par:
            yield cur
            cur = cur.body[-1] if cur.body else None
            if not isinstance(cur, ast.For):
                return

    def definite_else(self, v, done):
        return False

    # ---------------------------------------------------------------- calls
    def call(self, c):
        f = c.func
        txt = ast.unparse(f)
        if re.search(r"(^|\.)random\.", txt) or txt in ("print", "open"):
            self.bad("%s is called by every iteration: the order of the calls depends on the schedule" % txt, c, "effect", txt)
            return
        cands = []
        if isinstance(f, ast.Name):
            if f.id in self.funcs:
                cands = [f.id]
            else:
                for n in ast.walk(self.func):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == f.id for t in n.targets) and isinstance(n.value, ast.Name) and n.value.id in self.funcs:
                        cands.append(n.value.id)
        for nm in cands:
            acc = accesses(self.funcs, nm, c)
            if acc is not None:
                for b, idx, st in acc:
                    self.facts += 1
                    (self.stores if st else self.reads).append((b, idx, c))
                continue
            w = written_params(self.funcs, nm)
            fn = self.funcs[nm]
            for k, a in enumerate(fn.args.args):
                if a.arg in w and k < len(c.args):
                    b, idx = base_of(c.args[k])
                    if b is not None:
                        self.facts += 1
                        self.stores.append((b, idx, c))

    def passed(self, c):
        """arguments of a call whose accesses are known from the called function itself"""
        if isinstance(c.func, ast.Name) and c.func.id in self.funcs and accesses(self.funcs, c.func.id, c) is not None:
            return {id(a) for a in c.args + [k.value for k in c.keywords] if isinstance(a, ast.Name)}
        return set()

    # ---------------------------------------------------------------- arrays
    def subst(self, e, depth=0):
        """index expression with the loop's own variables replaced by what they are"""
        if depth > 4:
            return e
        loop = self

        class S(ast.NodeTransformer):
            def visit_Name(self, n):
                d = loop.defs.get(n.id)
                if n.id not in loop.par and d and len(d) == 1 and d[0] is not None and isinstance(n.ctx, ast.Load):
                    return loop.subst(d[0], depth + 1)
                return n
        import copy
        return S().visit(copy.deepcopy(e))

    def affine(self, e, i):
        """e = a*i + (something without any parallel index), a a non-zero constant or loop invariant factor"""
        if isinstance(e, ast.Name):
            return e.id == i
        if isinstance(e, ast.BinOp):
            l, r = i in names(e.left), i in names(e.right)
            if l and r:
                return False
            p, o = (e.left, e.right) if l else (e.right, e.left)
            if isinstance(e.op, (ast.Add, ast.Sub)):
                return self.affine(p, i) and not (names(o) & (set(self.par) | set(self.defs)))
            if isinstance(e.op, ast.Mult):
                return self.affine(p, i) and not (names(o) & (set(self.par) | set(self.defs))) and not (isinstance(o, ast.Constant) and o.value == 0)
        if isinstance(e, ast.UnaryOp):
            return self.affine(e.operand, i)
        return False

    def private_array(self, nm):
        return nm in self.defs and nm not in self.outer_stores

    def resolve(self, nm, idx, depth=0):
        """name and index of the shared array behind a local view; None for memory of the iteration itself"""
        if nm not in self.defs or depth > 4:
            return nm, idx
        ds = self.defs[nm]
        if len(ds) == 1 and ds[0] is not None:
            d = ds[0]
            if isinstance(d, ast.Name):
                return self.resolve(d.id, idx, depth + 1)
            if isinstance(d, ast.Subscript):
                b, i2 = base_of(d)
                if b is not None:
                    # a further index refines the view's own indices
                    return self.resolve(b, i2 + list(idx or []), depth + 1)
            if isinstance(d, ast.Attribute) and d.attr in ("T", "real", "imag") and isinstance(d.value, ast.Name):
                return self.resolve(d.value.id, [], depth + 1)
            return None, idx
        if nm in self.outer_stores:
            return nm, idx
        return None, idx

    def arrays(self):
        written = {}
        for nm, idx, node in self.stores:
            b, ix = self.resolve(nm, idx)
            if b is None:
                continue
            ix = [self.subst(x) if not isinstance(x, ast.Slice) else x for x in ix]
            pos = {}
            for i in self.par:
                self.facts += 1
                hits = [k for k, x in enumerate(ix) if not isinstance(x, ast.Slice) and self.affine(x, i)]
                if hits:
                    pos[i] = (hits[0], ix[hits[0]])
                    continue
                some = [x for x in ix if i in names(x)]
                if any(v.startswith("$") for x in ix for v in names(x)):
                    self.und("index of %s" % ast.unparse(node))
                    continue
                if not some:
                    if any(names(x) & self.dependent(i) for x in ix) or id(node) in self.guarded and not isinstance(node, ast.AugAssign):
                        self.und("index of %s" % ast.unparse(node))
                        continue
                    self.bad("%s: every iteration over '%s' writes the same element of '%s'" % (ast.unparse(node)[:80], i, b), node, "element", b)
                elif isinstance(node, ast.AugAssign) and any(self.lookup(x, i) for x in some):
                    self.bad("%s: iterations over '%s' may update the same element of '%s'" % (ast.unparse(node)[:80], i, b), node, "element", b)
                elif any(self.mod_(x, i) for x in some):
                    self.bad("%s: several iterations over '%s' write the same element of '%s'" % (ast.unparse(node)[:80], i, b), node, "element", b)
                else:
                    self.und("index of %s" % ast.unparse(node))
            written.setdefault(b, []).append((ix, pos, node))
        for nm, idx, node in self.reads:
            b, ix = self.resolve(nm, idx)
            if b not in written:
                continue
            if idx is None and nm in self.defs:
                continue
            if not ix:
                # the whole array
                if ix is None or idx is None:
                    self.bad("'%s' is read as a whole while other iterations write to it" % b, node, "element", b)
                continue
            ix = [self.subst(x) if not isinstance(x, ast.Slice) else x for x in ix]
            for wix, pos, wn in written[b]:
                for i, (k, w) in pos.items():
                    self.facts += 1
                    if k >= len(ix):
                        # a row: the parallel index is inside
                        self.bad("%s is read as a whole while other iterations write to it" % ast.unparse(node), node, "element", b)
                        continue
                    r = ix[k]
                    if isinstance(r, ast.Slice):
                        if r.lower is None and r.upper is None and r.step is None:
                            self.bad("%s reads elements other iterations write" % ast.unparse(node), node, "element", b)
                        else:
                            self.und("slice %s" % ast.unparse(node))
                    elif ast.dump(r) == ast.dump(w):
                        pass
                    elif i in names(r) and self.affine(r, i) or not (names(r) - set(self.outer_stores)):
                        self.bad("%s reads the element another iteration over '%s' writes" % (ast.unparse(node), i), node, "element", b)
                    else:
                        self.und("read %s" % ast.unparse(node))

    def dependent(self, i):
        """names whose value may depend on the parallel index i"""
        dep = {i}

        def targets(t):
            while isinstance(t, ast.Subscript):
                t = t.value
            return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}

        def walk(stmts, ctl):
            for s in stmts:
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in ts:
                        if ctl or names(s) & dep and (s.value is not None and names(s.value) & dep or isinstance(t, ast.Subscript) and names(t.slice) & dep):
                            dep.update(targets(t))
                elif isinstance(s, ast.For):
                    c = ctl or bool(names(s.iter) & dep)
                    if c:
                        dep.update(targets(s.target))
                    walk(s.body + s.orelse, c)
                elif isinstance(s, (ast.If, ast.While)):
                    walk(s.body + s.orelse, ctl or bool(names(s.test) & dep))
                elif isinstance(s, ast.Expr) and names(s) & dep:
                    dep.update(n for n in names(s))
        n = -1
        while n != len(dep):
            n = len(dep)
            walk(self.body, False)
        return dep

    def lookup(self, x, i):
        return any(isinstance(n, ast.Subscript) and i in names(n.slice) for n in ast.walk(x))

    def mod_(self, x, i):
        return any(isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)) and i in names(n.left) for n in ast.walk(x))


def accesses(funcs, nm, call, depth=0):
    """what a call of a function of this module reads and writes of its arguments: [(name, index elements or None, stored)], None if that is not known"""
    fn = funcs.get(nm)
    if fn is None or depth > 3 or fn.args.vararg or fn.args.kwarg or any(isinstance(a, ast.Starred) for a in call.args):
        return None
    ps = [a.arg for a in fn.args.args]
    bind = dict(zip(ps, call.args))
    for k in call.keywords:
        if k.arg is None:
            return None
        bind[k.arg] = k.value
    defs = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            defs.setdefault(n.id, []).append(None)
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            return None
    if set(defs) & set(ps):
        return None
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and len(defs[n.targets[0].id]) == 1:
            defs[n.targets[0].id] = [n.value]

    class S(ast.NodeTransformer):
        def __init__(self, d=0):
            self.d = d

        def visit_Name(self, n):
            if n.id in bind:
                return copy.deepcopy(bind[n.id])
            d = defs.get(n.id)
            if d is not None and len(d) == 1 and d[0] is not None and self.d < 4:
                return S(self.d + 1).visit(copy.deepcopy(d[0]))
            if d is not None:
                return ast.copy_location(ast.Name(id="$" + n.id, ctx=n.ctx), n)
            return n

    def expand(x):
        return S().visit(copy.deepcopy(x))
    out, covered = [], set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and n.attr in ("shape", "size", "ndim", "dtype"):
            covered.add(id(n.value))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in funcs:
            c2 = expand(n)
            sub = accesses(funcs, n.func.id, c2, depth + 1)
            if sub is None:
                if written_params(funcs, n.func.id):
                    return None
                continue
            out += [x for x in sub if x[0] is not None and not x[0].startswith("$")]
            covered |= {id(a) for a in n.args + [k.value for k in n.keywords] if isinstance(a, ast.Name)}
    inner = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript):
            x = n.value
            while isinstance(x, ast.Subscript):
                inner.add(id(x))
                x = x.value
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and id(n) not in inner:
            x = n
            while isinstance(x, ast.Subscript):
                x = x.value
            if isinstance(x, ast.Name):
                covered.add(id(x))
                st = isinstance(n.ctx, ast.Store)
                if x.id in bind:
                    b, idx = base_of(expand(n))
                    if b is not None:
                        out.append((b, idx, st))
                elif x.id in defs:
                    # a local: a view of an argument or memory of its own
                    d = defs[x.id]
                    if len(d) == 1 and isinstance(d[0], (ast.Name, ast.Subscript)):
                        b, idx = base_of(expand(n))
                        if b is not None and not b.startswith("$"):
                            out.append((b, idx, st))
                    elif st and not (len(d) == 1 and isinstance(d[0], (ast.Call, ast.BinOp))):
                        return None
    for n in ast.walk(fn):
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Subscript):
            pass
        if isinstance(n, ast.Name) and n.id in bind and isinstance(n.ctx, ast.Load) and id(n) not in covered:
            b, idx = base_of(bind[n.id])
            if b is not None and isinstance(bind[n.id], (ast.Name, ast.Subscript)):
                out.append((b, idx or None, False))
    return out


def written_params(funcs, nm, seen=()):
    if nm in seen or nm not in funcs:
        return set()
    fn = funcs[nm]
    ps = {a.arg for a in fn.args.args}
    rebound = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
            b, _ = base_of(n)
            if b in ps and b not in rebound:
                out.add(b)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in funcs:
            w = written_params(funcs, n.func.id, seen + (nm,))
            g = funcs[n.func.id]
            for k, a in enumerate(g.args.args):
                if a.arg in w and k < len(n.args):
                    b, _ = base_of(n.args[k])
                    if b in ps:
                        out.add(b)
    return out


def analyse(src, report, undecided):
    """report(function, kind, name, what, node); -> list of (function name, line, directive text, obligations)"""
    tree = ast.parse(src)
    funcs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
    out = []
    for d in directives(src):
        if not d.parallel:
            continue
        best = None
        for fn in funcs.values():
            for n in ast.walk(fn):
                if isinstance(n, ast.stmt) and n.lineno > d.line and (best is None or n.lineno < best[1].lineno):
                    best = (fn, n)
        if best is None:
            continue
        fn, st = best
        if not isinstance(st, ast.For):
            report(fn.name, "directive", d.text, "the directive '%s' is not followed by a loop" % d.text, st)
            continue
        L = Loop(tree, fn, st, d, funcs, lambda k, v, w, n, fn=fn: report(fn.name, k, v, w, n), lambda w, fn=fn: undecided("%s: %s" % (fn.name, w)))
        L.run()
        out.append((fn.name, st.lineno, d.text, L.facts))
    return out
