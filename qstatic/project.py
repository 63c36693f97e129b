"""Load the source tree and resolve names, imports, classes.  Nothing of the
analysed package is ever imported or executed."""
import ast, hashlib, os, warnings

warnings.filterwarnings("ignore", category=SyntaxWarning)


class AnalysisBroken(Exception):
    """an anchor the analysis relies on has vanished: the check ends in error"""


class FuncInfo:
    def __init__(self, module, node, qual, cls=None, parent=None):
        self.module, self.node, self.qual, self.cls, self.parent = module, node, qual, cls, parent
        self.name = getattr(node, "name", "<lambda>")
        self.kind = "func"
        self.decos = []
        for d in getattr(node, "decorator_list", []):
            self.decos.append(ast.unparse(d))
        if cls is not None:
            if "staticmethod" in self.decos:
                self.kind = "static"
            elif "classmethod" in self.decos:
                self.kind = "classm"
            elif "property" in self.decos:
                self.kind = "prop"
            elif any(d.endswith(".setter") for d in self.decos):
                self.kind = "setter"
            elif self.name == "__new__":
                self.kind = "static"
            else:
                self.kind = "method"
        a = node.args
        self.posonly = [x.arg for x in a.posonlyargs]
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.defaults = dict(zip(self.pos[len(self.pos) - len(a.defaults):], a.defaults))
        for n, d in zip(self.kwonly, a.kw_defaults):
            if d is not None:
                self.defaults[n] = d
        self._locals = None
        self._isgen = None

    @property
    def fullname(self):
        return self.module.name + "." + self.qual

    @property
    def isgen(self):
        if self._isgen is None:
            self._isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_local(self.node))
        return self._isgen

    @property
    def locals(self):
        """names bound in this function body"""
        if self._locals is None:
            s = set(self.pos) | set(self.kwonly)
            if self.vararg:
                s.add(self.vararg)
            if self.kwarg:
                s.add(self.kwarg)
            glob = set()
            for n in walk_local(self.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    s.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        s.add((al.asname or al.name).split(".")[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    s.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    glob.update(n.names)
            self._locals = s - glob
        return self._locals

    def __repr__(self):
        return "<F %s>" % self.fullname


def walk_local(fn):
    """walk a function's own body, not nested function/class/comprehension scopes' bindings"""
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            # targets of comprehensions are scoped: visit only the first iterable
            stack.append(n.generators[0].iter)
            continue
        stack.extend(ast.iter_child_nodes(n))


class ClassInfo:
    def __init__(self, module, node, qual):
        self.module, self.node, self.qual = module, node, qual
        self.name = node.name
        self.methods = {}      # name -> FuncInfo
        self.setters = {}      # name -> FuncInfo
        self.attrs = {}        # class level name -> expr
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                fi = FuncInfo(module, s, qual + "." + s.name, cls=self)
                if fi.kind == "setter":
                    self.setters[s.name] = fi
                else:
                    self.methods[s.name] = fi
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.attrs[s.target.id] = s.value

    @property
    def fullname(self):
        return self.module.name + "." + self.qual

    def bases(self):
        """list of ClassInfo or external dotted strings"""
        out = []
        for b in self.node.bases:
            r = self.module.resolve_expr(b)
            out.append(r if r is not None else ("ext", ast.unparse(b)))
        return out

    def mro(self):
        out = [self]
        for b in self.bases():
            if isinstance(b, ClassInfo):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
            else:
                if b not in out:
                    out.append(b)
        return out

    def is_sub(self, other):
        return other in self.mro()

    def lookup(self, name, after=None):
        """find method FuncInfo / class attribute expr along the MRO.
        returns (owner, obj) or None;  ext bases yield (extname, None)"""
        m = self.mro()
        if after is not None:
            i = m.index(after) if after in m else -1
            m = m[i + 1:]
        for c in m:
            if isinstance(c, ClassInfo):
                if name in c.methods:
                    return c, c.methods[name]
                if name in c.attrs:
                    return c, c.attrs[name]
            else:
                return c, None
        return None

    def lookup_setter(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo):
                if name in c.setters:
                    return c.setters[name]
        return None

    def __repr__(self):
        return "<C %s>" % self.fullname


class Module:
    def __init__(self, project, name, path, src):
        self.project, self.name, self.path, self.src = project, name, path, src
        self.tree = ast.parse(src, path)
        self.is_pkg = path.endswith("__init__.py")
        self.digest = hashlib.sha1(src.encode()).hexdigest()
        self.functions, self.classes, self.imports, self.assigns, self.stars = {}, {}, {}, {}, []
        self.funcs_all = []     # every FuncInfo incl. methods
        self.pythran_exports = [l[len("#pythran export"):].strip()
                                for l in (x.strip() for x in src.splitlines())
                                if l.startswith("#pythran export")]
        self._collect(self.tree.body)

    def _collect(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                fi = FuncInfo(self, s, s.name)
                self.functions[s.name] = fi
                self.funcs_all.append(fi)
            elif isinstance(s, ast.ClassDef):
                ci = ClassInfo(self, s, s.name)
                self.classes[s.name] = ci
                self.funcs_all.extend(ci.methods.values())
                self.funcs_all.extend(ci.setters.values())
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        self.imports[a.asname] = (a.name, None)
                    else:
                        self.imports[a.name.split(".")[0]] = (a.name.split(".")[0], None)
            elif isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if s.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (s.level - 1)]
                    base = ".".join(parts + ([s.module] if s.module else []))
                for a in s.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.imports[a.asname or a.name] = (base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            if n.id in self.imports and isinstance(s.value, ast.Constant) and s.value.value is None:
                                continue        # optional import fallback: try: import x / except: x = None
                            self.assigns[n.id] = s.value if isinstance(t, ast.Name) else None
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name):
                    self.assigns[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.With, ast.For, ast.While)):
                self._collect(s.body)
                self._collect(getattr(s, "orelse", []))
            elif isinstance(s, ast.Try):
                self._collect(s.body)
                for h in s.handlers:
                    self._collect(h.body)
                self._collect(s.orelse)
                self._collect(s.finalbody)

    @property
    def all_list(self):
        e = self.assigns.get("__all__")
        if e is not None:
            try:
                return list(ast.literal_eval(e))
            except Exception:
                return None
        return None

    def lookup(self, name, seen=None):
        """resolve a module level name: FuncInfo | ClassInfo | Module | ('ext', dotted) | ('var', module, name) | None"""
        seen = seen or set()
        if (self.name, name) in seen:
            return None
        seen.add((self.name, name))
        if name in self.functions:
            return self.functions[name]
        if name in self.classes:
            return self.classes[name]
        if name in self.assigns:
            return ("var", self, name)
        if name in self.imports:
            mod, attr = self.imports[name]
            return self.project.resolve_import(mod, attr, seen)
        sub = self.project.modules.get(self.name + "." + name)
        if sub is not None and self.is_pkg:
            return sub
        for st in self.stars:
            m = self.project.modules.get(st)
            if m is not None:
                al = m.all_list
                if (al is None and not name.startswith("_")) or (al is not None and name in al):
                    r = m.lookup(name, seen)
                    if r is not None:
                        return r
            elif not st.startswith("qampy"):
                pass
        return None

    def resolve_expr(self, e):
        if isinstance(e, ast.Name):
            return self.lookup(e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value)
            if isinstance(b, Module):
                return b.lookup(e.attr)
            if isinstance(b, tuple) and b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None


class Project:
    def __init__(self, root=None, pkg="qampy", floor=15):
        root = root or os.environ.get("QSTATIC_ROOT", "/repo")
        self.root = root
        self.modules = {}
        base = os.path.join(root, pkg)
        if not os.path.isdir(base):
            raise AnalysisBroken("package directory %s is missing" % base)
        self.skipped = []
        for d, dirs, files in os.walk(base):
            dirs[:] = sorted(x for x in dirs if x not in ("test", "tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                src = open(p, encoding="utf-8").read()
                self.modules[name] = Module(self, name, p, src)
        if len(self.modules) < floor:
            raise AnalysisBroken("only %d modules found" % len(self.modules))

    def add_source(self, name, src):
        """a probe program: user code written against the public interface, analysed with the package"""
        self.modules[name] = Module(self, name, "<%s>" % name, src)

    def resolve_import(self, mod, attr, seen=None):
        m = self.modules.get(mod)
        if attr is None:
            if m is not None:
                return m
            if mod.split(".")[0] == "qampy":
                return ("missing", mod)
            return ("ext", mod)
        if m is not None:
            r = m.lookup(attr, seen)
            if r is not None:
                return r
            sub = self.modules.get(mod + "." + attr)
            if sub is not None:
                return sub
            return ("missing", mod + "." + attr)
        if mod.split(".")[0] == "qampy":
            sub = self.modules.get(mod + "." + attr)
            if sub is not None:
                return sub
            return ("missing", mod + "." + attr)
        return ("ext", mod + "." + attr)

    def func(self, dotted, required=True):
        """'qampy.core.filter.rrcos_pulseshaping' or 'qampy.signals.SignalBase.os'"""
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is None:
                continue
            rest = parts[i:]
            o = m.lookup(rest[0])
            if isinstance(o, ClassInfo) and len(rest) == 2:
                r = o.methods.get(rest[1])
                if r is not None:
                    return r
            elif isinstance(o, FuncInfo) and len(rest) == 1:
                return o
            elif isinstance(o, ClassInfo) and len(rest) == 1:
                return o
        if required:
            raise AnalysisBroken("anchor %s not found in the source tree" % dotted)
        return None

    cls = func

    def all_functions(self):
        for m in self.modules.values():
            for f in m.funcs_all:
                yield f

    def relpath(self, module):
        return os.path.relpath(module.path, self.root)
