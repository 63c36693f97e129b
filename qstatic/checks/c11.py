"""C11 every equaliser method uses its error function, constants and update."""
import ast
import math
import re
from .common import *
from ..params import *
from ..roots import R
from .. import formula as F
from ..formula import Ev, Cx, Const, Opaque, Unknown, Raised, spec, equal, key, cplx, real, num, cmul, cadd, linear

EXPLANATION = ("The method tables are read from the source; equalise_signal is analysed with every method of the tables to find which kernel it trains with under which name; the kernel is evaluated for one generic "
               "training symbol in the domain of algebraic normal forms (sums of products with exact coefficients), so that the error stored, the tap increment, the filter output, the adaptive step and the training "
               "constants are compared as formulas with the documented ones.")
FLOOR = 60
EQ = "qampy.core.equalisation.equalisation"
KM = "qampy.core.equalisation.pythran_equalisation"
# error for the sample x: R training constant, d decided symbol, k known symbol, pr/pi the radius code of |x|^2, Re(x)^2 and Im(x)^2
ERR = {
    "cma": "(R.real - abs(x)**2)*x",
    "cma2": "(R - x**2)*x",
    "sgncma": "sign(R.real - abs(x)**2)*(sign(x.real) + 1j*sign(x.imag))",
    "mcma": "(R.real - x.real**2)*x.real + 1j*(R.imag - x.imag**2)*x.imag",
    "rde": "(pa - abs(x)**2)*x",
    "mrde": "(pr - x.real**2)*x.real + 1j*(pi_ - x.imag**2)*x.imag",
    "sbd": "(d.real - x.real)*abs(d.real) + 1j*(d.imag - x.imag)*abs(d.imag)",
    "mddma": "(d.real**2 - x.real**2)*x.real + 1j*(d.imag**2 - x.imag**2)*x.imag",
    "dd": "d - x",
    "sbd_data": "(k.real - x.real)*abs(k.real) + 1j*(k.imag - x.imag)*abs(k.imag)",
    "cma_real": "(R - x**2)*x",
    "sgncma_real": "sign(R - x**2)*sign(x)",
    "dd_real": "(d - x)*abs(d)",
    "dd_data_real": "(k - x)*abs(k)",
}
RC = "mean(abs(s)**4)/mean(abs(s)**2)"
RCC = "mean(s.real**4)/mean(s.real**2) + 1j*mean(s.imag**4)/mean(s.imag**2)"
# constants the methods are trained with: s are the alphabet's symbols, normalised to unit power
CONST = {"cma": (RC,), "cma2": (RC,), "sgncma": (RC,), "mcma": (RCC,), "cma_real": ("mean(s.real**4)/mean(s.real**2)",), "sgncma_real": ("mean(s.real**4)/mean(s.real**2)",),
         "sbd": ("s",), "mddma": ("s",), "dd": ("s",), "dd_real": ("s.real", "s.imag"),
         "rde": ("unique(abs(s)**2)", "mid(unique(abs(s)**2))"),
         "mrde": ("unique(s.real**2) + 1j*unique(s.imag**2)", "mid(unique(s.real**2)) + 1j*mid(unique(s.imag**2))")}


# ---------------------------------------------------------------- tables
def tables(p):
    m = p.modules[EQ]
    out = {}
    ev = Ev(p)
    for n in ("DECISION_BASED", "NONDECISION_BASED", "REAL_VALUED", "DATA_AIDED", "TRAINING_FCTS"):
        e = m.assigns.get(n)
        if e is None:
            raise AnalysisBroken("method table %s is gone" % n)
        out[n] = strings(m, e)
    return out


def strings(m, e):
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        if not all(isinstance(x, ast.Constant) for x in e.elts):
            raise AnalysisBroken("method table %s" % ast.unparse(e))
        return [x.value for x in e.elts]
    if isinstance(e, ast.Name):
        return strings(m, m.assigns[e.id])
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.BitOr)):
        return strings(m, e.left) + strings(m, e.right)
    if isinstance(e, ast.Call) and len(e.args) == 1:
        return strings(m, e.args[0])
    raise AnalysisBroken("method table %s" % ast.unparse(e))


def check_tables(ctx, t):
    def bad(k, msg):
        ctx.bad("table|%s" % k, msg, "%s method tables" % short(EQ))
    dec, non, rv, da, tr = (t[k] for k in ("DECISION_BASED", "NONDECISION_BASED", "REAL_VALUED", "DATA_AIDED", "TRAINING_FCTS"))
    ctx.ob(6)
    for k, l in t.items():
        d = {x for x in l if l.count(x) > 1}
        if d:
            bad("twice|%s" % k, "%s lists %s twice" % (k, sorted(d)))
    for x in sorted(set(dec) & set(non)):
        bad("both|" + x, "'%s' is listed both as decision and as non-decision based" % x)
    for x in sorted((set(dec) | set(non)) ^ set(tr)):
        bad("all|" + x, "'%s' is in only one of TRAINING_FCTS and DECISION_BASED + NONDECISION_BASED" % x)
    for x in sorted(x for x in set(tr) if x.endswith("_real") != (x in rv)):
        bad("real|" + x, "'%s' and its listing in REAL_VALUED disagree" % x)
    for x in sorted(x for x in set(tr) if ("_data" in x) != (x in da)):
        bad("data|" + x, "'%s' and its listing in DATA_AIDED disagree" % x)
    for x in sorted(set(tr)):
        if x in ERR:
            uses = "d" in ERR[x].replace("abs", "") and ("d." in ERR[x] or "d -" in ERR[x]) or "k" in ERR[x]
            if uses != (x in dec):
                bad("decision|" + x, "'%s' is listed as %s" % (x, "decision based" if x in dec else "not decision based"))
    ctx.sample("tables: %d methods, %d real-valued, %d data-aided" % (len(set(tr)), len(rv), len(da)))


# ---------------------------------------------------------------- which kernel under which name
def hooks():
    def precall(I, fv, e, pos, kw):
        if fv.k != "func":
            return None
        f = fv.c
        if f.module.name == KM and f.name.startswith("train"):
            b = dict(zip(f.pos, pos))
            b.update(kw)
            m = b.get("method")
            if m is None and f.pos:
                m = b.get(f.pos[-1])
            I.ev("kernel", e, fn=f.fullname, method=m.c if m is not None and m.k in ("str", "const") and isinstance(m.c, str) else None)
        elif f.fullname == EQ + ".generate_symbols_for_eq":
            I.ev("generated", e)
        return None
    return {"precall": precall}


def given_symbols(ctx, p, t):
    """methods that decide use the symbols they are given, the others their own constants"""
    root = EQ + ".equalise_signal"
    base = next(dict(c) for c in R[root] if "symbols" in c)
    roots = {root: []}
    for m in t["TRAINING_FCTS"]:
        c = dict(base)
        c["method"] = K(m)
        roots[root].append(c)
    for r in run_all(roots, keep={"kernel", "generated"}, hooks=hooks):
        m = next((x for x in t["TRAINING_FCTS"] if "method=%r" % x in r.desc.split(", ")), None)
        ctx.use([r])
        if m not in CONST and m not in ERR:
            continue
        ctx.ob()
        gen = [e for e in r.events if e.kind == "generated"]
        ker = [e for e in r.events if e.kind == "kernel"]
        decides = "d" in ERR[m].replace("abs", "a").replace("real", "").replace("imag", "").replace("sign", "").replace("pi_", "") or "k" in ERR[m]
        if decides and gen:
            ctx.bad("symbols|%s" % m, "method '%s' generates symbols although it was given some" % m, gen[0].where)
        elif not decides and ker and not gen:
            ctx.bad("symbols|%s" % m, "method '%s' trains with the symbols it was given instead of its constants" % m, ker[0].where)


def unlisted(ctx, p, t):
    """a method the kernels or the constants know is listed"""
    for fn, suffix in ((KM + ".train_equaliser", ""), (KM + ".train_equaliser_realvalued", "_real"), (EQ + ".generate_symbols_for_eq", "")):
        f = p.func(fn)
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id == "method" and isinstance(n.ops[0], (ast.Eq, ast.In)):
                for c in ast.walk(n.comparators[0]):
                    if isinstance(c, ast.Constant) and isinstance(c.value, str):
                        ctx.ob()
                        if c.value + suffix not in t["TRAINING_FCTS"]:
                            ctx.bad("unlisted|%s" % (c.value + suffix), "method '%s' is implemented but not listed among the training methods, so that it is not treated as decision or non-decision based" % (c.value + suffix), "%s:%d" % (f.module.path, n.lineno))


# ---------------------------------------------------------------- layout of real-valued signals and symbols, first taps
def layout(ctx, p):
    m = p.modules[EQ]
    E = cplx("E")

    def run(f, args, prims, judge, what):
        ctx.ob()
        ev = Ev(p, prims=prims)
        ev.flips = True
        try:
            v = ev.call(f, args)
        except Raised:
            return
        except Unknown as u:
            ctx.undecided("%s: %s" % (short(f.fullname), u))
            return
        ctx.analysed.add(f.fullname)
        try:
            if not judge(v):
                ctx.bad("layout|%s" % f.name, what, short(f.fullname))
            else:
                ctx.sample("%s: layout as documented" % short(f.fullname), 40)
        except Unknown as u:
            ctx.undecided("%s: %s" % (short(f.fullname), u))
    tup = lambda ev, a, k: a[0] if isinstance(a[0], tuple) else (_ for _ in ()).throw(Unknown("stack"))
    st = {"numpy." + n: tup for n in ("vstack", "hstack", "concatenate", "repeat", "tile")}
    f = m.functions.get("_convert_sig_to_real")
    if f is not None:
        got = {}

        def put(ev, idx, v):
            s_ = idx[0]
            if not isinstance(s_, ast.Slice) or not isinstance(v, Cx):
                raise Unknown("store")
            got["first" if s_.lower is None and s_.upper is not None else "second" if s_.upper is None and s_.lower is not None else "all"] = v
        z = F.Arr(lambda ev, idx: None, put)
        pr = dict(st)
        pr["numpy.zeros"] = pr["numpy.empty"] = lambda ev, a, k: z

        def judge(v):
            parts = v if isinstance(v, tuple) else (got.get("first"), got.get("second"))
            if len(parts) != 2 or None in parts:
                raise Unknown("layout")
            for x in parts:
                if any(isinstance(x, Cx) and key(x.re) in (key(linear("flip", Cx(y)).re), key(F.neg(linear("flip", Cx(y)).re))) for y in (E.re, E.im)):
                    return False
            return equal(parts[0], Cx(E.re)) and equal(parts[1], Cx(E.im))
        run(f, [E], pr, judge, "the real-valued field is not the real parts followed by the imaginary parts")
    f = m.functions.get("_convert_sig_to_cmplx")
    if f is not None:
        a, b = real("lo"), real("hi")

        def get(ev, idx):
            s_ = idx[0]
            if isinstance(s_, ast.Slice):
                if s_.lower is None and s_.upper is not None:
                    return a
                if s_.upper is None and s_.lower is not None:
                    return b
            raise Unknown("slice")
        run(f, [F.Arr(get, shape=Opaque("shape"), dtype=Opaque("dtype")), real("modes", True)], {}, lambda v: equal(v, Cx(a.re, b.re, True)),
            "the complex field is not the first half plus j times the second half")
    f = m.functions.get("_reshape_symbols")
    if f is not None:
        pr = dict(st)
        pr["numpy.iscomplexobj"] = lambda ev, a, k: Const(True)
        for shape in ((real("N", True),), (num(1), real("N", True)), (num(2), real("N", True))):
            sy = F.Arr(lambda ev, idx: (_ for _ in ()).throw(Unknown("element")), shape=shape, ndim=num(len(shape)), real=Cx(E.re), imag=Cx(E.im), dtype=Opaque("dtype"))
            run(f, [sy, Const("dd_real"), real("M", True), Opaque("dtype"), num(4)], pr,
                lambda v: isinstance(v, tuple) and len(v) == 2 and equal(v[0], Cx(E.re)) and equal(v[1], Cx(E.im)),
                "the symbols of the real-valued methods are not the real parts followed by the imaginary parts")
    f = m.functions.get("_init_taps")
    if f is not None:
        puts = []
        z = F.Arr(lambda ev, idx: None, lambda ev, idx, v: puts.append((idx, v)))

        def judge(v):
            if not puts:
                raise Unknown("no taps set")
            for idx, v in puts:
                if len(idx) != 3 or not isinstance(idx[0], Cx) or not isinstance(idx[1], Cx):
                    raise Unknown("index")
                if not equal(idx[0], idx[1]) or not equal(v, num(1)):
                    return False
            return True
        run(f, [real("Ntaps", True), real("nmodes", True), real("nmodes2", True), Opaque("dtype")], {"numpy.zeros": lambda ev, a, k: z}, judge,
            "the first taps of mode i are not one at input mode i")


def kernels(ctx, p, t):
    root = EQ + ".equalise_signal"
    roots = {root: []}
    for m in t["TRAINING_FCTS"]:
        c = {}
        for b in R[root]:
            if isinstance(b.get("method"), K) and b["method"].v == m:
                c = dict(b)
                break
        if not c:
            for b in R[root]:
                if isinstance(b.get("method"), K):
                    c = dict(b)
                    c["method"] = K(m)
                    break
        roots[root].append(c)
    rs = run_all(roots, keep={"kernel"}, hooks=hooks)
    ctx.use(rs)
    out = {}
    for r in rs:
        m = next((x for x in t["TRAINING_FCTS"] if "method=%r" % x in r.desc.split(", ")), None)
        if m is None:
            ctx.undecided("which method: %s" % r.desc)
            continue
        ks = {(e.data['fn'], e.data['method']) for e in r.events}
        ctx.ob()
        if len(ks) != 1 or None in list(ks)[0]:
            ctx.undecided("kernel of %s: %s" % (m, sorted(map(str, ks))))
            continue
        out[m] = list(ks)[0]
    return out


# ---------------------------------------------------------------- one generic training step
class Step:
    """records what one training symbol does"""

    def __init__(self, p, isreal, after=False):
        mk = (lambda n: real(n)) if isreal else cplx
        self.X, self.w, self.Rc, self.d, self.k = mk("X"), mk("w"), mk("R"), mk("d"), mk("k")
        self.isreal = isreal
        self.err = self.inc = None
        self.wrong = []
        self.erridx = None
        self.eatom, self.prev = mk("e"), mk("p")
        self.after = after
        self.prevread = False
        self.prevs, self.errlast = [], []
        step = self

        def sig(ev, idx):
            for x in idx[1:]:
                if isinstance(x, ast.Slice):
                    return step.X
            raise Unknown("field element")

        self.rows = {}

        def row(what, idx):
            if idx and not isinstance(idx[0], ast.Slice):
                step.rows.setdefault(what, []).append(idx[0].const() if isinstance(idx[0], Cx) else None)

        def wget(ev, idx):
            row("taps", idx)
            return step.w

        def wput(ev, idx, v):
            row("taps", idx)
            step.inc = cadd(v, F.cneg(step.w))
            step.widx = [x for x in idx if isinstance(x, Cx)]

        def eget(ev, idx):
            k = [key(x.re) for x in idx if isinstance(x, Cx)]
            if step.erridx is not None and k == step.erridx:
                return step.eatom if step.after else step.err
            step.prevread = True
            if step.after and step.erridx is not None and len(step.prevs) < 8:
                last = [x for x in idx if isinstance(x, Cx)]
                if len(last) == len(step.errlast):
                    step.prevs.append([cadd(a, F.cneg(b)).const() for a, b in zip(last, step.errlast)])
            return step.prev

        def eput(ev, idx, v):
            step.err = v
            row("error", idx)
            step.errlast = [x for x in idx if isinstance(x, Cx)]
            step.erridx = [key(x.re) for x in idx if isinstance(x, Cx)]

        def sym(ev, idx):
            c = idx[0].const() if len(idx) == 1 and isinstance(idx[0], Cx) else None
            if c == 0:
                return step.Rc
            if len(idx) == 1 and isinstance(idx[0], Cx):
                return step.k
            raise Unknown("symbol")
        self.row = F.Arr(sym, shape=Opaque("shape"), dtype=Opaque("dtype"))

        def symbols(ev, idx):
            row("symbols", idx)
            return step.row
        self.symbols = F.Arr(symbols, shape=Opaque("shape"))
        self.E = F.Arr(sig, shape=Opaque("shape"), dtype=Opaque("dtype"), real=Opaque("real"))
        self.wx = F.Arr(wget, wput, shape=Opaque("shape"))
        self.errarr = F.Arr(eget, eput)

        def decide(n):
            def f(ev, args, kw):
                x = args[0] if args else kw.get("X")
                s = args[1] if len(args) > 1 else kw.get("symbs")
                if s is not step.row:
                    raise Unknown("decision on other symbols")
                if not equal(x, step.x()):
                    raise Unknown("decision on another value")
                return (step.d, real("dist"), real("idx"))[:n]
            return f

        def part(ev, args, kw):
            if len(args) != 4 or not isinstance(args[0], Cx) or getattr(args[1], "n", "") != "parts" or getattr(args[2], "n", "") != "codes":
                raise Unknown("partition")
            fn = args[3].n.split(".")[-1] if isinstance(args[3], F.Ext) else None
            if fn not in ("real", "imag"):
                raise Unknown("partition part")
            if not args[0].real:
                raise Unknown("partition of a complex value")
            return Cx(F.var("PV%s[%s]" % (fn, key(args[0].re))))

        def split(ev, args, kw):
            if args[0] is not step.row or not isinstance(args[1], Cx) or args[1].const() != 2:
                raise Unknown("split")
            return (Opaque("codes"), Opaque("parts"))
        pr = {KM + ".partition_value": part, "numpy.array_split": split, "numpy.zeros": lambda ev, a, k: step.errarr, "numpy.empty": lambda ev, a, k: step.errarr,
              "numpy.arange": lambda ev, a, k: Opaque("arange"), "numpy.atleast_1d": lambda ev, a, k: a[0], KM + ".det_symbol": decide(2), KM + ".det_symbol_argmin": decide(3), KM + ".det_symbol_parallel": decide(2)}
        self.ev = Ev(p, prims=pr)

    def x(self):
        """output of the filter for the generic sample"""
        return linear("sum", cmul(self.X, self.w))

    def args(self, f, method, adaptive):
        given = {"E": self.E, "TrSyms": real("TrSyms", True), "Niter": real("Niter", True), "os": real("os", True), "mu": real("mu", True), "wx": self.wx, "modes": Opaque("modes"),
                 "adaptive": Const(adaptive), "symbols": self.symbols, "method": Const(method)}
        order = ["E", "TrSyms", "Niter", "os", "mu", "wx", "modes", "adaptive", "symbols", "method"]
        if len(f.pos) < len(order):
            raise Unknown("kernel signature")
        return [given[n] for n in order]

    def names(self):
        x = self.x()
        n = dict(x=x, R=self.Rc, d=self.d, k=self.k)
        for nm, fn, e in (("pa", "real", "abs(x)**2"), ("pr", "real", "x.real**2"), ("pi_", "imag", "x.imag**2")):
            v = spec(e, x=x)
            n[nm] = Cx(F.var("PV%s[%s]" % (fn, key(v.re))))
        return n


def steps(ctx, p, ks):
    for m, (fn, name) in sorted(ks.items()):
        f = p.func(fn)
        isreal = m.endswith("_real")
        where = "%s(method=%r)" % (short(fn), name)
        st = Step(p, isreal)
        ctx.ob(3)
        try:
            st.ev.call(f, st.args(f, name, False))
        except Raised:
            ctx.bad("rejected|%s" % m, "method '%s' is listed but the kernel it is handed to rejects it" % m, where)
            continue
        except Unknown as u:
            ctx.undecided("%s: %s" % (where, u))
            continue
        ctx.analysed |= st.ev.used
        if st.err is None or st.inc is None:
            ctx.undecided("%s: no error or tap update found" % where)
            continue
        if m not in ERR:
            ctx.undecided("%s: no documented error function" % m)
            continue
        want = spec(ERR[m], **st.names())
        ctx.ob()
        fixed = {k: v[0] for k, v in sorted(st.rows.items()) if v and all(x is not None for x in v)}
        if fixed and any(None in v for v in st.rows.values()):
            for k, v in fixed.items():
                ctx.bad("row|%s|%s" % (short(fn), k), "every mode uses the %s of mode %s" % (k, v), where)
        try:
            if not equal(st.err, want):
                ctx.bad("error|%s" % m, "method '%s' trains with an error that is not %s" % (m, ERR[m]), where)
            else:
                ctx.sample("%s: error of '%s' is %s" % (where, m, ERR[m]), 20)
            up = cmul(cmul(real("mu", True), st.err), st.X if isreal else Cx(st.X.re, F.neg(st.X.im), True))
            if not equal(st.inc, up):
                ctx.bad("update|%s" % short(fn), "the taps do not change by mu*error*%s" % ("X" if isreal else "conj(X)"), short(fn))
        except Unknown as u:
            ctx.undecided("%s: %s" % (where, u))
    # adaptive step size
    for fn, name, isreal in sorted({(fn, n, m.endswith("_real")) for m, (fn, n) in ks.items()}):
        pass
    done = set()
    for m, (fn, name) in sorted(ks.items()):
        if fn in done:
            continue
        done.add(fn)
        f = p.func(fn)
        isreal = m.endswith("_real")
        st = Step(p, isreal, after=True)
        ctx.ob()

        def reset():
            st.err = st.inc = st.erridx = None
            st.ev.carries = []
        try:
            ps = st.ev.paths(f, st.args(f, name, True), reset=reset)
        except Unknown as u:
            ctx.undecided("adaptive step of %s: %s" % (short(fn), u))
            continue
        adapt(ctx, short(fn), st, ps, isreal)


def adapt(ctx, fn, st, ps, isreal):
    """the step stays while the error keeps its sign in both parts and is divided by 1 + mu |e|^2 otherwise"""
    e, q = st.eatom, st.prev
    pr = [key(F.signed(F.mul(e.re, q.re))[1])] + ([] if isreal else [key(F.signed(F.mul(e.im, q.im))[1])])
    seen = 0
    ea = {x for part in (e.re, e.im, q.re, q.im) for mm in part for x, _ in mm}
    changing = {n for _, _, cr in ps for n, b, c, a in cr if isinstance(a, Cx) and F.contains(a, ea)}
    mine = {(k, r) for conds, v, cr in ps for k, r, t in conds if any(x[0] in changing for x in cr)}
    own = {key(F.signed(F.mul(a, b))[1]) for a in (e.re, e.im) for b in (e.re, e.im)} | {key(F.signed(a)[1]) for a in (e.re, e.im)}
    about = {k for k, r in mine if re.search(r"\*(e|p)[.^]|carry_", k)}
    if changing and about and not st.prevread and about <= own:
        ctx.bad("adapt|%s" % fn, "the adaptive step does not look at the previous error", fn)
        return
    for d in st.prevs:
        if d and d[-1] is not None and d[-1] != -1 and not any(d[:-1]):
            ctx.bad("adapt|%s|previous" % fn, "the adaptive step looks at the error %s symbols on, not at the previous one" % d[-1], fn)
            return
    for conds, v, carries in ps:
        cs = [(k, r, t) for k, r, t in conds if k in pr]
        mine = [x for x in carries if x[0] in changing]
        if not mine:
            continue
        nm, before, c, a = mine[0]
        if not isinstance(a, Cx):
            ctx.undecided("%s: adaptive step" % fn)
            return
        shrunk = F.cdiv(c, cadd(num(1), cmul(c, Cx(F.abs2(e)))))
        keep = all(t for k, r, t in cs) and {k for k, r, t in cs} >= set(pr)
        others = [k for k, r, t in conds if k not in pr and any(str(x).split(".")[0] + "." in k.replace("^", ".") for x in ("e", "p"))]
        if not cs and not others:
            if not equal(a, c):
                ctx.bad("adapt|%s" % fn, "the adaptive step changes whatever the sign of the error", fn)
            continue
        if any(r != "Gt" for k, r, t in cs) or not cs:
            ctx.undecided("%s: conditions of the adaptive step" % fn)
            return
        seen += 1
        if keep:
            if not equal(a, c):
                ctx.bad("adapt|%s" % fn, "the adaptive step changes although the error keeps its sign in every part", fn)
        elif equal(a, c):
            ctx.bad("adapt|%s" % fn, "the adaptive step stays although the error changes its sign", fn)
        elif not equal(a, shrunk):
            ctx.bad("adapt|%s" % fn, "the adaptive step does not become mu/(1 + mu*|error|^2) where the error changes its sign", fn)
    if not seen:
        ctx.undecided("%s: no adaptive step found" % fn)
    else:
        ctx.sample("%s: adaptive step over %d paths" % (fn, seen))


# ---------------------------------------------------------------- constants
def alphabet():
    s, P = cplx("sym"), real("P", True, scalar=True)
    pr = {"qampy.theory.cal_symbols_qam": lambda ev, a, k: s, "qampy.theory.cal_scaling_factor_qam": lambda ev, a, k: P}

    def stack(ev, args, kw):
        v = args[0]
        if not isinstance(v, tuple):
            raise Unknown("stack")
        return v if len(v) != 1 else v[0]

    def repeat(ev, args, kw):
        v = args[0]
        return v[0] if isinstance(v, tuple) and len(v) == 1 else v
    for n in ("hstack", "vstack", "concatenate", "append"):
        pr["numpy." + n] = stack
    pr["numpy.repeat"] = repeat
    pr["numpy.tile"] = repeat
    unit = F.cdiv(s, Cx(F.powr(P.re, F.Fr(1, 2))))
    return pr, unit


def midspec(v):
    def one(p):
        h, t = linear("head", Cx(p)).re, linear("tail", Cx(p)).re
        return F.scale(F.add(h, t), F.Fr(1, 2))
    return Cx(one(v.re), one(v.im), v.cplx)


def const_spec(text, s):
    tree = ast.parse(text, mode="eval").body

    class M:
        def lookup(self, n):
            return ("ext", "numpy." + n)
    ev = Ev(None, prims={"numpy.mid": lambda ev, a, k: midspec(a[0])})
    return ev.expr(tree, dict(s=s), M())


def constants(ctx, p, t):
    f = p.func(EQ + ".generate_symbols_for_eq")
    pr, unit = alphabet()
    for m in t["TRAINING_FCTS"]:
        ctx.ob()
        ev = Ev(p, prims=pr)
        try:
            v = ev.call(f, [Const(m), real("M", True, scalar=True), Opaque("dtype")])
        except Raised:
            if m in CONST:
                ctx.bad("constant|%s" % m, "no training constants are generated for method '%s'" % m, short(f.fullname))
            continue
        except Unknown as u:
            ctx.undecided("constants of %s: %s" % (m, u))
            continue
        ctx.analysed |= ev.used
        if m not in CONST:
            ctx.bad("constant|%s" % m, "symbols are made up for the data-aided method '%s'" % m, short(f.fullname))
            continue
        want = [const_spec(x, unit) for x in CONST[m]]
        got = list(v) if isinstance(v, tuple) else [v]
        try:
            if len(got) != len(want) or not all(equal(a, b) for a, b in zip(got, want)):
                ctx.bad("constant|%s" % m, "the constants of method '%s' are not %s of the unit-power alphabet s" % (m, ", ".join(CONST[m])), short(f.fullname))
            else:
                ctx.sample("constants of '%s': %s" % (m, ", ".join(CONST[m])), 30)
        except Unknown as u:
            ctx.undecided("constants of %s: %s" % (m, u))


# ---------------------------------------------------------------- decisions and filter output
def decisions(ctx, p):
    """the decided symbol is the one at the smallest distance"""
    s, x = cplx("s"), cplx("x")
    n = 0
    for name in ("det_symbol", "det_symbol_parallel"):
        f = p.modules[KM].functions.get(name)
        if f is None:
            continue
        ctx.ob()
        ev = Ev(p)
        arr = F.Arr(lambda ev, idx: s, shape=Opaque("shape"), dtype=Opaque("dtype"))
        try:
            ps = ev.paths(f, [x, arr])
        except Unknown as u:
            ctx.undecided("%s: %s" % (name, u))
            continue
        d2 = F.abs2(cadd(x, F.cneg(s)))
        for conds, v, carries in ps:
            for nm, before, c, a in carries:
                if not equal(a, Cx(d2)):
                    continue
                k = F.signed(F.sub(c.re, d2))
                want = ("Gt" if k[0] > 0 else "Lt", key(k[1]))
                hit = [(r, t) for q, r, t in conds if q == want[1]]
                n += 1
                if hit and any(r in ("Gt", "Lt") and (r == want[0]) != t for r, t in hit):
                    ctx.bad("decision|%s" % name, "%s keeps the symbol with the larger distance" % name, short(f.fullname))
                if isinstance(v, tuple) and len(v) > 1 and isinstance(v[0], Cx) and isinstance(v[1], Cx) and equal(v[1], Cx(d2)) and not equal(v[0], s):
                    ctx.bad("decision|%s" % name, "%s does not return the symbol whose distance it keeps" % name, short(f.fullname))
    ctx.cov["decision_paths"] = n


def radius(ctx, p):
    """the code of a value is the one of the interval it lies in"""
    f = p.modules[KM].functions.get("partition_value")
    if f is None or len(f.pos) < 4:
        return
    x = real("x")
    for part, n in (("real", 1), ("real", 2), ("imag", 2)):
        ctx.ob()
        pa, co = [cplx("p%d" % i) for i in range(n)], [cplx("c%d" % i) for i in range(n + 1)]

        def arr(v):
            def get(ev, idx):
                c = idx[0].const() if len(idx) == 1 and isinstance(idx[0], Cx) else None
                if c is None or c.denominator != 1:
                    raise Unknown("element")
                if not -len(v) <= c < len(v):
                    raise Raised()
                return v[c.numerator]
            return F.Arr(get, shape=(num(len(v)),), size=num(len(v)))
        pick = lambda v: Cx(v.re if part == "real" else v.im)
        lims = {}
        for i, v in enumerate(pa):
            sg, q = F.signed(F.sub(x.re, pick(v).re))
            lims[key(q)] = (i, sg)
        try:
            ps = Ev(p).paths(f, [x, arr(pa), arr(co), F.Ext("numpy." + part)])
            for conds, v, carries in ps:
                known = {}
                for k, r, t in conds:
                    if k not in lims or r not in ("Gt", "Lt"):
                        raise Unknown("condition %s" % k)
                    i, sg = lims[k]
                    known[i] = t == ((r == "Gt") == (sg > 0))
                cells = [c for c in range(n + 1) if all((i < c) == t for i, t in known.items())]
                if not cells:
                    continue
                for c in cells:
                    if v is Raised or not isinstance(v, Cx) or not equal(v, pick(co[c])):
                        if v is not Raised and not isinstance(v, Cx):
                            raise Unknown("value")
                        ctx.bad("radius|partition_value", "with %d limits a value above %d of them does not get the code of its interval" % (n, c), short(f.fullname))
                        return
        except Unknown as u:
            ctx.undecided("%s: %s" % (short(f.fullname), u))
            return
    ctx.analysed.add(f.fullname)
    ctx.sample("%s: the code of the interval for 1 and 2 limits" % short(f.fullname), 40)


def length(ctx, p):
    """the default training length does not run past the end of the field"""
    f = p.modules[EQ].functions.get("_cal_training_symbol_len")
    if f is None or len(f.pos) != 3:
        return
    os_, nt, q = (real(n, True, scalar=True) for n in ("os", "nt", "q"))
    L = cmul(cmul(os_, nt), q)
    ctx.ob()
    whole = lambda ev, a, k: a[0]
    ev = Ev(p, prims={"builtins.int": whole, "builtins.round": whole, "numpy.floor": whole, "math.floor": whole})
    try:
        v = ev.call(f, [os_, nt, L])
        if not isinstance(v, Cx):
            raise Unknown("value")
        left = F.sub(L.re, F.add(F.mul(F.sub(v.re, num(1).re), os_.re), nt.re))
        at = {"seed": 0, "os": 2., "nt": 11., "q": 10.}
        F.POINTWISE["floor"] = math.floor       # of whole numbers here
        try:
            tot = F.value(left, at)
        finally:
            del F.POINTWISE["floor"]
        if set(at) - {"seed", "os", "nt", "q"}:
            raise Unknown("length %s" % key(v.re))
    except (Unknown, ValueError, ZeroDivisionError) as u:
        ctx.undecided("%s: %s" % (short(f.fullname), u))
        return
    except Raised:
        return
    ctx.analysed.add(f.fullname)
    if tot < 0:
        ctx.bad("length|_cal_training_symbol_len", "the default number of training symbols of a field of os*Ntaps*q samples needs samples beyond its end", short(f.fullname))
    else:
        ctx.sample("%s: (n - 1)*os + Ntaps <= L" % short(f.fullname), 40)


class Done(Exception):
    pass


def outmodes(ctx, p):
    """the real-valued methods train the real and the imaginary part of the same modes"""
    f = p.func(EQ + ".equalise_signal")
    cols = lambda ev, a, k: a[0] if isinstance(a[0], tuple) else (_ for _ in ()).throw(Unknown("stack"))
    for n in (2, 3):
        m, got = real("m", True), []

        def kernel(ev, a, k):
            v = a[6] if len(a) > 6 else k.get("modes")
            got.append(v)
            raise Done()
        E = F.Arr(lambda ev, idx: (_ for _ in ()).throw(Unknown("element")), shape=(num(2 * n), real("L", True)), dtype=Opaque("dtype"), real=Opaque("real"))
        sub = lambda ev, a, k: E
        pr = {EQ + "._convert_sig_to_real": sub, "numpy.copy": lambda ev, a, k: a[0], "numpy.atleast_1d": lambda ev, a, k: a[0], EQ + "._init_taps": lambda ev, a, k: Opaque("taps"), EQ + "._reshape_symbols": lambda ev, a, k: Opaque("symbols"),
              KM + ".train_equaliser_realvalued": kernel}
        pr.update({"numpy." + x: cols for x in ("hstack", "concatenate", "append", "r_")})
        ctx.ob()
        try:
            Ev(p, prims=pr, shape=(num(1),)).call(f, [E, real("os", True), real("mu", True), real("M", True)], dict(Ntaps=real("nt", True), TrSyms=real("T", True), method=Const("cma_real"), modes=m, symbols=Opaque("symbols")))
            raise Unknown("kernel not reached")
        except Done:
            v = got[0]
        except Unknown as u:
            ctx.undecided("%s(modes): %s" % (short(f.fullname), u))
            return
        except Raised:
            return
        try:
            if isinstance(v, tuple) and len(v) == 2:
                if not (equal(v[0], m) and equal(v[1], cadd(m, num(n)))):
                    ctx.bad("modes|equalise_signal", "with %d modes the real-valued methods do not train the imaginary part (row mode + %d) of the modes they were given" % (n, n), short(f.fullname))
                    return
                ctx.sample("%s: rows of the modes given" % short(f.fullname), 40)
            else:
                raise Unknown("modes")
        except Unknown as u:
            ctx.undecided("%s(modes): %s" % (short(f.fullname), u))


def outputs(ctx, p):
    f = p.func(KM + ".apply_filter_to_signal")
    for isreal in (False, True):
        st = Step(p, isreal)
        ctx.ob()
        got = []
        out = F.Arr(lambda ev, idx: None, lambda ev, idx, v: got.append(v))
        for z in ("numpy.zeros", "numpy.empty"):
            st.ev.prims[z] = lambda ev, a, k: out
        try:
            st.ev.call(f, [st.E, real("os", True), st.wx, Const(None)])
            if not got:
                raise Unknown("no output found")
            if not all(equal(v, st.x()) for v in got):
                ctx.bad("output|apply_filter_to_signal", "an output sample is not the sum of the input samples times the taps", short(f.fullname))
        except Unknown as u:
            ctx.undecided("%s: %s" % (short(f.fullname), u))
        except Raised:
            pass


# ---------------------------------------------------------------- the two stages
def stages(ctx, p):
    root = EQ + ".dual_mode_equalisation"
    base = {k: v for k, v in R[root][0].items()}
    vals = {"mu": (0.001, 0.002), "TrSyms": (101, 102), "Niter": (3, 4), "methods": ("cma", "dd"), "adaptive_stepsize": (True, False)}
    cfg = dict(base)
    for k, v in vals.items():
        cfg[k] = Tup(*[K(x) for x in v])

    def hk():
        def precall(I, fv, e, pos, kw):
            if fv.k == "func" and fv.c.name == "equalise_signal":
                f = fv.c
                b = dict(zip(f.pos, pos))
                b.update(kw)
                I.ev("stage", e, args={k: (v.c if v.k in ("const", "num", "str", "bool", "int", "float") else None) for k, v in b.items()}, keys=sorted(b), none="wxy" in b and b["wxy"].k == "const" and b["wxy"].c is None or "wxy" in b and b["wxy"].k == "none")
            return None
        return {"precall": precall}
    for fn in (root, "qampy.equalisation.dual_mode_equalisation"):
        c = dict(cfg)
        if fn != root:
            c = dict(R[fn][0])
            for k, v in vals.items():
                c[k] = Tup(*[K(x) for x in v])
        r, = run_all({fn: [c]}, keep={"stage"}, hooks=hk)
        ctx.use([r])
        ev = [e for e in r.events if e.kind == "stage"]
        by = {}
        for e in ev:
            by.setdefault(e.site, e)
        order = list(by.values())
        if len(order) != 2:
            ctx.undecided("%s: %d stages" % (short(fn), len(order)))
            continue
        for i, e in enumerate(order):
            ctx.ob()
            if i and ("wxy" not in e.data["keys"] or e.data["none"]):
                ctx.bad("stage|%s|taps" % short(fn), "the second stage of %s does not start from the taps of the first" % short(fn), e.where)
            for opt, par in (("mu", "mu"), ("TrSyms", "TrSyms"), ("Niter", "Niter"), ("methods", "method"), ("adaptive_stepsize", "adaptive_stepsize")):
                ctx.ob()
                v = e.data['args'].get(par)
                if par not in e.data['keys']:
                    ctx.bad("stage|%s|%d|%s" % (short(fn), i, par), "stage %d of %s does not get its %s" % (i + 1, short(fn), opt), e.where)
                elif v is None:
                    ctx.undecided("stage %d %s" % (i + 1, par))
                elif v != vals[opt][i]:
                    ctx.bad("stage|%s|%d|%s" % (short(fn), i, par), "stage %d of %s runs with the %s of the other stage" % (i + 1, short(fn), opt), e.where)


def check(ctx):
    p = project()
    t = tables(p)
    check_tables(ctx, t)
    ks = kernels(ctx, p, t)
    ctx.cov["kernels"] = {m: "%s(%s)" % (short(k[0]), k[1]) for m, k in sorted(ks.items())}
    steps(ctx, p, ks)
    constants(ctx, p, t)
    given_symbols(ctx, p, t)
    unlisted(ctx, p, t)
    layout(ctx, p)
    decisions(ctx, p)
    radius(ctx, p)
    length(ctx, p)
    outmodes(ctx, p)
    outputs(ctx, p)
    stages(ctx, p)


def selftest():
    x, R_ = cplx("x"), cplx("R")
    a = spec("(R.real - abs(x)**2)*x", x=x, R=R_)
    if equal(a, spec("(abs(x)**2 - R.real)*x", x=x, R=R_)):
        return "opposite formulas taken for equal"
    if not equal(a, spec("R.real*x - x*x*conj(x)", x=x, R=R_)):
        return "equal formulas taken for different"
