"""C12 parallel kernels give the same result on any number of threads."""
from .common import *
from .. import omp

EXPLANATION = ("Every loop of the compiled modules that carries an OpenMP directive is analysed for data races: a scalar must not carry a value between iterations nor out of the loop unless it is a declared reduction "
               "computed with the declared operator; every array element written is addressed injectively by every parallel loop index; elements read are those of the same iteration or of arrays the loop does not write; "
               "functions called do not write shared arrays, draw random numbers or leave the loop. Iterated index arrays are taken to have no duplicates.")
FLOOR = 30
MODULES = ("qampy.core.pythran_dsp", "qampy.core.equalisation.pythran_equalisation")


def check(ctx):
    p = project()
    for mn in MODULES:
        if mn not in p.modules:
            raise AnalysisBroken("module %s is gone" % mn)
    loops = 0
    perfn = {}
    for mn, m in sorted(p.modules.items()):
        src = open(m.path).read()
        if "omp" not in src:
            continue

        def report(fn, kind, name, what, node, mn=mn, m=m):
            ctx.bad("race|%s|%s|%s" % (short(mn + "." + fn), kind, name), "%s: %s" % (fn, what), "%s:%d" % (m.path, node.lineno))
        for fn, line, text, facts in omp.analyse(src, report, ctx.undecided):
            loops += 1
            ctx.ob(facts)
            perfn[short(mn + "." + fn)] = perfn.get(short(mn + "." + fn), 0) + 1
            ctx.analysed.add(mn + "." + fn)
            ctx.sample("%s:%d '%s': %d accesses judged" % (short(mn + "." + fn), line, text, facts), 20)
    ctx.cov["parallel_loops"] = loops
    ctx.cov["loops_per_function"] = perfn


BAD = {
    "shared": "def f(x):\n    mu = 1.\n    out = np.zeros(4)\n    #omp parallel for\n    for i in range(4):\n        out[i] = mu*x[i]\n        mu = mu/2\n    return out\n",
    "sum": "def f(x):\n    s = 0\n    #omp parallel for\n    for i in range(4):\n        s += x[i]\n    return s\n",
    "hoisted": "def f(x):\n    out = np.zeros(4)\n    t = 0\n    #omp parallel for reduction(+:s)\n    for i in range(4):\n        for j in range(3):\n            t += x[i, j]\n        out[i] = t\n    return out\n",
    "element": "def f(x, n):\n    out = np.zeros(4)\n    #omp parallel for collapse(2)\n    for i in range(4):\n        for j in range(n):\n            out[i] = x[i, j]\n    return out\n",
    "neighbour": "def f(x):\n    #omp parallel for\n    for i in range(1, 4):\n        x[i] = x[i-1]\n    return x\n",
    "histogram": "def f(x, k):\n    out = np.zeros(4)\n    #omp parallel for\n    for i in range(9):\n        out[k[i]] += x[i]\n    return out\n",
    "callee": "def g(o, v):\n    o[0] = v\ndef f(x):\n    out = np.zeros(4)\n    #omp parallel for\n    for i in range(9):\n        g(out, x[i])\n    return out\n",
    "random": "def f(x):\n    out = np.zeros(4)\n    #omp parallel for\n    for i in range(4):\n        out[i] = np.random.randn()\n    return out\n",
    "op": "def f(x):\n    s = 0\n    #omp parallel for reduction(+:s)\n    for i in range(4):\n        s *= x[i]\n    return s\n",
}
GOOD = [
    "def f(x):\n    s = 0\n    #omp parallel for reduction(+:s)\n    for i in range(4):\n        t = 0\n        for j in range(3):\n            t += x[i, j]\n        s += t\n    return s\n",
    "def f(x, os):\n    out = np.zeros((4, 4))\n    #omp parallel for collapse(2)\n    for i in range(4):\n        for j in range(4):\n            seg = x[i, j*os:j*os+4]\n            k = j\n            out[i, k] = seg.sum()\n    return out\n",
    "def f(x, w, modes):\n    #omp parallel for\n    for m in modes:\n        row = w[m]\n        mu = 1.\n        for i in range(9):\n            row += mu*x[:, i]\n            w[m] += mu*x[:, i]\n            mu = mu/2\n    return w\n",
    "def f(x):\n    out = np.zeros(9)\n    #omp parallel for\n    for i in range(9):\n        if x[i] > 1:\n            k = i\n        else:\n            k = 0\n        out[i] = x[k]\n    return out\n",
]


def selftest():
    for n, s in BAD.items():
        hits = []
        omp.analyse(s, lambda *a: hits.append(a), lambda w: None)
        if not hits:
            return "fixture %s not reported" % n
    for k, s in enumerate(GOOD):
        hits = []
        omp.analyse(s, lambda *a: hits.append(a), lambda w: None)
        if hits:
            return "clean fixture %d reported: %s" % (k, hits[0][3])
