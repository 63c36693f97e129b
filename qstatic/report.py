"""Findings, the known-findings file, evidence and exit codes."""
import json
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Finding:
    """one violation: `key` identifies rule and construct (never a line number)"""

    def __init__(self, key, msg, where="", path=""):
        self.key, self.msg, self.where, self.path = key, msg, where, path


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.findings = {}
        self.cov = {}
        self.samples = []
        self.unresolved = []       # obligations the analysis could not decide
        self.obligations = 0
        self.analysed = set()

    def ob(self, n=1):
        self.obligations += n

    def bad(self, key, msg, where="", path=""):
        if key not in self.findings:
            self.findings[key] = Finding(key, msg, where, path)

    def undecided(self, what):
        self.unresolved.append(what)

    def sample(self, s, n=12):
        if len(self.samples) < n:
            self.samples.append(s)

    def use(self, runs):
        for r in runs:
            self.analysed |= r.analysed


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"KNOWN property=(\S+) key=(.*?) :: (.*)$", line.rstrip("\n"))
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def finish(ctx, t0, explanation, floor=0, count=None):
    """write the evidence, print the verdict, return the exit code"""
    kn = known(ctx.pid)

    def entry(k):
        """the listed finding: the key itself, or one with * for any name (unfinished functions, unmaintained modules)"""
        return k if k in kn else next((e for e in kn if "*" in e and re.fullmatch(re.escape(e).replace(r"\*", ".*"), k)), None)
    listed = [f for f in ctx.findings.values() if entry(f.key)]
    new = [f for f in ctx.findings.values() if not entry(f.key)]
    cov = {"explanation": explanation, "obligations": ctx.obligations,
           "undecided": len(ctx.unresolved), "undecided_list": sorted(set(map(str, ctx.unresolved)))[:60],
           "functions_analysed": len(ctx.analysed), "functions": sorted(x.replace("qampy.", "", 1) for x in ctx.analysed),
           "findings": len(ctx.findings), "known": len(listed), "samples": ctx.samples}
    cov.update(ctx.cov)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 3)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s: %d obligations, %d undecided, %d findings (%d known), %d functions, %.1f s" %
          (ctx.pid, ctx.obligations, len(ctx.unresolved), len(ctx.findings), len(listed), len(ctx.analysed), time.time() - t0))
    said = set()
    for f in listed:
        e = entry(f.key)
        if e not in said:
            said.add(e)
            print("KNOWN-FINDING: property=%s %s [%s] at %s" % (ctx.pid, kn[e], f.key, f.where))
    rp = os.path.join(VERIF, "evidence", ctx.pid + "-violation.txt")
    if os.path.exists(rp):
        os.remove(rp)
    if new:
        with open(rp, "w") as fh:
            for f in new:
                fh.write("rule/construct: %s\n  where: %s\n  what: %s\n  path: %s\n\n" % (f.key, f.where, f.msg, f.path))
        for f in new[:20]:
            print("  %s: %s [%s]%s" % (f.where, f.msg, f.key, " via " + f.path if f.path else ""))
        print("VIOLATION property=%s replay=%s" % (ctx.pid, os.path.relpath(rp, VERIF)))
        return 1
    if ctx.obligations < floor:
        print("analysis broken: only %d obligations (floor %d)" % (ctx.obligations, floor), file=sys.stderr)
        return 2
    return 0


def main(argv):
    import importlib
    from .project import AnalysisBroken
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    mod = importlib.import_module("qstatic.checks." + pid.lower())
    try:
        if hasattr(mod, "selftest"):
            bad = mod.selftest()
            if bad:
                print("analysis broken: self-test of %s: %s" % (pid, bad), file=sys.stderr)
                return 2
        mod.check(ctx)
    except AnalysisBroken as x:
        print("analysis broken: %s" % x, file=sys.stderr)
        return 2
    return finish(ctx, t0, mod.EXPLANATION, getattr(mod, "FLOOR", 1))
