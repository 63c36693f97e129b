"""C01 input purity: no store reaches a buffer, list, dict or object owned by the caller."""
from .common import *
from ..params import *

EXPLANATION = ("Interprocedural alias analysis: every buffer, list, dict and object reachable from an argument is a region; each "
               "item/slice/attribute store, augmented assignment, in-place method, out= argument and in-place library function on "
               "every path of every public entry point is an obligation to write a region the call itself allocated. Views, "
               "reshapes, transposes, slices and asarray-style no-copy conversions keep the region; copies and arithmetic make a new one.")
FLOOR = 250

# entry point -> parameters it is documented to update in place
EXEMPT = {
    "core.equalisation.pythran_equalisation.train_equaliser": {"wx"},              # training kernels: the taps are the in/out argument
    "core.equalisation.pythran_equalisation.train_equaliser_realvalued": {"wx"},
    "signals.SignalWithPilots.sync2frame": {"self"},                                 # documented to synchronise the object itself
    "signals.SignalWithPilots.corr_foe": {"self"},                                   # documented to correct the object itself
    "signals.SignalBase.normalize_and_center": {"self"},                             # documented in-place normalisation
}


def owner(region):
    p = region[2:]
    return p.split(".")[0].split("[")[0], p


def check(ctx):
    rs = runs(ctx, keep={"mutate", "store-site"})
    local = 0
    for r in rs:
        root = short(r.root)
        ctx.ob(len([p for p in r.params if p not in r.defaulted]) or 1)
        for e in r.events:
            if e.kind != "mutate":
                continue
            reg = e.data["region"]
            if not reg.startswith("P:"):
                local += 1
                continue
            p, full = owner(reg)
            if p in EXEMPT.get(root, ()):
                continue
            ctx.bad("mutate|%s|%s" % (root, full), "argument '%s' of %s is modified in place (%s: %s)" % (full, root, e.data["how"], e.text),
                    e.where, path(e))
    ctx.cov["stores_to_local_buffers"] = local
    ctx.ob(local)
    ctx.cov["rule"] = "every store of every analysed path targets a region not owned by the caller"


def selftest():
    r = fixture_runs("mutates", {"x": Arr()}, keep={"mutate"})
    if not any(e.data["region"] == "P:x" for e in r.events):
        return "in-place store through a view of an argument not reported"
    r = fixture_runs("pure", {"x": Arr()}, keep={"mutate"})
    if any(e.data["region"].startswith("P:") for e in r.events):
        return "store into a copy reported"
