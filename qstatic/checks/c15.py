"""C15 no accepted option is silently ignored."""
from .common import *
from ..params import *

EXPLANATION = ("Dependence analysis (data and control): for every public entry point each declared parameter, including **kwargs, must reach the result, "
               "an exception, an external effect or a branch in at least one analysed configuration, and each argument a configuration passes "
               "explicitly must do so in that configuration unless it is documented as not applicable there; an argument forwarded to a parameter "
               "of the same name must carry the option of that name, not another one.")
FLOOR = 1500
# explicitly passed, documented to have no meaning in that configuration: (entry point, parameter) -> condition on the configuration text
MOOT = {
    ("core.filter.filter_signal", "order"): ("ftype='exp'", "ftype='gauss'"),
    ("filtering.filter_signal", "order"): ("ftype='exp'", "ftype='gauss'"),
    ("core.equalisation.equalisation.equalise_signal", "M"): ("symbols=",),
    ("equalisation.equalise_signal", "M"): ("symbols=",),
    ("core.impairments.simulate_transmission", "fb"): ("",), ("core.impairments.simulate_transmission", "fs"): ("",),
    ("core.pilotbased_transmitter.sim_tx", "os"): ("",), ("core.pilotbased_transmitter.sim_tx", "symb_rate"): ("",),
    ("core.impairments.apply_DAC_filter", "cutoff"): ("fn=",),
    ("equalisation.pilot_equaliser", "Ntaps"): ("wxinit=",), ("equalisation.pilot_equaliser_nframes", "Ntaps"): ("wxinit=",),
    ("core.ber_functions.adjust_data_length", "offset"): ("method='truncate'",),
    ("core.pilotbased_receiver.equalize_pilot_sequence", "Ntaps"): ("wxinit=",),
}

# left at its default, without meaning in the configurations whose text holds one of the conditions
UNSET = {
    ("core.equalisation.equalisation.dual_mode_equalisation", "Ntaps"): ("wxy=",),
    ("core.equalisation.equalisation.equalise_signal", "Ntaps"): ("wxy=",), ("equalisation.equalise_signal", "Ntaps"): ("wxy=",),
    ("core.filter.filter_signal", "analog"): ("ftype='exp'", "ftype='gauss'"), ("filtering.filter_signal", "analog"): ("ftype='exp'", "ftype='gauss'"),
    ("filtering.filter_signal", "order"): ("ftype='exp'", "ftype='gauss'"),
    ("core.impairments.apply_DAC_filter", "ch"): ("",),                                # goes with fn
    ("core.impairments.simulate_transmission", "theta"): ("",), ("impairments.simulate_transmission", "theta"): ("",),       # goes with dgd
    ("core.io.ndarray_from_matlab", "portmap"): ("keys=",), ("core.io.ndarray_from_matlab", "transpose"): ("keys=",),
    ("core.pilotbased_transmitter.gen_dataframe_with_phasepilots", "PRBSorder"): ("",), ("core.pilotbased_transmitter.gen_dataframe_with_phasepilots", "PRBSseed"): ("",),
    ("core.pilotbased_transmitter.gen_dataframe_without_phasepilots", "PRBSorder"): ("",), ("core.pilotbased_transmitter.gen_dataframe_without_phasepilots", "PRBSseed"): ("",),
    ("core.resample.rrcos_resample", "Ts"): ("beta=None",), ("core.resample.rrcos_resample", "fftconv"): ("beta=None",),
    ("core.resample.rrcos_resample", "renormalise"): ("beta=None",), ("core.resample.rrcos_resample", "taps"): ("beta=None",),
    ("core.segmentaxis.segment_axis", "endvalue"): ("end='cut'", "end='wrap'", "axis=0"),
    ("equalisation.apply_filter", "frames"): ("sig=Signal", "sig=Res"),
    ("io.load_symbols_from_matlab_file", "fake_pm_delay"): ("",),                      # goes with fake_polmux
    ("signals.SignalBase.cal_evm", "synced"): ("blind=True",), ("signals.SignalWithPilots.cal_evm", "synced"): ("blind=True",),
    ("signals.SignalBase.normalize_and_center", "synced"): ("",),                      # goes with symbol_based
    ("signals.SignalWithPilots.from_symbol_array", "payload_class"): ("payload=Signal",), ("signals.SignalWithPilots.from_symbol_array", "pilots"): ("",),
}
for _f in ("cal_ber", "cal_evm", "cal_ser", "est_snr"):
    UNSET["signals.SignalWithPilots." + _f, "frames"] = ("signal_rx=",)                # the given payload is used instead of frames of the signal
UNSET["signals.SignalWithPilots.est_snr", "use_pilots"] = ("signal_rx=",)


def deps(s):
    d = set(s.dp)
    for e in (s.elts or []):
        d |= deps(e)
    if s.elem is not None:
        d |= deps(s.elem)
    for e in (s.attrs or {}).values():
        d |= deps(e)
    return d


def hooks():
    def call(I, fi, node, env, caller):
        if caller.fi is None or len(I.stack) != 3:
            return None                             # only calls the entry point itself makes
        ps = set(caller.fi.pos) | set(caller.fi.kwonly)
        if caller.fi.fullname == fi.fullname:
            return None
        for q, v in env.items():
            if q in ps and q not in ("self", "cls") and q in fi.pos + fi.kwonly:
                d = I.deep_deps(v)
                wrong = sorted((d & ps & (set(fi.pos) | set(fi.kwonly))) - {q})
                if q not in d and len(d & ps) == 1:         # exactly one other option, passed through
                    for w in wrong:
                        dw = I.deep_deps(env[w]) if w in env else EMPTY
                        if w not in dw:
                            I.ev("crossed", node, callee=fi.fullname, param=q, got=w)
        return None
    return {"call": call}


def check(ctx):
    rs = runs(ctx, keep={"crossed"}, hooks=hooks)
    p = project()
    used, params, unset = {}, {}, []
    for r in rs:
        u = deps(r.result) | set(r.used) | set(r.tested)
        used.setdefault(r.root, set()).update(u)
        f = p.func(r.root)
        params[r.root] = (f, [q for q in f.pos + f.kwonly + [x for x in (f.vararg, f.kwarg) if x] if q not in ("self", "cls")])
        for e in r.events:
            ctx.bad("crossed|%s|%s.%s" % (short(r.root), short(e.data["callee"]), e.data["param"]),
                    "%s: parameter '%s' of %s receives the option '%s'" % (e.text[:80], e.data["param"], short(e.data["callee"]), e.data["got"]), e.where, path(e))
        if r.result.k == "never":
            continue
        for q in r.params:
            if q in ("self", "cls"):
                continue
            ctx.ob()
            if q in u:
                continue
            if q in r.defaulted:
                unset.append((r, q))
                continue
            conds = MOOT.get((short(r.root), q), ())
            if any(c in r.desc for c in conds):
                continue
            ctx.bad("ignored|%s|%s" % (short(r.root), q), "the argument '%s' of %s has no effect on anything" % (q, r.name()), short(r.root))
    for r, q in unset:
        # an option that has a meaning elsewhere is dropped on this configuration's path
        if q in used[r.root] and not any(c in r.desc for c in UNSET.get((short(r.root), q), ())):
            ctx.bad("dropped|%s|%s" % (short(r.root), q), "%s does not depend on '%s', which other configurations use" % (r.name(), q), short(r.root))
    for root, (f, ps) in sorted(params.items()):
        for q in ps:
            ctx.ob()
            if q not in used[root]:
                if any(r.root == root and r.result.k != "never" for r in rs):
                    ctx.bad("ignored|%s|%s" % (short(root), q), "%s accepts '%s' but no configuration depends on it" % (short(root), q),
                            "%s:%d" % (p.relpath(f.module), f.node.lineno))


def selftest():
    r = fixture_runs("ignores", {"x": Arr(), "gain": Num(), "offset": Num()}, hooks=hooks)
    u = deps(r.result) | set(r.used) | set(r.tested)
    if "offset" in u or "gain" not in u:
        return "ignored option of the fixture not told apart from a used one"
    r = fixture_runs("crosses", {"x": Arr(), "gain": Num(), "offset": Num()}, hooks=hooks, keep={"crossed"})
    if not r.events:
        return "crossed arguments of the fixture not reported"
