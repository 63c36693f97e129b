"""C03 randomness discipline."""
from .common import *
from ..params import *

EXPLANATION = ("Effect analysis: every random draw reachable from an entry point is an event carrying the generator it uses, where that generator's "
               "seed comes from, the number of samples drawn (symbolic shape) and the loops around it. Rules: no reseeding, no generator with a "
               "fixed or missing seed argument, no draw outside the entry points documented as stochastic, a seed argument reaches the generator, "
               "and each noise/phase-walk draw covers every polarisation and sample (two independent draws for complex noise).")
FLOOR = 470
ALWAYS = None
# entry points documented to be stochastic; value: option values that make the call deterministic / the options that switch a draw on
STOCH = {
    "core.impairments.add_awgn": ALWAYS, "core.impairments.apply_enob_as_awgn": ALWAYS, "core.impairments.apply_phase_noise": ALWAYS,
    "core.impairments.change_snr": ALWAYS, "core.impairments.phase_noise": ALWAYS, "core.impairments.sim_DAC_response": ALWAYS,
    "core.impairments.sim_tx_response": ALWAYS, "core.impairments.simulate_transmission": ("on", {"snr", "lwdth"}),
    "core.pilotbased_transmitter.gen_dataframe_with_phasepilots": ("off", {"PRBS=True"}),
    "core.pilotbased_transmitter.gen_dataframe_without_phasepilots": ("off", {"PRBS=True"}),
    "core.pilotbased_transmitter.gen_dataframe_with_phasepilots_hybridmodulation": ALWAYS,
    "core.pilotbased_transmitter.sim_tx": ("on", {"snr", "linewidth"}),
    "core.pythran_dsp.cal_gmi_mc": ALWAYS, "theory.cal_gmi": ALWAYS, "theory.sim_mi_mc": ALWAYS, "theory.generate_ps_symbols": ALWAYS,
    "impairments.apply_phase_noise": ALWAYS, "impairments.change_snr": ALWAYS, "impairments.sim_DAC_response": ALWAYS,
    "impairments.sim_tx_response": ALWAYS, "impairments.simulate_transmission": ("on", {"snr", "lwdth"}),
    "signals.QPSKfromBERT.__new__": ALWAYS, "signals.RandomBits.__new__": ALWAYS, "signals.ResampledQAM.__new__": ALWAYS,
    "signals.SignalQAMGrayCoded.__new__": ("off", {"bitclass=qampy.signals.PRBSBits"}),
    "signals.SignalWithPilots.__new__": ALWAYS,
    "signals.SignalWithPilots.from_symbol_array": ("off", {"payload_is_frame=True", "pilots="}),
    "signals.SymbolOnlySignal.__new__": ALWAYS, "signals.TDHQAMSymbols.__new__": ALWAYS,
}
# field-shaped noise: entry point -> number of independent draws per sample
NOISE = {
    "core.impairments.add_awgn": 2, "core.impairments.apply_enob_as_awgn": 2, "core.impairments.change_snr": 2,
    "core.impairments.apply_phase_noise": 1, "core.impairments.sim_DAC_response": 2, "core.impairments.sim_tx_response": 2,
    "impairments.apply_phase_noise": 1, "impairments.change_snr": 2, "impairments.sim_DAC_response": 2, "impairments.sim_tx_response": 2,
    "core.impairments.simulate_transmission": 0, "impairments.simulate_transmission": 0, "core.pilotbased_transmitter.sim_tx": 0,
}
SEEDED = {"signals.RandomBits.__new__": "seed", "signals.SignalQAMGrayCoded.__new__": "seed"}
FIELD = {"modes", "L"}


def allowed(root, desc):
    if root not in STOCH:
        return False
    s = STOCH[root]
    if s is None:
        return True
    mode, names = s
    if mode == "on":
        return any((n + "=") in desc for n in names)
    return not any(n in desc for n in names)


def check(ctx):
    rs = runs(ctx, keep={"rng", "reseed", "globalwrite"})
    draws = 0
    undecided = 0
    for r in rs:
        root = short(r.root)
        ctx.ob()
        ok = allowed(root, r.desc)
        evs = [e for e in r.events if e.kind == "rng"]
        for e in r.events:
            if e.kind == "reseed":
                ctx.bad("reseed|%s" % short(e.qual), "%s reseeds the global random generator" % short(e.qual), e.where, path(e))
        for e in evs:
            draws += 1
            ctx.ob()
            g = e.data["gen"]
            if not e.data["what"].startswith("numpy.random."):
                ctx.bad("source|%s|%s" % (short(e.qual), e.data["what"]), "%s draws from %s, which numpy's seed does not control" % (short(e.qual), e.data["what"]),
                        e.where, path(e))
            if g == "fixed-seed":
                ctx.bad("fixedseed|%s" % short(e.qual), "%s draws from a generator with a fixed seed: every call gives the same 'random' numbers" % short(e.qual),
                        e.where, path(e))
            if g == "unseeded":
                ctx.bad("unseeded|%s" % short(e.qual), "%s draws from a private generator no seed can reach" % short(e.qual), e.where, path(e))
            if not ok:
                ctx.bad("undeclared|%s|%s" % (root, short(e.qual)), "%s draws random numbers (%s)" % (r.name(), e.text), e.where, path(e))
        sp = SEEDED.get(root)
        if sp and (sp + "=") in r.desc:
            for e in evs:
                if sp not in e.data["gendep"]:
                    ctx.bad("seedlost|%s|%s" % (root, short(e.qual)), "the caller's seed does not reach the generator drawing in %s" % short(e.qual), e.where, path(e))
        if root in NOISE and ok:
            full = 0
            for e in evs:
                sh = e.data["shape"]
                dims = set(sh or ()) | set(e.data["loops"])
                if FIELD <= dims:
                    full += 1 + (2 in dims)
                elif sh is None or None in dims:
                    full += 99
                    ctx.undecided("%s %s" % (r.name(), e.where))
                else:
                    ctx.bad("noiseshape|%s|%s" % (root, short(e.qual)),
                            "the draw covers %s only: %s share the same noise" % (
                                "×".join(sorted(map(str, dims))) or "one value", "/".join(sorted(FIELD - dims)).replace("modes", "polarisations").replace("L", "samples")),
                            e.where, path(e))
            ctx.ob()
            if full < NOISE[root] and "array(modes,L,f)" not in r.desc:
                ctx.bad("quadrature|%s" % root, "only %d independent draw(s) per sample, %d needed" % (full, NOISE[root]), root)
    ctx.cov["draws"] = draws
    if draws < 40:
        raise AnalysisBroken("only %d random draws found" % draws)


def selftest():
    for n, want in (("reseeds", "reseed"), ("fixed", "rng")):
        r = fixture_runs(n, {"x": Arr()}, keep={"rng", "reseed"})
        if not any(e.kind == want and (want == "reseed" or e.data["gen"] == "fixed-seed") for e in r.events):
            return n + " not reported"
