"""What the results of the public operations have to be like.

One row per (entry point, position in the result); the columns are facets the
abstract interpretation tracks.  Each row was reviewed against the
documentation and the code; a column that is not stated is not required.

deg   degree of homogeneity in the signal amplitude (1: scales with it, 0: does not depend on it, 2: power)
chg   phase charge under a common rotation of the signal (1: rotates along, 0: unaffected, 'ang': is an angle that follows)
mx    'A': row i of the result is computed from row i of the signal only
prec  'S': single precision in, single precision out
kind  'c': complex
unit  physical unit with the counting dimensions samples and symbols
scale ('dB', a): a times decibel, ('lin', p): power p of a linear power ratio
shape dimensions, None for one the analysis does not name
"""
from fractions import Fraction as Fr
from .params import U

ROWS = {}
ANG = ("ang", Fr(1))
NEG = ("ang", Fr(-1))
E2 = ("modes", "L")


def row(name, pos="", **cols):
    if cols.get("chg") == 1:
        cols.setdefault("kind", "c")            # the quadrature of a field that rotates along is not dropped
    ROWS.setdefault("qampy." + name, {}).setdefault(pos, {}).update(cols)


# ----------------------------------------------------------------- analogue front end
for m in ("", "core."):
    row(m + "analog_frontend.comp_rf_delay", deg=1, mx="A", shape=E2)
    row(m + "analog_frontend.orthonormalize_signal", deg=0, mx="A", prec="S", shape=E2)
row("core.analog_frontend.comp_IQ_inbalance", deg=1, prec="S", shape=("L",))
# ----------------------------------------------------------------- synchronisation
row("core.ber_functions.adjust_data_length", "[0]", deg=0, chg=0, prec="S", ndim=1)
row("core.ber_functions.adjust_data_length", "[1]", deg=1, chg=1, prec="S", ndim=1)
row("core.ber_functions.find_sequence_offset_complex", "[1]", deg=0, chg=0, prec="S", shape=("Ltx",))
row("core.ber_functions.sync_and_adjust", "[0][0]", deg=0, chg=0, prec="S", ndim=1)
row("core.ber_functions.sync_and_adjust", "[0][1]", deg=1, chg=1, prec="S", ndim=1)
row("core.ber_functions.sync_rx2tx", "[1]", shape=("L",))
row("core.ber_functions.sync_tx2rx", "[1]", shape=("Ltx",))
row("core.ber_functions.find_sequence_offset", "[1]", ndim=1)
# ----------------------------------------------------------------- pre-compensation
row("core.digital_pre_compensation.clipper", mx="A", shape=E2)
row("core.digital_pre_compensation.comp_mod_sin", mx="A", prec="S", shape=E2)
row("core.digital_pre_compensation.cal_lut", "[0]", deg=1, ndim=1)
# ----------------------------------------------------------------- equalisation
row("core.equalisation.equalisation.CDcomp", "[0]", deg=1, chg=1, ndim=1)
row("core.equalisation.equalisation.CDcomp", "[1]", deg=0, chg=0, ndim=1)
row("core.equalisation.equalisation.apply_filter", deg=1, chg=1, prec="S", ndim=2)
row("core.equalisation.pythran_equalisation.apply_filter_to_signal", deg=1, chg=1, prec="S", ndim=2)
row("core.equalisation.equalisation.orthogonalizetaps", deg=0, chg=0, prec="S", ndim=3)
for m in ("core.equalisation.equalisation.", "equalisation."):
    row(m + "dual_mode_equalisation", "[0]", prec="S")
    row(m + "dual_mode_equalisation", "[1]", prec="S", ndim=3)
    row(m + "dual_mode_equalisation", "[1][0]", prec="S", ndim=2)
    row(m + "dual_mode_equalisation", "[1][1]", prec="S", ndim=2)
    row(m + "dual_mode_equalisation", "[2][0]", prec="S", ndim=2)
    row(m + "dual_mode_equalisation", "[2][1]", prec="S", ndim=2)
    row(m + "equalise_signal", "[0]", prec="S")
    row(m + "equalise_signal", "[1]", prec="S")
    row(m + "equalise_signal", "[2]", prec="S", ndim=2)
row("equalisation.apply_filter", deg=1, chg=1, prec="S")
row("equalisation.pilot_equaliser", "[0]", prec="S", ndim=3)
row("core.equalisation.pythran_equalisation.make_decision", "[0]", prec="S", shape=("L",))
row("core.equalisation.pythran_equalisation.make_decision", "[1]", prec="S", shape=("L",))
row("core.equalisation.pythran_equalisation.make_decision", "[2]", prec="I", shape=("L",))
for f in ("train_equaliser", "train_equaliser_realvalued"):
    row("core.equalisation.pythran_equalisation." + f, "[0]", prec="S", shape=("modes", None))
    row("core.equalisation.pythran_equalisation." + f, "[1]", prec="S", shape=("modes", "modes2", "ntaps"))
# ----------------------------------------------------------------- filters
row("core.filter.filter_signal", deg=1, chg=1, mx="A", shape=E2)
row("core.filter.moving_average", deg=1, chg=1, mx="A", prec="S", shape=("modes", None))
row("core.filter.pre_filter", deg=1, chg=1, prec="S", ndim=1)
row("core.filter.pre_filter_wdm", deg=1, chg=1, prec="S", shape=("L",))
row("core.filter.rrcos_pulseshaping", deg=1, chg=1, mx="A", shape=E2)
row("filtering.filter_signal", deg=1, chg=1, mx="A", shape=E2)
row("filtering.filter_signal_analog", kind="c", deg=1, mx="A", prec="S", shape=E2)
row("filtering.pre_filter", deg=1, chg=1, mx="A", prec="S", shape=E2)
row("filtering.rrcos_pulseshaping", deg=1, chg=1, mx="A", prec="S", shape=E2)
# ----------------------------------------------------------------- impairments
for m in ("core.", ""):
    row(m + "impairments.add_carrier_offset", deg=1, chg=1, mx="A", prec="S", shape=E2)
    row(m + "impairments.add_dispersion", deg=1, chg=1, mx="A", prec="S", shape=E2)
    row(m + "impairments.apply_phase_noise", deg=1, chg=1, mx="A", prec="S", shape=E2)
    row(m + "impairments.change_snr", deg=1, prec="S", shape=E2)
    row(m + "impairments.simulate_transmission", deg=1, prec="S", ndim=2)
row("impairments.apply_PMD", deg=1, chg=1, prec="S", shape=(2, "L"))
row("impairments.sim_mod_response", mx="A", prec="S", shape=E2)
row("impairments.sim_DAC_response", shape=E2)
row("impairments.sim_tx_response", shape=E2)
row("core.impairments.sim_DAC_response", shape=E2)
row("core.impairments.sim_tx_response", shape=E2)
row("core.impairments.H_PMD", "[0]", deg=0, chg=0)
row("core.impairments.H_PMD", "[1]", deg=0, chg=0, shape=(2, 2))
row("core.impairments.add_awgn", deg=1, mx="A", prec="S", shape=E2)
row("core.impairments.add_modal_delay", deg=1, chg=1, mx="A", prec="S", shape=E2)
row("core.impairments.apply_DAC_filter", deg=1, chg=1, mx="A", shape=E2)
row("core.impairments.apply_PMD_to_field", deg=1, chg=1, prec="S", shape=(2, "L"))
row("core.impairments.apply_enob_as_awgn", deg=1, prec="S", shape=E2)
row("core.impairments.apply_enob_as_awgn", "[0]", deg=1, prec="S", shape=E2)
row("core.impairments.apply_enob_as_awgn", "[1]", scale=("dB", Fr(1)))
row("core.impairments.ideal_amplifier_response", deg=0, prec="S", shape=E2)
row("core.impairments.modulator_response", mx="A", prec="S", shape=E2)
row("core.impairments.quantize_signal", deg=0, mx="A", prec="S", shape=E2)
row("core.impairments.quantize_signal_New", prec="S", shape=E2)
row("core.impairments.rotate_field", deg=1, chg=1, prec="S", shape=(2, "L"))
row("core.impairments.phase_noise", ndim=2)
# ----------------------------------------------------------------- phase recovery
for m in ("core.phaserecovery.", "phaserec."):
    row(m + "bps", "[0]", chg=0, mx="A", shape=(None, "L"))
    row(m + "bps", "[1]", chg=NEG, mx="A", shape=(None, "L"))
    row(m + "bps_twostage", "[0]", chg=0, mx="A", prec="S", shape=(None, "L"))
    row(m + "bps_twostage", "[1]", chg=NEG, mx="A", prec="S", shape=(None, "L"))
    row(m + "comp_freq_offset", deg=1, chg=1, mx="A", prec="S", shape=E2)
    row(m + "find_freq_offset", deg=0, chg=0, shape=("modes", 1))
    row(m + "viterbiviterbi", "[0]", deg=1, chg=0, mx="A", prec="S", shape=E2)
    row(m + "viterbiviterbi", "[1]", deg=0, chg=ANG, mx="A", prec="S", shape=(None, None))
row("core.phaserecovery.phase_partition_16qam", "[0]", deg=1, chg=0, mx="A", shape=(None, "L"))
row("core.phaserecovery.phase_partition_16qam", "[1]", deg=0, chg=ANG, mx="A", shape=(None, "L"))
row("core.phaserecovery.partition_16qam", "[0]", deg=0, chg=0)
row("core.phaserecovery.partition_16qam", "[1]", deg=0, chg=0)
row("phaserec.correct_pilot_const_phase", deg=1, chg=0, mx="A", shape=E2)
row("phaserec.find_pilot_const_phase", deg=0, chg=ANG, mx="A", shape=("modes", 1))
row("phaserec.pilot_cpe", "[0]", deg=1, chg=0, mx="A", prec="S", shape=("modes", None))
row("phaserec.pilot_cpe", "[1]", deg=0, chg=ANG, mx="A", prec="S", shape=("modes", None))
row("core.pilotbased_receiver.pilot_based_cpe_new", "[0]", deg=1, chg=0, mx="A", prec="S", shape=("modes", None))
row("core.pilotbased_receiver.pilot_based_cpe_new", "[1]", deg=0, chg=ANG, mx="A", prec="S", shape=("modes", None))
row("core.pilotbased_receiver.pilot_based_cpe", "[0]", deg=1, chg=0, mx="A", shape=("modes", None))
row("core.pilotbased_receiver.pilot_based_cpe", "[1]", deg=0, chg=ANG, mx="A", shape=("modes", None))
# ----------------------------------------------------------------- pilots
row("core.pilotbased_receiver.correct_shifts", mx="A", shape=("modes",))
row("core.pilotbased_receiver.equalize_pilot_sequence", "[0]", prec="S", ndim=3)
row("core.pilotbased_receiver.equalize_pilot_sequence", "[1]", shape=("modes", 1))
row("core.pilotbased_receiver.frame_sync", "[0]", shape=("modes",))
row("core.pilotbased_receiver.frame_sync", "[1]", shape=("modes", 1))
row("core.pilotbased_receiver.frame_sync", "[2]", shape=("modes",))
row("core.pilotbased_receiver.frame_sync", "[3]", prec="S", ndim=3)
row("core.pilotbased_receiver.pilot_based_foe", "[1]", ndim=2)
row("core.pilotbased_receiver.pilot_based_foe", "[2]", ndim=2)
row("core.pilotbased_receiver.shift_signal", deg=1, chg=1, mx="A", prec="S", shape=E2)
# ----------------------------------------------------------------- kernels
row("core.pythran_dsp.bps", prec="I", shape=("L",))
row("core.pythran_dsp.cal_lut_avg", deg=1, ndim=1)
row("core.pythran_dsp.select_angles", deg=0, chg=0, prec="S", shape=("L",))
row("core.pythran_dsp.soft_l_value_demapper", shape=("L", None))
row("core.pythran_dsp.soft_l_value_demapper_minmax", shape=("L", None))
row("core.resample.resample_poly", deg=1, prec="S", ndim=1)
row("core.resample.rrcos_resample", deg=1, chg=1, ndim=1)
row("core.segmentaxis.segment_axis", deg=1, chg=1, prec="S")
row("core.signal_quality.generate_bitmapping_mtx", shape=(None, None, 2))
row("core.signal_quality.make_decision", "[0]", prec="S", shape=("L",))
row("core.signal_quality.make_decision", "[1]", prec="S", shape=("L",))
row("core.signal_quality.make_decision", "[2]", prec="I", shape=("L",))
# ----------------------------------------------------------------- helpers
row("helpers.cabssquared", deg=2, chg=0, mx="A", prec="S", shape=E2)
row("helpers.dB2lin", shape=("nsnr",), scale=("lin", Fr(1)))
row("helpers.lin2dB", shape=("n",), scale=("dB", Fr(1)))
row("helpers.dump_edges", deg=1, chg=1, mx="A", prec="S", shape=("modes", None))
row("helpers.get_center_shift_fac", deg=1, mx="A", prec="S", shape=("modes", 1))
row("helpers.normalise_and_center", deg=0, mx="A", prec="S", shape=E2)
row("helpers.normalise_and_center_pil", deg=0, mx="A", prec="S", shape=E2)
row("helpers.rescale_signal", deg=0, mx="A", shape=E2)
row("helpers.set_mid_and_resale", deg=0, shape=E2)
row("helpers.set_mid_point", deg=1, prec="S", shape=("L",))
# ----------------------------------------------------------------- signals
B = "signals.SignalBase."
row(B + "recreate_from_np_array", deg=1, chg=1, mx="A", prec="S", shape=E2)
row(B + "resample", deg=1, chg=1, mx="A", prec="S", ndim=2)
for f in ("cal_ser", "cal_ber"):
    row(B + f, mx="A")
    row(B + f, "[0]", mx="A")
row(B + "cal_evm", mx="A", shape=("modes",))
row(B + "cal_mi", mx="A", shape=("modes",))
row(B + "cal_gmi", "[0]", mx="A", shape=("modes",))
row(B + "cal_gmi", "[1]", mx="A", shape=("modes", None))
row(B + "est_snr", deg=0, chg=0, mx="A", shape=("modes",))
row(B + "est_snr", "[0]", deg=0, chg=0, mx="A", shape=("modes",))
row(B + "est_snr", "[1]", deg=2, chg=0, mx="A", shape=("modes",))
row(B + "est_snr", "[2]", deg=2, chg=0, mx="A", shape=("modes",))
Q = "signals.SignalQAMGrayCoded."
row(Q + "demodulate", mx="A", prec="B", shape=("modes", None))
row(Q + "modulate", deg=0, chg=0, mx="A", prec="S", shape=("modes", None))
row(Q + "make_decision", mx="A", prec="S", shape=E2)
row(Q + "make_decision", "[0]", mx="A", prec="S", shape=E2)
row(Q + "make_decision", "[1]", mx="A", prec="S", shape=E2)
row(Q + "make_decision", "[2]", mx="A", shape=E2)
row(Q + "from_symbol_array", prec="S", shape=("modes", "Ltx"))
row(Q + "from_bit_array", prec="S", shape=("modes", None))
row(Q + "__new__", prec="S", ndim=2)
row("signals.SymbolOnlySignal.make_decision", mx="A", prec="S", shape=E2)
row("signals.SymbolOnlySignal.from_symbol_array", shape=("modes", "Ltx"))
row("signals.RandomBits.__new__", prec="B", ndim=2)
row("signals.PRBSBits.__new__", prec="B", shape=(2, None))
row("signals.TDHQAMSymbols.from_symbol_arrays", deg=1, chg=1, mx="A", prec="S", shape=("modes", None))
row("signals.ResampledQAM.from_symbol_array", deg=1, chg=1, mx="A", prec="S", ndim=2)
W = "signals.SignalWithPilots."
row(W + "__new__", prec="S", ndim=2)
row(W + "from_symbol_array", prec="S", shape=("modes", None))
row(W + "recreate_from_np_array", deg=1, chg=1, mx="A", prec="S", shape=E2)
row(W + "get_data", deg=1, chg=1, mx="A", prec="S", shape=("modes", None))
row(W + "extract_pilots", deg=1, chg=1, mx="A", prec="S", shape=("modes", None))
row(W + "est_snr", deg=0, chg=0, mx="A", shape=("modes",))
for f in ("cal_ser", "cal_ber"):
    row(W + f, mx="A", ndim=1)
row(W + "cal_evm", mx="A", ndim=1)
row(W + "cal_gmi", "[0]", mx="A", shape=("modes",))
row(W + "cal_gmi", "[1]", mx="A", shape=("modes", None))
row(B + "est_snr", scale=("lin", Fr(1)))
row(B + "est_snr", "[0]", scale=("lin", Fr(1)))
row(W + "est_snr", scale=("lin", Fr(1)))
row("core.signal_quality.cal_snr_blind_qpsk", scale=("dB", Fr(1)))
row("signals.TDHQAMSymbols.calculate_power_ratio", scale=("lin", Fr(1)))
row("core.impairments.add_carrier_offset", unit=())
row("core.phaserecovery.find_freq_offset", unit=U(samp=1, sym=-1))
row("phaserec.find_freq_offset", unit=U(samp=1, sym=-1))
row("core.pilotbased_receiver.frame_sync", "[0]", unit=U(samp=1, sym=-1))
row("core.special_fcts.rcos_freq", unit=U(s=1, sym=-1))
row("core.special_fcts.rrcos_freq", unit=U(s=Fr(1, 2), sym=Fr(-1, 2)))
row("core.impairments.phase_noise", unit=U(samp=Fr(-1, 2)))


def pos(path):
    return path.replace("result", "", 1)


# Operations that accept one polarisation as a one-dimensional array and give that dimension back
ONE = {"qampy." + n: q for n, q in {
    "core.filter.filter_signal": {"": ("L",)},
    "core.filter.moving_average": {"": (None,)},
    "core.filter.rrcos_pulseshaping": {"": ("L",)},
    "core.impairments.add_carrier_offset": {"": ("L",)},
    "core.phaserecovery.bps": {"[0]": ("L",), "[1]": ("L",)},
    "core.phaserecovery.bps_twostage": {"[0]": ("L",), "[1]": ("L",)},
    "core.phaserecovery.comp_freq_offset": {"": ("L",)},
    "core.phaserecovery.phase_partition_16qam": {"[0]": ("L",), "[1]": ("L",)},
    "core.phaserecovery.viterbiviterbi": {"[0]": ("L",), "[1]": ("L",)},
    "helpers.dump_edges": {"": (None,)},
    "helpers.get_center_shift_fac": {"": ()},
    "helpers.normalise_and_center": {"": ("L",)},
    "helpers.normalise_and_center_pil": {"": ("L",)},
    "helpers.set_mid_point": {"": ("L",)},
}.items()}


def facts(runs, col):
    """(run, position, facets, requirement) of every numeric result position whose row states `col`"""
    for r in runs:
        rows = ROWS.get(r.root)
        if not rows:
            continue
        for path, s in r.result.walk():
            if s.f is None or s.k in ("tuple", "union", "list", "const"):
                continue
            q = rows.get(pos(path))
            if q is None or col not in q:
                continue
            yield r, path, s.f, q[col]


def decide(ctx, cols, judge, decided, rule, opts, minimum, skip=None):
    """Analyse every entry point with a stated column and judge each result position.
    judge(facets, column, want) -> what is definitely wrong, or None
    decided(facets, column, want) -> the required value was established
    Configurations left open at a join are analysed again with each undecided branch taken one way and the other."""
    from .checks.common import runs, short, AnalysisBroken
    from .roots import R
    from .engine import resplit
    roots = {n: R[n] for n in ROWS if any(c in q for q in ROWS[n].values() for c in cols)}
    rs = runs(ctx, keep=set(), roots=roots, opts=opts)
    ok, open_ = 0, {}

    def report(r, p, w):
        ctx.bad("%s|%s|%s" % (rule, short(r.root), p), "%s: %s %s" % (r.name(), p, w), short(r.root))
    for col in cols:
        for r, p, f, q in facts(rs, col):
            if skip is not None and skip(r, f):
                continue
            ctx.ob()
            w = judge(f, col, q)
            if w:
                report(r, p, w)
            elif decided(f, col, q):
                ok += 1
                ctx.sample("%s %s: %s = %s" % (r.name(), p, col, q if not isinstance(q, Fr) else str(q)))
            else:
                open_.setdefault((r.root, r.desc), set()).add(p)
                ctx.undecided("%s %s" % (r.name(), p))
    extra = resplit(rs, roots, lambda r: ctx.tier == "thorough" or (r.root, r.desc) in open_, keep=set(), opts=opts)
    for col in cols:
        for r, p, f, q in facts(extra, col):
            if skip is not None and skip(r, f):
                continue
            w = judge(f, col, q)
            if w:
                report(r, p, w)
    ctx.cov["decided"] = ok
    ctx.cov["runs_with_a_branch_forced"] = len(extra)
    if ok < minimum:
        raise AnalysisBroken("only %d results decided" % ok)
    return rs
