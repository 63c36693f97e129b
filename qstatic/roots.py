"""The public entry points and the arguments they document.

ROOTS maps 'module.function' (below the package) to a list of configurations;
every configuration is a dict parameter -> description.  A parameter that is
not mentioned takes its default."""
from .params import *

E2 = Arr()                                       # complex field, one row per polarisation
E1 = Arr(("L",), mx="C")                         # single polarisation
R2 = Arr(kind="f")                               # real field
SYMS = Arr(("M",), deg=0, chg=0, mx="C")         # constellation points
TX = Arr(("modes", "Ltx"), deg=0, chg=0)         # reference symbols
TX1 = Arr(("Ltx",), deg=0, chg=0, mx="C")
SEQ = Arr(("L",), kind="i", prec="I", deg=0, chg=0, mx="C")
SEQ2 = Arr(("Ltx",), kind="i", prec="I", deg=0, chg=0, mx="C")
TAPS = Arr(("modes", "modes2", "ntaps"), deg=0, chg=0, mx=("A", 0))
RTAPS = Arr(("modes", "modes2", "ntaps"), "f", deg=0, chg=0, mx=("A", 0))
SNRDB = Num((), scale="dB")
SNRDB_A = Arr(("nsnr",), "f", "D", deg=0, chg=0, mx="C", scale="dB")
INT = Num((), "i")
NUM = Num(())
RATE = Num(SAMP_RATE)
FB = Num(SYM_RATE)
OSR = Num(OS)
FREQ = Num(HZ)
SECS = Num(SEC)
TSYM = Num(SYM_PERIOD)
MET = Num(METRE)
DISP = Num(U(s=1, m=-2))
STR = P.__new__(StrOther)
STR.known, STR.desc = (), "string"
SIG = QAM()
PSIG = PilotSig()
PSIG0 = PilotSig(synced=False)
NONE_ = K(None)
MODES = Lst(K(0), K(1))
FRAMES = Lst(INT, many=True)

EQ_NONDEC = ["cma", "cma2", "sgncma", "mcma", "rde", "mrde"]
EQ_DEC = ["sbd", "mddma", "dd"]
EQ_REAL = ["cma_real", "dd_real", "dd_data_real", "sgncma_real"]
EQ_DATA = ["sbd_data", "dd_data_real"]
EQ_ALL = EQ_NONDEC + EQ_DEC + ["sbd_data"] + EQ_REAL

R = {}


def root(name, *cfgs, **base):
    """configurations: base merged with each of cfgs (or base alone)"""
    out = []
    for c in (cfgs or ({},)):
        d = dict(base)
        d.update(c)
        out.append(d)
    R["qampy." + name] = out


def opts(**kw):
    """one configuration per value of one option"""
    (k, vals), = kw.items()
    return [{k: (v if isinstance(v, P) else K(v))} for v in vals]


# --------------------------------------------------------------- core.analog_frontend
root("core.analog_frontend.comp_IQ_inbalance", signal=Arr(("L",), mx="C"))
root("core.analog_frontend.comp_rf_delay", signal=R2, delay=SECS, sampling_rate=RATE)
root("core.analog_frontend.orthonormalize_signal", E=E2, os=Num(OS, "i"))
# --------------------------------------------------------------- core.ber_functions
root("core.ber_functions.find_sequence_offset", {}, {"show_cc": K(True)}, x=SEQ, y=SEQ2)
root("core.ber_functions.find_sequence_offset_complex", x=Arr(("L",), mx="C"), y=TX1)
root("core.ber_functions.sync_and_adjust", *opts(adjust=["tx", "rx"]), data_tx=TX1, data_rx=Arr(("L",), mx="C"))
root("core.ber_functions.sync_rx2tx", data_tx=SEQ2, data_rx=SEQ, Lsync=INT)
root("core.ber_functions.sync_tx2rx", data_tx=SEQ2, data_rx=SEQ, Lsync=INT)
root("core.ber_functions.adjust_data_length", *opts(method=[None, "truncate", "extend"]),
     data_tx=TX1, data_rx=Arr(("L",), mx="C"), offset=INT)
root("core.ber_functions.cal_ber_syncd", data_rx=SEQ, data_tx=SEQ2)
root("core.ber_functions.cal_ber_nosyncd", data_rx=SEQ, data_tx=SEQ2)
# --------------------------------------------------------------- core.digital_pre_compensation
root("core.digital_pre_compensation.clipper", sig=E2, clipping_level=NUM)
root("core.digital_pre_compensation.comp_mod_sin", sig=E2, vpi=NUM)
root("core.digital_pre_compensation.comp_dac_resp", dpe_fb=FB, sim_len=INT, rrc_beta=NUM)
root("core.digital_pre_compensation.find_sym_patterns", {}, {"ret_ptrns": K(True)}, sig=Arr(("L",), mx="C"), ref_sym=SYMS, N=INT)
root("core.digital_pre_compensation.cal_lut", {}, {"real_ptrns": K(False)}, {"idx_data": SEQ}, tx_sig=E1, rx_sig=E1, ref_sym=SYMS, mem_len=INT)
# --------------------------------------------------------------- core.equalisation
root("core.equalisation.equalisation.generate_symbols_for_eq", *opts(method=[m for m in EQ_ALL if m not in EQ_DATA]), M=INT, dtype=DType())
root("core.equalisation.equalisation.apply_filter", *[{"E": e, "method": K(m), **mo} for e, m in ((E2, "pyt"), (E2, "py"))
                                                      for mo in ({}, {"modes": Arr(("nm",), "i", "I", deg=0, chg=0, mx=None)})],
     os=Num(OS, "i"), wxy=TAPS)
root("core.equalisation.equalisation.orthogonalizetaps", wx=TAPS)
root("core.equalisation.equalisation.equalise_signal",
     *([{"method": K(m), "Ntaps": INT} for m in EQ_NONDEC + EQ_DEC + EQ_REAL[:2] + ["sgncma_real"]] +
       [{"method": K(m), "Ntaps": INT, "symbols": TX} for m in ("sbd_data", "dd_data_real", "dd", "sbd", "mddma", "dd_real")] +
       [{"wxy": TAPS}, {"wxy": RTAPS, "method": K("cma_real"), "apply": K(True)}, {"Ntaps": INT, "apply": K(True), "modes": MODES},
        {"Ntaps": INT, "TrSyms": INT, "Niter": INT, "adaptive_stepsize": K(True)}]),
     E=E2, os=Num(OS, "i"), mu=NUM, M=INT)
root("core.equalisation.equalisation.dual_mode_equalisation", {"Ntaps": INT}, {"wxy": TAPS, "apply": K(False)}, {"Ntaps": INT, "symbols": SYMS},
     E=E2, os=Num(OS, "i"), mu=Tup(NUM, NUM), M=INT)
root("core.equalisation.equalisation.CDcomp", {"N": K(0)}, {"N": INT}, E=E1, fs=RATE, L=MET, D=DISP, wl=MET)
root("core.equalisation.pythran_equalisation.apply_filter_to_signal", {}, {"modes": Arr(("nm",), "i", "I", deg=0, chg=0, mx=None)},
     E=E2, os=Num(OS, "i"), wx=TAPS)
root("core.equalisation.pythran_equalisation.train_equaliser", *opts(method=[m for m in EQ_ALL if not m.endswith("_real")]),
     E=E2, TrSyms=INT, Niter=INT, os=Num(OS, "i"), mu=NUM, wx=TAPS, modes=Arr(("nm",), "i", "I", deg=0, chg=0, mx=None), adaptive=Bool(), symbols=Arr(("modes", "M"), deg=0, chg=0))
root("core.equalisation.pythran_equalisation.train_equaliser_realvalued", *opts(method=["cma", "dd", "dd_data", "sgncma"]),
     E=R2, TrSyms=INT, Niter=INT, os=Num(OS, "i"), mu=NUM, wx=Arr(("modes", "modes2", "ntaps"), "f", deg=0, chg=0),
     modes=Arr(("nm",), "i", "I", deg=0, chg=0, mx=None), adaptive=Bool(), symbols=Arr(("modes", "M"), "f", deg=0, chg=0))
root("core.equalisation.pythran_equalisation.make_decision", E=Arr(("L",), mx="C"), symbols=SYMS)
# --------------------------------------------------------------- core.filter
root("core.filter.pre_filter", signal=Arr(("L",), mx="C"), bw=NUM)
root("core.filter.pre_filter_wdm", signal=Arr(("L",), mx="C"), bw=NUM, os=Num(), center_freq=Num())
root("core.filter.filter_signal", *([{"ftype": K(t)} for t in ("bessel", "butter", "gauss", "exp")] +
                                    [{"ftype": K(t), "analog": K(True)} for t in ("bessel", "butter")] +
                                    [{"ftype": K(t), "signal": E1} for t in ("bessel", "butter", "gauss", "exp")]),
     **{"signal": E2, "fs": RATE, "cutoff": FREQ, "order": INT})
root("core.filter.rrcos_pulseshaping", {}, {"taps": K(None)}, {"taps": K(None), "sig": E1}, {"sig": E1}, sig=E2, fs=RATE, T=TSYM, beta=NUM)
root("core.filter.moving_average", {}, {"sig": E1}, sig=E2, N=INT)
# --------------------------------------------------------------- core.impairments
root("core.impairments.H_PMD", theta=NUM, t_dgd=SECS, omega=Arr(("L",), "f", "D", deg=0, chg=0, mx="C", unit=HZ))
root("core.impairments.rotate_field", field=E2, theta=NUM)
root("core.impairments.apply_PMD_to_field", field=E2, theta=NUM, t_dgd=SECS, fs=RATE)
root("core.impairments.phase_noise", sz=Tup(INT, INT), df=FREQ, fs=RATE)
root("core.impairments.apply_phase_noise", signal=E2, df=FREQ, fs=RATE)
root("core.impairments.add_awgn", sig=E2, strgth=Num(None, deg=1))
root("core.impairments.change_snr", sig=E2, snr=SNRDB, fb=FB, fs=RATE)
root("core.impairments.add_carrier_offset", {}, {"sig": E1}, sig=E2, fo=FREQ, fs=RATE)
root("core.impairments.add_modal_delay", sig=E2, delay=Arr(("modes",), "i", "I", deg=0, chg=0))
root("core.impairments.simulate_transmission", {}, {"snr": SNRDB}, {"freq_off": FREQ}, {"lwdth": FREQ}, {"dgd": SECS},
     {"modal_delay": Arr(("modes",), "i", "I", deg=0, chg=0)}, {"sig": PSIG, "roll_frame_sync": K(True)},
     {"snr": SNRDB, "freq_off": FREQ, "lwdth": FREQ, "dgd": SECS}, sig=E2, fb=FB, fs=RATE)
root("core.impairments.quantize_signal", {}, {"rescale": K(False)}, {"re_normalize": K(False)}, {"sig": R2}, {"sig": SIG}, sig=E2, nbits=INT)
root("core.impairments.quantize_signal_New", {}, {"rescale_in": K(False)}, {"rescale_out": K(False)}, sig_in=SIG, nbits=INT)
root("core.impairments.modulator_response", rfsig=E2, dcbias=Num((), "c"), gfactr=Num((), "c"), cfactr=Num((), "c"), dcbias_out=NUM, gfactr_out=NUM)
root("core.impairments.er_to_g", ext_rat=SNRDB)
root("core.impairments.sim_DAC_response", {}, {"cutoff": FREQ}, {"quant_bits": K(6)}, {"clip_rat": NUM}, {"enob": K(0)}, sig=SIG, fs=RATE)
root("core.impairments.apply_DAC_filter", {}, {"fn": STR}, sig=E2, fs=RATE, cutoff=FREQ)
root("core.impairments.apply_enob_as_awgn", {}, {"verbose": K(True)}, {"sig": R2}, sig=E2, enob=NUM)
root("core.impairments.load_dac_response", fn=STR, fs=RATE, N=INT)
root("core.impairments.sim_tx_response", {}, {"clip_rat": NUM, "quant_bits": K(6)}, sig=SIG, fs=RATE)
root("core.impairments.ideal_amplifier_response", sig=E2, out_volt=NUM)
root("core.impairments.add_dispersion", sig=E2, fs=RATE, D=DISP, L=MET, wl0=MET)
# --------------------------------------------------------------- core.io
root("core.io.save_signal", fn=STR, signal=SIG)
root("core.io.load_signal", fn=STR)
root("core.io.ndarray_from_matlab", {"keys": Lst(STR)}, {"keys": Lst(Tup(STR, STR), Tup(STR, STR))}, {"keys": Lst(STR), "transpose": K(True), "dim2cmplx": K(True)}, fn=STR)
# --------------------------------------------------------------- core.phaserecovery
root("core.phaserecovery.viterbiviterbi", {"M": K(4)}, {"M": K(4), "E": E1}, {"M": K(8)}, E=E2, N=INT)
root("core.phaserecovery.bps", *([{"method": K(m)} for m in ("pyt", "py")] + [{"E": E1}]), E=E2, Mtestangles=INT, symbols=SYMS, N=INT)
root("core.phaserecovery.bps_twostage", *([{"method": K(m)} for m in ("pyt", "py")] + [{"E": E1}]), E=E2, Mtestangles=INT, symbols=SYMS, N=INT)
root("core.phaserecovery.partition_16qam", E=E1)
root("core.phaserecovery.phase_partition_16qam", {}, {"E": E1}, E=E2, Nblock=INT)
root("core.phaserecovery.find_freq_offset", {}, {"average_over_modes": K(False)}, sig=E2, os=OSR)
root("core.phaserecovery.comp_freq_offset", {}, {"sig": E1, "freq_offset": Arr((1,), "f", "D", deg=0, chg=0, mx="C")},
     sig=E2, freq_offset=Arr(("modes",), "f", "D", deg=0, chg=0, unit=None), os=OSR)
# --------------------------------------------------------------- core.pilotbased_receiver
root("core.pilotbased_receiver.pilot_based_foe", rec_symbs=Arr(("L",), mx="C"), pilot_symbs=TX1)
root("core.pilotbased_receiver.pilot_based_cpe", {}, {"num_average": INT, "use_pilot_ratio": INT, "max_num_blocks": INT}, {"remove_phase_pilots": K(False)},
     rec_symbs=E2, pilot_symbs=TX, pilot_ins_ratio=INT)
root("core.pilotbased_receiver.pilot_based_cpe_new", {}, {"max_num_blocks": INT, "nframes": INT, "use_pilot_ratio": INT}, {"seq_len": INT},
     signal=E2, pilot_symbs=TX, pilot_idx=Arr(("np",), "i", "I", deg=0, chg=0, mx="C"), frame_len=INT, num_average=INT)
root("core.pilotbased_receiver.frame_sync", {}, {"method": K("mcma")}, rx_signal=E2, ref_symbs=TX, os=Num(OS, "i"), frame_len=INT, M_pilot=INT, mu=NUM, Ntaps=INT)
root("core.pilotbased_receiver.correct_shifts", shift_factors=Arr(("modes",), "i", "I", deg=0, chg=0), ntaps=Tup(INT, INT), os=Num(OS, "i"))
root("core.pilotbased_receiver.shift_signal", sig=E2, shift_factors=Arr(("modes",), "i", "I", deg=0, chg=0))
root("core.pilotbased_receiver.equalize_pilot_sequence", {}, {"foe_comp": K(True)}, {"wxinit": TAPS}, {"methods": Tup(K("cma_real"), K("dd_real"))},
     rx_signal=E2, ref_symbs=TX, shift_fctrs=Arr(("modes",), "i", "I", deg=0, chg=0), os=Num(OS, "i"), Ntaps=INT)
# --------------------------------------------------------------- core.pilotbased_transmitter
root("core.pilotbased_transmitter.gen_dataframe_with_phasepilots", {}, {"PRBS": K(True)}, M=INT, npols=INT)
root("core.pilotbased_transmitter.gen_dataframe_without_phasepilots", {}, {"PRBS": K(True)}, M=INT, npols=INT)
root("core.pilotbased_transmitter.gen_dataframe_with_phasepilots_hybridmodulation")
root("core.pilotbased_transmitter.sim_tx", {}, {"snr": SNRDB, "freqoff": FREQ, "linewidth": FREQ, "rot_angle": NUM, "resBits_tx": INT, "resBits_rx": INT}, frame=E2, os=OSR, symb_rate=FB)
# --------------------------------------------------------------- core.prbs / utils / segmentaxis / special
root("core.prbs.make_prbs_extXOR", {"seed": K(None)}, {"seed": Arr(("order",), "i", "I", deg=0, chg=0, mx="C")}, order=K(15), nbits=INT)
root("core.prbs.make_prbs_intXOR", {"seed": K(None)}, {"seed": Arr(("order",), "i", "I", deg=0, chg=0, mx="C")}, order=K(15), nbits=INT)
root("core.resample.resample_poly", {}, {"renormalise": K(True)}, {"window": Arr(("w",), "f", "D", deg=0, chg=0, mx="C")}, signal=E1, fold=RATE, fnew=RATE)
root("core.resample.rrcos_resample", {"beta": K(None)}, {"beta": NUM}, {"beta": NUM, "Ts": TSYM, "fftconv": K(False)}, {"beta": NUM, "taps": K(None), "Ts": TSYM}, {"beta": NUM, "renormalise": K(True)},
     signal=E1, fold=RATE, fnew=RATE)
root("core.segmentaxis.segment_axis", *([{"end": K(x)} for x in ("cut", "pad", "wrap")] + [{"axis": K(0), "a": E2}]), a=E1, length=INT, overlap=INT)
for _f in ("rcos_time", "rrcos_time"):
    root("core.special_fcts." + _f, t=Arr(("L",), "f", "D", deg=0, chg=0, mx="C", unit=SEC), beta=NUM, T=TSYM)
for _f in ("rcos_freq", "rrcos_freq"):
    root("core.special_fcts." + _f, f=Arr(("L",), "f", "D", deg=0, chg=0, mx="C", unit=HZ), beta=NUM, T=TSYM)
for _f in ("gauss", "supergauss", "sech", "ttanh"):
    root("core.special_fcts." + _f, x=Arr(("L",), "f", "D", deg=0, chg=0, mx="C"), A=NUM, x0=NUM, w=NUM, **({"o": NUM} if _f == "supergauss" else {}))
root("core.special_fcts.q_function", x=Arr(("L",), "f", "D", deg=0, chg=0, mx="C"))
root("core.utils.factorial", n=INT)
root("core.utils.linspacestep", start=NUM, step=NUM, N=INT)
root("core.utils.bool2bin", x=Arr(("L",), "i", "I", deg=0, chg=0, mx="C"))
root("core.utils.bin2gray", value=INT)
root("core.utils.rolling_window", {}, {"wrap": K(True)}, data=Arr(("L",), mx="C"), size=INT)
root("core.utils.find_offset", sequence=SEQ, data=SEQ2)
root("core.utils.convert_iqtosinglebitstream", idat=SEQ, qdat=SEQ2, nbits=INT)
root("core.utils.lfsr_int", seed=INT, mask=INT)
root("core.utils.lfsr_ext", seed=INT, taps=Lst(INT, many=True), nbits=INT)
# --------------------------------------------------------------- core.signal_quality
root("core.signal_quality.make_decision", {}, {"method": K("pyt")}, signal=E1, symbols=SYMS)
root("core.signal_quality.norm_to_s0", sig=E2, M=INT)
root("core.signal_quality.cal_evm", {"sig": E2, "known": TX}, {"sig": E2}, M=INT)
root("core.signal_quality.cal_snr_qam", E=E1, M=INT)
root("core.signal_quality.cal_s0", E=E1, M=INT)
root("core.signal_quality.cal_snr_blind_qpsk", E=E1)
root("core.signal_quality.cal_ser_qam", data_rx=E1, symbol_tx=TX1, M=INT)
root("core.signal_quality.generate_bitmapping_mtx", coded_symbs=SYMS, coded_bits=Arr(("M", "nb"), "b", "B", deg=0, chg=0, mx="C"), M=INT)
root("core.signal_quality.cal_mi", {}, {"fast": K(False)}, signal=E1, symbols_tx=TX1, alphabet=SYMS, N0=NUM)
# --------------------------------------------------------------- core.pythran_dsp kernels
root("core.pythran_dsp.select_angles", angles=Arr((1, "nang"), "f", deg=0, chg=0, mx="C"), idx=Arr(("L",), "i", "I", deg=0, chg=0, mx="C"))
root("core.pythran_dsp.bps", E=E1, testangles=Arr((1, "nang"), "f", deg=0, chg=0, mx="C"), symbols=SYMS, N=INT)
root("core.pythran_dsp.soft_l_value_demapper", rx_symbs=E1, num_bits=INT, snr=Num(()), bits_map=Arr(("nb", "h", 2), deg=0, chg=0, mx="C"))
root("core.pythran_dsp.soft_l_value_demapper_minmax", rx_symbs=E1, num_bits=INT, snr=Num(()), bits_map=Arr(("nb", "h", 2), deg=0, chg=0, mx="C"))
root("core.pythran_dsp.prbs_ext", seed=Arr(("o",), "i", "I", deg=0, chg=0, mx="C"), taps=Arr(("t",), "i", "I", deg=0, chg=0, mx="C"), nbits=INT, N=INT)
root("core.pythran_dsp.prbs_int", seed=INT, mask=INT, nbits=INT, N=INT)
root("core.pythran_dsp.cal_gmi_mc", symbols=SYMS, snr=Arr(("nsnr",), "f", "D", deg=0, chg=0, mx="C", scale="lin"), ns=INT, bit_map=Arr(("nb", "h", 2), deg=0, chg=0, mx="C"))
root("core.pythran_dsp.cal_lut_avg", err=E1, idx_I=SEQ, idx_Q=SEQ, N=INT)
root("core.pythran_dsp.estimate_snr", signal_rx=E1, symbols_tx=TX1, gray_symbols=SYMS)
root("core.pythran_dsp.cal_mi_mc", noise=E1, symbols=SYMS, N0=NUM)
root("core.pythran_dsp.cal_mi_mc_fast", sig=E1, sig_tx=TX1, symbols=SYMS, N0=NUM)
# --------------------------------------------------------------- theory, helpers
for _f in ("ser_vs_es_over_n0_qam", "ber_vs_es_over_n0_qam", "ser_vs_es_over_n0_psk"):
    root("theory." + _f, snr=Arr(("n",), "f", "D", deg=0, chg=0, mx="C", scale="lin"), M=INT)
root("theory.ser_vs_es_over_n0_4pam", snr=Arr(("n",), "f", "D", deg=0, chg=0, mx="C", scale="lin"))
root("theory.ber_vs_evm_qam", evm_dB=SNRDB_A, M=INT)
for _f in ("cal_symbols_qam", "cal_symbols_psk", "cal_scaling_factor_qam", "gray_code_qam", "cal_symbols_square_qam", "cal_symbols_cross_qam"):
    root("theory." + _f, M=INT)
root("theory.cal_ps_probablts", symbols=SYMS, nu=NUM)
root("theory.generate_ps_symbols", {}, {"normalize": K(False)}, N=INT, symbs=SYMS, px=Arr(("M",), "f", "D", deg=0, chg=0, mx="C"))
root("theory.hybrid_qam_ber_vs_esn0", snr=Arr(("n",), "f", "D", deg=0, chg=0, mx="C", scale="dB"), pr=NUM, fr=NUM, M1=INT, M2=INT)
root("theory.cal_gmi", M=INT, snr=SNRDB_A)
root("theory.sim_mi_mc", symbols=SYMS, snr=SNRDB_A, N=INT)
root("helpers.cabssquared", x=E2)
root("helpers.dB2lin", x=SNRDB_A)
root("helpers.lin2dB", x=Arr(("n",), "f", "D", deg=0, chg=0, mx="C", scale="lin"))
root("helpers.normalise_and_center", {}, {"E": E1}, E=E2)
root("helpers.normalise_and_center_pil", {}, {"sig": E1}, sig=E2, idx_pil=Arr(("L",), "b", "B", deg=0, chg=0, mx="C"))
root("helpers.dump_edges", {}, {"E": E1}, E=E2, N=INT)
root("helpers.set_mid_point", {}, {"E": Arr(("L",), "f", mx="C")}, E=E1, mid_pos=Num((), deg=1))
root("helpers.rescale_signal", {}, {"E": R2}, E=E2, swing=NUM)
root("helpers.set_mid_and_resale", {}, {"E": R2}, E=E2)
root("helpers.get_center_shift_fac", {}, {"E": E1}, E=E2)
root("helpers.find_pilot_idx")
# --------------------------------------------------------------- signal-object level API
root("analog_frontend.comp_rf_delay", signal=SIG, delay=SECS)
root("analog_frontend.orthonormalize_signal", signal=SIG)
EQW = [{"method": K(m), "Ntaps": INT} for m in EQ_NONDEC + EQ_DEC + ["sbd_data"] + EQ_REAL]
root("equalisation.apply_filter", {}, {"sig": PSIG}, {"sig": PSIG, "frames": FRAMES}, {"method": K("py")}, {"sig": PSIG, "frames": K(None)}, sig=SIG, wxy=TAPS)
root("equalisation.equalise_signal", *(EQW + [{"wxy": TAPS, "apply": K(True)}, {"Ntaps": INT, "apply": K(True), "modes": MODES}, {"Ntaps": INT, "symbols": TX, "method": K("sbd")},
                                            {"Ntaps": INT, "apply": K(True), "method": K("cma_real")}]), sig=SIG, mu=NUM)
root("equalisation.dual_mode_equalisation", {}, {"apply": K(False)}, {"symbols": SYMS}, {"modes": MODES},
     sig=SIG, mu=Tup(NUM, NUM), Ntaps=INT)
root("equalisation.pilot_equaliser", {}, {"verbose": K(True)}, {"apply": K(False)}, {"apply": K(False), "verbose": K(True)}, {"foe_comp": K(False)}, {"wxinit": TAPS}, {"frame": INT},
     signal=PSIG, mu=NUM, Ntaps=INT)
root("equalisation.pilot_equaliser_nframes", {}, {"frames": K(None)}, {"apply": K(False)}, {"wxinit": TAPS}, {"foe_comp": K(False)}, signal=PSIG, mu=NUM, Ntaps=INT)
root("filtering.filter_signal", *[{"ftype": K(t)} for t in ("bessel", "butter", "gauss", "exp")], signal=SIG, cutoff=FREQ)
root("filtering.filter_signal_analog", signal=SIG, cutoff=FREQ)
root("filtering.pre_filter", signal=SIG, bw=NUM)
root("filtering.rrcos_pulseshaping", {}, {"T": TSYM}, {"taps": K(None)}, sig=SIG, beta=NUM)
root("impairments.apply_PMD", {}, {"field": PSIG}, field=SIG, theta=NUM, t_dgd=SECS)
root("impairments.apply_phase_noise", {}, {"signal": PSIG}, signal=SIG, df=FREQ)
root("impairments.change_snr", {}, {"sig": PSIG}, sig=SIG, snr=SNRDB)
root("impairments.add_carrier_offset", {}, {"sig": PSIG}, sig=SIG, fo=FREQ)
root("impairments.add_dispersion", {}, {"sig": PSIG}, sig=SIG, D=DISP, L=MET, wl0=MET)
root("impairments.simulate_transmission", {}, {"snr": SNRDB}, {"freq_off": FREQ}, {"lwdth": FREQ}, {"dgd": SECS},
     {"modal_delay": Arr(("modes",), "i", "I", deg=0, chg=0)}, {"sig": PSIG, "roll_frame_sync": K(True)}, {"dispersion": Num(U(s=1, m=-1))},
     {"snr": SNRDB, "freq_off": FREQ, "lwdth": FREQ, "dgd": SECS}, sig=SIG)
root("impairments.sim_tx_response", {}, {"clip_rat": NUM, "quant_bits": K(6)}, sig=SIG)
root("impairments.sim_DAC_response", {}, {"cutoff": FREQ}, {"quant_bits": K(6), "clip_rat": NUM}, sig=SIG)
root("impairments.sim_mod_response", sig=SIG, dcbias=Num((), "c"), gfactr=Num((), "c"), cfactr=Num((), "c"), dcbias_out=NUM, gfactr_out=NUM)
root("io.load_symbols_from_matlab_file", {}, {"fake_polmux": K(True)}, {"normalise": K(False)}, fn=STR, M=INT, keys=Lst(STR), fb=FB)
root("io.create_signal_from_matlab", symbols=SIG, fn=STR, fs=RATE, keys=Lst(STR))
root("phaserec.bps_twostage", {}, {"method": K("py")}, E=SIG, Mtestangles=INT, N=INT)
root("phaserec.bps", {}, {"method": K("py")}, E=SIG, Mtestangles=INT, N=INT)
root("phaserec.find_freq_offset", {}, {"average_over_modes": K(True)}, sig=SIG)
root("phaserec.comp_freq_offset", {}, {"sig": PSIG}, sig=SIG, freq_offset=Arr(("modes",), "f", "D", deg=0, chg=0, unit=None))
root("phaserec.viterbiviterbi", E=SIG, N=INT)
root("phaserec.pilot_cpe", {}, {"use_seq": K(True)}, {"max_blocks": INT, "nframes": INT}, signal=PSIG)
root("phaserec.find_pilot_const_phase", rec_pilots=E2, ref_pilots=TX)
root("phaserec.correct_pilot_const_phase", signal=PSIG, phase_offsets=Arr(("modes", 1), "f", "D", deg=0, chg=("ang", Fr(1))))
# --------------------------------------------------------------- signal classes
RX = SIG
_B = "signals.SignalBase."
root(_B + "recreate_from_np_array", {}, {"fs": FB}, {"self": PSIG}, {"self": PSIG, "fs": FB}, self=SIG, arr=E2)
root(_B + "resample", {"beta": NUM}, {"beta": K(None)}, {"self": PSIG, "beta": NUM}, self=SIG, fnew=RATE)
for _f in ("cal_ser", "cal_ber"):
    root(_B + _f, {}, {"signal_rx": SIG}, {"synced": K(True)}, {"verbose": K(True)}, self=SIG)
root(_B + "cal_evm", {}, {"signal_rx": SIG}, {"synced": K(True)}, {"blind": K(True)}, self=SIG)
root(_B + "est_snr", {}, {"signal_rx": SIG}, {"synced": K(True)}, {"symbols_tx": TX}, {"verbose": K(True)}, self=SIG)
root(_B + "cal_gmi", {}, {"signal_rx": SIG}, {"synced": K(True)}, {"snr": Arr(("modes",), "f", "D", deg=0, chg=0, scale="dB")}, {"llr_minmax": K(True)}, self=SIG)
root(_B + "cal_mi", {}, {"signal_rx": SIG}, {"synced": K(True)}, {"snr": Arr(("modes",), "f", "D", deg=0, chg=0, scale="dB")}, {"fast": K(False)}, self=SIG)
root(_B + "normalize_and_center", {}, {"symbol_based": K(True)}, {"symbol_based": K(True), "synced": K(True)}, self=SIG)
root(_B + "save_to_file", self=SIG, fn=STR)
root("signals.RandomBits.__new__", {}, {"seed": INT}, cls=Cls("qampy.signals.RandomBits"), N=INT, nmodes=INT)
root("signals.PRBSBits.__new__", {}, {"seed": Lst(INT, INT), "order": Lst(K(15), K(23))}, cls=Cls("qampy.signals.PRBSBits"), N=INT, nmodes=K(2))
root("signals.SignalQAMGrayCoded.__new__", {}, {"bitclass": Cls("qampy.signals.PRBSBits"), "nmodes": K(2)}, {"seed": INT}, cls=Cls("qampy.signals.SignalQAMGrayCoded"), M=INT, N=INT, nmodes=INT, fb=FB, dtype=DType())
root("signals.SignalQAMGrayCoded.from_symbol_array", {}, {"M": INT}, {"dtype": DType()}, cls=Cls("qampy.signals.SignalQAMGrayCoded"), symbs=TX, fb=FB)
root("signals.SignalQAMGrayCoded.from_bit_array", cls=Cls("qampy.signals.SignalQAMGrayCoded"), bits=Arr(("modes", "Nb"), "b", "B", deg=0, chg=0), M=INT, fb=FB, dtype=DType())
root("signals.SignalQAMGrayCoded.make_decision", {}, {"signal": SIG}, {"verbose": K(True)}, self=SIG)
root("signals.SignalQAMGrayCoded.modulate", self=SIG, data=Arr(("modes", "Nb"), "b", "B", deg=0, chg=0))
root("signals.SignalQAMGrayCoded.demodulate", self=SIG, symbols=E2)
PSK = Sig("qampy.signals.SignalPSKGrayCoded", M=Num((), "i"), N=Num((), "i"), nmodes=Num((), "i"), fb=Num(SYM_RATE), dtype=DType())
root("signals.QPSKfromBERT.__new__", {}, cls=Cls("qampy.signals.QPSKfromBERT"), N=INT, nmodes=K(2), fb=FB)
SYO = Sig("qampy.signals.SymbolOnlySignal", M=Num((), "i"), N=Num((), "i"), symbols=Arr(("M",), deg=0, chg=0, mx="C"), nmodes=Num((), "i"), fb=Num(SYM_RATE))
root("signals.SymbolOnlySignal.__new__", cls=Cls("qampy.signals.SymbolOnlySignal"), M=INT, N=INT, symbols=SYMS, nmodes=INT, fb=FB)
root("signals.SymbolOnlySignal.from_symbol_array", {}, {"coded_symbols": SYMS}, cls=Cls("qampy.signals.SymbolOnlySignal"), symbs=TX, fb=FB)
root("signals.SymbolOnlySignal.make_decision", {}, {"signal": E2}, self=SYO)
root("signals.ResampledQAM.__new__", cls=Cls("qampy.signals.ResampledQAM"), M=INT, N=INT, fb=FB, fs=RATE)
root("signals.ResampledQAM.from_symbol_array", cls=Cls("qampy.signals.ResampledQAM"), array=SIG, fs=RATE)
root("signals.TDHQAMSymbols.__new__", cls=Cls("qampy.signals.TDHQAMSymbols"), M=Tup(INT, INT), N=INT, fr=NUM, nmodes=INT, fb=FB)
root("signals.TDHQAMSymbols.from_symbol_arrays", cls=Cls("qampy.signals.TDHQAMSymbols"), syms_M1=SIG, syms_M2=SIG, fr=NUM)
root("signals.SignalWithPilots.__new__", {}, {"repeat_data": K(False)}, {"repeat_pilots": K(False)}, {"pilot_scale": NUM},
     cls=Cls("qampy.signals.SignalWithPilots"), M=INT, frame_len=INT, pilot_seq_len=INT, pilot_ins_rat=INT, nframes=INT, Mpilots=INT, nmodes=INT, dtype=DType(), fb=FB)
root("signals.SignalWithPilots.from_symbol_array", {}, {"payload_kwargs": Dct(M=INT)}, {"payload": TX, "M": INT, "payload_kwargs": Dct(dtype=DType())}, {"payload": TX, "M": INT}, {"pilots": TX}, {"payload_is_frame": K(True)}, {"payload_is_frame": K(True), "pilot_idx": Arr(("np",), "i", "I", deg=0, chg=0, mx="C")},
     cls=Cls("qampy.signals.SignalWithPilots"), payload=SIG, frame_len=INT, pilot_seq_len=INT, pilot_ins_rat=INT, nframes=INT, fb=FB)
_W = "signals.SignalWithPilots."
root(_W + "sync2frame", {}, {"returntaps": K(True)}, self=PSIG0)
root(_W + "corr_foe", {}, {"additional_foe": NUM}, self=PilotSig(extra={"_foe": Arr(("modes",), "f", "D", deg=0, chg=0, unit=None)}))
root(_W + "get_data", {}, {"frames": FRAMES}, self=PSIG)
root(_W + "extract_pilots", {}, {"frames": FRAMES}, self=PSIG)
for _f in ("cal_ser", "cal_ber", "cal_evm", "cal_gmi", "est_snr"):
    root(_W + _f, {}, {"frames": FRAMES}, {"signal_rx": PSIG}, self=PSIG)
R["qampy." + _W + "cal_gmi"].append({"self": PSIG, "use_pilot_snr": K(True)})
R["qampy." + _W + "cal_gmi"].append({"self": PSIG, "snr": Arr(("modes",), "f", "D", deg=0, chg=0, scale="dB")})
R["qampy." + _W + "est_snr"].append({"self": PSIG, "use_pilots": K(True)})
R["qampy." + _W + "cal_evm"].append({"self": PSIG, "blind": K(True)})
root(_W + "recreate_from_np_array", {}, {"fs": FB}, self=PSIG, arr=E2)
