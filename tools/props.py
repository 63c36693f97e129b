SIGF = ["qampy/signals.py"]
PUB = ["qampy/signals.py", "qampy/impairments.py", "qampy/equalisation.py", "qampy/filtering.py", "qampy/phaserec.py", "qampy/core"]
ABS = ("Abstract interpretation of the current source (own interpreter, Python ast only). Trusts the written models of the numpy/scipy functions used and the "
       "entry-point table (documented argument kinds). Only definite evidence is reported; what a model leaves open is counted as undecided in the evidence, "
       "so a change whose effect the domain cannot express passes silently.")

PROPS = [
 dict(id="C01", title="Functions leave the caller's arrays, signals and options unchanged",
      statement="Calling any public function, method or constructor never modifies an array, signal object, list or dictionary the caller passed in, including arrays reachable from its attributes and memory shared through views. The documented exceptions are frame synchronisation, the object's own frequency-offset correction and in-place normalisation of a pilot signal, which change the object they are called on.",
      over=["inputs", "configurations"], quant="every public entry point, every path, every argument shape that numpy lets alias",
      tests="tests use a fresh signal per call and look at results; whether an input array was scribbled on depends on dtype, contiguity and option (no copy is made exactly when the dtype already matches)",
      files=PUB, mech=[("copies before in-place arithmetic", "np.copy/atleast_2d/astype at function entry in qampy/core"), ("recreate_from_np_array", "qampy/signals.py")],
      technique="interprocedural alias/ownership analysis of array buffers", note=ABS),
 dict(id="C02", title="Calls leave no hidden state behind",
      statement="No public function, method or constructor keeps anything from one call to the next: module variables, class attributes, mutable default arguments and cached results are never written, and nothing a caller receives aliases such shared storage. Two identical calls therefore behave identically whatever was called in between, apart from the random number generator.",
      over=["histories", "inputs"], quant="every sequence of public calls",
      tests="leaked state shows only in a particular order of calls; the tests build one signal per test",
      files=PUB, mech=[("objects carry their own attributes", "SignalBase.__array_finalize__, recreate_from_np_array in qampy/signals.py")],
      technique="region/escape analysis for shared mutable state", note=ABS),
 dict(id="C03", title="Randomness is drawn where documented, unseeded, and once per sample",
      statement="Random numbers are drawn only by the operations documented as stochastic, the global generator is never reseeded and no generator gets a fixed seed, and a seed argument really seeds the draw it is documented for. Noise and phase walks are drawn independently for every polarisation and sample, with independent real and imaginary parts for complex noise.",
      over=["inputs", "histories", "configurations"], quant="every call, every number of polarisations and samples, every seed",
      tests="a shared noise realisation or a reseeded generator passes every BER/SNR tolerance test with one realisation",
      files=["qampy/core/impairments.py", "qampy/impairments.py", "qampy/signals.py", "qampy/theory.py"],
      mech=[("add_awgn, phase_noise", "qampy/core/impairments.py"), ("RandomBits", "qampy/signals.py")],
      technique="effect analysis of random draws with symbolic shapes", note=ABS),
 dict(id="C04", title="Signals keep class and metadata through array operations",
      statement="A signal object keeps its class, symbol rate, sampling rate, order, reference symbols, bits, pilots and frame layout through slicing, views, copies, casts, arithmetic, ufuncs, re-creation from an array, resampling and pickling; only the quantities the operation was explicitly told to change differ. Constructors and the from_* constructors store what they were given, and every read accessor returns the quantity of its name.",
      over=["inputs", "histories"], quant="every signal class, every attribute, every sequence of array operations",
      tests="the tests look at a few attributes of one class after one operation; a lost or exchanged attribute shows up operations later as a wrong error rate",
      files=SIGF, mech=[("__array_finalize__, recreate_from_np_array, __reduce__/__setstate__", "qampy/signals.py")],
      technique="attribute-provenance analysis of probe programs over the signal classes", note=ABS),
 dict(id="C05", title="Saved signals come back unchanged",
      statement="Saving a signal of any class to a file (save_signal, save_to_file, with any compression level) and loading it again returns a signal of the same class with the same samples in the same precision and all its metadata (rates, order, symbols, bits, pilots, frame layout, synchronisation state); a file is replaced, not appended to, read completely and closed. The matlab reader puts the real and the imaginary part of the same mode together and a signal created from a matlab file keeps the metadata of its transmitter symbols.",
      over=["inputs", "histories", "configurations"], quant="every signal class, both precisions, every compression level, every sequence of saves",
      tests="the save/load tests compare the samples and a few attributes of one QAM signal saved once with the default level",
      files=["qampy/core/io.py", "qampy/io.py", "qampy/signals.py"], mech=[("save_signal, load_signal", "qampy/core/io.py"), ("__reduce__, __setstate__, save_to_file", "qampy/signals.py")],
      technique="abstract interpretation of probe programs with a layered model of files and byte encodings; attribute provenance", note=ABS),
 dict(id="C06", title="Processing functions return signals of the same class with metadata",
      statement="Every function of the signal-level modules (equalisation, impairments, filtering, phase recovery) that returns the processed field of a signal object returns a signal object of the same class which carries all of the argument's metadata (symbol rate, order, reference symbols, bits, pilots, frame layout). Its sampling rate is the argument's, except that functions which apply equaliser taps return one sample per symbol and say so (fs = fb), and resampling functions return the requested rate.",
      over=["inputs", "configurations"], quant="every signal-level function, every signal class it accepts, every documented option value and path",
      tests="tests call the wrappers with one signal class and look at the samples; a stale sampling rate or a lost attribute surfaces only in a later processing step",
      files=["qampy/equalisation.py", "qampy/impairments.py", "qampy/filtering.py", "qampy/phaserec.py", "qampy/analog_frontend.py", "qampy/core"],
      mech=[("recreate_from_np_array on the result of the core function", "qampy/equalisation.py, qampy/filtering.py, qampy/phaserec.py"), ("array protocol", "qampy/signals.py")],
      technique="attribute-provenance analysis of results by abstract interpretation", note=ABS),
 dict(id="C15", title="No accepted option is silently ignored",
      statement="Every parameter a public function, method or constructor accepts influences its result, its effects or the error it raises in the configurations it is documented for. An option handed on to another function arrives at the option of the same name, not at a different one.",
      over=["configurations", "inputs"], quant="every public entry point, every parameter, every documented option value",
      tests="the tests exercise few non-default options, and an ignored option gives a plausible result",
      files=PUB, mech=[("wrappers forward keyword arguments", "qampy/equalisation.py, qampy/impairments.py, qampy/filtering.py, qampy/phaserec.py"), ("option dispatch", "qampy/core/*")],
      technique="dataflow: data and control dependence of results on parameters", note=ABS),
 dict(id="C16", title="Every documented path resolves: names, attributes, call arguments, indices",
      statement="With arguments of the documented kinds no public operation reaches an undefined or unbound name, an attribute its object does not have, a call whose arguments do not fit the callee, an index outside the array's dimensions, arithmetic on a missing value, or a removed library function. Every public operation has at least one path that returns a result.",
      over=["configurations", "inputs"], quant="every public entry point and documented option combination; every global name of every function",
      tests="Python resolves names when a line runs; option branches that no test selects are never resolved",
      files=PUB, mech=[("imports and dispatch tables", "qampy/core/equalisation/equalisation.py, qampy/core/phaserecovery.py, qampy/signals.py")],
      technique="abstract interpretation with definite-assignment and name resolution", note=ABS),
 dict(id="C17", title="Unknown option strings are rejected",
      statement="A function that selects an algorithm, filter type or adjustment mode by a string raises a deliberate error when the string is none of those it supports. It never falls through to some default algorithm, returns nothing, or fails later on a name that was never assigned.",
      over=["configurations", "inputs"], quant="every string option of every public entry point, every string that is not one of the supported values, every position of a tuple of option strings",
      tests="the tests pass supported strings only",
      files=["qampy/core/equalisation/equalisation.py", "qampy/core/filter.py", "qampy/core/phaserecovery.py", "qampy/core/signal_quality.py", "qampy/core/ber_functions.py", "qampy/equalisation.py"],
      mech=[("if/elif chains ending in raise, dispatch dictionaries, assertions", "qampy/core/*")],
      technique="exhaustiveness analysis: entry points run with an abstract unknown string", note=ABS),
 dict(id="C07", title="Rates, frequencies, times and lengths combine with consistent units",
      statement="Quantities with a physical unit are used dimensionally correctly: only like quantities are added, compared or interpolated; the arguments of exponentials, sines and array shifts are pure numbers; filter cut-offs and symbol periods are taken relative to the sampling rate they belong to; and every internal call passes a quantity of the unit its parameter documents. In particular a symbol rate never stands in for a sampling rate, a rate for a period, a frequency for a delay, or symbols per sample for samples per symbol.",
      over=["inputs", "configurations"], quant="every public entry point with rates, frequencies, times or lengths, every path and internal call",
      tests="test signals often have fb=fs=1 or fs=2*fb, where rates, periods and counts coincide or only change a filter's width",
      files=["qampy/core/impairments.py", "qampy/core/filter.py", "qampy/core/resample.py", "qampy/core/special_fcts.py", "qampy/core/analog_frontend.py", "qampy/impairments.py", "qampy/filtering.py", "qampy/signals.py"],
      mech=[("frequency and time axes from fs", "np.fft.fftfreq and np.arange in qampy/core/impairments.py, qampy/core/filter.py"), ("wrappers pass sig.fs and sig.fb", "qampy/impairments.py, qampy/filtering.py, qampy/signals.py")],
      technique="dimensional analysis by abstract interpretation", note=ABS),
 dict(id="C08", title="Decibel and linear ratios are not mixed up",
      statement="A signal-to-noise ratio, EVM or extinction ratio documented in decibel is converted exactly once, with 10 for power and 20 for amplitude ratios, before it is used as a factor; ratios documented as linear are never taken for decibel nor the other way round when handed on internally; noise powers are the inverse of the SNR and noise amplitudes its inverse square root; conversion helpers return the scale of their name.",
      over=["inputs", "configurations"], quant="every function taking or returning a ratio, every path and internal call",
      tests="tests check orderings or wide tolerances at one SNR; options such as an externally given SNR are not exercised",
      files=["qampy/signals.py", "qampy/core/impairments.py", "qampy/theory.py", "qampy/helpers.py", "qampy/core/signal_quality.py"],
      mech=[("10**(snr/10) and 10*log10", "qampy/core/impairments.py, qampy/signals.py, qampy/theory.py, qampy/helpers.py")],
      technique="scale (logarithmic or linear, with exponent) inference by abstract interpretation", note=ABS),
 dict(id="C09", title="Per-polarisation operations keep the polarisations apart",
      statement="For the operations that treat each polarisation by itself (pulse shaping and filters, carrier offset, dispersion, phase noise, noise loading, delays, quantiser, modulator and DAC responses, orthonormalisation, phase recovery and pilot phase recovery, frame shifting, resampling), row i of the result is computed from row i of the field and row i of per-polarisation parameters only, and stands in row i of the result. No statistic is pooled over, taken along or broadcast across the polarisation axis.",
      over=["inputs", "configurations"], quant="every number of polarisations, every field, every documented option of the listed operations",
      tests="most tests use one polarisation, or identical statistics in both, where pooling and mixing are invisible",
      files=["qampy/core", "qampy/filtering.py", "qampy/phaserec.py", "qampy/impairments.py", "qampy/helpers.py"],
      mech=[("loops over modes and axis=-1 reductions", "qampy/core/phaserecovery.py, qampy/core/filter.py, qampy/core/impairments.py"), ("keepdims / newaxis broadcasting", "qampy/helpers.py, qampy/core/impairments.py")],
      technique="abstract interpretation in a row-provenance domain", note=ABS),
 dict(id="C10", title="Single-precision signals stay in single precision",
      statement="Operations on a complex64 field (filters, pulse shaping, impairments, quantiser and modulator, equalisers and taps, phase recovery with its phases, pilot processing, normalisation) return complex64 fields and float32 phases: no intermediate constant, noise array, default dtype or accumulator promotes the result to double precision, and none demotes complex128 input. Decision indices stay integer.",
      over=["inputs", "configurations"], quant="every operation of the precision table, every documented option value",
      tests="the dtype tests cover a few functions with default options; promotion depends on which operand is an array and which a python scalar",
      files=["qampy/core", "qampy/filtering.py", "qampy/phaserec.py", "qampy/impairments.py", "qampy/equalisation.py"],
      mech=[("astype(sig.dtype) / dtype= arguments", "qampy/core/impairments.py, qampy/core/filter.py, qampy/core/phaserecovery.py, qampy/core/equalisation/equalisation.py")],
      technique="type (dtype promotion) inference by abstract interpretation", note=ABS),
 dict(id="C11", title="Equaliser methods use their documented error, constants and update",
      statement="Every method the equalisers list is trained by the error function of that name (cma, cma2, mcma, sgncma, rde, mrde, sbd, sbd_data, mddma, ddlms, dd_real, ...: the documented formula of the filter output, the training constants or decided symbol), with the training constants of the unit-power alphabet that belong to it; one training symbol changes the taps of its own mode by mu*error*conj(field), the filter output is the sum over modes and taps of field times taps, the adaptive step stays while the current and the previous error agree in sign and otherwise becomes mu/(1+mu*|current error|^2), the decision takes the symbol with the smallest distance and the radius-directed ones the code of the interval the value lies in; every mode uses its own taps, symbols and errors, the adaptive step looks at the previous symbol's error. The default training length does not run past the end of the field. Each stage of the dual-mode equaliser uses its own step, training length, iterations and method, and the second starts from the taps of the first. Real-valued methods see the real parts followed by the imaginary parts, and train both parts of the modes they are given.",
      over=["inputs", "configurations"], quant="every listed method, every field, tap and symbol value, every step of training",
      tests="the tests only see whether training converges at high SNR, which a wrong constant, sign of a part, step or method often still does",
      files=["qampy/core/equalisation/equalisation.py", "qampy/core/equalisation/pythran_equalisation.py"],
      mech=[("error functions and training loops", "qampy/core/equalisation/pythran_equalisation.py"), ("method tables, generate_symbols_for_eq, dual_mode_equalisation, _reshape_symbols", "qampy/core/equalisation/equalisation.py")],
      technique="symbolic normal forms of one generic training step (no execution) compared with documented formulas, plus interprocedural dataflow of the method tables", note="The formulas are compared as exact polynomial normal forms; what cannot be brought into normal form is undecided and not reported."),
 dict(id="C12", title="Parallel kernels give the same result for every number of threads and schedule",
      statement="The result of the compiled kernels (equaliser training and filtering, decisions, phase search, soft demapping, SNR and mutual information estimates) does not depend on the number of OpenMP threads or the schedule: no value is carried between or out of the iterations of a parallel loop except by a declared reduction with the operator it is computed with, every element is written by one iteration only, and no iteration reads elements that another one writes or has side effects.",
      over=["schedules", "inputs", "configurations"], quant="every number of threads, every interleaving of iterations, every number of modes and samples",
      tests="a race needs several threads, several modes and unlucky timing; the tests compare error rates with tolerances, on whatever number of threads there is",
      files=["qampy/core/pythran_dsp.py", "qampy/core/equalisation/pythran_equalisation.py"],
      mech=[("#omp parallel for directives with collapse and reduction clauses", "qampy/core/pythran_dsp.py, qampy/core/equalisation/pythran_equalisation.py")],
      technique="data-race (shared-state and index injectivity) analysis of OpenMP loops", note="Judges the python source the extension is compiled from; the loops' private temporaries are taken to be declared where they are first assigned, as pythran does. Index arrays a parallel loop iterates over are taken to have no duplicates. Only definite conflicts are reported."),
 dict(id="C13", title="Phase rotation: transparent operations and phase estimators compose correctly",
      statement="Multiplying the received field by a constant phase factor multiplies the result of the linear operations (filters, pulse shaping, carrier offset, dispersion, delays, polarisation rotation, PMD, phase noise, applying taps) by the same factor, and never by its conjugate or a power. Phase recovery (Viterbi-Viterbi, partitioned Viterbi-Viterbi, blind phase search, pilot phase recovery) returns the phase with the sign that undoes it, divided by the power it was raised to, and applies that phase with the opposite sign, so that the common rotation drops out.",
      over=["inputs", "configurations"], quant="every field and rotation, every listed operation and documented option",
      tests="recovery tests accept the pi/2 ambiguities of the constellation and check error rates at one phase; a wrong sign or divisor cancels for small test phases",
      files=["qampy/core/phaserecovery.py", "qampy/phaserec.py", "qampy/core/pilotbased_receiver.py", "qampy/core/impairments.py", "qampy/core/filter.py"],
      mech=[("exp(1j*phase) application", "qampy/core/phaserecovery.py, qampy/core/pilotbased_receiver.py"), ("angle of the M-th power", "viterbiviterbi, phase_partition_16qam in qampy/core/phaserecovery.py")],
      technique="abstract interpretation in a phase-charge (group weight) domain", note=ABS),
 dict(id="C14", title="Amplitude scaling: linear operations are linear, normalising ones are blind",
      statement="Scaling the field by a real factor scales the result of the linear and relative-noise operations (filters, pulse shaping, dispersion, carrier offset, phase noise, polarisation rotation, PMD, delays, change_snr, enob noise, applying taps, resampling, Viterbi-Viterbi and pilot phase compensation) by the same factor, and leaves normalising operations (normalise_and_center, orthonormalisation, rescaling, quantisation with rescaling, phase and frequency-offset estimates, ring partitioning) unchanged. No amplitude is compared with or added to a power or an absolute constant on the way.",
      over=["inputs"], quant="every field amplitude, every listed operation and documented option",
      tests="test signals are normalised to unit power, where amplitude, power and absolute constants coincide",
      files=["qampy/core", "qampy/helpers.py", "qampy/phaserec.py", "qampy/impairments.py", "qampy/filtering.py"],
      mech=[("noise scaled with sqrt of the mean power", "qampy/core/impairments.py"), ("normalise_and_center, rescale_signal", "qampy/helpers.py")],
      technique="abstract interpretation in a homogeneity-degree domain", note=ABS),
 dict(id="C21", title="Results have the documented dimensions",
      statement="Every processing function returns arrays of the documented number of dimensions and, where the documentation names the length, of that length: sample-wise operations keep (modes, samples); one-dimensional input to functions accepting it gives the documented dimension back; phases have the shape of the field they belong to; taps are (modes, input modes, taps); error traces are per mode; per-mode estimates have one entry per mode.",
      over=["inputs", "configurations"], quant="every number of modes, samples and taps, one- and two-dimensional input, every documented option",
      tests="tests use a fixed two-polarisation layout in which swapped or dropped axes can broadcast silently",
      files=["qampy/core", "qampy/phaserec.py", "qampy/filtering.py", "qampy/impairments.py", "qampy/equalisation.py", "qampy/helpers.py"],
      mech=[("atleast_2d at entry, flatten at exit for one-dimensional input", "qampy/core/phaserecovery.py, qampy/core/filter.py"), ("allocation of result arrays", "qampy/core/equalisation")],
      technique="symbolic shape inference by abstract interpretation", note=ABS),
 dict(id="C23", title="Closed-form quantities equal their documented formulas",
      statement="Every function that computes a closed-form quantity returns exactly the documented or textbook formula of its arguments, also in its option branches and defaults: the theoretical symbol and bit error rates for QAM, PSK, PAM and hybrid QAM and the QAM scaling factor and PSK constellation (theory); (root) raised cosine in time and frequency, gauss, supergauss, sech, tanh and Q functions (special_fcts); dB conversions, centring, normalisation and rescaling (helpers); the transfer functions of the gauss, exp, bessel, butter and rrcos filters, dispersion (and its compensation, which has the opposite sign), PMD, delay compensation, with every spectrum in matching FFT order and the output not shifted; carrier offset, phase noise, additive noise for a target SNR, ENOB noise, amplifier, modulator and quantiser responses (impairments); pre-compensation clipping and arcsine; frequency offset compensation and its estimate from pilots; IQ orthonormalisation; EVM, the moment-based SNR estimate and signal power, the synchronised bit error rate; SNR, exponential sums, L-values, mutual information and GMI of received symbols in the compiled DSP functions.",
      over=["inputs", "configurations"], quant="all real or complex arguments in the domain of the formula, every number of samples, every documented option",
      tests="tests compare a few parameter values with loose tolerances, often statistically; a wrong constant, sign, factor of two, axis of the normalisation, or odd-length frequency grid passes",
      files=["qampy/theory.py", "qampy/helpers.py", "qampy/core/special_fcts.py", "qampy/core/filter.py", "qampy/core/impairments.py", "qampy/core/signal_quality.py", "qampy/core/pythran_dsp.py", "qampy/core/analog_frontend.py", "qampy/core/digital_pre_compensation.py"],
      mech=[("np.fft grids and shifts", "qampy/core/filter.py, qampy/core/impairments.py"), ("erfc expressions per modulation", "qampy/theory.py"), ("noise scaled with sqrt(P/SNR)", "qampy/core/impairments.py:change_snr, apply_enob_as_awgn"), ("moment estimator", "qampy/core/signal_quality.py:cal_snr_qam")],
      technique="symbolic evaluation of the syntax tree into algebraic normal forms, compared with the specified formula; sample-order typestate for spectra", note=ABS),
 dict(id="C18", title="Pilots, payload and references of framed signals stay aligned",
      statement="For a signal built from frames of a pilot sequence, phase pilots and payload, every part refers to the same positions: the pilot and payload masks are complementary and mark exactly the pilot sequence plus every ins_rat-th position after it; pilot_seq, ph_pilots, pilots, symbols and the number of frames describe those positions for any number of frames; the constructors put payload and pilots there and keep exactly the transmitted payload as reference symbols; get_data and extract_pilots return those positions of the frames asked for, and cal_ser, cal_ber, cal_evm, est_snr and cal_gmi compare each received payload symbol with its own reference and bits. Synchronisation stores per-mode, non-negative start indices reordered with the modes and the tap count it used; shift_signal moves that start to the front; the pilot equaliser trains on and applies its taps to exactly the stretch of samples that belongs to the requested frame (start shifted by half the tap difference, plus frame*os*frame_len), with the signal's pilot order and pilot sequence, uses both its methods with their own steps, each mode on its own stretch, and returns the taps of every frame; pilot phase recovery compares every received pilot with its own transmitted pilot and places averaged phases at the centre of their pilots.",
      over=["inputs", "configurations", "histories"], quant="every frame length, pilot sequence length, insertion ratio (also none), number of frames, oversampling, number of taps, shift, selection of frames; pilots given or generated; explicit pilot positions; every path",
      tests="the tests use one frame, or all frames equal, one oversampling and few frame layouts; misaligned references of later frames or other layouts go unnoticed",
      files=["qampy/signals.py", "qampy/equalisation.py", "qampy/phaserec.py", "qampy/core/pilotbased_receiver.py"],
      mech=[("_cal_pilot_idx and the boolean masks", "qampy/signals.py:SignalWithPilots"), ("shiftfctrs and synctaps", "qampy/signals.py:sync2frame, qampy/equalisation.py:pilot_equaliser"), ("pilot index arithmetic", "qampy/core/pilotbased_receiver.py:pilot_based_cpe_new, equalize_pilot_sequence, frame_sync")],
      technique="symbolic evaluation over classes of frame positions and polynomial bounds, all paths", note=ABS),
 dict(id="C20", title="Sequences are synchronised, adjusted in length and compared consistently",
      statement="Synchronisation aligns, and comparison uses what was aligned. find_sequence_offset gives the number of positions by which its second argument has to be moved to match the first (sign included, for every combination of lengths, with the conjugate taken for complex data); find_sequence_offset_complex tries all four multiples of 90 degrees and returns offset, rotated sequence, power and correlation of the same, best rotation; find_offset returns the index of an element. adjust_data_length returns two sequences of equal length (that of data_rx for method None, the shorter for truncate, the longer for extend), an extended sequence is the periodic continuation of the short one whose start sits at offset, for positive, zero and negative offsets, and the other one is returned unchanged; sync_and_adjust returns (tx, rx) with the adjusted one rolled or extended by the offset found and rotated, of the length of the other one, whichever is longer; sync_rx2tx, sync_tx2rx and cal_ber_nosyncd move in the matching direction. _sync_and_adjust pairs every received mode with the best-correlating transmitted mode still free and returns the sequences of that pair in the order (tx, rx); cal_ser, cal_ber, cal_evm, est_snr, cal_mi and cal_gmi compare the synchronised received signal (decisions, bits, symbols) with the synchronised reference of the same mode, honour synced and snr, and evaluate errors per symbol or bit, the root mean squared error vector and 1 - mean log2(1 + exp((-1)^bit llr)).",
      over=["inputs", "configurations"], quant="every pair of sequence lengths, every offset a search can return, every adjusted side and method; two or three transmitted and two received modes; every given or own signal, synchronised or not",
      tests="the tests use a few lengths and mostly positive offsets of the default method; a wrong length or start for a negative offset, a swapped pair or a comparison of unsynchronised data shows only for particular combinations",
      files=["qampy/core/ber_functions.py", "qampy/core/utils.py", "qampy/signals.py"],
      mech=[("offset search, rolling and periodic extension", "qampy/core/ber_functions.py"), ("pairing of modes and the quality measures", "qampy/signals.py:SignalBase")],
      technique="symbolic evaluation in a domain of runs of periodic sequences, all paths, with polynomial lengths and offsets", note=ABS),
 dict(id="C19", title="Bits and symbols map to each other consistently",
      statement="Modulation, demodulation and the tables of a signal agree for every number of bits per symbol, symbols and modes. SignalQAMGrayCoded.modulate and the constructors group the bits of each mode in order into groups of log2(M), read a group as a label in one fixed order of bits, the order in which the table of bit patterns is stored, and take that entry of the table of points; bits beyond the last whole symbol are neither modulated nor kept. demodulate replaces every decided index (or the nearest point of complex symbols) by its bit pattern in order, mode by mode. For QAM and PSK the point of each label is the one whose Gray label it is, the QAM table scaled as requested, and the bit map for soft decisions is made of the same points and patterns and lists for every bit the points whose bit is 0 and 1. make_decision gives, for the signal itself or a given field, mode by mode the nearest entry of the own table, with distance and index when verbose. Constructors (SignalQAMGrayCoded.__new__, from_bit_array, from_symbol_array, QPSKfromBERT) return samples, reference symbols, bits and tables that belong together: the symbols are the ones the kept bits of the same mode modulate to (from_symbol_array: the bits are the patterns of the decided symbols; QPSKfromBERT: bit k of each symbol is stream k, shifted and inverted as asked). For square constellations the points are equidistant by row and column and the labels the Gray code of row and column (for cross constellations, of the rectangle that is folded); bin2gray is n xor n/2.",
      over=["inputs", "configurations"], quant="every number of bits per symbol, of symbols, of modes and of surplus bits, every bit and symbol index",
      tests="the tests modulate and demodulate through the same tables for a few orders, so an order of bits, label or point that is wrong on both sides, for one mode, or only in the bit map for soft decisions goes unnoticed",
      files=["qampy/signals.py", "qampy/theory.py", "qampy/core/utils.py", "qampy/core/signal_quality.py"],
      mech=[("modulation, demodulation, mapping tables and constructors", "qampy/signals.py:SignalQAMGrayCoded"), ("constellations and Gray labels", "qampy/theory.py")],
      technique="symbolic evaluation of arrays as terms over their indices (digits, powers of two, table entries, inverse permutations), compared with the specification; differences only with a witness", note=ABS),
 dict(id="C24", title="Bit sequences and frames are generated as documented",
      statement="The shift registers of order 7, 15, 23 and 31 produce the sequence of the recurrence of x^n + x^m + 1 with m = 6, 14, 18 and 28, in the Fibonacci (make_prbs_extXOR, prbs_ext, lfsr_ext) and Galois form (make_prbs_intXOR, prbs_int, lfsr_int), bit by bit, for every seed given as a number, as bits (the k-th is bit k) or left out (all ones); the register states they yield are the ones the sequence continues from; other orders are rejected; bool2bin makes element k bit k. PRBSBits fills mode i from its own order and seed: given ones are kept for every mode, only missing ones are chosen, from the implemented orders and nonzero seeds. rolling_window (also wrapped) and segment_axis cut frame i from element i times the advance, as many as fit; dump_edges removes N samples at both ends of every mode; linspacestep is start + k*step.",
      over=["inputs", "configurations"], quant="every seed (all register bits unknown), every order, every number of modes, orders and seeds up to three, every length, window, advance and edge",
      tests="the tests check lengths and compare two implementations for one seed; a wrong tap, a register that loses its top bit or a stream made from another mode's seed still gives random-looking bits",
      files=["qampy/core/prbs.py", "qampy/core/pythran_dsp.py", "qampy/core/utils.py", "qampy/core/segmentaxis.py", "qampy/helpers.py", "qampy/signals.py"],
      mech=[("shift registers", "qampy/core/prbs.py, qampy/core/pythran_dsp.py:prbs_ext, prbs_int"), ("one generator per mode", "qampy/signals.py:PRBSBits"), ("frames by strides", "qampy/core/utils.py:rolling_window, qampy/core/segmentaxis.py")],
      technique="symbolic evaluation of the registers over GF(2) with unknown seed bits, and of frames as terms over their indices", note=ABS),
]
NUMF = ["qampy/core", "qampy/signals.py"]
NA = [
 ("N01", "Measured error rates follow theory", "The bit and symbol error rates, EVM and SNR estimates of a signal with additive noise agree with the closed-form theory for its modulation order.",
  "statistical agreement of floating-point estimates with erfc formulas: no sound static argument bounds it", ["qampy/theory.py", "qampy/core/signal_quality.py"]),
 ("N02", "Equalisers converge", "The blind and data-aided equalisers converge to taps that undo a linear channel within the documented step sizes.",
  "convergence of an adaptive stochastic iteration: a runtime quantity", ["qampy/core/equalisation"]),
 ("N03", "Resampling and shaping preserve the waveform", "Matched root-raised-cosine shaping and resampling reproduce the transmitted symbols within numerical error.",
  "accuracy of a numerical filter design", ["qampy/core/resample.py", "qampy/core/filter.py"]),
 ("N04", "Frame synchronisation finds the frame", "The pilot sequence position is found for every delay and frequency offset within the documented range.",
  "success of a correlation search on noisy data", ["qampy/core/pilotbased_receiver.py"]),
 ("N05", "Information rates", "Mutual information and generalised mutual information estimates lie between zero and the number of bits per symbol and grow with SNR.",
  "bounds on floating-point Monte-Carlo sums", ["qampy/theory.py", "qampy/core/pythran_dsp.py"]),
 ("N06", "Gray mapping of cross constellations", "Neighbouring points of a cross constellation differ in as few bits as its folding allows. (Square constellations are decided by C19.)",
  "a geometric fact about a table that is folded by comparisons of its own entries; deciding it needs executing the construction", ["qampy/theory.py", "qampy/core/utils.py"]),
]
