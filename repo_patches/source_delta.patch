From 2c1fb534f9715877459ef7362fc3461bea645bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 01/61] fix: comp_IQ_inbalance must not modify the signal it is
 given

---
 qampy/core/analog_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/analog_frontend.py b/qampy/core/analog_frontend.py
index 9454f04..8288b91 100644
--- a/qampy/core/analog_frontend.py
+++ b/qampy/core/analog_frontend.py
@@ -34,7 +34,7 @@ def comp_IQ_inbalance(signal):
     """
     
     # Center signal around a mean of 0
-    signal -= np.mean(signal)
+    signal = signal - np.mean(signal)
     I = signal.real
     Q = signal.imag
 
-- 
2.43.0


From 077b5884a89afd76618540dc2d5822457761fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 02/61] fix: quantize_signal must not rescale the signal it is
 given in place

---
 qampy/core/impairments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 4a325e8..1184936 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -347,6 +347,7 @@ def quantize_signal(sig, nbits=6, rescale=True, re_normalize=True):
 
     # Rescale to
     if rescale:
+        sig = sig.copy()
         for pol in range(npols):
             sig[pol] /= np.abs(sig[pol]).max()
 
-- 
2.43.0


From 49b9f5f9f372f9451e21ea4c397828a95e5dcdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 03/61] fix: correct_shifts must not modify the shift factors
 it is given

---
 qampy/core/pilotbased_receiver.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index e60dc63..9c57d50 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -439,8 +439,7 @@ def correct_shifts(shift_factors, ntaps, os):
     if not((ntaps[1]-ntaps[0])%os  ==  0):
         raise ValueError("Taps for search and convergence impropper configured")
     tap_cor = int((ntaps[1]-ntaps[0])/2)
-    shift_factors -= tap_cor
-    return shift_factors
+    return shift_factors - tap_cor
 
 def shift_signal(sig, shift_factors):
     k = len(shift_factors)
-- 
2.43.0


From a33b6e061787d169fe59505101f6a6099df6c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 04/61] fix: shift_signal must not modify the signal it is
 given

---
 qampy/core/pilotbased_receiver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 9c57d50..480e7a1 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -444,6 +444,7 @@ def correct_shifts(shift_factors, ntaps, os):
 def shift_signal(sig, shift_factors):
     k = len(shift_factors)
     if k > 1:
+        sig = sig.copy()
         for i in range(k):
             sig[i] = np.roll(sig[i], -shift_factors[i])
     else:
-- 
2.43.0


From 5d63f96891bd6e8803a0a9cb58bde3e973ff2396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 05/61] fix: applying taps to a pilot signal must not change
 its stored shift factors

---
 qampy/equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 209b959..3a8af24 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -45,7 +45,7 @@ def _apply_to_pilotsignal(sig, wxy, frames):
     if Ntaps != sig.synctaps:
         shiftfctrs = shiftfctrs - (Ntaps - sig.synctaps)//2
     if np.min(shiftfctrs) < 0:
-        shiftfctrs += sig.os*sig.frame_len
+        shiftfctrs = shiftfctrs + sig.os*sig.frame_len
     assert shiftfctrs.max() + sig.os*sig.frame_len*(max(frames)+1) < sig.shape[-1] - (Ntaps - 1), \
         "Trying to equalise frame {}, but signal is not long enough".format(max(frames))
     if np.all(np.diff(frames) == 1):
-- 
2.43.0


From 7207f224664cd5a7b533fb9fd1924945b9c93012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 06/61] fix: TDHQAMSymbols.from_symbol_arrays must not rescale
 its input in place

---
 qampy/signals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qampy/signals.py b/qampy/signals.py
index 7d489bf..16c3e96 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1342,6 +1342,7 @@ class TDHQAMSymbols(SignalBase):
         assert syms_M1.shape[0] == syms_M2.shape[0], "Number of modes must be the same"
         f_M, f_M1, f_M2 = cls._cal_fractions(fr)
         scale = cls.calculate_power_ratio(syms_M1.coded_symbols, syms_M2.coded_symbols, power_method)
+        syms_M2 = syms_M2.copy()
         syms_M2 /= np.sqrt(scale)
         N1 = syms_M1.shape[1]
         N2 = syms_M2.shape[1]
-- 
2.43.0


From 35ae6abf9e6ae643c29ea40080e3f99b9b11c847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 07/61] fix: sim_mi_mc must not normalise the alphabet it is
 given in place

---
 qampy/theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/theory.py b/qampy/theory.py
index 11e27a3..471d686 100644
--- a/qampy/theory.py
+++ b/qampy/theory.py
@@ -327,7 +327,7 @@ def sim_mi_mc(symbols, snr, N):
         mi : float
             Mutual information of the symbol alphabet at the given SNR
     """
-    symbols /= np.sqrt(np.mean(abs(symbols)**2))
+    symbols = symbols / np.sqrt(np.mean(abs(symbols)**2))
     N0 = 10**(-snr/10)
     sigma = np.sqrt(N0/2)
     noise = (np.random.randn(N) + 1j*np.random.randn(N))*sigma
-- 
2.43.0


From eaa41184838e34fae4f45c50a1ab5e433b8803a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 08/61] fix: equalise_signal must not train on the memory of
 the initial taps

---
 qampy/core/equalisation/equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 4bef90f..17710ff 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -544,7 +544,7 @@ def equalise_signal(E, os, mu, M, wxy=None, Ntaps=None, TrSyms=None, Niter=1, me
     if wxy is None:
         wxy = _init_taps(Ntaps, nmodes, nmodes, E.dtype)
     else:
-        wxy = np.ascontiguousarray(wxy, dtype=E.dtype)
+        wxy = np.array(wxy, dtype=E.dtype, order="C") # training updates the taps in place, keep the ones of the caller
         Ntaps = wxy.shape[-1]
         assert wxy.ndim == 3, "wxy needs to be three dimensional"
         assert wxy.shape[:2] == (nmodes, nmodes), "The first 2 dimensions of wxy need to be the same shape as E"
-- 
2.43.0


From 1a601582e5af51eed7007c2fc003aa50c69a8d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 09/61] fix: sim_tx must not impair the frame it is given in
 place

---
 qampy/core/pilotbased_transmitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_transmitter.py b/qampy/core/pilotbased_transmitter.py
index 82c7def..219377f 100644
--- a/qampy/core/pilotbased_transmitter.py
+++ b/qampy/core/pilotbased_transmitter.py
@@ -193,7 +193,7 @@ def sim_tx(frame, os, num_frames = 5, modal_delay = None, beta=0.1, snr=None, sy
 
     npols = frame.shape[0]
     #sig = np.zeros([npols, int(num_frames*(frame[0, :]).shape[0] * os)], dtype=complex)
-    sig = frame
+    sig = frame.copy()
 
     for l in range(npols):
 
-- 
2.43.0


From 1e5909c768607fdf92a9e258be642fdfb00a4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 10/61] fix: pre_filter_wdm used an undefined name for its
 input

---
 qampy/core/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index 2178ab4..f737c2b 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -72,7 +72,7 @@ def pre_filter_wdm(signal, bw, os,center_freq = 0):
     """
     # Prepare signal
     N = len(signal)
-    h = np.zeros(N, dtype=sig.real.dtype)
+    h = np.zeros(N, dtype=signal.real.dtype)
     freq_axis = scifft.fftfreq(N, 1 / os)
 
     # Create filter window
-- 
2.43.0


From a225257fcddc065624e6d51ce3e7b205dd94e713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 11/61] fix: apply_DAC_filter cast the measured response to an
 array instead of its dtype

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 1184936..13f1925 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -544,7 +544,7 @@ def apply_DAC_filter(sig, fs, cutoff=18e9, fn=None, ch=1):
     if fn is None:
         filter_sig = filter_signal(sig, fs, cutoff, ftype="bessel", order=2)
     else:
-        H_dac = load_dac_response(fn, fs, sig.shape[-1], ch=ch).astype(sig) # should check if response is real
+        H_dac = load_dac_response(fn, fs, sig.shape[-1], ch=ch).astype(sig.dtype) # should check if response is real
         sigf = fft.fft(sig)
         filter_sig = fft.ifft(sigf * H_dac)
     return filter_sig
-- 
2.43.0


From 1293a71e996beb5f0e778bc5c3798509e680db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 12/61] fix: make_prbs_intXOR did not pass the register length
 to prbs_int

---
 qampy/core/prbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/prbs.py b/qampy/core/prbs.py
index acfb793..795ef68 100644
--- a/qampy/core/prbs.py
+++ b/qampy/core/prbs.py
@@ -91,6 +91,6 @@ def make_prbs_intXOR(order, nbits, seed=None):
             seed = utils.bool2bin(seed)
         except TypeError:
             seed = seed
-    out = prbs_int(seed, masks[order], nbits)
+    out = prbs_int(seed, masks[order], order, nbits)
     return out.astype(bool)
 
-- 
2.43.0


From 54c7f1885ba392085048897443e924134afe9bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 13/61] fix: find_offset used ndarray.tostring, which newer
 numpy versions removed

---
 qampy/core/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/utils.py b/qampy/core/utils.py
index 502f341..193c8da 100644
--- a/qampy/core/utils.py
+++ b/qampy/core/utils.py
@@ -150,7 +150,7 @@ def find_offset(sequence, data):
         data = data.astype(sequence.dtype)
     # using this string conversion method is much faster than array methods,
     # however it only finds the first occurence
-    return data.tostring().index(sequence.tostring()) // data.itemsize
+    return data.tobytes().index(sequence.tobytes()) // data.itemsize
 
 
 def rolling_window(data, size, wrap=False):
-- 
2.43.0


From e2f3a5fc347128a7380a64aa07f36131fd0c62cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 14/61] fix: add_dispersion rotated the polarisations when
 undoing its time shift

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 13f1925..c7af8a3 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -699,6 +699,6 @@ def add_dispersion(sig, fs, D, L, wl0=1550e-9):
     beta2 = D * wl0**2 / (C*np.pi*2)
     H = np.exp(-0.5j * omega**2 * beta2 * L).astype(sig.dtype)
     sff = fft.fft(fft.ifftshift(sig, axes=-1), axis=-1)
-    sig_out = fft.fftshift(fft.ifft(sff*H))
+    sig_out = fft.fftshift(fft.ifft(sff*H, axis=-1), axes=-1)
     return sig_out
 
-- 
2.43.0


From 602b1be0c3c1ef8fbbe3030d05c4060d3f8e685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 15/61] fix: gauss and exp filters mixed up the modes and
 shifted odd-length signals

---
 qampy/core/filter.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index f737c2b..5363268 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -112,20 +112,22 @@ def filter_signal(signal, fs, cutoff, ftype="bessel", order=2, analog=False):
         w = cutoff/(2*np.sqrt(2*np.log(2))) # might need to add a factor of 2 here do we want FWHM or HWHM?
         g = np.exp(-f**2/(2*w**2))
         fsignal = scifft.fftshift(scifft.fft(scifft.fftshift(sig, axes=-1), axis=-1), axes=-1) * g
+        sigout = scifft.ifftshift(scifft.ifft(scifft.ifftshift(fsignal, axes=-1), axis=-1), axes=-1)
         if signal.ndim == 1:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal))).flatten()
+            return sigout.flatten()
         else:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal)))
+            return sigout
     if ftype == "exp":
         f = np.linspace(-fs/2, fs/2, sig.shape[1], endpoint=False, dtype=sig.dtype)
         w = cutoff/(np.sqrt(2*np.log(2)**2)) # might need to add a factor of 2 here do we want FWHM or HWHM?
         g = np.exp(-np.sqrt((f**2/(2*w**2))))
         g /= g.max()
-        fsignal = scifft.fftshift(scifft.fft(scifft.fftshift(signal))) * g
+        fsignal = scifft.fftshift(scifft.fft(scifft.fftshift(sig, axes=-1), axis=-1), axes=-1) * g
+        sigout = scifft.ifftshift(scifft.ifft(scifft.ifftshift(fsignal, axes=-1), axis=-1), axes=-1)
         if signal.ndim == 1:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal))).flatten()
+            return sigout.flatten()
         else:
-            return scifft.fftshift(scifft.ifft(scifft.fftshift(fsignal)))
+            return sigout
     Wn = cutoff*2*np.pi if analog else cutoff
     frmt = "ba" if analog else "sos"
     fs_in = None if analog else fs
-- 
2.43.0


From bdf2e9732f0c37f27821bba90e3e97ca2d50559d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 16/61] fix: generate_ps_symbols used an undefined module to
 normalise

---
 qampy/theory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/theory.py b/qampy/theory.py
index 471d686..cd70b0b 100644
--- a/qampy/theory.py
+++ b/qampy/theory.py
@@ -26,7 +26,7 @@ from scipy.special import erfc
 from qampy.core.special_fcts import q_function
 from qampy.core import pythran_dsp
 from qampy.core.utils import bin2gray
-from qampy.helpers import dB2lin
+from qampy.helpers import dB2lin, normalise_and_center
 
 
 # All the formulas below are taken from dsplog.com
@@ -244,7 +244,7 @@ def generate_ps_symbols(N, symbs, px, normalize=True):
     mod_symbs = np.random.choice(symbs, N, p=px) + \
                 1j * np.random.choice(symbs, N, p=px)
     if normalize:
-        mod_symbs = utils.normalise_and_center(mod_symbs)
+        mod_symbs = normalise_and_center(mod_symbs)
     return mod_symbs
 
 def hybrid_qam_ber_vs_esn0(snr, pr, fr, M1, M2):
-- 
2.43.0


From cb2ceb11ba4a0ec647df7e279efb43a57ee27e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 17/61] fix: hybrid_qam_ber_vs_esn0 called a function that does
 not exist

---
 qampy/theory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/theory.py b/qampy/theory.py
index cd70b0b..55ebaeb 100644
--- a/qampy/theory.py
+++ b/qampy/theory.py
@@ -277,7 +277,7 @@ def hybrid_qam_ber_vs_esn0(snr, pr, fr, M1, M2):
     snr = 10**(snr/10)
     bps1 = np.log2(M1)
     bps2 = np.log2(M2)
-    return 1/((1-fr)*bps1+fr*bps2)*((1-fr)*bps1*theory.MQAM_BERvsEsN0(snr/((1-fr)+fr*pr), M1) + fr*bps2*theory.MQAM_BERvsEsN0(pr*snr/((1-fr)+fr*pr), M2))
+    return 1/((1-fr)*bps1+fr*bps2)*((1-fr)*bps1*ber_vs_es_over_n0_qam(snr/((1-fr)+fr*pr), M1) + fr*bps2*ber_vs_es_over_n0_qam(pr*snr/((1-fr)+fr*pr), M2))
 
 def cal_gmi(M, snr, N=10**3):
     """
-- 
2.43.0


From 04e6309c8669beae7a8b11776184ed515f6b9f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 18/61] fix: sim_tx took rotate_field from the wrong module

---
 qampy/core/pilotbased_transmitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_transmitter.py b/qampy/core/pilotbased_transmitter.py
index 219377f..9fce304 100644
--- a/qampy/core/pilotbased_transmitter.py
+++ b/qampy/core/pilotbased_transmitter.py
@@ -230,7 +230,7 @@ def sim_tx(frame, os, num_frames = 5, modal_delay = None, beta=0.1, snr=None, sy
 
     # Currently only implemented for DP signals.
     if (npols == 2) and (rot_angle is not None):
-        sig = utils.rotate_field(sig, rot_angle)
+        sig = impairments.rotate_field(sig, rot_angle)
 
     if resBits_rx is not None:
         for l in range(npols):
-- 
2.43.0


From ca84c9bb0a22fb3bb466081e53cd3749b5f13a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 19/61] fix: simulate_transmission used an undefined name for
 the dispersion

---
 qampy/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/impairments.py b/qampy/impairments.py
index b4543ab..5677b29 100644
--- a/qampy/impairments.py
+++ b/qampy/impairments.py
@@ -165,7 +165,7 @@ def simulate_transmission(sig, snr=None, freq_off=None, lwdth=None, dgd=None, th
     if modal_delay is not None:
         sig = add_modal_delay(sig, modal_delay)
     if dispersion is not None:
-        sig = add_dispersion(sig, D, 1)
+        sig = add_dispersion(sig, dispersion, 1)
     if dgd is not None:
         sig = apply_PMD(sig, theta, dgd)
     return sig
-- 
2.43.0


From 8fdd81f6af8e1dc44e2d59ced3cce4a085af6c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 20/61] fix: cal_ber_nosyncd never synchronised the data and
 raised instead

---
 qampy/core/ber_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index d8e6e1d..fa19086 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -387,8 +387,9 @@ def cal_ber_nosyncd(data_rx, data_tx):
         idx = find_sequence_offset(data_tx, data_rx)
     except DataSyncError:
         # if we cannot sync try to use inverted data
-        idx = find_sequence_offset(~data_tx, data_rx)
-    data_tx_sync = adjust_data_length(data_tx_sync, data_rx)
+        data_tx = ~data_tx
+        idx = find_sequence_offset(data_tx, data_rx)
+    data_tx_sync, data_rx = adjust_data_length(np.roll(data_tx, -idx), data_rx)
     #TODO this still returns a slightly smaller value, as if there would be
     # one less error, maybe this happens in the adjust_data_length
     return cal_ber_syncd(data_rx, data_tx_sync)
-- 
2.43.0


From 664d535bbefdd0c21e77e776ba34d5cd4f8f786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 21/61] fix: normalise_and_center_pil raised for single-mode
 signals

---
 qampy/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/helpers.py b/qampy/helpers.py
index c3c8c85..0eec7ff 100644
--- a/qampy/helpers.py
+++ b/qampy/helpers.py
@@ -60,7 +60,7 @@ def normalise_and_center_pil(sig, idx_pil):
     """
     Normalise and center the input field only based on pilot symbols, by calculating the mean power for each polarisation separate and dividing by its square-root
     """
-    sig_pil = sig[:, idx_pil]
+    sig_pil = sig[..., idx_pil]
     if sig.ndim > 1:
         ct_fac = - np.mean(sig_pil, axis=-1)[:, np.newaxis]
         sig_pil = sig_pil + ct_fac
-- 
2.43.0


From ebf3d56e219369590cae075d8a8074e4831ca4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 22/61] fix: pilot_equaliser returned None for apply=False,
 verbose=True

---
 qampy/equalisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 3a8af24..b25df24 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -333,7 +333,7 @@ def pilot_equaliser(signal, mu, Ntaps, apply=True, foe_comp=True, wxinit=None, f
             return taps_all, eq_mode_sig
     else:
         if verbose:
-            taps_all, foe_all, (Ntaps, signal.synctaps)
+            return taps_all, foe_all, (Ntaps, signal.synctaps)
         else:
             return taps_all
         
-- 
2.43.0


From a1e62fd0cf8aa2f8752c303a04003e3e06f4de8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 23/61] fix: pilot_equaliser ignored the frame number when the
 taps match the sync taps

---
 qampy/equalisation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index b25df24..124ba02 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -316,7 +316,8 @@ def pilot_equaliser(signal, mu, Ntaps, apply=True, foe_comp=True, wxinit=None, f
     if (abs(Ntaps-signal.synctaps) % 2) != 0:
         raise ValueError("Tap difference need to be an integer of the oversampling")
     elif Ntaps != signal.synctaps:
-        eq_shiftfctrs = eq_shiftfctrs - (Ntaps - signal.synctaps)//2 + signal.os*signal.frame_len*frame
+        eq_shiftfctrs = eq_shiftfctrs - (Ntaps - signal.synctaps)//2
+    eq_shiftfctrs = eq_shiftfctrs + signal.os*signal.frame_len*frame
     assert signal.shape[-1] - eq_shiftfctrs.max() > signal.frame_len*signal.os, "You are trying to equalise an incomplete frame which does not work"
     
     taps_all, foe_all = pilotbased_receiver.equalize_pilot_sequence(signal, signal.pilot_seq, eq_shiftfctrs, os=signal.os, mu=mu,
-- 
2.43.0


From 5972328206537b60575b3f3cb8454c67742c00f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 24/61] fix: comp_rf_delay built its frequency axis from the
 sampling rate instead of its inverse

---
 qampy/core/analog_frontend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/analog_frontend.py b/qampy/core/analog_frontend.py
index 8288b91..1fe977e 100644
--- a/qampy/core/analog_frontend.py
+++ b/qampy/core/analog_frontend.py
@@ -75,7 +75,7 @@ def comp_rf_delay(signal, delay, sampling_rate=50e9 ):
 
     sig = np.atleast_2d(signal)
     # Frequency base vector
-    freqVector = np.fft.fftfreq(sig.shape[1], sampling_rate/2)
+    freqVector = np.fft.fftfreq(sig.shape[1], 1/sampling_rate)
     
     # Phase-delayed version
     sig_out = np.empty_like(sig)
-- 
2.43.0


From 4e451a13202927bcf6574fe99928f9c30b5f5466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 25/61] fix: rrcos_pulseshaping used the symbol rate as the
 default filter width

---
 qampy/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/filtering.py b/qampy/filtering.py
index 4bcfd19..bb207a5 100644
--- a/qampy/filtering.py
+++ b/qampy/filtering.py
@@ -112,7 +112,7 @@ def rrcos_pulseshaping(sig, beta, T=None):
         filtered signal in time domain
     """
     if T is None:
-        T = sig.fb
+        T = 1/sig.fb
     sig_out = core.filter.rrcos_pulseshaping(sig, sig.fs, T, beta)
     return sig.recreate_from_np_array(sig_out)
 
-- 
2.43.0


From 5a72eb31ead7d5a938b4250f258d237bfbf68e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 26/61] fix: the python apply_filter ignored the mode selection
 and raised when given one

---
 qampy/core/equalisation/equalisation.py | 31 +++++--------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 17710ff..4e8bf4d 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -171,7 +171,7 @@ def apply_filter(E, os, wxy, method="pyt", modes=None):
         modes = np.copy(np.atleast_1d(modes))
     nmodes = modes.shape[0]
     if method == "py":
-        return apply_filter_py(E, os, wxy)
+        return apply_filter_py(E, os, wxy, modes)
     elif method == "pyt":
         if np.iscomplexobj(E) and np.iscomplexobj(wxy):
             return pythran_equalisation.apply_filter_to_signal(E, os, wxy, modes)
@@ -224,30 +224,11 @@ def apply_filter_py(E, os, wxy, modes=None):
     else:
         modes = np.atleast_1d(modes)
         assert np.max(modes) < nmodes_max, "largest mode number is larger than shape of signal"
-        nmodes = modes.sizeX = X1
-    X = segment_axis(E[modes[0]], Ntaps, Ntaps-os)
-    ww = wxy[0].flatten()
-    # Case for a butterfly-configured EQ
-    if nmodes_max > 1:
-        for pol in range(1, nmodes):
-            X_P = segment_axis(E[modes[pol]], Ntaps,Ntaps-os)
-            X = np.hstack([X,X_P])
-            ww = np.vstack([ww,wxy[modes[pol]].flatten()])
-
-        # Compute the output
-        Eest = np.dot(X,ww.transpose())
-
-        # Extract the error (per butterfly entry)
-        Eest_tmp = Eest[:,0]
-        for pol in range(1, nmodes):
-            Eest_tmp = np.vstack([Eest_tmp,Eest[:,modes[pol]]])
-        Eest = Eest_tmp
-
-    # Single mode EQ
-    else:
-        Eest = np.dot(X, ww.transpose())
-        Eest = np.atleast_2d(Eest)
-
+        nmodes = modes.size
+    # every output mode is the sum over the filtered input modes
+    X = np.hstack([segment_axis(E[i], Ntaps, Ntaps-os) for i in range(E.shape[0])])
+    ww = wxy[modes].reshape(nmodes, -1)
+    Eest = np.ascontiguousarray(np.dot(X, ww.transpose()).transpose())
     return Eest
 
 def _convert_sig_to_real(E):
-- 
2.43.0


From 96c9f9c74334e7c38353598636606881b74c2e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 27/61] fix: numba RDE and MRDE error functions used undefined
 names

---
 qampy/core/equalisation/numba_equalisation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/equalisation/numba_equalisation.py b/qampy/core/equalisation/numba_equalisation.py
index 456c02e..1379218 100644
--- a/qampy/core/equalisation/numba_equalisation.py
+++ b/qampy/core/equalisation/numba_equalisation.py
@@ -196,7 +196,7 @@ def ErrorFctRDE(partition, codebook):
     @numba.jit(nopython=True)
     def rde_fct(Xest):
         Ssq = abs(Xest)**2
-        S_DD = partition_value(Ssq, part, code)
+        S_DD = partition_value(Ssq, partition, codebook)
         return (S_DD - Ssq)*Xest
     return rde_fct
 
@@ -223,7 +223,7 @@ def ErrorFctMRDE(partition, codebook):
     @numba.jit(nopython=True)
     def mrde_fct(Xest):
         Ssq = Xest.real**2 + 1.j * Xest.imag**2
-        R = partition_value(Ssq.real, partion.real, codebook.real) + partition_value(Ssq.imag, partition.imag, codebook.imag)*1.j
+        R = partition_value(Ssq.real, partition.real, codebook.real) + partition_value(Ssq.imag, partition.imag, codebook.imag)*1.j
         return (R.real - Ssq.real)*Xest.real + (R.imag - Ssq.imag)*1.j*Xest.imag
     return mrde_fct
 
-- 
2.43.0


From 1cf7112ef86f277d63721d8bcbf20cbc06bf5b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 28/61] fix: from_symbol_array must not store M in the payload
 arguments it is given

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 16c3e96..2f7e0ee 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1604,7 +1604,7 @@ class SignalWithPilots(SignalBase):
         if "M" in kwargs:
             assert "M" not in payload_kwargs, "M can not be provided as a argument for payload and signal"
             M = kwargs.pop("M")
-            payload_kwargs["M"] = M
+            payload_kwargs = dict(payload_kwargs, M=M)
         if np.count_nonzero(idx_dat) > N:
             warnings.warn("Data for frame is shorter than length of data array, truncating")
         if payload_is_frame:
-- 
2.43.0


From f8884478ab227d74da3a40e4ae259046f6d88da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 29/61] fix: adjust_data_length returned None for an unknown
 method

---
 qampy/core/ber_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index fa19086..5bc9cba 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -304,6 +304,8 @@ def adjust_data_length(data_tx, data_rx, method=None, offset=0):
             return data_tx, data_rx
         else:
             return data_tx, data_rx
+    else:
+        raise ValueError("method needs to be None, 'truncate' or 'extend' not '%s'" % method)
 
 def _adjust_to(data, N, back=True):
     L = data.shape[0]
-- 
2.43.0


From 959322a8931a51188b53bd64357bc45e915851c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 30/61] fix: _adjust_to returned a whole period too much when
 the length divides evenly

---
 qampy/core/ber_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index 5bc9cba..454a79f 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -318,7 +318,7 @@ def _adjust_to(data, N, back=True):
     if back:
         data = np.hstack([tmp, data[:rem]])
     else:
-        data = np.hstack([data[-rem:], tmp])
+        data = np.hstack([data[L-rem:], tmp])
     return data
 
 def cal_ber_syncd(data_rx, data_tx, threshold=0.2):
-- 
2.43.0


From 9a12290477dd72ae8d209b2d451943597301b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 31/61] fix: filter_signal failed with an unbound name for an
 unknown filter type

---
 qampy/core/filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index 5363268..e469441 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -135,6 +135,8 @@ def filter_signal(signal, fs, cutoff, ftype="bessel", order=2, analog=False):
         system = scisig.bessel(order, Wn,  'low', norm='mag', analog=analog, output=frmt, fs=fs_in)
     elif ftype == "butter":
         system = scisig.butter(order, Wn, 'low',  analog=analog, output=frmt, fs=fs_in)
+    else:
+        raise ValueError("unknown filter type '%s', use 'bessel', 'butter', 'exp' or 'gauss'" % ftype)
     if analog:
         t = np.arange(0, sig.shape[1])*1/fs
         sig2 = np.zeros_like(sig)
-- 
2.43.0


From 14c7dc02a1e70316c89bb8758bd263bcdd591321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 32/61] fix: apply_filter ignored the method for signals with
 pilots

---
 qampy/equalisation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index 124ba02..c1ffa7a 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -39,7 +39,7 @@ DATA_AIDED = DATA_AIDED
 #: All available equaliser method#:
 TRAINING_FCTS = TRAINING_FCTS
 
-def _apply_to_pilotsignal(sig, wxy, frames):
+def _apply_to_pilotsignal(sig, wxy, frames, method="pyt"):
     Ntaps = wxy.shape[-1]
     shiftfctrs = sig.shiftfctrs
     if Ntaps != sig.synctaps:
@@ -57,13 +57,13 @@ def _apply_to_pilotsignal(sig, wxy, frames):
                 idx_0 = shiftfctrs[mode[0]] + frames[0]*sig.os*sig.frame_len
                 idx_end = idx_0 + nframes*sig.frame_len*sig.os + Ntaps -1
                 eq_mode_sig.append(core.equalisation.apply_filter(
-                    sig[:, idx_0:idx_end], sig.os, wxy, modes=mode))
+                    sig[:, idx_0:idx_end], sig.os, wxy, method=method, modes=mode))
             return sig.recreate_from_np_array(np.squeeze(np.array(eq_mode_sig)), fs=sig.fb)
         else:
             idx_0 = shiftfctrs[0] + frames[0]*sig.os*sig.frame_len
             idx_end = idx_0 + nframes*sig.frame_len*sig.os + Ntaps -1
             return sig.recreate_from_np_array(core.equalisation.apply_filter(
-                                    sig[:,idx_0:idx_end], sig.os, wxy), fs=sig.fb)
+                                    sig[:,idx_0:idx_end], sig.os, wxy, method=method), fs=sig.fb)
     else:
         if np.unique(shiftfctrs).shape[0] > 1:
             modes = np.arange(wxy.shape[0]).reshape(-1, sig.shape[0]).T #needed for real valued eqn
@@ -74,7 +74,7 @@ def _apply_to_pilotsignal(sig, wxy, frames):
                     idx_0 = shiftfctrs[mode[0]] + frame*sig.os*sig.frame_len
                     idx_end = idx_0 + sig.frame_len*sig.os + Ntaps -1
                     eq_mode_sig.append(core.equalisation.apply_filter(
-                        sig[:, idx_0:idx_end], sig.os, wxy, modes=mode))
+                        sig[:, idx_0:idx_end], sig.os, wxy, method=method, modes=mode))
                 all_mode_sig.append(np.squeeze(np.array(eq_mode_sig)))
             return sig.recreate_from_np_array(np.hstack(all_mode_sig), fs=sig.fb)
         else:
@@ -83,7 +83,7 @@ def _apply_to_pilotsignal(sig, wxy, frames):
                 idx_0 = shiftfctrs[0] + frame*sig.os*sig.frame_len
                 idx_end = idx_0 + sig.frame_len*sig.os + Ntaps -1 
                 all_mode_sig.append(core.equalisation.apply_filter(
-                    sig[:,idx_0:idx_end], sig.os, wxy))
+                    sig[:,idx_0:idx_end], sig.os, wxy, method=method))
             return sig.recreate_from_np_array(np.hstack(all_mode_sig), fs=sig.fb)
    
 def apply_filter(sig, wxy, method="pyt", frames=[0]):
@@ -113,7 +113,7 @@ def apply_filter(sig, wxy, method="pyt", frames=[0]):
         equalised signal
     """
     if hasattr(sig, "pilots") and frames: # pilot equaliser needs to be applied to the frame
-        return _apply_to_pilotsignal(sig, wxy, frames)
+        return _apply_to_pilotsignal(sig, wxy, frames, method=method)
     else:
         sig_out = core.equalisation.apply_filter(sig, sig.os, wxy, method=method)
         return sig.recreate_from_np_array(sig_out, fs=sig.fb)
-- 
2.43.0


From e7c48eeb623ca1ef07ced81c89eb7c31063225fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:21 +0000
Subject: [PATCH 33/61] fix: analog filter_signal discarded the quadrature of
 the signal

---
 qampy/core/filter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index e469441..6891061 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -141,7 +141,11 @@ def filter_signal(signal, fs, cutoff, ftype="bessel", order=2, analog=False):
         t = np.arange(0, sig.shape[1])*1/fs
         sig2 = np.zeros_like(sig)
         for i in range(sig.shape[0]):
-            to, yo, xo = scisig.lsim(system, sig[i], t)
+            # lsim discards the imaginary part of complex signals
+            to, yo, xo = scisig.lsim(system, sig[i].real, t)
+            if np.iscomplexobj(sig):
+                to, yi, xo = scisig.lsim(system, sig[i].imag, t)
+                yo = yo + 1j*yi
             sig2[i] = yo.astype(sig.dtype)
     else:
         sig2 = scisig.sosfilt(system.astype(sig.dtype), sig, axis=-1)
-- 
2.43.0


From ade41317a52975af44b567da0c3aaa261f6458b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 34/61] fix: get_data raised for any selection of frames

---
 qampy/signals.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 2f7e0ee..62faf2c 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1767,16 +1767,14 @@ class SignalWithPilots(SignalBase):
         """
         if frames is None:
             frames = np.arange(self.nframes)
-            nframes = self.nframes
         else:
             frames = np.atleast_1d(frames)
-            nframes = np.max(frames)
-            assert nframes <= self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
+            assert np.max(frames) < self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
         #idx = np.hstack([np.nonzero(self._idx_dat)[0] + i * self._frame_len for i in frames] )
-        if nframes < 1:
+        if self.nframes < 1:
             idx = self._idx_dat[:self.shape[-1]]
         else:
-            idx = np.zeros(self.frame_len*nframes, dtype=bool)
+            idx = np.zeros(self.shape[-1], dtype=bool)
             for i in frames:
                 idx[i*self.frame_len:(i+1)*self.frame_len] = self._idx_dat
         return self.symbols.recreate_from_np_array(self[:, idx].copy()) # better save to make copy here
@@ -1799,8 +1797,7 @@ class SignalWithPilots(SignalBase):
             frames = np.arange(self.nframes)
         else:
             frames = np.atleast_1d(frames)
-            nframes = np.max(frames)
-            assert nframes <= self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
+            assert np.max(frames) < self.nframes, "Signal object only contains {} frames can't extract more".format(self.nframes)
         idx = np.hstack([np.nonzero(self._idx_pil)[0] + i * self._frame_len for i in frames] )
         return self.pilots.recreate_from_np_array(self[:, idx])
 
-- 
2.43.0


From 5b7e4dc5e28925fe9123d6549f90fead12089d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 35/61] fix: from_symbol_array kept the bits of the last mode
 only

---
 qampy/signals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 62faf2c..bfa4a56 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -765,8 +765,9 @@ class SignalQAMGrayCoded(SignalBase):
         scale = np.sqrt(theory.cal_scaling_factor_qam(M)) / np.sqrt((abs(np.unique(symbs)) ** 2).mean())
         coded_symbols, graycode, encoding, bitmap_mtx = cls._generate_mapping(M, scale, dtype=dtype)
         out = np.empty_like(symbs).astype(dtype)
+        idx = np.empty(symbs.shape, dtype=int)
         for i in range(symbs.shape[0]):
-            out[i], _, idx = make_decision(np.copy(symbs[i]), coded_symbols) # need a copy to avoid a pythran error
+            out[i], _, idx[i] = make_decision(np.copy(symbs[i]), coded_symbols) # need a copy to avoid a pythran error
         bits = cls._demodulate(idx, encoding)
         obj = np.asarray(out).view(cls)
         obj._M = M
-- 
2.43.0


From 98634551e40dfe2534829de2a868a665b55fc166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:41 +0000
Subject: [PATCH 36/61] fix: TDHQAM signals lost their power method in array
 operations

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index bfa4a56..c90311a 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1227,7 +1227,7 @@ class TDHQAMSymbols(SignalBase):
     fs : float
         sampling rate
     """
-    _inheritattr_ = ["_symbols_M1", "_symbols_M2", "_fr", "_powratio" ]
+    _inheritattr_ = ["_symbols_M1", "_symbols_M2", "_fr", "_powratio", "_power_method"]
 
     def __new__(cls, M, N, fr=0.5, power_method="dist",
                 M1class=SignalQAMGrayCoded, M2class=SignalQAMGrayCoded, **kwargs):
-- 
2.43.0


From 65700725ec3c8d9a1f46366d51c0d70f46744118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 37/61] fix: phase_partition_16qam rotated every mode by four
 times the last mode's phase

---
 qampy/core/phaserecovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 13882ee..7145c99 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -377,9 +377,9 @@ def phase_partition_16qam(E, Nblock):
         ph_out.append(np.unwrap(phi_est) / 4 - np.pi / 4)
     phi_out = np.asarray(ph_out)
     if E.ndim == 1:
-        return (E2d * np.exp(-1.j * phi_est)).flatten(), phi_out.flatten()
+        return (E2d * np.exp(-1.j * phi_out)).flatten(), phi_out.flatten()
     else:
-        return E2d * np.exp(-1.j * phi_est), phi_out
+        return E2d * np.exp(-1.j * phi_out), phi_out
 
 
 def find_freq_offset(sig, os=1, average_over_modes = True, fft_size = 2**16):
-- 
2.43.0


From 9b043b131585b0be2a723de30b6661ea2773a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 38/61] fix: viterbiviterbi returned the phase of the last
 polarisation only

---
 qampy/core/phaserecovery.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 7145c99..85f63ce 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -58,6 +58,7 @@ def viterbiviterbi(E, N, M):
     E2d = np.atleast_2d(E)
     Eout = np.zeros_like(E2d)
     L = E2d.shape[1]
+    ph_out = []
     for i in range(E2d.shape[0]):
         Et = E2d[i]
         L = len(Et)
@@ -71,12 +72,13 @@ def viterbiviterbi(E, N, M):
             Eout[i, (N - 1) // 2:L - (N - 1) // 2] = E2d[i, (N - 1) // 2:L - (N - 1) // 2] * np.exp(-1.j*phase_est)
         else:
             Eout[i, N // 2 - 1:L - (N // 2)] = E2d[i, N // 2 - 1:L - (N // 2)] * np.exp(-1.j*phase_est)
+        ph_out.append(phase_est)
     #if M == 4: # QPSK needs pi/4 shift
     # need a shift by pi/M for constellation points to not be on the axis
     if E.ndim == 1:
-        return  Eout.flatten(), phase_est.flatten()
+        return  Eout.flatten(), ph_out[0]
     else:
-        return Eout, phase_est
+        return Eout, np.asarray(ph_out)
 
 def _bps_idx_py(E, angles, symbols, N):
     """
-- 
2.43.0


From f902be0549d7eb36a0f7d32986649c79e7cc30e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 39/61] fix: spectral rrcos_pulseshaping failed for more than
 one polarisation

---
 qampy/core/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index 6891061..6d7fea0 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -175,7 +175,7 @@ def _rrcos_pulseshaping_freq(sig, fs, T, beta):
     sign_out : array_like
         filtered signal in time domain
     """
-    f = scifft.fftfreq(sig.shape[0])*fs
+    f = scifft.fftfreq(sig.shape[-1])*fs
     nyq_fil = rrcos_freq(f, beta, T)
     nyq_fil /= nyq_fil.max()
     sig_f = scifft.fft(sig)
-- 
2.43.0


From 084e4caa536fb729694bf1e8fd39b58422995720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 40/61] fix: pilot_based_cpe_new compared pilots with the wrong
 references for max_num_blocks and several frames

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 480e7a1..a5ba4c3 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -308,7 +308,7 @@ def pilot_based_cpe_new(signal, pilot_symbs,  pilot_idx, frame_len, seq_len=None
     ilim = pilot_idx_full < nlen
     pilot_idx_full = pilot_idx_full[ilim]
     rec_pilots = signal[:, pilot_idx_full]
-    pilot_symbs = np.tile(pilot_symbs[:, ::use_pilot_ratio], nframes)[:, :rec_pilots.shape[-1]]
+    pilot_symbs = np.tile(pilot_symbs[:, :max_num_blocks:use_pilot_ratio], nframes)[:, :rec_pilots.shape[-1]]
     assert rec_pilots.shape == pilot_symbs.shape, "Inproper pilot configuration, the number of"\
             +" received pilots differs from reference ones"
     # Check for a out of bounch error
-- 
2.43.0


From 30acf44bd17802412012e3d351d2de5fe110f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:09 +0000
Subject: [PATCH 41/61] fix: pilot_based_cpe worked for exactly two
 polarisations only

---
 qampy/core/pilotbased_receiver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index a5ba4c3..521856a 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -147,7 +147,7 @@ def pilot_based_cpe2(rec_symbs, pilot_symbs,  num_average = 1, use_pilot_ratio =
     pp1 = pilot_phase_base[:, :int((num_average-1)/2)]
     pp2 = pilot_phase_average[:]
     t = pilot_phase_base[:,:int((num_average-1)/2)]
-    t2 = pp2[:, -1].reshape(2,1)
+    t2 = pp2[:, -1:]
     pp3 = np.ones(t.shape)*t2
     pilot_phase = np.hstack([pp1, pp2, pp3])
     pilot_pos = np.arange(0,pilot_phase.shape[-1]*pilot_ins_ratio*use_pilot_ratio, pilot_ins_ratio*use_pilot_ratio)
@@ -238,7 +238,7 @@ def pilot_based_cpe(rec_symbs, pilot_symbs, pilot_ins_ratio, num_average = 1, us
     pp1 = pilot_phase_base[:, :int((num_average-1)/2)]
     pp2 = pilot_phase_average[:]
     t = pilot_phase_base[:,:int((num_average-1)/2)]
-    t2 = pp2[:, -1].reshape(2,1)
+    t2 = pp2[:, -1:]
     pp3 = np.ones(t.shape)*t2
     pilot_phase = np.hstack([pp1, pp2, pp3])
     pilot_pos = np.arange(0,pilot_phase.shape[-1]*pilot_ins_ratio*use_pilot_ratio, pilot_ins_ratio*use_pilot_ratio)
-- 
2.43.0


From cf61a43f038ca1b365b540ce3b9dce906d76d274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 42/61] fix: partition_16qam estimates the signal power of a
 16-QAM signal

---
 qampy/core/phaserecovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/phaserecovery.py b/qampy/core/phaserecovery.py
index 85f63ce..3d985b0 100644
--- a/qampy/core/phaserecovery.py
+++ b/qampy/core/phaserecovery.py
@@ -318,7 +318,7 @@ def partition_16qam(E):
        Technol. Lett. …, vol. 22, no. 20, pp. 1515–1517, 2010.
     """
 
-    S0 = cal_s0(E, 1.32)
+    S0 = cal_s0(E, 16)
     inner = (np.sqrt(S0 / 5) + np.sqrt(S0)) / 2.
     outer = (np.sqrt(9 * S0 / 5) + np.sqrt(S0)) / 2.
     Ea = abs(E)
-- 
2.43.0


From b86f739874d630f7ee3d4705f6e4ad7886cbaf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 43/61] fix: cal_gmi passed the linear pilot SNR where decibel
 is expected

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index c90311a..f937c31 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1912,7 +1912,7 @@ class SignalWithPilots(SignalBase):
         if signal_rx is None:
             signal_rx = self.get_data(frames=frames)
         if use_pilot_snr:
-            snr = self.est_snr(use_pilots=True)
+            snr = 10*np.log10(self.est_snr(use_pilots=True))
         return signal_rx.cal_gmi(synced=synced, snr=snr)
 
     def est_snr(self, frames=None, synced=True, signal_rx=None, symbols_tx=None, use_pilots=False):
-- 
2.43.0


From bd26255d00a52d0c1b1d88938bf099a1997d383f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 44/61] fix: parallel training raced on the adaptive step size
 shared by all modes

---
 qampy/core/equalisation/pythran_equalisation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index 348fbf6..6297e6d 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -95,7 +95,8 @@ def train_equaliser_realvalued(E, TrSyms, Niter, os, mu, wx, modes, adaptive, sy
     assert E.shape[1] > TrSyms*os+ntaps, "Field must be longer than the number of training symbols"
     assert modes.max() < nmodes, "Maximum mode number must not be higher than number of modes"
     err = np.zeros((nmodes, TrSyms*Niter), dtype=E.dtype)
-    #omp parallel for
+    # the adaptive step size carries over from one mode to the next, so those cannot be trained at the same time
+    #omp parallel for if(adaptive == 0)
     for mode in modes:
         for it in range(Niter):
             for i in range(TrSyms):
@@ -159,7 +160,8 @@ def train_equaliser(E, TrSyms, Niter, os, mu, wx, modes, adaptive, symbols,  met
         TrSyms == E.shape[1] - ntaps
     assert modes.max() < nmodes, "Maximum mode number must not be higher than number of modes"
     err = np.zeros((nmodes, TrSyms*Niter), dtype=E.dtype)
-    #omp parallel for
+    # the adaptive step size carries over from one mode to the next, so those cannot be trained at the same time
+    #omp parallel for if(adaptive == 0)
     for mode in modes:
         for it in range(Niter):
             for i in range(TrSyms):
-- 
2.43.0


From 18d7dcca9ce787fa2a00eb5a5f468e91b9912c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 45/61] fix: sgncma trained with the error function of cma

---
 qampy/core/equalisation/pythran_equalisation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index 6297e6d..78bbc62 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -132,7 +132,7 @@ def train_equaliser(E, TrSyms, Niter, os, mu, wx, modes, adaptive, symbols,  met
     if method == "mcma":
         errorfct = mcma_error
     elif method == "sgncma":
-        errorfct = cma_error
+        errorfct = sgncma_error
     elif method == "cma2":
         errorfct = cma2_error
     elif method == "cma":
@@ -186,8 +186,9 @@ def cma2_error(Xest, s1, i):
     return d*Xest
 
 def sgncma_error(Xest, s1, i):
-    d = np.sign(s1[0] - abs(Xest)**2)
-    return d*(np.sign(Xest.real)+1j*np.sign(Xest.imag))
+    J = Xest.dtype.type(1j)
+    d = np.sign(s1[0].real - abs(Xest)**2)
+    return d*(np.sign(Xest.real) + np.sign(Xest.imag)*J)
 
 def mcma_error(Xest, s1, i):
     J = Xest.dtype.type(1j)
-- 
2.43.0


From 6b268e608d6d2ec470d7a8c005beeed459883de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 46/61] fix: quantize_signal_New without rescaling quantised
 zeros instead of the signal

---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index c7af8a3..8c27344 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -388,7 +388,7 @@ def quantize_signal_New(sig_in, nbits=6, rescale_in=True, rescale_out=True):
     npols = sig_in.shape[0]
 
     # Rescale to
-    sig = np.zeros((npols, sig_in.shape[1]), dtype=sig_in.dtype)
+    sig = sig_in
     if rescale_in:
         sig = rescale_signal(sig_in, swing=1)
 
-- 
2.43.0


From 0603d445c6a46171fa7f934c46343e7244468d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 47/61] fix: adaptive step size was computed from the previous
 error, adapt_step got its arguments in the wrong order

---
 qampy/core/equalisation/numba_equalisation.py   | 2 +-
 qampy/core/equalisation/pythran_equalisation.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/equalisation/numba_equalisation.py b/qampy/core/equalisation/numba_equalisation.py
index 1379218..ff35dc0 100644
--- a/qampy/core/equalisation/numba_equalisation.py
+++ b/qampy/core/equalisation/numba_equalisation.py
@@ -127,7 +127,7 @@ def train_eq(E, TrSyms, os, mu, wx, errfct,  adaptive=False):
         err[i] = errfct(Xest)
         wx += mu * np.conj(err[i]) * X
         if adaptive and i > 0:
-            mu = adapt_step(mu, err[i], err[i-1])
+            mu = adapt_step(mu, err[i-1], err[i])
     return err, wx, mu
 
 def ErrorFctCMA(R):
diff --git a/qampy/core/equalisation/pythran_equalisation.py b/qampy/core/equalisation/pythran_equalisation.py
index 78bbc62..069a54d 100644
--- a/qampy/core/equalisation/pythran_equalisation.py
+++ b/qampy/core/equalisation/pythran_equalisation.py
@@ -105,7 +105,7 @@ def train_equaliser_realvalued(E, TrSyms, Niter, os, mu, wx, modes, adaptive, sy
                 err[mode, it*TrSyms+i] = errorfct(Xest, symbols[mode], i)
                 wx[mode] += mu * err[mode, it*TrSyms+i] * X
                 if adaptive and i > 0:
-                    mu = adapt_step_real(mu, err[mode, it*TrSyms+i], err[mode, it*TrSyms+i-1])
+                    mu = adapt_step_real(mu, err[mode, it*TrSyms+i-1], err[mode, it*TrSyms+i])
     return err, wx, mu
 
 def cma_error_real(Xest, s1, i):
@@ -171,7 +171,7 @@ def train_equaliser(E, TrSyms, Niter, os, mu, wx, modes, adaptive, symbols,  met
                 #wx[mode] += mu * np.conj(err[mode, it*TrSyms+i]) * X
                 wx[mode] += mu * err[mode, it*TrSyms+i] * np.conj(X)
                 if adaptive and i > 0:
-                    mu = adapt_step(mu, err[mode, it*TrSyms+i], err[mode, it*TrSyms+i-1])
+                    mu = adapt_step(mu, err[mode, it*TrSyms+i-1], err[mode, it*TrSyms+i])
     return err, wx, mu
 
 ######################################################
-- 
2.43.0


From c89f6534cf0905f8fb16213b4730ccad7f27fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 48/61] fix: use the FFT's own frequency grid in the gauss/exp
 filters and PMD

The grid np.linspace(-fs/2, fs/2, n, endpoint=False) only coincides with the
shifted FFT bins for an even number of samples, for odd n it is off by half a
bin, so that the response was not symmetric around DC (real signals became
complex and delayed).
---
 qampy/core/filter.py      | 4 ++--
 qampy/core/impairments.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qampy/core/filter.py b/qampy/core/filter.py
index 6d7fea0..371eeab 100644
--- a/qampy/core/filter.py
+++ b/qampy/core/filter.py
@@ -108,7 +108,7 @@ def filter_signal(signal, fs, cutoff, ftype="bessel", order=2, analog=False):
     """
     sig = np.atleast_2d(signal)
     if ftype == "gauss":
-        f = np.linspace(-fs/2, fs/2, sig.shape[1], endpoint=False, dtype=sig.dtype)
+        f = scifft.fftshift(scifft.fftfreq(sig.shape[1], 1/fs)).astype(sig.dtype)
         w = cutoff/(2*np.sqrt(2*np.log(2))) # might need to add a factor of 2 here do we want FWHM or HWHM?
         g = np.exp(-f**2/(2*w**2))
         fsignal = scifft.fftshift(scifft.fft(scifft.fftshift(sig, axes=-1), axis=-1), axes=-1) * g
@@ -118,7 +118,7 @@ def filter_signal(signal, fs, cutoff, ftype="bessel", order=2, analog=False):
         else:
             return sigout
     if ftype == "exp":
-        f = np.linspace(-fs/2, fs/2, sig.shape[1], endpoint=False, dtype=sig.dtype)
+        f = scifft.fftshift(scifft.fftfreq(sig.shape[1], 1/fs)).astype(sig.dtype)
         w = cutoff/(np.sqrt(2*np.log(2)**2)) # might need to add a factor of 2 here do we want FWHM or HWHM?
         g = np.exp(-np.sqrt((f**2/(2*w**2))))
         g /= g.max()
diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index 8c27344..d4786f8 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -127,7 +127,7 @@ def apply_PMD_to_field(field, theta, t_dgd, fs):
     out  : array_like
        new dual polarisation field with PMD
     """
-    omega = 2*np.pi*np.linspace(-fs/2, fs/2, field.shape[1], endpoint=False)
+    omega = 2*np.pi*fft.fftshift(fft.fftfreq(field.shape[1], 1/fs))
     return _applyPMD_dot(field, theta, t_dgd, omega)
 
 def phase_noise(sz, df, fs):
-- 
2.43.0


From d8dc0838cdaef729055cf15adc9c106bcbd1eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:52 +0000
Subject: [PATCH 49/61] fix: dispersion compensation on the FFT frequency grid,
 also in blocks

The frequency grid of CDcomp included both end points, so that it was stretched
and shifted by half a bin, and in block mode the centred response was applied
to the unshifted spectrum, i.e. to the wrong frequencies.
---
 qampy/core/equalisation/equalisation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/core/equalisation/equalisation.py b/qampy/core/equalisation/equalisation.py
index 4e8bf4d..3b4db41 100644
--- a/qampy/core/equalisation/equalisation.py
+++ b/qampy/core/equalisation/equalisation.py
@@ -620,7 +620,7 @@ def CDcomp(E, fs, N, L, D, wl):
     #H *= H
     #H *= D * wl**2 * L / (c * N**2)
 
-    omega = np.pi * fs * np.linspace(-1,1,N,dtype = complex)
+    omega = 2 * np.pi * np.fft.fftshift(np.fft.fftfreq(N, 1/fs))
     beta2 = D * wl**2 / (c * 2 * np.pi)
 
     H = np.exp(-.5j * omega**2 * beta2 * L )
@@ -641,7 +641,7 @@ def CDcomp(E, fs, N, L, D, wl):
             sigB = np.zeros(N, dtype=np.complex128)
             sigB[zp:-zp] = E[i * n:i * n + n]
             sigB = np.fft.fft(sigB)
-            sigB *= H
+            sigB *= np.fft.ifftshift(H)
             sigB = np.fft.ifft(sigB)
             sB[i, :] = sigB
             sigEQ[i * n:i * n + n + 2 * zp] = sigEQ[i * n:i * n + n + 2 *
-- 
2.43.0


From 74f702001275119473ebf55cb64cab33674fa1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:14 +0000
Subject: [PATCH 50/61] fix: phase pilots of multi-frame signals contained the
 later pilot sequences

The pilots repeat with every frame, ph_pilots only cut off the first pilot
sequence, so that pilot_cpe compared the second and later frames with the wrong
references.
---
 qampy/phaserec.py | 2 +-
 qampy/signals.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/qampy/phaserec.py b/qampy/phaserec.py
index 77e8020..b35bbf5 100644
--- a/qampy/phaserec.py
+++ b/qampy/phaserec.py
@@ -186,7 +186,7 @@ def pilot_cpe(signal, N=3, pilot_rat=1, max_blocks=None, nframes=1, use_seq=Fals
         seq_len = None
         idx = np.nonzero(signal._idx_pil)[0][signal._pilot_seq_len:]
         pilots = signal.ph_pilots
-    out, phase = core.pilotbased_receiver.pilot_based_cpe_new(signal, pilots, idx, signal.frame_len, seq_len=seq_len,
+    out, phase = core.pilotbased_receiver.pilot_based_cpe_new(signal, pilots[:, :idx.shape[-1]], idx, signal.frame_len, seq_len=seq_len,
                                                            max_num_blocks=max_blocks, use_pilot_ratio=pilot_rat, num_average=N,
                                                             nframes=nframes)
     return signal.recreate_from_np_array(out), phase
diff --git a/qampy/signals.py b/qampy/signals.py
index f937c31..d4872f5 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1664,7 +1664,8 @@ class SignalWithPilots(SignalBase):
 
     @property
     def ph_pilots(self):
-        return self._pilots[:, self._pilot_seq_len:]
+        npilots = np.count_nonzero(self._idx_pil) # the pilots repeat with every frame
+        return self._pilots[:, np.arange(self._pilots.shape[-1]) % npilots >= self._pilot_seq_len]
 
     @property
     def pilots(self):
-- 
2.43.0


From 751fdf49abc08de499797ed9443d5daf8f1c7330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 51/61] fix: from_symbol_array with pilot_idx stored index
 lists in place of the frame masks

All other methods take the masks as boolean, and counting the indices missed
index zero, so that the constructor or get_data raised.
---
 qampy/signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index d4872f5..1bad6a1 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1599,8 +1599,8 @@ class SignalWithPilots(SignalBase):
             idx = np.arange(frame_len)
             pidx = np.zeros(idx.shape, dtype=bool)
             pidx[pilot_idx] = True
-            idx_pil = idx[pidx]
-            idx_dat = idx[~pidx]
+            idx_pil = pidx
+            idx_dat = ~pidx
         assert np.count_nonzero(idx_dat) <= N, "data frame is to short for the given frame length"
         if "M" in kwargs:
             assert "M" not in payload_kwargs, "M can not be provided as a argument for payload and signal"
-- 
2.43.0


From 0815b7c1d85970ec5e1fe1706aa70f940c195662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:15 +0000
Subject: [PATCH 52/61] fix: the reference symbols of pilot signals did not
 follow the payload

get_data for some of the frames kept the reference symbols and bits of all of
them, so that error rates of any but the first frames were those of unrelated
data, and a payload truncated to the frame kept its untruncated reference, so
that repeated frames were compared out of step.
---
 qampy/signals.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 1bad6a1..fb3e90a 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -1639,6 +1639,9 @@ class SignalWithPilots(SignalBase):
         obj._pilot_seq_len = pilot_seq_len
         obj._pilot_ins_rat = pilot_ins_rat
         obj._symbols = payload[:, :Ndat].copy()
+        ref = getattr(obj._symbols, "_symbols", None)
+        if ref is not None and ref.shape[-1] > Ndat:
+            cls._pick_symbols(obj._symbols, np.arange(Ndat))
         obj._pilots = pilots
         obj._idx_dat = idx_dat
         obj._idx_pil = idx_pil
@@ -1779,7 +1782,22 @@ class SignalWithPilots(SignalBase):
             idx = np.zeros(self.shape[-1], dtype=bool)
             for i in frames:
                 idx[i*self.frame_len:(i+1)*self.frame_len] = self._idx_dat
-        return self.symbols.recreate_from_np_array(self[:, idx].copy()) # better save to make copy here
+        out = self.symbols.recreate_from_np_array(self[:, idx].copy()) # better save to make copy here
+        ndat = np.count_nonzero(self._idx_dat)
+        ref = getattr(out, "_symbols", None)
+        if self.nframes > 0 and ref is not None and ref.shape[-1] > max(np.max(frames), 1)*ndat: # data differs between frames
+            self._pick_symbols(out, np.hstack([np.arange(i*ndat, (i+1)*ndat) for i in np.unique(frames)]))
+        return out
+
+    @staticmethod
+    def _pick_symbols(signal, idx):
+        """Restrict the reference symbols and bits of a signal to the symbols with the given indices"""
+        nsym = signal._symbols.shape[-1]
+        signal._symbols = signal._symbols[:, idx].copy()
+        if getattr(signal, "_bits", None) is not None:
+            bits = np.atleast_2d(signal._bits)
+            bits = bits[:, :nsym*signal.Nbits].reshape(bits.shape[0], nsym, signal.Nbits)
+            signal._bits = bits[:, idx].reshape(bits.shape[0], -1)
 
     def extract_pilots(self, frames=None):
         """
-- 
2.43.0


From 70e99fc8472580b09df235a66a65979ceb210931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:24 +0000
Subject: [PATCH 53/61] fix: the second pilot equaliser stage used QPSK for any
 pilot order when the modes have different shifts

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index 521856a..efee07e 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -539,7 +539,7 @@ def equalize_pilot_sequence(rx_signal, ref_symbs, shift_fctrs, os, foe_comp=Fals
                 rx_sig_mode = phaserecovery.comp_freq_offset(rx_sig_mode, np.ones(foePerMode.shape)*foe, os=os)
             out_taps, err = equalisation.equalise_signal(rx_sig_mode, os, mu[0], M_pilot, wxy=out_taps, Ntaps=Ntaps, Niter=Niter,
                                                                 method=methods[0], adaptive_stepsize=adaptive_stepsize, modes=[i], symbols=ref_symbs, apply=False)
-            out_taps, err = equalisation.equalise_signal(rx_sig_mode, os, mu[1], 4, wxy=out_taps, Ntaps=Ntaps, Niter=Niter,
+            out_taps, err = equalisation.equalise_signal(rx_sig_mode, os, mu[1], M_pilot, wxy=out_taps, Ntaps=Ntaps, Niter=Niter,
                                                          method=methods[1], adaptive_stepsize=adaptive_stepsize, modes=[i], symbols=ref_symbs, apply=False)
     else:
         rx_sig_mode = rx_signal[:, shift_fctrs[0] : shift_fctrs[0] + pilot_seq_len * os + Ntaps - 1]
-- 
2.43.0


From 4bed22b98088b74f27221ff2f6673d3400fbeac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:53 +0000
Subject: [PATCH 54/61] fix: the pilot equaliser assumed QPSK pilots for every
 signal

---
 qampy/equalisation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index c1ffa7a..a2d3e3a 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -320,6 +320,7 @@ def pilot_equaliser(signal, mu, Ntaps, apply=True, foe_comp=True, wxinit=None, f
     eq_shiftfctrs = eq_shiftfctrs + signal.os*signal.frame_len*frame
     assert signal.shape[-1] - eq_shiftfctrs.max() > signal.frame_len*signal.os, "You are trying to equalise an incomplete frame which does not work"
     
+    eqkwargs = dict({"M_pilot": signal.Mpilots}, **eqkwargs)
     taps_all, foe_all = pilotbased_receiver.equalize_pilot_sequence(signal, signal.pilot_seq, eq_shiftfctrs, os=signal.os, mu=mu,
                                                                     foe_comp=foe_comp, Ntaps = Ntaps, wxinit=wxinit, **eqkwargs)
     if foe_comp:
-- 
2.43.0


From 2eb4f016e0dc39bcc7e1ee8342197ea024ba8a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 55/61] fix: pilot_equaliser_nframes took the first mode's taps
 for all taps when only taps are asked for

---
 qampy/equalisation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qampy/equalisation.py b/qampy/equalisation.py
index a2d3e3a..99fa7d6 100644
--- a/qampy/equalisation.py
+++ b/qampy/equalisation.py
@@ -386,6 +386,8 @@ def pilot_equaliser_nframes(signal, mu, Ntaps, apply=True, foe_comp=True, frames
     rets= []
     for i in frames:
         ret = pilot_equaliser(signal, mu, Ntaps, apply=apply, foe_comp=foe_comp, wxinit=wxinit, verbose=verbose, frame=i, **eqkwargs)
+        if not isinstance(ret, tuple): # only the taps
+            ret = (ret,)
         if i == 0:
             wxinit = ret[0]
         rets.append(ret)
@@ -395,5 +397,7 @@ def pilot_equaliser_nframes(signal, mu, Ntaps, apply=True, foe_comp=True, frames
         sout = np.array(np.hstack(out[1])) # need to convert to array first to avoid an infinite recursion
         sout = signal.recreate_from_np_array(sout, fs=signal.fb)
         return out[0], sout, out[2:]
-    else:
+    elif verbose:
         return out
+    else:
+        return out[0]
-- 
2.43.0


From 58ab11ae091471a56b4b978c64bbe01fc6cb5939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:54 +0000
Subject: [PATCH 56/61] fix: shift_signal moved single-mode signals in the
 opposite direction

---
 qampy/core/pilotbased_receiver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/pilotbased_receiver.py b/qampy/core/pilotbased_receiver.py
index efee07e..61b8a49 100644
--- a/qampy/core/pilotbased_receiver.py
+++ b/qampy/core/pilotbased_receiver.py
@@ -448,7 +448,7 @@ def shift_signal(sig, shift_factors):
         for i in range(k):
             sig[i] = np.roll(sig[i], -shift_factors[i])
     else:
-        sig = np.roll(sig, shift_factors, axis=-1)
+        sig = np.roll(sig, -np.asarray(shift_factors), axis=-1)
     return sig
 
 def equalize_pilot_sequence(rx_signal, ref_symbs, shift_fctrs, os, foe_comp=False, mu=(1e-4, 1e-4), M_pilot=4, Ntaps=45, Niter=30,
-- 
2.43.0


From 0e92132db46c091dcf6a7c82b7105f4e0a682392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 57/61] fix: adjust_data_length extended data_tx beyond data_rx
 for negative offsets

---
 qampy/core/ber_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/ber_functions.py b/qampy/core/ber_functions.py
index 454a79f..af78259 100644
--- a/qampy/core/ber_functions.py
+++ b/qampy/core/ber_functions.py
@@ -273,7 +273,7 @@ def adjust_data_length(data_tx, data_rx, method=None, offset=0):
                 data_tx = _adjust_to(data_tx, data_rx.shape[0])
             else:
                 data_tx1 = _adjust_to(data_tx, offset, back=False)
-                data_tx2 = _adjust_to(data_tx, data_rx.shape[0]-offset)
+                data_tx2 = _adjust_to(data_tx, data_rx.shape[0]-data_tx1.shape[0])
                 data_tx = np.hstack([data_tx1, data_tx2])
             return data_tx, data_rx
         else:
-- 
2.43.0


From 3f650a7925f292817f4936f2c5d4f041e0620f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:20 +0000
Subject: [PATCH 58/61] fix: find_offset found sequences that start in the
 middle of an element

---
 qampy/core/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qampy/core/utils.py b/qampy/core/utils.py
index 193c8da..0dc737e 100644
--- a/qampy/core/utils.py
+++ b/qampy/core/utils.py
@@ -150,7 +150,12 @@ def find_offset(sequence, data):
         data = data.astype(sequence.dtype)
     # using this string conversion method is much faster than array methods,
     # however it only finds the first occurence
-    return data.tobytes().index(sequence.tobytes()) // data.itemsize
+    data_bytes, sequence_bytes = data.tobytes(), sequence.tobytes()
+    idx = data_bytes.index(sequence_bytes)
+    # skip matches that do not start at the beginning of an element
+    while idx % data.itemsize:
+        idx = data_bytes.index(sequence_bytes, idx + 1)
+    return idx // data.itemsize
 
 
 def rolling_window(data, size, wrap=False):
-- 
2.43.0


From d60ca4416f9c0ca656a4bfd6dc4a31de30f991bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:12 +0000
Subject: [PATCH 59/61] fix: from_bit_array kept the surplus bits that are not
 modulated

---
 qampy/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index fb3e90a..0544fb8 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -821,7 +821,7 @@ class SignalQAMGrayCoded(SignalBase):
         obj._M = M
         obj._fb = fb
         obj._fs = fb
-        obj._bits = bits
+        obj._bits = arr
         obj._encoding = encoding
         obj._code = graycode
         obj._bitmap_mtx = bitmap_mtx
-- 
2.43.0


From 2beddfe9f2362b7731b8777042d5f9c9f290373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:28 +0000
Subject: [PATCH 60/61] fix: PRBSBits ignored given orders and seeds of later
 modes and failed or locked up when choosing seeds

---
 qampy/signals.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/qampy/signals.py b/qampy/signals.py
index 0544fb8..0cafeaf 100644
--- a/qampy/signals.py
+++ b/qampy/signals.py
@@ -112,22 +112,18 @@ class PRBSBits(np.ndarray):
             tuple of ints for the PRBS order per mode
     """
     def __new__(cls, N, nmodes=1, seed=[None, None], order=[15, 23]):
-        if len(order) < nmodes:
+        if len(order) < nmodes or len(seed) < nmodes:
             warnings.warn("PRBSorder is not given for all dimensions, picking random orders and seeds")
             order_n = []
             seed_n = []
             orders = [15, 23]
             for i in range(nmodes):
-                try:
-                    order_n.append(order[i])
-                    seed_n.append(seed[i])
-                except IndexError:
-                    o = np.random.choice(orders)
-                    order_n.append(o)
-                    s = np.random.randint(0, 2 ** o)
-                    seed_n.append(s)
-                order = order_n
-                seed = seed_n
+                o = order[i] if i < len(order) else np.random.choice(orders)
+                s = seed[i] if i < len(seed) else np.random.randint(1, 2 ** o) # the register is stuck for a seed of 0
+                order_n.append(o)
+                seed_n.append(s)
+            order = order_n
+            seed = seed_n
         bits = np.empty((nmodes, N), dtype=bool)
         for i in range(nmodes):
             bits[i][:] = make_prbs_extXOR(order[i], N, seed[i])
-- 
2.43.0


From 2937f987594d5f3a239c4cdba3cd46f5182afeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:17 +0000
Subject: [PATCH 61/61] fix: sign of the dispersion added to a signal

The group velocity dispersion is -D*wl**2/(2*pi*c); without the minus sign the
dispersion of CDcomp for the same fibre added to that of add_dispersion instead
of removing it.
---
 qampy/core/impairments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qampy/core/impairments.py b/qampy/core/impairments.py
index d4786f8..a0c9b08 100644
--- a/qampy/core/impairments.py
+++ b/qampy/core/impairments.py
@@ -696,7 +696,7 @@ def add_dispersion(sig, fs, D, L, wl0=1550e-9):
     C = 2.99792458e8
     N = sig.shape[-1]
     omega = fft.fftfreq(N, 1/fs)*np.pi*2
-    beta2 = D * wl0**2 / (C*np.pi*2)
+    beta2 = -D * wl0**2 / (C*np.pi*2)
     H = np.exp(-0.5j * omega**2 * beta2 * L).astype(sig.dtype)
     sff = fft.fft(fft.ifftshift(sig, axes=-1), axis=-1)
     sig_out = fft.fftshift(fft.ifft(sff*H, axis=-1), axes=-1)
-- 
2.43.0

