"""C23 closed-form quantities equal their documented formulas."""
import ast
import inspect
import itertools
from .common import *
from .. import formula as F
from ..formula import Ev, Cx, Const, Opaque, Unknown, Raised, Cond, spec, equal, key, num, cmul, cadd, cdiv, cneg, linear

EXPLANATION = ("Each listed function is evaluated from its source in the domain of algebraic normal forms (sums of products of atoms with exact coefficients, real and imaginary part apart; random draws, grids, spectra and "
               "selections are atoms) and the form of its result is compared with the form of the documented or textbook formula, for each documented branch.")
FLOOR = 92


def P(n):
    """a positive number"""
    return F.real("p." + n, positive=True, scalar=True)


def R(n):
    """a real field"""
    return F.real(n)


def S(n):
    """a number"""
    return F.real("s." + n, scalar=True)


def Z(n):
    """a complex field"""
    return F.cplx(n)


def ZS(n):
    """a complex number"""
    F.SCALAR.update(("z.%s.re" % n, "z.%s.im" % n))
    return F.cplx("z." + n)


K = F.real("k")
FI = F.real("fbin")
F.MAGNITUDE["s.Lw"] = 1e21
F.MAGNITUDE["s.L"] = F.MAGNITUDE["p.wl0"] = 3e4
n, m2 = P("n"), P("modes")
D1, D2 = (n,), (m2, n)


def prims(extra=None):
    ident = lambda ev, a, k: a[0]
    out = {}

    def retag(v, t):
        if isinstance(v, tuple):
            return tuple(retag(x, t) for x in v)
        if not isinstance(v, Cx):
            return v
        r = Cx(v.re, v.im, v.cplx)
        if getattr(v, "rank", None) is not None:
            r.rank = v.rank
        r.tag = t(getattr(v, "tag", None), v)
        return r

    def fft(ev, a, k):
        return retag(a[0], lambda t, v: ("f", t[1], 0) if t and t[0] == "t" else None)

    def ifft(ev, a, k):
        def g(t, v):
            if t is None or t[0] == "t":
                return None
            if t[2]:
                ev.disorder.append("a spectrum that is still shifted is transformed back")
            return ("t", t[1], 0)
        return retag(a[0], g)

    def shift(s):
        def g(t, v):
            if t is None:
                return None
            return ("t", None if t[1] is None else t[1] + s, 0) if t[0] == "t" else ("f", t[1], t[2] + s)
        return lambda ev, a, k: retag(a[0], g)
    for mod in ("scipy.fft.", "numpy.fft.", "scipy.fftpack."):
        out[mod + "fft"], out[mod + "ifft"], out[mod + "fftshift"], out[mod + "ifftshift"] = fft, ifft, shift(1), shift(-1)

        def fftfreq(ev, a, k):
            N = a[0] if a else k["n"]
            d = a[1] if len(a) > 1 else k.get("d", num(1))
            return retag(cdiv(FI, cmul(N, d)), lambda t, v: ("f", None, 0))
        out[mod + "fftfreq"] = fftfreq
    count = []

    def draw():
        count.append(1)
        return F.real("N%d" % len(count))
    out["numpy.random.randn"] = out["numpy.random.standard_normal"] = lambda ev, a, k: draw()

    def normal(ev, a, k):
        loc = a[0] if a else k.get("loc", num(0))
        sc = a[1] if len(a) > 1 else k.get("scale", num(1))
        return cadd(loc, cmul(sc, draw()))
    out["numpy.random.normal"] = normal

    def arange(ev, a, k):
        a = list(a)
        for x in ("start", "stop", "step"):
            if x in k:
                raise Unknown("arange")
        if len(a) == 1:
            return K
        r = cadd(a[0], cmul(a[2] if len(a) > 2 else num(1), K))
        return r

    def linspace(ev, a, k):
        N = a[2] if len(a) > 2 else k["num"]
        ep = k.get("endpoint", a[3] if len(a) > 3 else Const(True))
        if not isinstance(ep, Const) or not isinstance(N, Cx):
            raise Unknown("linspace")
        d = cadd(N, num(-1)) if ep.v else N
        r = cadd(a[0], cdiv(cmul(cadd(a[1], cneg(a[0])), K), d))
        if r.const() is None:
            r = F.Cx(r.re, r.im, r.cplx)
            r.length = N
        return r
    out["numpy.arange"], out["numpy.linspace"] = arange, linspace

    def dot(ev, a, k):
        x, y = a
        if not (isinstance(x, tuple) and isinstance(y, tuple)):
            raise Unknown("dot")
        r = []
        for row in x:
            if len(row) != len(y):
                raise Unknown("dot")
            t = num(0)
            for u, v in zip(row, y):
                t = ev.ranked(cadd(t, cmul(u, v)), t, v)
            r.append(t)
        return tuple(r)
    out["numpy.dot"] = out["numpy.matmul"] = dot
    out["scipy.signal.fftconvolve"] = lambda ev, a, k: a[1]

    def unique(ev, a, k):
        u = F.Cx(F.atom("unique", a[0].re))
        if k.get("return_counts") is not None:
            return (u, F.Cx(F.atom("counts", a[0].re)))
        return u
    out["numpy.unique"] = unique
    out["warnings.warn"] = lambda ev, a, k: Const(None)
    out.update(extra or {})
    return out


def misplaced(v):
    if isinstance(v, tuple):
        return any(map(misplaced, v))
    t = getattr(v, "tag", None)
    return bool(t) and t[0] == "t" and bool(t[1])


SPECS = []


def bound(ev, fn, a, k, n):
    """the arguments of a call in the order of the parameters"""
    f = ev.p.func(fn) if ev.p is not None else None
    a = tuple(a) + (tuple(k[x] for x in f.pos[len(a):] if x in k) if f is not None else ())
    if len(a) != n or any(not isinstance(x, Cx) for x in a):
        raise Unknown(fn.split(".")[-1])
    return a


def sp(fn, args, want, shape=D1, what="", anyof=None, pr=None, **kw):
    SPECS.append(dict(fn="qampy." + fn, args=args, want=want, shape=shape, what=what, anyof=anyof or [], pr=pr or {}, **kw))


# ---------------------------------------------------------------- theory
T = "theory."
snr, M = P("snr"), P("M")
sp(T + "ser_vs_es_over_n0_qam", dict(snr=snr, M=M), "2*(1-1/sqrt(M))*erfc(sqrt(3*snr/(2*(M-1)))) - (1-1/sqrt(M))**2*erfc(sqrt(3*snr/(2*(M-1))))**2")
QF = "0.5*erfc(sqrt(3*log2(sqrt(M))/(M-1)*2*%s/log2(M))/sqrt(2))*2*(1-1/sqrt(M))/log2(sqrt(M))"
sp(T + "ber_vs_es_over_n0_qam", dict(snr=snr, M=M), QF % "snr")
sp(T + "ber_vs_evm_qam", dict(evm_dB=S("evm_dB"), M=M), QF % "10**(-evm_dB/10)")
sp(T + "ser_vs_es_over_n0_psk", dict(snr=snr, M=M), "erfc(sqrt(snr)*sin(pi/M))")
sp(T + "ser_vs_es_over_n0_4pam", dict(snr=snr), "3/4*erfc(sqrt(snr/5))")
sp(T + "cal_symbols_psk", dict(M=num(8)), "exp(2j*pi*k/8)", k=K)
sp(T + "cal_symbols_psk", dict(M=num(16)), "exp(2j*pi*k/16)", k=K)
sp(T + "cal_symbols_psk", dict(M=num(4)), "exp(1j*(2*pi*k/4 + pi/4))", k=K)
SYM = {"qampy.theory.cal_symbols_qam": lambda ev, a, k: Z("s")}
for q in (4, 16, 64, 256):
    sp(T + "cal_scaling_factor_qam", dict(M=num(q)), str(2 * (q - 1)) + "/3", pr=SYM, what="M=%d" % q)
for q in (8, 32, 128):
    sp(T + "cal_scaling_factor_qam", dict(M=num(q)), "mean(abs(s)**2)", pr=SYM, s=Z("s"), what="M=%d" % q)
HQ = "%s*0.5*erfc(sqrt(3*log2(sqrt(M%d))/(M%d-1)*2*%s/log2(M%d))/sqrt(2))*2*(1-1/sqrt(M%d))/log2(sqrt(M%d))"
sp(T + "hybrid_qam_ber_vs_esn0", dict(snr=S("snrdb"), pr=P("pr"), fr=S("fr"), M1=P("M1"), M2=P("M2")),
   "x = 10**(snr/10)/(1 - fr + fr*pr)\n(" + HQ % ("(1-fr)*log2(M1)", 1, 1, "x", 1, 1, 1) + " + " + HQ % ("fr*log2(M2)", 2, 2, "pr*x", 2, 2, 2) + ")/((1-fr)*log2(M1) + fr*log2(M2))")
sp(T + "sim_mi_mc", dict(symbols=Z("s"), snr=S("snrdb"), N=n), "(sqrt(10**(-snr/10)/2)*(N1 + 1j*N2), symbols/sqrt(mean(abs(symbols)**2)), 10**(-snr/10))",
   pr={"qampy.core.pythran_dsp.cal_mi_mc": lambda ev, a, k: bound(ev, "qampy.core.pythran_dsp.cal_mi_mc", a, k, 3)}, draws=2)
sp(T + "cal_ps_probablts", dict(symbols=Z("s"), nu=P("nu")), "u = unique(symbols.real)\n(u, exp(-nu*u**2)/sum(exp(-nu*u**2)))")
# ---------------------------------------------------------------- special functions
SF = "core.special_fcts."
G = dict(x=R("x"), A=S("A"), x0=S("x0"), w=S("w"))
sp(SF + "ttanh", G, "A*tanh((x-x0)/w)")
sp(SF + "gauss", G, "A*exp(-(x-x0)**2/(2*w**2))")
sp(SF + "supergauss", dict(G, o=num(3)), "A*exp(-((x-x0)/w)**6/2)")
sp(SF + "supergauss", dict(G, o=num(1)), "A*exp(-((x-x0)/w)**2/2)")
sp(SF + "sech", G, "A/cosh((x-x0)/w)")
RC = dict(beta=P("beta"), T=P("T"))
sp(SF + "rcos_time", dict(RC, t=R("t")), "sinc(t/T)*cos(pi*beta*t/T)/(1-(2*beta*t/T)**2)")
RCF = """
y = where(abs(f) <= (1+beta)/(2*T), T/2*(1 + cos(pi*T/beta*(abs(f) - (1-beta)/(2*T)))), 0)
where(abs(f) <= (1-beta)/(2*T), T, y)"""
sp(SF + "rcos_freq", dict(RC, f=R("f")), RCF)
sp(SF + "rrcos_freq", dict(RC, f=R("f")), RCF.replace("\nwhere(", "\nsqrt(where(") + ")")
RRT = """
y = (sin(pi*t/T*(1-beta)) + 4*beta*t/T*cos(pi*t/T*(1+beta)))/(pi*t/T*(1-(4*beta*t/T)**2))/T
eps = abs(t[0]-t[1])/4
y = where(abs(t) < eps, (1+beta*(4/pi-1))/T, y)
y = where(abs(abs(t)-T/(4*beta)) < eps, beta/(T*sqrt(2))*((1+2/pi)*sin(pi/(4*beta)) + (1-2/pi)*cos(pi/(4*beta))), y)
"""
sp(SF + "rrcos_time", dict(RC, t=R("t")), RRT + "y")
sp(SF + "q_function", dict(x=S("x")), "erfc(x/sqrt(2))/2")
# ---------------------------------------------------------------- helpers
H = "helpers."
E = Z("E")
sp(H + "cabssquared", dict(x=E), "abs(x)**2")
sp(H + "dB2lin", dict(x=S("x")), "10**(x/10)")
sp(H + "lin2dB", dict(x=P("x")), "10*log10(x)")
for sh in (D1, D2):
    sp(H + "normalise_and_center", dict(E=E), "c = E - mean(E, axis=-1)\nc/sqrt(mean(abs(c)**2, axis=-1))", shape=sh)
    sp(H + "get_center_shift_fac", dict(E=E), "-mean(E, axis=-1)", shape=sh)
    sp(H + "normalise_and_center_pil", dict(sig=E, idx_pil=Cond(("free", "pilots"))), "c = mean(sig[idx_pil], axis=-1)\n(sig - c)/sqrt(mean(abs(sig[idx_pil] - c)**2, axis=-1))", shape=sh)
sp(H + "rescale_signal", dict(E=E, swing=P("swing")), "E*swing/maximum(max(abs(E.real), axis=-1), max(abs(E.imag), axis=-1))", shape=D2)
sp(H + "rescale_signal", dict(E=R("Er"), swing=P("swing")), "E*swing/max(abs(E), axis=-1)", shape=D2)
sp(H + "set_mid_point", dict(E=E, mid_pos=ZS("mid")), "E + mid_pos - ((max(E.real)+min(E.real)) + 1j*(max(E.imag)+min(E.imag)))/2")
sp(H + "set_mid_point", dict(E=R("Er"), mid_pos=S("mid")), "E + mid_pos - (max(E)+min(E))/2")
# ---------------------------------------------------------------- impairments
I = "core.impairments."
sig, fs, fb = Z("sig"), P("fs"), P("fb")
sp(I + "add_awgn", dict(sig=sig, strgth=P("strgth")), "sig + strgth*(N1 + 1j*N2)/sqrt(2)", draws=2)
sp(I + "change_snr", dict(sig=sig, snr=S("snrdb"), fb=fb, fs=fs), "sig + sqrt(mean(abs(sig)**2)*10**(-snr/10)*fs/fb/2)*(N1 + 1j*N2)", draws=2)
for sh in (D1, D2):
    sp(I + "phase_noise", dict(sz=sh, df=P("df"), fs=fs), "cumsum(sqrt(2*pi*df/fs)*N1, axis=-1)", shape=sh, draws=1)
    sp(I + "apply_phase_noise", dict(signal=sig, df=P("df"), fs=fs), "signal*exp(1j*cumsum(sqrt(2*pi*df/fs)*N1, axis=-1))", shape=sh, draws=1)
    sp(I + "add_carrier_offset", dict(sig=sig, fo=S("fo"), fs=fs), "sig*exp(2j*pi*k*fo/fs)", shape=sh, k=K, anyof=["sig*exp(2j*pi*(k+1)*fo/fs)"])
xy = (Z("x"), Z("y"))
th, dgd = S("theta"), S("dgd")
ROT = "(cos(theta)*%s - sin(theta)*%s, sin(theta)*%s + cos(theta)*%s)"
sp(I + "rotate_field", dict(field=xy, theta=th), ROT % ("x", "y", "x", "y"), x=xy[0], y=xy[1])
sp(I + "apply_PMD_to_field", dict(field=xy, theta=th, t_dgd=dgd, fs=fs), "w = 2*pi*fbin*fs/n\na = (cos(theta)*x - sin(theta)*y)*exp(-1j*w*t_dgd/2)\nb = (sin(theta)*x + cos(theta)*y)*exp(1j*w*t_dgd/2)\n"
   "(cos(theta)*a + sin(theta)*b, -sin(theta)*a + cos(theta)*b)", x=xy[0], y=xy[1], fbin=FI, n=n,
   anyof=["w = 2*pi*fbin*fs/n\na = (cos(theta)*x - sin(theta)*y)*exp(1j*w*t_dgd/2)\nb = (sin(theta)*x + cos(theta)*y)*exp(-1j*w*t_dgd/2)\n(cos(theta)*a + sin(theta)*b, -sin(theta)*a + cos(theta)*b)"])
sp(I + "add_dispersion", dict(sig=sig, fs=fs, D=S("D"), L=S("L"), wl0=P("wl0")), "w = 2*pi*fbin*fs/n\nsig*exp(1j*w**2*D*wl0**2*L/(4*pi*299792458))", fbin=FI, n=n)
sp(I + "add_dispersion", dict(sig=sig, fs=fs, D=S("D"), L=S("Lw")), "w = 2*pi*fbin*fs/n\nsig*exp(1j*w**2*D*1.55e-6**2*L/(4*pi*299792458))", fbin=FI, n=n, what="default wavelength")
sp("core.equalisation.equalisation.CDcomp", dict(E=sig, fs=fs, N=num(0), D=S("D"), L=S("L"), wl=P("wl0")), "h = exp(-1j*(2*pi*fbin*fs/n)**2*D*wl**2*L/(4*pi*299792458))\n(E*h, h)", fbin=FI, n=n, shape=D1, what="one block")
MZ = dict(rfsig=E, dcbias=ZS("dc"), gfactr=ZS("g"), cfactr=ZS("cf"), dcbias_out=S("dco"), gfactr_out=S("go"))
MZW = """
ei = -(exp(1j*pi*(rfsig.real + dcr)*(1 + cfr)/2) + gr*exp(-1j*pi*(rfsig.real + dcr)*(1 - cfr)/2))/(1 + gr)
eq = -(exp(1j*pi*(rfsig.imag + dci)*(1 + cfi)/2) + gi*exp(-1j*pi*(rfsig.imag + dci)*(1 - cfi)/2))/(1 + gi)
exp(1j*pi/4)*(ei*exp(-1j*pi*dcbias_out/2) + gfactr_out*eq*exp(1j*pi*dcbias_out/2))/(1 + gfactr_out)
"""
sp(I + "modulator_response", MZ, MZW.replace("dcr", "dcbias.real").replace("dci", "dcbias.imag").replace("gr", "gfactr.real").replace("gi", "gfactr.imag").replace("cfr", "cfactr.real").replace("cfi", "cfactr.imag"))
sp(I + "modulator_response", dict(MZ, dcbias=S("dcx"), gfactr=S("gx"), cfactr=S("cx")),
   MZW.replace("dcr", "dcbias").replace("dci", "dcbias").replace("gr", "gfactr").replace("gi", "gfactr").replace("cfr", "cfactr").replace("cfi", "cfactr"), what="real parameters")
sp(I + "modulator_response", dict(rfsig=E), "ei = -(exp(1j*pi*(rfsig.real + 1)/2) + exp(-1j*pi*(rfsig.real + 1)/2))/2\neq = -(exp(1j*pi*(rfsig.imag + 1)/2) + exp(-1j*pi*(rfsig.imag + 1)/2))/2\n"
   "exp(1j*pi/4)*(ei*exp(-1j*pi/4) + eq*exp(1j*pi/4))/2", what="defaults")
sp(I + "er_to_g", dict(ext_rat=S("er")), "(10**(ext_rat/20) - 1)/(10**(ext_rat/20) + 1)")
ENW = "x = %s\nd = x/2**(enob-1)\nnp2 = d**2/12\n"
ENC = ENW % "maximum(max(abs(sig.real)), max(abs(sig.imag)))"
sp(I + "apply_enob_as_awgn", dict(sig=sig, enob=S("enob")), ENC + "sig + sqrt(np2)*(N1 + 1j*N2)", draws=2)
sp(I + "apply_enob_as_awgn", dict(sig=sig, enob=S("enob"), verbose=Const(True)), ENC + "(sig + sqrt(np2)*(N1 + 1j*N2), 10*log10(mean(abs(sig)**2)/(2*np2)))", draws=2)
sp(I + "apply_enob_as_awgn", dict(sig=R("sr"), enob=S("enob"), verbose=Const(True)), ENW % "max(abs(sig))" + "(sig + sqrt(np2)*(N1 + 1j*N2), 10*log10(mean(abs(sig)**2)/(2*np2)))", draws=2, what="real signal")
sp(I + "ideal_amplifier_response", dict(sig=sig, out_volt=P("volt")), "sig*out_volt/maximum(max(abs(sig.real)), max(abs(sig.imag)))")
DIG = {"numpy.digitize": lambda ev, a, k: F.Cx(F.atomn("digitize" + ("r" if isinstance(k.get("right"), Const) and k["right"].v else ""), (a[0].re, a[1].re)))}
for ro in (True, False):
    for ri in (True, False):
        sp(I + "quantize_signal_New", dict(sig_in=sig, nbits=num(6), rescale_in=Const(ri), rescale_out=Const(ro)),
           "m = maximum(max(abs(sig_in.real), axis=%s), max(abs(sig_in.imag), axis=%s))\nx = %s\nl = lambda_\n" % (-1, -1, "sig_in/m" if ri else "sig_in") +
           "e = (-1 + (k + 1)/32)[:-1]\nq = -1 + 1/64 + 2*(digitize(x.real, e))/64 + 1j*(-1 + 1/64 + 2*digitize(x.imag, e)/64)\n" + ("q*maximum(max(abs(sig_in.real)), max(abs(sig_in.imag)))" if ro else "q"),
           shape=D2, pr=DIG, k=K, lambda_=num(0), what="rescale_in=%s, rescale_out=%s" % (ri, ro))
# ---------------------------------------------------------------- filters
FL = "core.filter."
for sh in (D1, D2):
    sp(FL + "filter_signal", dict(signal=sig, fs=fs, cutoff=P("fc"), ftype=Const("gauss")), "f = fbin*fs/n\nsignal*exp(-f**2*4*log(2)/cutoff**2)", shape=sh, fbin=FI, n=n, what="gauss")
    sp(FL + "filter_signal", dict(signal=sig, fs=fs, cutoff=P("fc"), ftype=Const("exp")), "f = fbin*fs/n\ng = exp(-abs(f)*log(2)/cutoff)\nsignal*g/max(g)", shape=sh, fbin=FI, n=n, what="exp")
# the documentation has cutoff as the 3 dB cutoff of every filter type; these two are a known finding
sp(FL + "filter_signal", dict(signal=sig, fs=fs, cutoff=P("fc"), ftype=Const("gauss")), "f = fbin*fs/n\nsignal*exp(-f**2*log(2)/(2*cutoff**2))", fbin=FI, n=n, what="gauss 3 dB cutoff")
sp(FL + "filter_signal", dict(signal=sig, fs=fs, cutoff=P("fc"), ftype=Const("exp")), "f = fbin*fs/n\ng = exp(-abs(f)*log(2)/(2*cutoff))\nsignal*g/max(g)", fbin=FI, n=n, what="exp 3 dB cutoff")
SYSN = ["N", "Wn", "btype", "analog", "output", "norm", "fs"]


def system(kind):
    def f(ev, a, k):
        names = SYSN if kind == "bessel" else [x for x in SYSN if x != "norm"]
        d = dict(btype=Const("low"), analog=Const(False), norm=Const("phase"), fs=Const(None))
        d.update(zip(names, a))
        d.update(k)
        if kind != "bessel":
            d.pop("norm")
        return F.real("%s(%s)" % (kind, ", ".join("%s=%s" % (n_, key(v.re) if isinstance(v, Cx) else v.v) for n_, v in sorted(d.items()))), scalar=True)
    return f


def sosfilt(ev, a, k):
    ax = k.get("axis", num(-1))
    fn = "sosfilt" if ax.const() in (-1, len(ev.shape) - 1) else "sosfilt_ax"
    return F.Cx(F.atomn(fn, (a[0].re, a[1].re)), F.atomn(fn, (a[0].re, a[1].im)) if a[1].im else {}, a[1].cplx)


def lsim(ev, a, k):
    if not a[1].real:
        raise Unknown("lsim of a complex signal")
    y = F.Cx(F.atomn("lsim", (a[0].re, a[1].re, a[2].re)))
    r = getattr(a[1], "rank", None)
    if r is not None:
        y.rank = r
    return (a[2], y, Opaque("states"))


LTI = {pre + k: v for pre in ("numpy.", "scipy.signal.") for k, v in dict(bessel=system("bessel"), butter=system("butter"), sosfilt=sosfilt, lsim=lsim).items()}
fc_ = P("fc")
for kind, norm in (("bessel", ", norm='mag'"), ("butter", "")):
    sp(FL + "filter_signal", dict(signal=sig, fs=fs, cutoff=fc_, ftype=Const(kind), order=S("order")), "sosfilt(%s(order, cutoff, 'low'%s, output='sos', fs=fs), signal)" % (kind, norm), shape=D2, pr=LTI, what=kind)
    sp(FL + "filter_signal", dict(signal=sig, fs=fs, cutoff=fc_, ftype=Const(kind), order=S("order"), analog=Const(True)),
       "s = %s(order, 2*pi*cutoff, 'low'%s, analog=True, output='ba')\na, b, c = lsim(s, signal.real, k/fs)\nd, e, f = lsim(s, signal.imag, k/fs)\nb + 1j*e" % (kind, norm), shape=D2, k=K, pr=LTI, what="analog " + kind)
sp(FL + "filter_signal", dict(signal=sig, fs=fs, cutoff=fc_), "sosfilt(bessel(2, cutoff, 'low', norm='mag', output='sos', fs=fs), signal)", shape=D2, pr=LTI, what="defaults")
sp(FL + "rrcos_pulseshaping", dict(RC, sig=sig, fs=fs), "t = (k - 500)/fs\n" + RRT + "y/max(y)", n=n, k=K, what="default taps")
sp(FL + "rrcos_pulseshaping", dict(RC, sig=sig, fs=fs, taps=n), "t = (k - (n-1)//2)/fs\n" + RRT + "y/max(y)", n=n, k=K)
sp(FL + "rrcos_pulseshaping", dict(RC, sig=sig, fs=fs, taps=Const(None)), "f = fbin*fs/n\n" + RCF.replace("\nwhere(", "\ny = sqrt(where(") + ")\nsig*y/max(y)", n=n, fbin=FI)
# ---------------------------------------------------------------- signal quality
Q = "core.signal_quality."
GAM = {"qampy.core.signal_quality._cal_gamma": lambda ev, a, k: P("gamma")}
S12 = "r2 = mean(abs(E)**2)\nr4 = mean(abs(E)**4)\nS1 = 1 - 2*r2**2/r4 - sqrt((2-gamma)*(2*r2**4/r4**2 - r2**2/r4))\nS2 = gamma*r2**2/r4 - 1\n"
sp(Q + "cal_snr_qam", dict(E=E, M=M), S12 + "S1/S2", pr=GAM, gamma=P("gamma"))
sp(Q + "cal_s0", dict(E=E, M=M), S12 + "r2*S1/(S1 + S2)", pr=GAM, gamma=P("gamma"))
sp(Q + "_cal_gamma", dict(M=M), "a = abs(s)/sqrt(sc)\nu, c = unique(a, return_counts=1)\nsum(u**4*c)/M", pr=dict(SYM, **{"qampy.theory.cal_scaling_factor_qam": lambda ev, a, k: P("sc")}), s=Z("s"), sc=P("sc"))
S0P = {"qampy.core.signal_quality.cal_s0": lambda ev, a, k: Cx(F.C(1)) if False else P("S0[%s]" % key(a[0].re))}
sp(Q + "norm_to_s0", dict(sig=sig, M=M), "sig/sqrt(S0)", pr={"qampy.core.signal_quality.cal_s0": lambda ev, a, k: P("S0")}, S0=P("S0"))
sp(Q + "cal_evm", dict(sig=sig, M=M, known=Z("tx")), "a = known/sqrt(S0k)\nb = sig/sqrt(S0s)\nsqrt(mean(abs(a-b)**2)/mean(abs(a)**2))", pr=S0P, S0k=P("S0[%s]" % key(Z("tx").re)), S0s=P("S0[%s]" % key(sig.re)))
# ---------------------------------------------------------------- compiled kernels
PD = "core.pythran_dsp."
sp(PD + "cabsq", dict(x=E), "abs(x)**2")
sp(PD + "cal_exp_sum", dict(sym=ZS("c"), syms=Z("s"), z=ZS("z"), sigma=P("sg")), "sum(exp(-sigma*(2*(z*(sym-syms)).real + abs(sym-syms)**2)))", anyof=["sum(exp(-sigma*(2*(z*conj(sym-syms)).real + abs(sym-syms)**2)))"])
sp(PD + "cal_l_values", dict(btx=Z("b"), rx=ZS("rx1"), snr=P("snr")), "t = sum(exp(-snr*abs(btx-rx)**2), axis=0)\nlog(t[1]) - log(t[0])", shape=(P("k2"), num(2)))


class Seq(F.Arr):
    """an array the loops index: one atom for every distinct index"""

    def __init__(self, name, real=False, **attrs):
        self.name, self.isreal, self.seen = name, real, {}
        super().__init__(self.at, **attrs)

    def at(self, ev, idx):
        if any(not isinstance(i, (Cx, ast.Slice)) for i in idx):
            raise Unknown("index")
        k = " ; ".join(":" if isinstance(i, ast.Slice) else str(i.const()) if i.const() is not None else ev.loops.setdefault(key(i.re), "ix%d" % len(ev.loops)) for i in idx)
        v = (F.real if self.isreal else F.cplx)("%s<%s>" % (self.name, k))
        for i, d in zip(idx, self.attrs.get("shape", ())):
            if isinstance(i, ast.Slice):
                v.length = d
        return v


LOOP = {"numpy.S": lambda ev, a, k: cmul(linear("mean", a[0]), a[1])}
SEL = "x = rx[tx == gray]\nK = x.shape[0]\np = S(abs(mean(x))**2*K/n, n)\nq = S(mean(abs(x - mean(x))**2)*K/n, n)\n"
sp(PD + "estimate_snr", dict(signal_rx=Z("rx"), symbols_tx=Z("tx"), gray_symbols=Z("gray")), SEL + "(p/q, p, q)", pr=LOOP, n=n, rx=Z("rx"), tx=Z("tx"), gray=Z("gray"))
ms, ns = P("ms"), P("ns")
sp(PD + "cal_mi_mc", lambda: dict(noise=Seq("nz", size=ns), symbols=Seq("sy", size=ms), N0=P("N0")),
   "log2(ms) - S(S(log2(S(exp(-(abs(a-b)**2 + 2*((a-b)*z).real)/N0), ms)), ms), ns)/ms/ns", pr=LOOP, ms=ms, ns=ns, N0=P("N0"), loops=lambda x, y, w: dict(a=Z("sy<%s>" % x), b=Z("sy<%s>" % y), z=Z("nz<%s>" % w)))
sp(PD + "cal_mi_mc_fast", lambda: dict(sig=Seq("rx", size=ns), sig_tx=Seq("tx", size=ns), symbols=Seq("sy", size=ms), N0=P("N0")),
   "log2(ms) - S(log2(S(exp(-(abs(a-b)**2 - abs(a-t)**2)/N0), ms)), ns)/ns", pr=LOOP, ms=ms, ns=ns, N0=P("N0"), loops=lambda x, y: dict(b=Z("sy<%s>" % x), a=Z("rx<%s>" % y), t=Z("tx<%s>" % y)))

def expsum(ev, a, k):
    a = bound(ev, "qampy.core.pythran_dsp.cal_exp_sum", a, k, 4)
    return F.real("EXP(%s)" % " ; ".join(key(x.re) + "+j" + key(x.im) for x in a), positive=True)


EXPS = {"qampy.core.pythran_dsp.cal_exp_sum": expsum, **LOOP}
MC = "z = sqrt(1/snr)*(N1 + 1j*N2)/sqrt(2)\n4 - (" + " + ".join("S(log2(ES(bm%d%d, sy, z, snr)) - log2(ES(bm%d%d, bm%d%d, z, snr)), 8*ns)" % (k, b, k, b, k, b) for k in range(4) for b in range(2)) + ")/(16*ns)"
sp(PD + "cal_gmi_mc", lambda: dict(symbols=F.Cx(F.var("sy.re"), F.var("sy.im"), True), snr=P("snr"), ns=ns, bit_map=Seq("bm", shape=(num(4), num(8), num(2)))), MC, shape=(num(16),),
   pr=dict(EXPS, **{"numpy.ES": EXPS["qampy.core.pythran_dsp.cal_exp_sum"]}), draws=2, ns=ns, snr=P("snr"), sy=Z("sy"), **{"bm%d%d" % (k, b): Z("bm<%d ; : ; %d>" % (k, b)) for k in range(4) for b in range(2)})
# ---------------------------------------------------------------- error counting
B = "core.ber_functions."
sp(B + "cal_ber_syncd", dict(data_rx=R("rx"), data_tx=R("tx"), threshold=S("thr")), "e = count_nonzero(data_rx != data_tx)\n(e/n, e, n)", n=n)
# ---------------------------------------------------------------- front end and pre-compensation
A = "core.analog_frontend."
sp(A + "comp_IQ_inbalance", dict(signal=E), "c = signal - mean(signal)\nI = c.real\nQ = c.imag\nr = sum(I*Q)/sum(I**2)\nQb = (Q - r*I)/sqrt(1 - r**2)\nI + 1j*Qb*sqrt(sum(I**2)/sum(Qb**2))")
sp(A + "comp_rf_delay", dict(signal=R("Er"), delay=S("delay"), sampling_rate=fs), "signal*cos(2*pi*delay*fbin*sampling_rate/n)", fbin=FI, n=n, shape=D1, what="transfer function")
sp(A + "comp_rf_delay", dict(signal=R("Er"), delay=S("delay"), sampling_rate=fs), "signal*cos(2*pi*delay*fbin*sampling_rate/n)", fbin=FI, n=n, shape=D2, what="transfer function")
sp(A + "comp_rf_delay", dict(signal=R("Er"), delay=S("delay")), "signal*cos(2*pi*delay*fbin*50000000000/n)", fbin=FI, n=n, shape=D2, what="default rate")
ORT = ("I = E.real - mean(E.real, axis=-1)\nQ = E.imag - mean(E.imag, axis=-1)\na = I/sqrt(mean(I**2, axis=-1))\nb = (Q - mean(I*Q, axis=-1)*I/mean(I**2, axis=-1))\n"
       "x = a + 1j*b/sqrt(mean(Q**2, axis=-1))\ny = x - mean(x, axis=-1)\ny/sqrt(mean(abs(y)**2, axis=-1))")
sp(A + "orthonormalize_signal", dict(E=E, os=num(1)), ORT, shape=D2)
C_ = "core.digital_pre_compensation."
sp(C_ + "comp_mod_sin", dict(sig=sig, vpi=P("vpi")), "2*vpi*(arcsin(sig.real) + 1j*arcsin(sig.imag))")
sp(C_ + "comp_mod_sin", dict(sig=sig), "2.28*(arcsin(sig.real) + 1j*arcsin(sig.imag))", what="default vpi")
sp(C_ + "comp_mod_sin", dict(sig=sig, vpi=ZS("vpic")), "2*vpi.real*arcsin(sig.real) + 2j*vpi.imag*arcsin(sig.imag)", what="complex vpi")
sp(C_ + "clipper", dict(sig=sig, clipping_level=P("level")), "sign(sig.real)*minimum(abs(sig.real), clipping_level) + 1j*sign(sig.imag)*minimum(abs(sig.imag), clipping_level)", shape=D2)
# ---------------------------------------------------------------- frequency offset
sp("core.phaserecovery.comp_freq_offset", dict(sig=sig, freq_offset=S("fo"), os=P("os")), "sig*exp(-2j*pi*k*freq_offset/os)", anyof=["sig*exp(-2j*pi*(k+1)*freq_offset/os)"], shape=D2, k=K)



def polyfit(ev, a, k):
    deg = a[2] if len(a) > 2 else k.get("deg")
    if not isinstance(deg, Cx) or deg.const() != 1 or not isinstance(a[0], Cx) or not isinstance(a[1], Cx) or not a[1].real or not equal(a[0], Cx(F.var("k"))):
        raise Unknown("polyfit")
    ats = [x for mm in a[1].re for x, _ in mm]
    if len(ats) != 1 or F.ATOM.get(ats[0], ("",))[0] != "angle":
        raise Unknown("fit of something else")
    return tuple(Cx(linear(f, a[1]).re) for f in ("slope", "icpt"))


def angle(ev, a, k):
    if not isinstance(a[0], Cx):
        raise Unknown("angle")
    r = Cx(F.atomn("angle", (a[0].re, a[0].im)))
    if getattr(a[0], "rank", None) is not None:
        r.rank = a[0].rank
    return r


FIT = {"numpy.angle": angle, "numpy.polyfit": polyfit, "numpy.unwrap": lambda ev, a, k: a[0], "numpy.slope": lambda ev, a, k: linear("slope", a[0]), "numpy.icpt": lambda ev, a, k: linear("icpt", a[0])}


def offset(ctx, p):
    """the offset per mode is the slope of the phase against the pilots over 2 pi"""
    f = p.func("qampy.core.pilotbased_receiver.pilot_based_foe")
    if f is None:
        return
    ctx.ob()
    where, made = short(f.fullname), []

    def zeros(ev, a, k):
        def put(ev_, idx, v):
            z.v = v if isinstance(v, Cx) else None
        z = F.Arr(lambda ev_, idx: (_ for _ in ()).throw(Unknown("element")), put)
        z.v = None
        made.append(z)
        return z

    def mean(ev, a, k):
        if isinstance(a[0], F.Arr) and isinstance(getattr(a[0], "v", None), Cx):
            return linear("mean", a[0].v)
        raise Unknown("mean")
    ev = Ev(p, prims=prims(dict(FIT, **{"numpy.zeros": zeros, "numpy.empty": zeros, "numpy.mean": mean})), shape=D2)
    try:
        v = ev.call(f, [], dict(rec_symbs=field(Z("rx"), D2), pilot_symbs=field(Z("pil"), D2)))
        if not isinstance(v, tuple) or len(v) != 3:
            raise Unknown("result")
        foe, per, off = (x.v if isinstance(x, F.Arr) else x for x in v)
        w = spec("p = angle(conj(pil)*rx)\n(slope(p)/(2*pi), icpt(p))", shape=D2, prims=prims(FIT), rx=field(Z("rx"), D2), pil=field(Z("pil"), D2))
        if not (isinstance(per, Cx) and isinstance(foe, Cx) and isinstance(off, Cx)):
            raise Unknown("result")
        ctx.analysed.update(ev.used)
        for got, want, what in ((per, w[0], "offset per mode is not the slope of the phase of the received against the sent pilots over 2 pi"), (foe, linear("mean", w[0]), "offset is not the mean of those of the modes"), (off, w[1], "phase is not the intercept of the phase against the pilots")):
            a, b = ({x for x in F.functions(q.re) if x in ("slope", "icpt")} for q in (got, want))
            if len(a) == 1 and a != b or not equal(got, want):
                ctx.bad("formula|%s|%s" % (where, what.split()[0]), "the " + what, where)
    except Raised:
        ctx.undecided("%s: raises" % where)
    except (Unknown, KeyError, IndexError, AttributeError, TypeError) as u:
        ctx.undecided("%s: %s" % (where, u))


def wants(s, args, loops=()):
    names = {k: v for k, v in s.items() if k not in ("fn", "want", "shape", "what", "anyof", "pr", "draws", "args", "loops")}
    d = s.get("draws", 0)
    pr = prims(s["pr"])
    for t in [s["want"]] + s["anyof"]:
        for perm in itertools.permutations(range(1, d + 1)):
            nm = dict(args)
            nm.update({k: v for k, v in names.items() if k != "args"})
            for i, j in enumerate(perm):
                nm["N%d" % (i + 1)] = F.real("N%d" % j)
            if "loops" not in s:
                yield spec(t, shape=s["shape"], prims=pr, **nm)
                continue
            for ix in itertools.permutations(loops, len(inspect.signature(s["loops"]).parameters)):
                yield spec(t, shape=s["shape"], prims=pr, **dict(nm, **s["loops"](*ix)))


def field(a, shape):
    if isinstance(a, tuple):
        return tuple(field(x, shape[-1:]) for x in a)
    if not isinstance(a, Cx) or all(F.scalar_atom(x) for q in (a.re, a.im) for m in q for x, _ in m):
        return a
    a = Cx(a.re, a.im, a.cplx)
    if len(shape) > 1:
        a.rank = len(shape)
    a.tag = ("t", 0, 0)
    return a


def check(ctx):
    p = project()
    offset(ctx, p)
    for s in SPECS:
        f = p.func(s["fn"])
        ctx.ob()
        if f is None:
            ctx.undecided("%s is gone" % short(s["fn"]))
            continue
        where = short(s["fn"]) + (" (%s)" % s["what"] if s["what"] else "") + (" [%d-D]" % len(s["shape"]) if len(s["shape"]) > 1 else "")
        ev = Ev(p, prims=prims(s["pr"]), shape=s["shape"])
        ev.loops = {}
        a = s["args"]() if callable(s["args"]) else s["args"]
        try:
            v = ev.call(f, [], {n: field(a, s["shape"]) for n, a in a.items()})
        except Raised:
            ctx.undecided("%s: raises" % where)
            continue
        except (Unknown, KeyError, IndexError, AttributeError, TypeError) as u:
            ctx.undecided("%s: %s" % (where, u))
            continue
        ctx.analysed.update(ev.used)
        for d in sorted(set(ev.disorder)) + (["the output is circularly shifted against the input"] if misplaced(v) else []):
            ctx.bad("order|%s|%s" % (short(s["fn"]), s["what"]), d, where)
        verdict, why = None, ""
        for w in wants(s, a, sorted(ev.loops.values())):
            try:
                if equal(v, w):
                    verdict = True
                    break
                if verdict is None:
                    verdict = False
            except Unknown as u:
                verdict, why = "?", str(u)
        if verdict is True:
            ctx.sample("%s: %s" % (where, " ; ".join(s["want"].split("\n"))[:160]), 12)
        elif verdict is False:
            ctx.bad("formula|%s|%s" % (short(s["fn"]), s["what"]), "the result is not the documented formula  %s" % " ; ".join(x for x in s["want"].strip().split("\n"))[:300], where)
        else:
            ctx.undecided("%s: %s" % (where, why))


def selftest():
    x = cplx2("x")
    if equal(spec("abs(x)**2*exp(-2*y)", x=x, y=F.real("y")), spec("abs(x)**2*exp(-y)", x=x, y=F.real("y"))):
        return "different formulas taken for equal"
    if not equal(spec("(x.real**2 + x.imag**2)*exp(-y)**2", x=x, y=F.real("y")), spec("abs(x)**2*exp(-2*y)", x=x, y=F.real("y"))):
        return "equal formulas taken for different"


def cplx2(n):
    return F.cplx(n)
