"""One deliberate instance of every rule whose expected count in the package is
zero; the checks must report it on every run.  Never executed."""
import pickle
import zlib
import numpy as np

_N = 0
_TABLE = np.zeros(4)


def mutates(x):
    y = x.reshape(-1)[2:]
    y[0] = 0
    return y


def pure(x):
    y = x.copy()
    y[0] = 0
    return y


def remembers(x, cache=[]):
    cache.append(1)
    return x * len(cache)


def counts(x):
    global _N
    _N = _N + 1
    return x * 2


def shares(x, taps=[1., 2.]):
    return x * 2, taps


def reseeds(x):
    np.random.seed(1)
    return x + np.random.randn(*x.shape)


def fixed(x):
    r = np.random.RandomState(7)
    return x + r.randn(*x.shape)


def nameless(x):
    return undefined_helper(x)


def unboundlocal(x):
    z = x + y
    y = 2
    return z + y


def _two(a, b):
    return a + b


def wrongargs(x):
    return _two(x)


def tooflat(x):
    return x[:, 0]


def ignores(x, gain, offset):
    y = offset * 2
    return x * gain


def _scale(x, gain, offset):
    return x * gain + offset


def crosses(x, gain, offset):
    return _scale(x, offset, gain)


def lenient(x, method="a"):
    if method == "a":
        return x
    else:
        return 2 * x


def strict(x, method="a"):
    if method == "a":
        return x
    elif method in ("b", "c"):
        return 2 * x
    raise ValueError("unknown method %s" % method)


# ---- polarisations, scaling, precision
def mixes_rows(E):
    return E / np.sqrt(np.mean(abs(E)**2))


def last_row(E):
    out = np.zeros_like(E)
    for i in range(E.shape[0]):
        ph = np.angle(E[i])
        out[i] = E[i]
    return out * np.exp(1.j * ph)


def row_zero(E):
    out = np.zeros_like(E)
    for i in range(E.shape[0]):
        out[i] = E[i] * np.exp(-1.j * np.angle(E[0]))
    return out


def per_row(E):
    return E / np.sqrt(np.mean(abs(E)**2, axis=-1, keepdims=True))


def per_row_loop(E):
    out = np.zeros_like(E)
    for i in range(E.shape[0]):
        out[i] = E[i] * np.exp(-1.j * np.angle(np.mean(E[i])))
    return out


def doubled(E):
    return E * np.exp(1.j * np.linspace(0, 1, E.shape[1]))


def single(E):
    return E * np.exp(1.j * np.linspace(0, 1, E.shape[1])).astype(E.dtype)


def adds_one(E):
    return E + 1


def wrong_sign(E):
    return E * np.exp(1.j * np.angle(E))


def right_sign(E):
    return E * np.exp(-1.j * np.angle(E))


def doubled_zeros(E):
    out = np.zeros(E.shape, dtype=complex)
    out[:] = E
    return out


def single_zeros(E):
    out = np.zeros(E.shape, dtype=E.dtype)
    out[:] = E * 2.
    return out


def absolute_threshold(E):
    return E / 2


def squares(E):
    return E * abs(E)


def unscaled(E):
    return E - np.mean(E, axis=-1)[:, None]


def scaled(E):
    return E / np.sqrt(np.mean(abs(E)**2, axis=-1))[:, None]


def conjugated(E):
    return np.conj(E)


def negated_angle(E):
    return np.angle(np.conj(E))


def angle_of(E):
    return np.angle(E)


def transposed(E):
    return E.T.copy()


def first_row(E):
    return E[0]


def stacked(E):
    return np.array([E, E])


def broadcasts_wrong(E):
    f = np.fft.fftfreq(E.shape[0])
    return E * f


def broadcasts_right(E):
    f = np.fft.fftfreq(E.shape[-1])
    return E * f


def two_only(E):
    return E[:, -1].reshape(2, 1)


def drops_imag(E):
    out = np.zeros(E.shape)
    for i in range(E.shape[0]):
        out[i] = E[i]
    return out


def keeps_imag(E):
    out = np.zeros(E.shape)
    for i in range(E.shape[0]):
        out[i] = E[i].real
    return out


def unit_sum(x, f, fs, T):
    return x * (f + T)


def unit_exp(x, f, fs, T):
    return x * np.exp(2j * np.pi * f * np.arange(x.shape[1]))


def unit_ok(x, f, fs, T):
    return x * np.exp(2j * np.pi * f * np.arange(x.shape[1]) / fs)


def db_product(x, snr):
    return np.mean(abs(x)**2) * snr


def db_power20(x, snr):
    return 10**(snr / 20)


def db_nodiv(x, snr):
    return 10**snr


def db_ok(x, snr):
    return 10**(snr / 10)


def codec_ok(fn, x):
    with open(fn, "wb") as fp:
        fp.write(zlib.compress(pickle.dumps(x)))
    with open(fn, "rb") as fp:
        return pickle.loads(zlib.decompress(fp.read()))


def codec_layers(fn, x):
    with open(fn, "wb") as fp:
        fp.write(pickle.dumps(x))
    with open(fn, "rb") as fp:
        return pickle.loads(zlib.decompress(fp.read()))


def codec_text(fn, x):
    with open(fn, "w") as fp:
        fp.write(pickle.dumps(x))


def codec_append(fn, x):
    with open(fn, "ab") as fp:
        fp.write(pickle.dumps(x))
