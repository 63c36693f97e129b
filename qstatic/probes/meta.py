# user code that should keep the metadata of a signal: every function takes a signal and returns one made from it
import numpy as np


def slice_cols(sig, a, b):
    return sig[:, a:b]


def slice_rows(sig, a):
    return sig[a:]


def take_row(sig):
    return sig[0]


def take_mask(sig, mask):
    return sig[:, mask]


def copied(sig):
    return sig.copy()


def np_copied(sig):
    return np.copy(sig, subok=True)


def scaled(sig, x):
    return sig * x


def scaled_left(sig, x):
    return x * sig


def rotated(sig, arr):
    return sig * arr


def rotated_left(sig, arr):
    return arr * sig


def divided(sig, x):
    return sig / x


def negated(sig):
    return -sig


def added_inplace(sig, x):
    out = sig.copy()
    out += x
    return out


def viewed(sig):
    return sig.view()


def conjugated(sig):
    return sig.conj()


def ufunc(sig):
    return np.exp(sig)


def cast(sig):
    return sig.astype(np.complex128)


def at_least_2d(sig):
    return np.atleast_2d(sig)


def reshaped(sig):
    return sig.reshape(1, -1)


def transposed(sig):
    return sig.T


def rolled(sig, n):
    return np.roll(sig, n, axis=-1)


def twice(sig, a, x):
    return (sig[:, a:] * x)[:1].copy()


def recreated(sig, arr):
    return sig.recreate_from_np_array(arr)


def pickled(sig, arr):
    state = sig.__reduce__()[2]
    out = arr.view(type(sig))
    out.__setstate__(state)
    return out


def recreated_fs(sig, arr, fs):
    return sig.recreate_from_np_array(arr, fs=fs)


def recreated_fb(sig, arr, fb):
    return sig.recreate_from_np_array(arr, fb=fb)


def recreated_both(sig, arr, fb, fs):
    return sig.recreate_from_np_array(arr, fb=fb, fs=fs)


def recreated_symbols(sig, arr, symbols):
    return sig.recreate_from_np_array(arr, symbols=symbols)


def resampled(sig, fnew, beta):
    return sig.resample(fnew, beta=beta)


def resampled_none(sig, fnew):
    return sig.resample(fnew, beta=None)


def recreated_other(sig, other):
    return sig.recreate_from_np_array(other)


def recreated_keeps(sig, arr, fs):
    out = sig.recreate_from_np_array(arr, fs=fs)
    return sig
