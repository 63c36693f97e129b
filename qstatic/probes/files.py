# user code that stores signals in files and gets them back
from qampy.core.io import save_signal, load_signal
from qampy.io import create_signal_from_matlab, load_symbols_from_matlab_file
import qampy.io


def by_function(sig, fn):
    save_signal(fn, sig)
    return load_signal(fn)


def by_method(sig, fn):
    sig.save_to_file(fn)
    return qampy.io.load_signal(fn)


def by_level(sig, fn, lvl):
    save_signal(fn, sig, lvl=lvl)
    return load_signal(fn)


def overwritten(sig, fn, other):
    save_signal(fn, other)
    save_signal(fn, sig)
    return load_signal(fn)


def pickled(sig, arr):
    state = sig.__reduce__()[2]
    out = arr.view(type(sig))
    out.__setstate__(state)
    return out


def matlab(sig, fn, fs, keys):
    return create_signal_from_matlab(sig, fn, fs, keys)
