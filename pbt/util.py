"""Small helpers shared by the checks."""
import importlib

import numpy as np
from hypothesis import strategies as st

from pbt.core import sut


def mod(name):
    """Import a module of the code under test; that it imports is part of every property."""
    with sut("importing " + name):
        return importlib.import_module(name)


seeds32 = st.one_of(st.sampled_from([0, 1, 2, 2 ** 32 - 1, 2 ** 31]), st.integers(0, 2 ** 32 - 1), st.integers(0, 50))


def other_seeds(s):
    """Seeds that a careless treatment might mistake for the seed `s`."""
    return st.one_of(seeds32, st.integers(0, 31).map(lambda k: s ^ (1 << k)), st.sampled_from([1, -1, 10, 1000, 65535, 10 ** 5, 10 ** 6, 10 ** 9]).map(lambda k: (s + k) % 2 ** 32),
                     st.sampled_from([s % 2 ** 31, s % 2 ** 24, s % 2 ** 16, s % 1000, s // 2, 2 * s % 2 ** 32, 2 ** 32 - 1 - s, int(str(s)[::-1]) % 2 ** 32])).filter(lambda t: t != s)


def floats(lo, hi, width=None):
    """Finite floats that shrink towards simple values; rounded so that cases stay readable."""
    return st.one_of(
        st.integers(int(np.ceil(lo)), int(np.floor(hi))).map(float) if np.floor(hi) >= np.ceil(lo) else st.nothing(),
        st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda v: float(np.clip(round(v, 4), lo, hi))))


def same(a, b):
    """Equal shape, type and bytes."""
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
