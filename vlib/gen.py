"""Case material: Hypothesis draws a byte string, a Stream spreads it over as many numbers as a case needs.

Number i of a stream is frac(k_i / 65536 + i * golden ratio) scaled to its range, where k_i is the i-th 16-bit word of
the bytes (used cyclically). The simplest byte string (zeros) therefore still gives distinct, spread-out values, so that
neither generation nor shrinking produces accidental ties, and every value is a function of what Hypothesis drew.
"""
import numpy as np
from hypothesis import strategies as st

GOLD = 0.6180339887498949
GOLD2 = 0.7548776662466927


def raw(n=256):
    return st.binary(min_size=n, max_size=n)


class Stream:
    def __init__(self, data):
        self.words = np.frombuffer(data[:len(data) // 2 * 2], dtype=">u2").astype(float)
        self.i = 0

    def u(self, n=None, lo=0.0, hi=1.0):
        m = 1 if n is None else int(np.prod(n))
        idx = np.arange(self.i, self.i + m)
        self.i += m
        k = self.words[idx % len(self.words)]
        v = np.mod(k / 65536.0 + idx * GOLD + (idx // len(self.words)) * GOLD2, 1.0)
        v = lo + (hi - lo) * v
        if n is None:
            return float(v[0])
        return v.reshape(n)

    def flag(self, p):
        return self.u() < p

    def flags(self, n, p):
        return self.u(n) < p

    def integer(self, lo, hi):
        """lo..hi inclusive"""
        return int(lo + np.floor(self.u() * (hi - lo + 1)))

    def integers(self, n, lo, hi):
        return (lo + np.floor(self.u(n) * (hi - lo + 1))).astype(int)

    def normal(self, n=None):
        """Bell shaped (sum of four uniforms), bounded by +-3.5"""
        m = 1 if n is None else int(np.prod(n))
        v = (self.u((4, m)).sum(axis=0) - 2.0) * np.sqrt(3.0)
        return float(v[0]) if n is None else v.reshape(n)

    def perm(self, n):
        return np.argsort(self.u(n), kind="stable")


def dyadic(lo, hi, denom=8):
    """Multiples of 1/denom."""
    return st.integers(int(lo * denom), int(hi * denom)).map(lambda k: k / denom)
