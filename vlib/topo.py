"""Synthetic topography files in the layout of tbase.int: 2160 rows of 4320 16-bit integers, row r at latitude
90 - r/12, column c at longitude c/12."""
import os

import numpy as np

from vlib import harness

_made = {}


def values(kind):
    r = np.arange(2160, dtype=np.int64)[:, None]
    c = np.arange(4320, dtype=np.int64)[None, :]
    if kind == "hash":          # a value tells its place
        return ((r * 40503 + c * 25717 + (r * c) % 977 * 31) % 65536 - 32768).astype(np.int16)
    if kind == "smooth":        # sea floor between -5500 and -1500 m, periodic in longitude
        z = -3500 + 1200 * np.sin(c * 2 * np.pi / 4320 * 9) * np.cos(r / 40.0) + 800 * np.cos(c * 2 * np.pi / 4320 * 4 + r / 60.0)
        return z.astype(np.int16)
    if kind == "zonal":         # depends on latitude only
        z = -3500 + 1800 * np.sin(r / 35.0) + 0 * c
        return z.astype(np.int16)
    return np.full((2160, 4320), int(kind), dtype=np.int16)


def elevation(kind, lat12, lon12):
    """The stored value at lat12/12, lon12/12."""
    return int(table(kind)[1080 - lat12, lon12 % 4320])


def table(kind):
    return made(kind)[1]


def made(kind):
    if kind not in _made:
        d = harness.fresh_dir("topo")
        v = values(kind)
        v.tofile(os.path.join(d, "tbase.int"))
        _made[kind] = (os.path.join(d, "tbase.int"), v)
    return _made[kind]


def path(kind):
    return made(kind)[0]
