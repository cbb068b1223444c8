"""Series of profiles for the fit over profiles (P16, P17)."""
import numpy as np
from hypothesis import strategies as st

from vlib.gen import Stream, raw


def series(levels=st.integers(1, 6), profiles=st.integers(1, 18), **extra):
    d = {"raw": raw(256), "n": profiles, "k": levels,
         "shape": st.sampled_from(["kink", "line", "flat", "two kinks", "step", "noise"]),
         "noise": st.sampled_from([.1, .02, .5, 2.0]),
         "err": st.sampled_from(["mild", "flat", "wild"]),
         "cov": st.sampled_from(["diagonal", "weak", "strong", "levels"]),
         "missing": st.sampled_from([0.0, .15, .5]), "blank": st.sampled_from([0.0, .2, .6]),
         "gaps": st.booleans(), "order": st.sampled_from(["up", "up", "shuffled"]),
         "level0": st.sampled_from([1.0, 1.0, 0.0, -250.0]), "scale": st.sampled_from([1e-4, 1e-4, 1.0, 30.0])}
    d.update(extra)
    return st.fixed_dictionaries(d)


def material(case):
    """x, y, err (levels by profiles), covariance of all of them (in column order)"""
    s = Stream(case["raw"])
    n, k = case["n"], case["k"]
    num = np.cumsum(s.integers(n, 1, 3 if case["gaps"] else 1)).astype(float)
    t = (num - num.mean()) / max(np.ptp(num), 1) * 2
    a, b, c = s.u(None, -1, 1), s.u(None, .5, 3) * (1 if s.flag(.5) else -1), s.u(None, -.5, .4)
    shape = {"kink": b * np.maximum(t - c, 0) + .3 * a * t, "line": b * t, "flat": 0 * t, "noise": 0 * t,
             "two kinks": b * np.maximum(t + .4, 0) - 2 * b * np.maximum(t - .3, 0), "step": b * (t > c)}[case["shape"]]
    y = shape[None, :] + case["noise"] * s.normal((k, n))
    y = case["level0"] + case["scale"] * y
    err = case["scale"] * {"flat": np.full((k, n), .3), "mild": s.u((k, n), .2, .8), "wild": 10 ** s.u((k, n), -1.2, .3)}[case["err"]]
    if case["missing"]:
        y[s.flags((k, n), case["missing"])] = np.nan
    if case["blank"]:
        y[:, s.flags(n, case["blank"])] = np.nan
    x = np.repeat(num[None, :], k, axis=0)
    L = {"diagonal": (1e-9, 1e-9), "weak": (.8, .6), "strong": (3.0, 2.0), "levels": (1e-9, 1e9)}[case["cov"]]
    p, l = np.repeat(num, k), np.tile(np.arange(k), n)
    cov = np.exp(-((p[:, None] - p) / L[0]) ** 2 - ((l[:, None] - l) / L[1]) ** 2)
    if case["order"] == "shuffled":
        q = s.perm(n)
        x, y, err = x[:, q], y[:, q], err[:, q]
        qq = (q[:, None] * k + np.arange(k)[None, :]).ravel()
        cov = cov[np.ix_(qq, qq)]
    return s, x, y, err, cov
