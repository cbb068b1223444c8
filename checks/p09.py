"""P09: map_data_grid."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.gen import Stream, raw
from vlib.harness import Sub, under_test, require, close

RULE = ("A case is 1 to 40 reference salinities at random positions, dates and depths (also clustered, very close, and repeated "
        "positions), scales for longitude, latitude, age (0 switches it off) and cross-isobath separation, signal and "
        "noise variance with a ratio from 1e-5 to 10, vorticity on or off, and one grid point among or away from the "
        "data. Non-trivial: at least two reference points and a correlation with the grid point above 1e-6.")
ASSUMPTIONS = ["noise variance of at least 1e-5 of the signal variance (the code inverts the covariance matrix)",
               "no reference point or grid point with zero depth"]


@st.composite
def cases(draw):
    return {"raw": draw(raw(256)), "n": draw(st.integers(1, 40)), "pv": draw(st.booleans()),
            "age": draw(st.booleans()), "layout": draw(st.sampled_from(["spread", "cluster", "repeat", "far", "tight"])),
            "ratio": draw(st.sampled_from([1e-3, 1e-2, .1, 1.0, 10.0, 1e-4, 1e-5])), "hemisphere": draw(st.sampled_from([-1, 0, 1]))}


def material(case):
    s = Stream(case["raw"])
    n = case["n"]
    size = {"cluster": 2.0, "tight": .05}.get(case["layout"], 12.0)
    centre = {-1: -50.0, 0: 0.0, 1: 45.0}[case["hemisphere"]]
    pos = np.stack([centre + s.u(n, -size, size), s.u(None, 0, 380) + s.u(n, -size, size),
                    s.u(n, 1970, 2020), s.u(n, 500, 6000)], axis=1)
    if case["layout"] == "repeat" and n > 2:
        k = s.integers(n, 0, n // 2)
        pos = pos[k]
    grid = np.array([[centre + s.u(None, -size, size) * .6, pos[:, 1].mean() + s.u(None, -size, size) * .6,
                      s.u(None, 1975, 2025), s.u(None, 500, 6000)]])
    if case["layout"] == "far":
        grid[0, 0] += 80
    sx, sy, phi = s.u(None, .5, 8), s.u(None, .5, 8), s.u(None, .02, 1)
    age = s.u(None, 1, 30) * (.05 if s.flag(.2) else 1) if case["age"] else 0
    sal = 34.5 + s.u(None, -1, 1) + s.normal(n) * s.u(None, .005, .4)
    sv = s.u(None, .01, 1) ** 2
    return s, sal, grid, pos, sx, sy, age, sv, sv * case["ratio"], phi


def covariance(a, b, sx, sy, age, phi, use_pv):
    """sx scales column 1, sy column 0"""
    d = ((a[0] - b[0]) / sy) ** 2 + ((a[1] - b[1]) / sx) ** 2
    if age:
        d += ((a[2] - b[2]) / age) ** 2
    if use_pv:
        p, q = (2 * 7.292e-5 * math.sin(math.radians(c[0])) / c[3] for c in (a, b))
        p, q = p or 1e-5, q or 1e-5
        d += ((p - q) / math.hypot(p, q) / phi) ** 2
    return math.exp(-d)


def reference(sal, grid, pos, sx, sy, age, sv, nv, phi, pv):
    n = len(sal)
    C = sv * np.array([[covariance(pos[i], pos[j], sx, sy, age, phi, pv) for j in range(n)] for i in range(n)])
    K = C + nv * np.eye(n)
    one = np.ones(n)
    k1, ks = np.linalg.solve(K, one), None
    m = k1 @ sal / (one @ k1)
    kd = np.linalg.solve(K, sal - m)
    c = sv * np.array([covariance(grid[0], pos[j], sx, sy, age, phi, pv) for j in range(n)])

    def at(cv):
        return m + cv @ kd, math.sqrt(sv - cv @ np.linalg.solve(K, cv) + (1 - cv @ k1) ** 2 / (one @ k1))
    g = at(c)
    d = [at(C[i]) for i in range(n)]
    return g[0], g[1], np.array([v[0] for v in d]), np.array([v[1] for v in d]), m, c.max() / sv


def run(case):
    from pyowc.data.wrangling import map_data_grid
    s, sal, grid, pos, sx, sy, age, sv, nv, phi = material(case)
    pv = int(case["pv"])
    n = case["n"]
    want = reference(sal, grid, pos, sx, sy, age, sv, nv, phi, pv)
    sd = math.sqrt(sv)
    spread = np.ptp(sal) + sd
    shift, factor, perm, base = s.u(None, -5, 5), s.u(None, .2, 4), s.perm(n), 34.0

    def call(sal, data=pos, sv=sv, nv=nv, grid=grid):
        keep = [np.array(a) for a in (sal, grid, data)]
        out = map_data_grid(sal, grid, data, sx, sy, age, sv, nv, phi, pv)
        for a, b in zip(keep, (sal, grid, data)):
            require(np.array_equal(a, b), "an input array was modified")
        return [np.asarray(v, dtype=float) for v in out]

    loss = 1e-9 + 1e-13 * n / case["ratio"]         # (rounding of the inverse)
    tol = dict(rtol=0, atol=spread * loss)
    etol = dict(rtol=0, atol=sv * loss)
    with under_test("map_data_grid"):
        got = call(sal)
        require(len(got) == 4 and got[0].shape == () and got[1].shape == () and got[2].shape == (n,), "shapes of the result")
        for g, w, what in zip(got[::2], want[:4:2], ("mapped value", "values at the data")):
            close(g, w, what, **tol)
        for g, w, what in zip(got[1::2], want[1:4:2], ("squared error", "squared errors at the data")):
            close(g ** 2, w ** 2, what, **etol)
        far = grid + np.array([[0, 400 * sx, 0, 0]])
        g = call(sal, grid=far)
        close(g[0], want[4], "value far away (mean)", **tol)
        g = call(sal + shift)
        close(g[0], want[0] + shift, "value after adding a constant", **tol)
        close(g[1] ** 2, want[1] ** 2, "squared error after adding a constant", **etol)
        close(g[2], want[2] + shift, "values at the data after adding a constant", **tol)
        g = call(base + factor * (sal - base), sv=sv * factor ** 2, nv=nv * factor ** 2)
        close(g[0], base + factor * (want[0] - base), "value of scaled data", rtol=0, atol=spread * 10 * loss)
        close(g[1] ** 2, (factor * want[1]) ** 2, "squared error of scaled data", rtol=0, atol=sv * 20 * loss)
        g = call(sal[perm], data=pos[perm])
        close(g[0], want[0], "value of reordered data", **tol)
        close(g[2], want[2][perm], "values at reordered data", **tol)
        close(g[3] ** 2, want[3][perm] ** 2, "squared errors at reordered data", **etol)
        g = call(np.full(n, 34.7))
        close(g[0], 34.7, "value of a uniform field", **tol)
        close(g[2], np.full(n, 34.7), "values of a uniform field", **tol)
    return {"nontrivial": n > 1 and want[5] > 1e-6,
            "labels": [case["layout"], f"pv {pv}", "age" if age else "no age"]}


SUBS = [Sub("mapping", 6000, 360000, cases, run)]
FINDINGS = {}
