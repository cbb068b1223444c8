"""P10: covar_xyt_pv, covarxy_pv, build_cov."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.gen import Stream, raw
from vlib.harness import Sub, under_test, require, close

RULE = ("points: two sets of 1 to 12 points (some coincident, on the equator, or far apart), scales, age on or off, "
        "vorticity on or off. horizontal: a point and 1 to 8 points, possibly on the equator. tiles: 1 to 6 profiles with 1 to 10 levels, "
        "temperatures from -2 to 30 including the boundaries of the water-mass table, missing levels, levels in any "
        "order. Non-trivial: at least one covariance strictly between 1e-12 and 1 - 1e-12 (tiles: and two levels).")
ASSUMPTIONS = ["non-zero depths",
               "temperatures within the water-mass table (-2 to 30 degC)"]


@st.composite
def point_cases(draw):
    return {"raw": draw(raw(128)), "n": draw(st.integers(1, 12)), "m": draw(st.integers(1, 12)),
            "pv": draw(st.booleans()), "age": draw(st.booleans()),
            "kind": draw(st.sampled_from(["spread", "close", "coincident", "equator"]))}


def vorticity(lat, z):
    return 2 * 7.292e-5 * math.sin(math.radians(lat)) / z


def pv_term(p, q, phi):
    return ((p - q) / math.hypot(p, q) / phi) ** 2


def points(s, n, kind):
    size = 1.0 if kind == "close" else 8.0
    p = np.stack([s.u(n, -size, size) + (0 if kind == "equator" else 40), 100 + s.u(n, -size, size),
                  s.u(n, 1980, 2020), s.u(n, 300, 6000)], axis=1)
    if kind == "equator":
        p[0, 0] = 0.0
    return p


def run_points(case):
    from pyowc.core.stats import covar_xyt_pv
    s = Stream(case["raw"])
    a, b = points(s, case["n"], case["kind"]), points(s, case["m"], case["kind"])
    if case["kind"] == "coincident":
        b[0] = a[0]
    s0, s1, phi = s.u(None, .3, 10), s.u(None, .3, 10), s.u(None, .02, 2)
    age = s.u(None, 1, 60) * (.02 if s.flag(.25) else 1) if case["age"] else 0
    pv = int(case["pv"])

    def one(p, q):
        d = ((p[0] - q[0]) / s0) ** 2 + ((p[1] - q[1]) / s1) ** 2
        if age:
            d += ((p[2] - q[2]) / age) ** 2
        if pv:
            d += pv_term(vorticity(p[0], p[3]) or 1e-5, vorticity(q[0], q[3]) or 1e-5, phi)
        return math.exp(-d)
    want = np.array([[one(p, q) for q in b] for p in a])
    self_want = np.array([[one(p, q) for q in a] for p in a])
    with under_test("covar_xyt_pv"):
        got = covar_xyt_pv(a.copy(), b.copy(), s1, s0, age, phi, pv)
        close(got, want, "covariance", rtol=1e-9, atol=1e-300)
        close(covar_xyt_pv(b.copy(), a.copy(), s1, s0, age, phi, pv), want.T, "covariance the other way", rtol=1e-9, atol=1e-300)
        own = covar_xyt_pv(a.copy(), a.copy(), s1, s0, age, phi, pv)
        close(own, self_want, "covariance of a set with itself", rtol=1e-9, atol=1e-300)
        require((np.diag(own) == 1).all(), "covariance of a point with itself is not 1")
        require((got >= 0).all() and (got <= 1).all(), "covariance outside 0..1")
        close(covar_xyt_pv(a[0], b.copy(), s1, s0, age, phi, pv), want[:1], "covariance of a single point", rtol=1e-9, atol=1e-300)
    return {"nontrivial": ((want > 1e-12) & (want < 1 - 1e-12)).any(), "labels": [case["kind"], f"pv {pv}"]}


@st.composite
def horizontal_cases(draw):
    return {"raw": draw(raw(96)), "n": draw(st.integers(1, 8)), "pv": draw(st.booleans()), "near": draw(st.booleans()),
            "equator": draw(st.sampled_from([0, 0, 0, 1, 2]))}


def horizontal(p, q, sx, sy, phi, pv):
    d = ((p[0] - q[0]) / sy) ** 2 + ((p[1] - q[1]) / sx) ** 2
    if pv:
        d += pv_term(vorticity(p[0], p[2]) or 1e-5, vorticity(q[0], q[2]) or 1e-5, phi)
    return math.exp(-d)


def stations(s, n, near):
    size = 1.5 if near else 6
    return np.stack([45 + s.u(n, -size, size), 200 + s.u(n, -size, size), s.u(n, 300, 6000) * np.where(s.flag(.3), -1, 1)], axis=1)


def run_horizontal(case):
    from pyowc.core.stats import covarxy_pv
    s = Stream(case["raw"])
    c = stations(s, case["n"], case["near"])
    if case["equator"]:         # some on the equator itself, the others around it
        c[:, 0] -= 45
        c[:case["equator"], 0] = 0.0
        c = c[s.perm(len(c))]
    sx, sy, phi, pv = s.u(None, .3, 10), s.u(None, .3, 10), s.u(None, .02, 2), int(case["pv"])
    want = np.array([[horizontal(p, q, sx, sy, phi, pv) for q in c] for p in c])
    with under_test("covarxy_pv"):
        for i in range(len(c)):
            close(covarxy_pv(c[i].copy(), c.copy(), sx, sy, phi, pv), want[i], f"covariance of point {i}", rtol=1e-9, atol=1e-300)
    return {"nontrivial": ((want > 1e-12) & (want < 1 - 1e-12)).any(), "labels": [f"pv {pv}"] + (["equator"] if case["equator"] else [])}


@st.composite
def tile_cases(draw):
    return {"raw": draw(raw(128)), "p": draw(st.integers(1, 6)), "k": draw(st.integers(1, 10)),
            "pv": draw(st.booleans()), "near": draw(st.booleans()), "equator": draw(st.sampled_from([0, 0, 0, 1])), "nan": draw(st.sampled_from([0, 0, .1, .4])),
            "order": draw(st.sampled_from(["down", "any", "edges"]))}


EDGES = [-2, 1, 2.5, 4, 8, 12, 18, 24, 30]
DOWN = [1, 1, 1.5, 1.5, 4, 4, 6, 6, 6]
UP = [1, 1.5, 1.5, 4, 4, 6, 6, 6, 6]


def table(t, scale):
    for a, b, u, v in zip(EDGES, EDGES[1:], scale, scale[1:]):
        if a <= t <= b:
            return u + (v - u) * (t - a) / (b - a)
    raise ValueError(t)


def vertical(t, i, j):
    if i == j or math.isnan(t[i]) or math.isnan(t[j]):
        return 1.0
    return math.exp(-((t[j] - t[i]) / table(t[i], DOWN if i < j else UP)) ** 2)


def run_tiles(case):
    from pyowc.core.stats import build_cov
    s = Stream(case["raw"])
    P, K = case["p"], case["k"]
    if case["order"] == "edges":
        t = np.array(EDGES, dtype=float)[s.integers((K, P), 0, 8)]
    else:
        lo, hi = sorted((s.u(None, -2, 30), s.u(None, -2, 30)))
        t = s.u((K, P), lo, hi)
        if case["order"] == "down":
            t = -np.sort(-t, axis=0)
    t[s.flags((K, P), case["nan"])] = np.nan
    c = stations(s, P, case["near"])
    if case["equator"]:
        c[s.integer(0, P - 1), 0] = 0.0
    config = {"MAPSCALE_LONGITUDE_SMALL": s.u(None, .3, 8), "MAPSCALE_LATITUDE_SMALL": s.u(None, .3, 8),
              "MAPSCALE_PHI_SMALL": s.u(None, .02, 2), "MAP_USE_PV": int(case["pv"]),
              "MAPSCALE_LONGITUDE_LARGE": 9.0, "MAPSCALE_LATITUDE_LARGE": 9.5, "MAPSCALE_PHI_LARGE": .7}
    want = np.empty((K * P, K * P))
    for p in range(P):
        V = np.array([[vertical(t[:, p], i, j) for j in range(K)] for i in range(K)])
        for q in range(P):
            want[p * K:(p + 1) * K, q * K:(q + 1) * K] = V * horizontal(
                c[p], c[q], config["MAPSCALE_LONGITUDE_SMALL"], config["MAPSCALE_LATITUDE_SMALL"],
                config["MAPSCALE_PHI_SMALL"], config["MAP_USE_PV"])
    a, b = t.copy(), c.copy()
    with under_test("build_cov"):
        got = build_cov(a, b, dict(config))
        close(got, want, "covariance matrix", rtol=1e-9, atol=1e-300)
        close(a, t, "temperatures (modified)", rtol=0, atol=0)
        close(b, c, "positions (modified)", rtol=0, atol=0)
    return {"nontrivial": K > 1 and ((want > 1e-12) & (want < 1 - 1e-12)).any(),
            "labels": [case["order"]] + (["missing levels"] if np.isnan(t).any() else [])}


SUBS = [Sub("points", 4800, 240000, point_cases, run_points),
        Sub("horizontal", 3000, 120000, horizontal_cases, run_horizontal),
        Sub("tiles", 4200, 180000, tile_cases, run_tiles)]
FINDINGS = {}
