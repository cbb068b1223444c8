"""P11: signal_variance, noise_variance."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.gen import Stream, raw
from vlib.harness import Sub, under_test, require, Violation

RULE = ("A case is a set of 2 to 40 salinities with positions on a coarse integer grid (from 1 to 1e-9 degrees wide; exact ties and repeated "
        "positions are frequent) or spread out, salinities within 1 to 1e-6 of each other, some values missing. Non-trivial: at least three distinct positions, "
        "and a tie, a repeated position or a missing value.")
ASSUMPTIONS = ["positions are finite; distances are compared as squared degree differences without wrap-around"]


@st.composite
def cases(draw):
    n = draw(st.integers(2, 40))
    grid = draw(st.sampled_from([1, 2, 3, 5, 0]))
    pos = [draw(st.tuples(st.integers(0, grid), st.integers(0, grid))) for _ in range(n)] if grid else None
    return {"raw": draw(raw(96)), "n": n, "pos": pos, "nan": draw(st.sampled_from([0, 0, 1, 3])),
            "const": draw(st.booleans()), "spread": draw(st.sampled_from([0, 0, 2, 4, 6])), "near": draw(st.sampled_from([0, 0, 0, 7, 14, 30]))}


def noise_ref(sal, lat, lon):
    n = len(sal)
    sq = []
    for i in range(n):
        best, arg = math.inf, None
        for j in range(n):
            d = (lat[i] - lat[j]) ** 2 + (lon[i] - lon[j]) ** 2
            if d != 0 and d < best:
                best, arg = d, j
        if arg is None:
            return 0.0
        v = (sal[i] - sal[arg]) ** 2
        if not math.isnan(v):
            sq.append(v)
    return math.fsum(sq) / len(sq) / 2 if sq else float("nan")


def run(case):
    from pyowc.core.stats import signal_variance, noise_variance
    s = Stream(case["raw"])
    n = case["n"]
    sal = 34.5 + s.u(n, -1, 1) * 10.0 ** -case["spread"]
    if case["const"]:
        sal[:] = 35.0
    if case["pos"]:
        lon = 300.0 + np.array([p[0] for p in case["pos"]], dtype=float)
        lat = -20.0 + np.array([p[1] for p in case["pos"]], dtype=float)
        k = 2.0 ** -case["near"]        # (exact: ties stay ties)
        lon, lat = 300 + (lon - 300) * k, -20 + (lat + 20) * k
    else:
        lon, lat = s.u(n, 0, 30), s.u(n, -60, 60)
    for k in range(min(case["nan"], n - 1)):
        sal[s.integer(0, n - 1)] = np.nan
    if np.all(np.isnan(sal)):
        sal[0] = 35.0
    good = sal[~np.isnan(sal)]
    mean = math.fsum(good) / len(good)
    want = math.fsum((v - mean) ** 2 for v in good) / len(good)
    wnoise = noise_ref(sal, lat, lon)
    tiny = 1e-13 * math.sqrt(want) + 1e-24     # (the rounding of the salinities themselves)
    a, b, c = sal.copy(), lat.copy(), lon.copy()
    with under_test("variances"):
        got = float(signal_variance(sal))
        require(abs(got - want) <= 1e-9 * want + tiny, f"signal variance {got!r}, expected {want!r}")
        require(abs(float(signal_variance(sal + 3)) - want) <= 1e-9 * want + tiny, "constant changes signal variance")
        g2 = float(signal_variance(sal.reshape(-1, 1)))
        require(abs(g2 - want) <= 1e-9 * want + tiny, "signal variance of a column differs")
        got = float(noise_variance(sal, lat, lon))
        require((math.isnan(got) and math.isnan(wnoise)) or abs(got - wnoise) <= 1e-9 * wnoise + tiny,
                f"noise variance {got!r}, expected {wnoise!r}")
        if not math.isnan(wnoise):
            k = float(noise_variance(sal * 2 + 1, lat, lon))
            require(abs(k - 4 * wnoise) <= 1e-9 * wnoise + tiny, "noise variance does not follow scaling")
        require(np.array_equal(a, sal, equal_nan=True) and np.array_equal(b, lat) and np.array_equal(c, lon),
                "inputs modified")
    try:
        with under_test("signal variance of nothing"):
            try:
                signal_variance(np.full(n, np.nan))
            except RuntimeError:
                pass
            else:
                raise Violation("signal variance of all-missing values is not an error")
    except Violation:
        raise
    pts = set(zip(lon, lat))
    rep = len(pts) < n
    return {"nontrivial": len(pts) >= 3 and (rep or bool(np.isnan(sal).any()) or bool(case["pos"])),
            "labels": (["repeated positions"] if rep else []) + (["missing values"] if np.isnan(sal).any() else [])
            + (["one position only"] if len(pts) == 1 else [])}


SUBS = [Sub("variances", 9000, 360000, cases, run)]
FINDINGS = {}
