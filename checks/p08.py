"""P08: interp_climatology."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.gen import Stream, raw
from vlib.harness import Sub, under_test, require, close

RULE = ("A case is 1 to 8 reference casts with up to 14 levels, of very different lengths, with thermoclines, inversions, "
        "repeated temperatures (on a coarse raster, so that float temperatures fall exactly on reference levels), NaN "
        "or infinite values in any field, casts without any good level, and 1 to 10 float levels inside and outside "
        "the range, some missing. Non-trivial: at least one level is interpolated and at least one cast has two "
        "candidate pairs for a level or a missing level.")
ASSUMPTIONS = ["where two candidates are equally near the float's pressure either is accepted"]


@st.composite
def cases(draw):
    return {"raw": draw(raw(384)), "casts": draw(st.integers(1, 8)), "levels": draw(st.integers(1, 14)),
            "float": draw(st.integers(1, 10)), "shape": draw(st.sampled_from(["cooling", "inversions", "random"])),
            "raster": draw(st.sampled_from([0, .25, 1.0])), "nan": draw(st.sampled_from([0, .05, .3])),
            "ragged": draw(st.booleans()), "column": draw(st.booleans())}


def material(case):
    s = Stream(case["raw"])
    K, n, m = case["levels"], case["casts"], case["float"]
    depth = np.arange(K)[:, None]
    if case["shape"] == "cooling":
        th = 15 - 12 * depth / K + s.u((K, n), -.2, .2)
    elif case["shape"] == "inversions":
        th = 10 - 6 * depth / K + s.u((K, n), -3, 3)
    else:
        th = s.u((K, n), 2, 14)
    pr = np.cumsum(s.u((K, n), 10, 120), axis=0)
    sa = 34.5 + s.u((K, n), -.8, .8)
    fth, fpr, fsa = s.u((m, 1), 1, 15), s.u((m, 1), 0, 1200), 34.5 + s.u((m, 1), -1, 1)
    if case["raster"]:
        th, fth = (np.round(v / case["raster"]) * case["raster"] for v in (th, fth))
    elif K > 2:
        pick = s.flags((m, 1), .2)      # exactly on a reference level
        fth = np.where(pick, th[s.integers((m, 1), 0, K - 1), s.integers((m, 1), 0, n - 1)], fth)
    if case["ragged"]:
        keep = s.integers(n, 0, K)
        for j in range(n):
            for v in (th, pr, sa):
                v[keep[j]:, j] = np.nan
    for v in (th, pr, sa):
        bad = s.flags((K, n), case["nan"] / 2)
        v[bad] = np.where(s.flags((K, n), .3), np.inf, np.nan)[bad]
    for v in (fth, fpr, fsa):
        v[s.flags((m, 1), case["nan"] / 2)] = np.nan
    return s, sa, th, pr, fsa, fth, fpr


def candidates(sa, th, pr, t):
    """(pressure, salinity) for every bracketing pair of good levels, two sets (they differ where a pair has equal temperatures)"""
    good = [i for i in range(len(th)) if all(math.isfinite(v[i]) for v in (sa, th, pr))]
    a, b = [], []
    for i, j in zip(good, good[1:]):
        if min(th[i], th[j]) <= t <= max(th[i], th[j]):
            if th[i] == th[j]:
                ws = (0.0, 1.0)
            else:
                ws = ((t - th[i]) / (th[j] - th[i]),) * 2
            for w, out in zip(ws, (a, b)):
                out.append((pr[i] + w * (pr[j] - pr[i]), sa[i] + w * (sa[j] - sa[i])))
    return a, b, len(good)


def run(case):
    from pyowc.data.wrangling import interp_climatology
    s, sa, th, pr, fsa, fth, fpr = material(case)
    K, n = sa.shape
    m = len(fsa)
    args = (sa, th, pr, fsa, fth, fpr)
    want, several, found = {}, False, False
    for i in range(m):
        ok = all(math.isfinite(v[i, 0]) for v in (fsa, fth, fpr))
        for j in range(n):
            a, b, ngood = candidates(sa[:, j], th[:, j], pr[:, j], fth[i, 0]) if ok else ([], [], 0)
            accept = []
            for c in (a, b):
                if c:
                    d = min(abs(p - fpr[i, 0]) for p, _ in c)
                    accept += [v for v in c if abs(v[0] - fpr[i, 0]) <= d + 1e-7]
            want[i, j] = accept
            several |= len(a) > 1 or (len(a) > 0 and ngood < K)
            found |= bool(a)
    cols = np.nonzero(s.flags(n, .5))[0]
    rows = np.nonzero(s.flags(m, .5))[0]
    with under_test("interp_climatology"):
        # the mapping passes float levels as vectors, others pass columns
        args = args[:3] + tuple(v if case["column"] else v[:, 0] for v in args[3:])
        copies = [v.copy() for v in args]
        S, P = interp_climatology(*copies)
        for a, b, what in zip(copies, args, ("grid salinity", "grid theta", "grid pressure", "float salinity", "float theta", "float pressure")):
            close(np.where(np.isinf(a), 1e30, a), np.where(np.isinf(b), 1e30, b), f"{what} (modified)", rtol=0, atol=0)
        require(S.shape == (m, n) and P.shape == (m, n), "shapes %s %s", S.shape, P.shape)
        for (i, j), accept in want.items():
            sp = (float(S[i, j]), float(P[i, j]))
            if not accept:
                require(math.isnan(sp[0]) and math.isnan(sp[1]),
                        "level %d cast %d: got %s, expected nothing", i, j, sp)
            else:
                require(any(abs(sp[1] - p) < 1e-7 and abs(sp[0] - v) < 1e-8 for p, v in accept),
                        "level %d cast %d: got (salinity, pressure) %s, expected one of %s", i, j, sp, [(v, p) for p, v in accept])
        if len(cols) and len(rows):
            S2, P2 = interp_climatology(*(v[:, cols].copy() for v in args[:3]), *(v[rows].copy() for v in args[3:]))
            close(S2, S[np.ix_(rows, cols)], "salinity for some casts and levels only", rtol=0, atol=1e-10)
            close(P2, P[np.ix_(rows, cols)], "pressure for some casts and levels only", rtol=0, atol=1e-8)
    return {"nontrivial": found and several, "labels": [case["shape"], f"raster {case['raster']}"] + (["ragged"] if case["ragged"] else [])}


@st.composite
def shape_cases(draw):
    return {"raw": draw(raw(64)), "levels": draw(st.integers(1, 5)), "casts": draw(st.integers(1, 4)), "which": draw(st.integers(0, 2)),
            "how": draw(st.sampled_from(["shape", "inf", "nan"]))}


def run_shape(case):
    from pyowc.data.wrangling import interp_climatology
    s = Stream(case["raw"])
    K, n = case["levels"], case["casts"]
    grid = [34 + s.u((K, n)), s.u((K, n), 2, 10), s.u((K, n), 0, 2000)]
    if case["how"] == "shape":
        grid[case["which"]] = s.u((K + 1, n), 2, 10)
    else:
        grid[case["which"]][:] = np.inf if case["how"] == "inf" else np.nan
    nw = grid[0].shape[1]
    with under_test("interp_climatology (nothing usable)"):
        S, P = interp_climatology(*grid, 34 + s.u((3, 1)), s.u((3, 1), 2, 10), s.u((3, 1), 0, 2000))
        require(S.shape == (3, nw) and np.isnan(S).all() and np.isnan(P).all(), "values out of nothing")
    return {"nontrivial": False}


SUBS = [Sub("interpolation", 15000, 720000, cases, run), Sub("unusable", 600, 6000, shape_cases, run_shape)]
FINDINGS = {}
