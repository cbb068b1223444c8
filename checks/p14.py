"""P14: find_10thetas."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.gen import Stream, raw
from vlib.harness import Sub, under_test, require, close

RULE = ("A case is a series of 1 to 8 profiles of 4 to 40 levels (ragged, inversions, missing salinity, temperature or "
        "pressure, unmapped levels, profiles with nothing mapped), each of the four bounds absent, or present (exactly at a level in some cases) in either "
        "order, given as lists or as arrays read from a file, and a required fraction. Non-trivial: at least one level "
        "is chosen and a bound, an unmapped level or a required fraction removes something. Cases in which two levels "
        "have variances within 1e-9 of each other (relative), or two temperatures are equally near a level, or a "
        "count is at the required fraction to within rounding, are not compared.")
ASSUMPTIONS = ["levels without pressure or temperature are not mapped", "pressures increase down a profile; the usable pressure range is at least 10 dbar",
               "the offered levels and the salinity on them are those defined in find_10thetas: 50 dbar apart, or a tenth of the range if that gives fewer than ten"]


@st.composite
def cases(draw):
    return {"raw": draw(raw(512)), "n": draw(st.sampled_from([3, 4, 5, 6, 8, 2, 1])), "K": draw(st.sampled_from([30, 20, 40, 12, 8, 4])),
            "shape": draw(st.sampled_from(["smooth", "smooth", "inversions"])), "nan": draw(st.sampled_from([0, .05, .2])),
            "revised": draw(st.sampled_from([0, 0, .05])), "unmapped": draw(st.sampled_from([0, .1, .5])), "blank": draw(st.sampled_from([0, .2])),
            "theta": draw(st.sampled_from(["", "", "lt", "gt", "band", "outside"])),
            "pres": draw(st.sampled_from(["", "", "lt", "gt", "band", "outside"])),
            "percent": draw(st.sampled_from([.5, .5, .1, .8, 1.0])), "ragged": draw(st.booleans()),
            "form": draw(st.sampled_from(["list", "file"])), "top": draw(st.sampled_from(["deep", "deep", "shallow", "shallow", "thin"])),
            "nothing": draw(st.sampled_from([False] * 9 + [True]))}


class Tie(Exception):
    pass


def lin(x, a, b, u, v):
    return u + (v - u) * (x - a) / (b - a)


def reference(*args):
    return full_reference(*args)[:3]


def full_reference(sal, ptmp, pres, mapped, lt, gt, plt, pgt, percent):
    """Temperatures, level indices, whether anything was left out, (pressures of the ten, variance and temperature of every level offered) or None"""
    K, n = sal.shape
    use = ~np.isnan(mapped)
    removed = not use.all()

    def bound(v, lo, hi):
        """lo, hi: keep v >= lo, v <= hi; lower bound above the upper bound: keep outside the pair"""
        if lo is not None and hi is not None and hi < lo:
            return ~((v < lo) & (v > hi))
        ok = np.ones(v.shape, bool)
        if lo is not None:
            ok &= ~(v < lo)
        if hi is not None:
            ok &= ~(v > hi)
        return ok
    a = bound(ptmp, gt, lt) & bound(pres, pgt, plt)
    removed |= (use & ~a).any()
    use &= a
    P, T, S = (np.where(use, v, np.nan) for v in (pres, ptmp, sal))
    none = (np.full(10, np.nan), np.full((10, n), np.nan), removed, None)
    if np.isnan(T).all() or np.isnan(P).all():
        return none
    lo, hi = np.ceil(np.nanmin(T) * 10) / 10, np.floor(np.nanmax(T) * 10) / 10
    if not lo < hi:
        return none
    top, bottom = np.nanmin(P), np.nanmax(P)
    if bottom - top < 11:
        raise Tie()
    levels = np.arange(top, bottom, 50)
    if len(levels) < 10:
        levels = np.arange(top, bottom, np.floor((bottom - top) / 10))
    theta = []
    for p in levels:
        vals = []
        for j in range(n):
            g = [i for i in range(K) if not math.isnan(P[i, j]) and not math.isnan(T[i, j])]
            if g and P[g[0], j] < p < P[g[-1], j]:
                for i, k in zip(g, g[1:]):
                    if P[i, j] <= p <= P[k, j]:
                        vals.append(lin(p, P[i, j], P[k, j], T[i, j], T[k, j]))
                        break
        theta.append(math.fsum(vals) / len(vals) if vals else math.nan)
    L = len(levels)
    idx = np.full((L, n), np.nan)
    on = np.full((L, n), np.nan)
    for j in range(n):
        g = [i for i in range(K) if not math.isnan(T[i, j])]
        if not g:
            continue
        for q in range(L):
            t = theta[q]
            if min(abs(min(T[g, j]) - t), abs(max(T[g, j]) - t)) < 1e-9:
                raise Tie()
            if not min(T[g, j]) < t < max(T[g, j]):
                continue
            d = sorted((abs(T[i, j] - t), i) for i in g)
            if len(d) > 1 and d[1][0] - d[0][0] < 1e-9:
                raise Tie()
            i = d[0][1]
            idx[q, j] = i
            # salinity on the level: between that level and the neighbour on the other side of it in temperature
            side = [k for k in (i - 1, i + 1) if 0 <= k < K and not math.isnan(T[k, j])
                    and (T[k, j] < T[i, j] if T[i, j] > t else T[k, j] > T[i, j])]
            if side and d[0][0] > 0:
                k = min(side, key=lambda k: abs(T[k, j] - T[i, j]))
                if len(side) == 2 and abs(abs(T[side[0], j] - T[i, j]) - abs(T[side[1], j] - T[i, j])) < 1e-12:
                    raise Tie()
                if not math.isnan(S[i, j]) and not math.isnan(S[k, j]):
                    on[q, j] = lin(t, T[i, j], T[k, j], S[i, j], S[k, j])
                    continue
            on[q, j] = S[i, j]
    count = (~np.isnan(on)).sum(axis=1)
    if count.max() == 0:
        return none
    var = np.full(L, np.nan)
    for q in range(L):
        frac = count[q] / count.max()
        if 0 < abs(frac - percent) < 1e-9:
            raise Tie()
        if frac >= percent and count[q] > 1:
            var[q] = np.var(on[q][~np.isnan(on[q])], ddof=1)
        elif frac < percent and count[q] > 1:
            removed = True
    order = [q for q in np.argsort(var, kind="stable") if not math.isnan(var[q])]
    if any(var[b] - var[a] <= 1e-9 * var[b] + 1e-18 for a, b in zip(order[:11], order[1:11])):
        raise Tie()
    t, p = np.full(10, np.nan), np.full(10, np.nan)
    ind = np.full((10, n), np.nan)
    for k, q in enumerate(order[:10]):
        t[k], p[k] = theta[q], levels[q]
        ind[k] = idx[q]
    return t, ind, removed, (p, var, np.array(theta))


def snap(v, values, s):
    """the value of a level that is nearest to v (sometimes)"""
    if v is None or np.isnan(values).all() or s.flag(.2):
        return v
    return float(values.ravel()[np.nanargmin(np.abs(values - v))])


def run(case):
    from pyowc.core.finders import find_10thetas
    s = Stream(case["raw"])
    K, n = case["K"], case["n"]
    reach = {"deep": 2000, "shallow": 700, "thin": 120}[case["top"]]
    pres = np.cumsum(s.u((K, n), .3, 1.7), axis=0) * reach / K + (200 if case["top"] == "thin" else 5)
    ptmp = 3 + 12 * np.exp(-pres / 500) + s.u(n, -.3, .3) * np.exp(-pres / 800)
    if case["shape"] == "inversions":
        ptmp = ptmp + s.u((K, n), -.8, .8)
    sal = 34.5 + .4 * np.exp(-pres / 600) + s.normal((K, n)) * .05 * np.exp(-pres / 500) + s.u(n, -.02, .02)
    if case["ragged"]:
        for j, m in enumerate(s.integers(n, 1, K)):
            for v in (pres, ptmp, sal):
                v[m:, j] = np.nan
    for v in (pres, ptmp, sal):
        v[s.flags((K, n), case["nan"] / 3)] = np.nan
    mapped = np.where(s.flags((K, n), case["unmapped"]) | np.isnan(pres), np.nan, ptmp + case["revised"] * np.sin(pres))
    mapped[:, s.flags(n, case["blank"])] = np.nan
    if case["nothing"]:
        mapped[:] = np.nan

    def pair(kind, lo, hi):
        """(upper, lower) bounds"""
        a, b = sorted((s.u(None, lo, hi), s.u(None, lo, hi)))
        return {"": (None, None), "lt": (b, None), "gt": (None, a), "band": (b, a), "outside": (a, b)}[kind]
    lt, gt = pair(case["theta"], *((3, 12) if s.flag(.5) else (3, 8)))
    plt, pgt = pair(case["pres"], 5, reach)
    on = []
    if s.flag(.4):      # bounds that are exactly the values of levels
        lt, gt, plt, pgt = (snap(v, a, s) for v, a in ((lt, ptmp), (gt, ptmp), (plt, pres), (pgt, pres)))
        on = ["bounds on levels"] * any(v is not None for v in (lt, gt, plt, pgt))
    try:
        t, index, removed, offered = full_reference(sal, ptmp, pres, mapped, lt, gt, plt, pgt, case["percent"])
    except Tie:
        return {"nontrivial": False, "labels": ["tie"]}

    def form(v):
        if case["form"] == "list":
            return [] if v is None else [v]
        return np.zeros((0, 0)) if v is None else np.array([[v]])
    pct = case["percent"] if case["form"] == "list" else np.array([[case["percent"]]])
    with under_test("find_10thetas"):
        got = find_10thetas(sal.copy(), ptmp.copy(), pres.copy(), mapped.copy(), form(lt), form(gt), form(plt), form(pgt), pct)
        gt_, gi = np.asarray(got[0], dtype=float), np.asarray(got[2], dtype=float)
        require(gt_.size == 10 and gi.shape == (10, n), "shapes %s %s", gt_.shape, gi.shape)
        close(gt_.ravel(), t, "temperature levels", rtol=0, atol=1e-9)
        close(gi, index, "level indices", rtol=0, atol=0)
        if offered is None:
            require(np.isnan(np.asarray(got[1], dtype=float)).all(), "pressures of levels although none is chosen: %s", got[1])
        else:
            for k, v, what in ((1, offered[0], "pressures of the levels"), (3, offered[1], "variances of the levels offered"), (4, offered[2], "temperatures of the levels offered")):
                close(np.asarray(got[k], dtype=float).ravel(), v, what, rtol=1e-7, atol=1e-13 if k == 3 else 1e-9)
        if case["percent"] == .5:
            again = find_10thetas(sal.copy(), ptmp.copy(), pres.copy(), mapped.copy(), form(lt), form(gt), form(plt), form(pgt))
            close(np.ravel(again[0]), t, "temperature levels with the default fraction", rtol=0, atol=1e-9)
    return {"nontrivial": removed and not np.isnan(t).all(),
            "labels": ["chosen %s" % ("none" if np.isnan(t).all() else "ten" if not np.isnan(t).any() else "fewer"),
                       "theta " + case["theta"], "pres " + case["pres"]] + on}


SUBS = [Sub("levels", 9000, 180000, cases, run)]
FINDINGS = {}
