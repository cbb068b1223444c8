"""P07: frontal_constraint_saf."""
import math
import os

import gsw
import numpy as np
from hypothesis import strategies as st
from scipy.io import savemat

from vlib import harness
from vlib.gen import Stream, raw
from vlib.harness import Sub, under_test, require, close

RULE = ("A case is a float profile (at, north and south of 30S; built between a northern and a southern typical profile "
        "so that the temperature at 300 dbar falls below 3, between 3 and 5, or above 5 degC; shallow, sparse, with "
        "missing or repeated levels, or complete), a generated pair of typical profiles with spreads, and 1 to 10 "
        "reference casts (any side, ragged, with missing levels, repeated pressures, too shallow or not reaching "
        "300 dbar). Non-trivial: a side is assigned and some but not all casts are kept. Cases within 1e-7 of a decision "
        "are not compared.")
ASSUMPTIONS = ["pressures increase down a profile (repeats allowed); typical profiles are monotonic as the shipped ones "
               "are (temperature falls and salinity rises with depth, spreads included)",
               "a reference cast for which the pair of levels around 300 dbar includes its last matrix row is not compared",
               "gsw converts the temperatures"]

DEPTH = np.arange(0, 2001, 50)


@st.composite
def cases(draw):
    return {"raw": draw(raw(512)), "lat": draw(st.sampled_from(["south", "south", "south", "south", "30", "north"])),
            "mix": draw(st.sampled_from(["north", "south", "between", "t300 north", "t300 south"])),
            "wide": draw(st.booleans()), "noise": draw(st.sampled_from([0.0, .2, .6])), "levels": draw(st.sampled_from([2, 3, 8, 20, 30])),
            "nan": draw(st.sampled_from([0, 0, .1])), "repeat": draw(st.sampled_from([False] * 7 + [True])),
            "shallow": draw(st.sampled_from([False] * 7 + [True])), "casts": draw(st.integers(1, 10)),
            "ragged": draw(st.booleans()), "bump": draw(st.sampled_from([0, 0, 1, 2]))}


def climatology(s, wide):
    d = DEPTH / 2000
    f = 2.0 if wide else 1.0
    tn = 4 + s.u(None, 3, 4) * np.exp(-d * 3) - 1.8 * d + s.u(None, -.2, .2)
    ts = 2.2 + s.u(None, .6, 1.2) * np.exp(-d * 4) - .7 * d
    sn = 34.2 + .55 * d + s.u(None, -.03, .03) + .02 * np.sqrt(d)
    ss = 33.85 + .9 * (1 - np.exp(-d * 3)) + s.u(None, -.03, .03) + .02 * d
    out = {"T_meanN": tn, "T_meanS": ts, "S_meanN": sn, "S_meanS": ss,
           "T_stdN": f * (.2 + .8 * np.exp(-d * 2)) * s.u(None, .8, 1.2), "T_stdS": f * (.15 + .5 * np.exp(-d * 5)) * s.u(None, .8, 1.2),
           "S_stdN": f * (.03 + .12 * np.exp(-d * 2)) * s.u(None, .8, 1.2), "S_stdS": f * (.03 + .06 * np.exp(-d * 4)) * s.u(None, .8, 1.2)}
    # surface columns that must not be used
    for k in out:
        out[k] = out[k].copy()
        out[k][:2] = out[k][:2] + (30 if "std" not in k else 5)
    return out


def interp(x, xp, fp):
    """Linear in increasing xp (levels with several fp missing give nothing), nothing outside."""
    for i in range(len(xp) - 1):
        if xp[i] <= x <= xp[i + 1] and xp[i] < xp[i + 1]:
            return fp[i] + (fp[i + 1] - fp[i]) * (x - xp[i]) / (xp[i + 1] - xp[i])
    return math.nan


class Near(Exception):
    """too close to a decision"""


def gt(a, b):
    if abs(a - b) < 1e-7:
        raise Near()
    return a > b


def side_of_temperature(t300):
    return 1 if gt(t300, 5) else -1 if gt(3, t300) else 0


def side_of_float(c, pres, tmp, sal):
    ok = [i for i in range(len(pres)) if not math.isnan(pres[i]) and not math.isnan(tmp[i])]
    p, t, q = ([v[i] for i in ok] for v in (pres, tmp, sal))
    if len(ok) < 3 or any(a == b for a, b in zip(p, p[1:])) or not p[0] < 300 < p[-1]:
        return 0
    side = side_of_temperature(interp(300, p, t))
    if side:
        return side
    tn, ts, sn, ss = (c[k][2:] for k in ("T_meanN", "T_meanS", "S_meanN", "S_meanS"))
    etn, ets, esn, ess = (c[k][2:] for k in ("T_stdN", "T_stdS", "S_stdN", "S_stdS"))
    north = south = True
    used = 0
    for d in DEPTH:
        if not 150 < d < 1700:
            continue
        T, S = interp(d, p, t), interp(d, p, q)
        if math.isnan(S) or math.isnan(T):
            continue
        lo_n, hi_n = (interp(T, (tn + e * etn)[::-1], (sn + e * esn)[::-1]) for e in (-1, 1))
        lo_s, hi_s = (interp(S, ss + e * ess, ts + e * ets) for e in (-1, 1))
        if any(math.isnan(v) for v in (lo_n, hi_n, lo_s, hi_s)):
            continue
        used += 1
        north &= gt(S, lo_n) and gt(hi_n, S)
        south &= gt(T, lo_s) and gt(hi_s, T)
    if not used or north == south:
        return 0
    return 1 if north else -1


def run(case):
    from pyowc.data.fetchers import frontal_constraint_saf
    s = Stream(case["raw"])
    c = climatology(s, case["wide"])
    K = case["levels"]
    lat = {"south": s.u(None, -65, -31) if s.flag(.8) else s.u(None, -31, -30.001), "30": -30.0, "north": s.u(None, -29, 20) if s.flag(.7) else s.u(None, -29.999, -29)}[case["lat"]]
    pres = np.sort(s.u(K, 5, 2100))
    if case["shallow"]:
        pres = pres / 7.5
    elif K > 2:
        pres[0], pres[-1] = s.u(None, 5, 60), s.u(None, 1800, 2100)
    clean = {k: v.copy() for k, v in c.items()}
    for k in clean:
        clean[k][:2] -= 30 if "std" not in k else 5
    a = {"north": 0, "south": 1, "between": s.u(None, .3, .7), "t300 north": 0, "t300 south": 1}[case["mix"]]
    warm = {"t300 north": s.u(None, .5, 2), "t300 south": s.u(None, -1.5, -.5)}.get(case["mix"], 0)

    def column(p, a, warm, noise):
        def at(k):
            return np.interp(p, DEPTH, (1 - a) * clean[k + "N"] + a * clean[k + "S"])
        n = s.u(None, -1, 1) * noise
        return (at("T_mean") + warm + n * at("T_std") + .1 * noise * s.normal(len(p)) * at("T_std"),
                at("S_mean") + s.u(None, -1, 1) * noise * at("S_std"))
    tmp, sal = column(pres, a, warm, case["noise"])
    if case["mix"] in ("north", "south") and s.flag(.7):
        # bring the temperature at 300 dbar between 3 and 5 degC, so that the envelope decides
        t3 = np.interp(300, pres, tmp)
        shift = s.u(None, 3.05, 4.95) - t3
        if abs(shift) < 1.5:
            tmp = tmp + shift * np.exp(-((pres - 300) / 150) ** 2)
    if case["bump"] and K > 3:
        # one or two levels out of line: the envelope is left only there
        i = s.integer(0, K - 1) if s.flag(.5) else int(np.argmin(np.abs(pres - s.u(None, 1400, 1800))))
        i = slice(i, i + case["bump"])
        tmp[i] += s.u(None, -1.5, 1.5)
        sal[i] += s.u(None, -.2, .2)
    if case["repeat"] and K > 3:
        i = s.integer(1, K - 1)
        pres[i] = pres[i - 1]
    for v in (pres, tmp, sal):
        v[s.flags(K, case["nan"] / 3)] = np.nan

    n, G = case["casts"], s.integer(3, 25)
    gp = np.full((G, n), np.nan)
    gt_, gs = gp.copy(), gp.copy()
    for j in range(n):
        m = s.integer(1, G) if case["ragged"] else G
        p = np.sort(s.u(m, 5, 2000 if s.flag(.85) else 280))
        if m > 4:
            p[0] = s.u(None, 5, 100)
        t, q = column(p, s.u(), s.u(None, -1.5, 1.5), .3)
        kind = s.integer(0, 4)
        if kind == 0 and m > 5:
            i = s.integer(1, m - 3)
            p[i], t[i], q[i] = p[i - 1], t[i - 1], q[i - 1]
        elif kind == 1:
            bad = s.flags(m, .15)
            p[bad] = t[bad] = q[bad] = np.nan
        gp[:m, j], gt_[:m, j], gs[:m, j] = p, t, q
    grid = {"grid_sal": gs, "grid_ptmp": gt_, "grid_pres": gp, "grid_lat": s.u(n, -60, -35) if lat < 0 else s.u(n, 0, 40),
            "grid_long": s.u(n, 20, 340), "grid_dates": s.u(n, 1980, 2020), "grid_z": s.u(n, 500, 5500)}
    sa = gsw.SA_from_SP(gs, gp, grid["grid_long"], grid["grid_lat"])
    insitu = gsw.t_from_CT(sa, gsw.CT_from_pt(sa, gt_), gp)
    try:
        side = side_of_float(c, pres, tmp, sal) if lat < -30 else 0
        keep, free = [], []
        for j in range(n):
            # the last row of the matrix: see ASSUMPTIONS
            ok = [i for i in range(G) if not math.isnan(gp[i, j] + insitu[i, j])]
            ok = [i for k, i in enumerate(ok) if k + 1 == len(ok) or gp[ok[k + 1], j] != gp[i, j]]
            p = [gp[i, j] for i in ok]
            if side == 0:
                keep.append(j)
                continue
            if ok and ok[-1] == G - 1 and (len(ok) < 4 or not gp[ok[-2], j] > 300):
                free.append(j)
                continue
            here = 0
            if len(ok) > 2 and p[0] < 300 < p[-1]:
                here = side_of_temperature(interp(300, p, [insitu[i, j] for i in ok]))
            if here == side:
                keep.append(j)
    except Near:
        return {"nontrivial": False, "labels": ["near a decision"]}
    root = harness.fresh_dir("saf")
    try:
        savemat(os.path.join(root, "saf.mat"), {**{k: v[None] for k, v in c.items()}, "Deph": DEPTH[None].astype(np.uint16)})
        config = {"CONFIG_DIRECTORY": root, "CONFIG_SAF": "saf.mat"}
        fl = {"float_lat": lat, "float_pres": pres, "float_tmp": tmp, "float_sal": sal}
        before = {k: np.array(v) for k, v in list(grid.items()) + list(fl.items())}
        with under_test("frontal_constraint_saf"):
            got = frontal_constraint_saf(config, grid, fl)
            for k, v in before.items():
                close(grid[k] if k in grid else fl[k], v, f"{k} (modified)", rtol=0, atol=0)
            require(set(got) >= set(grid), "fields %s", sorted(got))
            # which casts were kept: by date, which tells them apart
            dates = np.asarray(got["grid_dates"], dtype=float)
            require(dates.ndim == 1, "dates have shape %s", dates.shape)
            kept = [int(np.nonzero(grid["grid_dates"] == v)[0][0]) for v in dates]
            require([j for j in kept if j not in free] == keep,
                    "side %d: kept casts %s, expected %s (%s not compared)", side, kept, keep, free)
            require(kept == sorted(set(kept)), "casts %s not in order", kept)
            for k in grid:
                close(got[k], grid[k][..., kept], f"{k} of the casts kept", rtol=0, atol=0)
    finally:
        harness.drop_dir(root)
    return {"nontrivial": side != 0 and 0 < len(keep) < n,
            "labels": [f"side {side}", "lat " + case["lat"]] + (["by envelope"] if side and lat < -30 and by_envelope(pres, tmp) else [])}


def by_envelope(pres, tmp):
    ok = ~np.isnan(pres + tmp)
    return 3 <= np.interp(300, pres[ok], tmp[ok]) <= 5


SUBS = [Sub("front", 12000, 480000, cases, run)]
FINDINGS = {}
