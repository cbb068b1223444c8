"""P02: get_region_hist_locations, get_region_data, get_data."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import box, harness
from vlib.gen import Stream, raw
from vlib.harness import Sub, under_test, require, close

RULE = ("A case is a database of up to four boxes with up to three types of file each (missing files, one-cast files, "
        "ragged NaN-padded casts, levels out of order or exactly at the limit, casts missing salinity, temperature or pressure here and there, casts without any "
        "usable data, casts entirely below the depth limit, Argo casts of two floats, each of them analysed in turn, their names anywhere in the source), a box table with "
        "flags switched off and missing (NaN) rows, a sequence of selections (in any order, with repeats, also out of "
        "range) and of depth limits, in one process so that the files are cached. Non-trivial: at least two files "
        "contribute and at least one selection leaves out some casts.")
ASSUMPTIONS = ["longitudes of the database within -180..360, dates of 14 digits"]


@st.composite
def cases(draw):
    boxes = draw(st.integers(1, 4))
    files = {}
    for b in range(boxes):
        for k in box.TYPES:
            files[f"{b}-{k}"] = draw(st.sampled_from([0, 0, 1, 1, 2, 3, 5]))
    return {"raw": draw(raw(512)), "boxes": boxes, "files": files,
            "flags": [[draw(st.sampled_from([1, 1, 1, 0])) for _ in range(3)] for _ in range(boxes)],
            "nan_row": draw(st.sampled_from([None, None, 0, 1])),
            "greenwich": draw(st.sampled_from(["far", "straddles", "negative"])),
            "own": draw(st.sampled_from([0.0, .3, 1.0])), "nan": draw(st.sampled_from([0.0, .1, .4])),
            "ragged": draw(st.booleans()), "empty": draw(st.sampled_from([0.0, .15, .4])),
            "deep": draw(st.sampled_from([0.0, .25])), "mixed": draw(st.sampled_from([0.0, .3])), "limits": draw(st.lists(st.sampled_from([150, 400, 900, 3000]), min_size=1, max_size=3))}


NAMES = ("7900123", "7900124")


def stamp(s):
    return float("%04d%02d%02d%02d%02d%02d" % (s.integer(1970, 2020), s.integer(1, 12), s.integer(1, 28),
                                            s.integer(0, 23), s.integer(0, 59), s.integer(0, 59)))


def decimal(v):
    """year with 365 days, seconds not counted (P03)"""
    t = "%014d" % int(v)
    days = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)
    d = days[int(t[4:6]) - 1] + int(t[6:8]) - 1
    return int(t[:4]), d, (int(t[8:10]) + int(t[10:12]) / 60) / 24


def source_of(name, style, j):
    return ("argo_%s_%d", "%s_%d", "R%s_%03d", "argo %s %d")[style] % (name, j)


def build(case, root):
    s = Stream(case["raw"])
    files = []
    box.directories(root)
    for b in range(case["boxes"]):
        for k in box.TYPES:
            n = case["files"][f"{b}-{k}"]
            if not n:
                continue
            K = s.integer(1, 7)
            pres = np.cumsum(s.u((K, n), 40, 300), axis=0)
            deep = s.flags(n, case["deep"])
            pres[:, deep] += 2500
            for j in range(n):
                if s.flag(case["mixed"]):           # levels in any order, also repeated pressures
                    pres[:, j] = pres[s.perm(K), j]
                if s.flag(.15):                     # a level exactly at a limit
                    pres[s.integer(0, K - 1), j] = case["limits"][0] + 50.0
            ptmp, sal = 12 - pres / 400 + s.u((K, n), -.1, .1), 34.5 + s.u((K, n), -.3, .3)
            if case["ragged"]:
                for j, m in enumerate(s.integers(n, 1, K)):
                    pres[m:, j] = ptmp[m:, j] = sal[m:, j] = np.nan
            for v in (pres, ptmp, sal):
                v[s.flags((K, n), case["nan"] / 3)] = np.nan
            for j in range(n):
                if s.flag(case["empty"]):
                    which = s.integer(0, 3)
                    for i, v in enumerate((pres, ptmp, sal)):
                        if which in (i, 3):
                            v[:, j] = np.nan
            lon = {"far": s.u(n, 60, 300), "straddles": np.mod(s.u(n, -15, 15), 360), "negative": s.u(n, -15, 15)}[case["greenwich"]]
            lat = s.u(n, -60, 60)
            dates = np.array([stamp(s) for _ in range(n)])
            source = None
            if k == "argo":
                source = [source_of(NAMES[s.flag(.4)] if s.flag(case["own"]) else str(s.integer(1900000, 6999999)), s.integer(0, 3), j) for j in range(n)]
            box.write(root, k, 1000 + b, lat, lon, dates, sal, ptmp, pres, source)
            files.append((b, k, [(lat[j], lon[j], dates[j], sal[:, j], ptmp[:, j], pres[:, j], source[j] if source else "") for j in range(n)]))
    return s, files


def wrapped(lons):
    v = [x + 360 if x < 0 else x for x in lons]
    if any(x >= 320 for x in v):
        v = [x + 360 if x <= 40 else x for x in v]
    return v


def queries(case, s, files, config, table, name):
    from pyowc.data.fetchers import get_region_data, get_region_hist_locations
    table0 = table.copy()
    listing, used = [], 0
    for row in table:
        for i, k in enumerate(box.TYPES):
            if row[1 + i] == 1:
                for b, kind, casts in files:
                    if kind == k and 1000 + b == row[0]:
                        own = [c for c in casts if name not in c[6]]
                        listing += own
                        used += bool(own)
    if not listing:
        with harness.quiet():
            try:
                get_region_hist_locations(table, name, config)
            except Exception:
                return 0, False
        require(False, "no reference data, but no error")
    n = len(listing)
    lons = wrapped([c[1] for c in listing])
    requests = []
    for limit in case["limits"]:
        kind = s.integer(0, 3)
        index = np.arange(n) if kind == 0 else s.integers(s.integer(1, n), 0, n - 1) if kind == 1 else s.perm(n)[:s.integer(1, n)]
        if s.flag(.2):
            index = np.append(index, [n + 3])
        requests.append((index, float(limit)))
    requests.append(requests[0])
    lost = False
    answers = {}
    with under_test("reference loading"):
        for round_ in range(2):
            lat, lon, date = get_region_hist_locations(table, name, config)
            close(lat, [c[0] for c in listing], "latitudes listed", rtol=0, atol=0)
            close(lon, lons, "longitudes listed", rtol=0, atol=1e-9)
            close(date, [y + (d + f) / 365 for y, d, f in (decimal(c[2]) for c in listing)], "dates listed", rtol=0, atol=2e-9)
            for q, (index, limit) in enumerate(requests):
                fpres = np.array([[10.0], [np.nan], [limit], [limit / 2]])
                chosen = []
                for k in range(n):
                    if k not in index:
                        lost = True
                        continue
                    la, lo, da, sa, pt, pr, _ = listing[k]
                    rows = [i for i in range(len(pr)) if pr[i] <= limit + 50]
                    v = np.array([[sa[i], pt[i], pr[i]] for i in rows]).reshape(-1, 3)
                    v[np.isnan(v).any(axis=1)] = np.nan
                    if np.isnan(v).all():
                        continue
                    chosen.append((la, lo, da, v))
                keep_index = index.copy()
                if not chosen:
                    # nothing left: an empty answer or an error
                    try:
                        got = get_region_data(table, name, config, index, fpres)
                    except RuntimeError:
                        continue
                    require(len(got["grid_lat"]) == 0, "casts without data were kept")
                    continue
                got = get_region_data(table, name, config, index, fpres)
                require(np.array_equal(index, keep_index), "the selection was modified")
                require(set(got) == {"grid_sal", "grid_ptmp", "grid_pres", "grid_lat", "grid_long", "grid_dates"}, "fields %s", sorted(got))
                m = len(chosen)
                require(len(got["grid_lat"]) == m, "selection %d: %d casts, expected %d", q, len(got["grid_lat"]), m)
                close(got["grid_lat"], [c[0] for c in chosen], "latitudes", rtol=0, atol=0)
                # the branch follows from the longitudes of the casts loaded, with data or not
                here = [listing[k][1] for k in range(n) if k in index]
                there = {a: b for a, b in zip(here, wrapped(here))}
                close(np.mod(got["grid_long"], 360), np.mod([c[1] for c in chosen], 360), "longitudes modulo 360", rtol=0, atol=1e-9)
                if any(there[c[1]] != b for c, b in zip(chosen, wrapped([c[1] for c in chosen]))):
                    pass        # the casts dropped decide the branch: either is right
                else:
                    close(got["grid_long"], [there[c[1]] for c in chosen], "longitudes", rtol=0, atol=1e-9)
                close(got["grid_dates"], [y + (d + f) / 365 for y, d, f in (decimal(c[2]) for c in chosen)], "dates", rtol=0, atol=2e-9)
                for col, field in enumerate(("grid_sal", "grid_ptmp", "grid_pres")):
                    g = np.asarray(got[field], dtype=float)
                    require(g.ndim == 2 and g.shape[1] == m, "%s has shape %s for %d casts", field, g.shape, m)
                    for j, c in enumerate(chosen):
                        # levels in order; NaN levels keep no fixed place, but the three fields agree (below)
                        w = c[3][:, col]
                        a = g[:, j]
                        close(a[~np.isnan(a)], w[~np.isnan(w)], f"{field} of cast {j}", rtol=0, atol=0)
                nan = [np.isnan(np.asarray(got[k], dtype=float)) for k in ("grid_sal", "grid_ptmp", "grid_pres")]
                require((nan[0] == nan[1]).all() and (nan[0] == nan[2]).all(), "levels missing in one field only")
                # the same request again gives the same answer
                if q in answers:
                    for k, v in got.items():
                        close(v, answers[q][k], f"{k} of a repeated load", rtol=0, atol=0)
                answers[q] = {k: np.array(v) for k, v in got.items()}
                # what the caller does with an answer does not reach the next one
                for v in got.values():
                    v[...] = -1
            lat[...] = lon[...] = date[...] = -1
        close(np.nan_to_num(table), np.nan_to_num(table0), "box table (modified)", rtol=0, atol=0)
    return used, lost


def run(case):
    root = harness.fresh_dir("db")
    try:
        s, files = build(case, root)
        config = box.config(root)
        config["MAP_P_DELTA"] = 50
        table = np.array([[1000 + b] + case["flags"][b] for b in range(case["boxes"])], dtype=float)
        if case["nan_row"] is not None:
            table = np.insert(table, case["nan_row"], np.nan, axis=0)
        used, lost = 0, False
        # (one float after the other, then the first again, in one process: the files are cached)
        for name in (NAMES[0], NAMES[1], NAMES[0]) if case["own"] else NAMES[:1]:
            u, w = queries(case, s, files, config, table, name)
            used, lost = max(used, u), lost or w
    finally:
        harness.drop_dir(root)
    return {"nontrivial": used > 1 and lost, "labels": [case["greenwich"], f"files {min(used, 4)}"]}


SUBS = [Sub("loading", 4200, 180000, cases, run)]
FINDINGS = {}
