"""P12: update_salinity_mapping, one run over a synthetic ocean."""
import math
import os

import numpy as np
from hypothesis import strategies as st
from scipy.io import loadmat

from checks import p01
from vlib import harness, ref, topo, world as W
from vlib.harness import Sub, under_test, require, close, quiet

RULE = ("A case is an ocean on disk: topography, 8 to 60 reference casts of three kinds in their boxes (ragged, missing "
        "levels, outliers, the float's own casts, disabled kinds), a box table, a front climatology, a float of 1 to 4 "
        "profiles in any order (missing levels, profiles without position, salinity, pressure, reference data around "
        "them or in their ellipse) in one of nine regions (Greenwich, also with casts on both sides, date line, poles, south of the front), and "
        "settings (scales, vorticity, front, cast limit, excluded layer, pressure difference). Non-trivial: at least one "
        "level mapped and one not mapped. Cases within rounding of a decision, or with a matrix condition above 1e7, "
        "are not compared.")
ASSUMPTIONS = ["float longitudes 0 to 360; box edges avoided by 0.01 degree (P01)",
               "a reference salinity field is not uniform (the covariance matrix of zero variance is singular)",
               "the order in which boxes are searched is the code's own: the random third of the casts depends on it",
               "gsw converts temperatures"]

FIELDS = ["la_mapped_sal", "la_mapsalerrors", "la_noise_sal", "la_signal_sal", "la_ptmp"]
SETTINGS = {"scale_long_large": "MAPSCALE_LONGITUDE_LARGE", "scale_lat_large": "MAPSCALE_LATITUDE_LARGE",
            "scale_long_small": "MAPSCALE_LONGITUDE_SMALL", "scale_lat_small": "MAPSCALE_LATITUDE_SMALL",
            "scale_phi_large": "MAPSCALE_PHI_LARGE", "scale_phi_small": "MAPSCALE_PHI_SMALL",
            "scale_age_large": "MAPSCALE_AGE_LARGE", "scale_age_small": "MAPSCALE_AGE_SMALL",
            "use_pv": "MAP_USE_PV", "use_saf": "MAP_USE_SAF", "p_delta": "MAP_P_DELTA", "p_exclude": "MAP_P_EXCLUDE"}


def cases():
    return W.cases()


def clear_of_edges(w, rotate=0.0):
    for x in list(w.long + rotate) + [c["lon"] for c in w.casts]:
        if not math.isnan(x) and 9.98 < x % 10:
            return False
    for y in list(w.lat) + [c["lat"] for c in w.casts]:
        if not math.isnan(y) and (9.98 < y % 10 or y % 10 < .02):
            return False
    return True


def boxes_of(w, j, rotate=0.0):
    """Labels of the boxes around a profile, in the code's order"""
    from pyowc.core.finders import find_25boxes
    lon, lat = float((w.long[j] + rotate) % 360), float(w.lat[j])
    table = w.table()
    turn = int(round(rotate / 10))
    table[:, 1:] = np.roll(table[:, 1:], 18 * turn, axis=0)
    got = np.asarray(find_25boxes(lon, lat, {"la_wmo_boxes": table.copy()}), dtype=float)
    if math.isnan(lon) or math.isnan(lat):
        return []
    rows, _, _ = p01.expected(lon, lat, table)
    order = [v for v in got[:, 0] if not math.isnan(v)]
    require(sorted(order) == sorted(r[0] for r in rows), "boxes searched %s", order)
    return order


def mapped_file(config):
    return os.path.join(config["FLOAT_MAPPED_DIRECTORY"], W.DIR, config["FLOAT_MAPPED_PREFIX"] + W.FLOAT + config["FLOAT_MAPPED_POSTFIX"])


def load(config):
    return loadmat(mapped_file(config))


def row(got, key, n):
    v = np.asarray(got[key], dtype=float)
    require(v.size == n, "%s has %s values for %s profiles", key, v.size, n)
    return v.ravel()


def expected(w, config, rotate=0.0, columns=None):
    """Mapped fields in order of profile number, or Near"""
    n = len(w.number)
    out = {}
    for j in (range(n) if columns is None else columns):
        with under_test("find_25boxes"):
            order = boxes_of(w, j, rotate)
        out[w.number[j]] = ref.profile(w, j, config, order, rotate)
    return out


def compare(w, want, got, config, levels=None):
    numbers = sorted(want)
    n, m = len(numbers), w.pres.shape[0] if levels is None else levels
    require(np.asarray(got["la_profile_no"], dtype=float).ravel().tolist() == numbers,
            "profile numbers %s, expected %s", got["la_profile_no"].tolist(), numbers)
    table = {f: np.full((m, n), np.nan) for f in FIELDS}
    for k, num in enumerate(numbers):
        for level, values in want[num]["levels"].items():
            for f, v in zip(FIELDS, values):
                table[f][level, k] = v
    for f in FIELDS:
        scale = 1.0 if f in ("la_mapped_sal", "la_ptmp") else np.nanmax(np.abs(table[f]), initial=0)
        close(got[f], table[f], f, rtol=3e-6, atol=1e-6 * scale)
    for key, name in SETTINGS.items():
        close(row(got, key, n), [config[name] if want[num]["levels"] else math.nan for num in numbers], key, rtol=1e-12)
    return table


def selected(w, want, got, rotate=0.0):
    rows = np.asarray(got["selected_hist"], dtype=float)
    used = {num: want[num]["used"] for num in want if want[num]["used"]}
    if not used:
        require(rows.size == 0, "selected positions %s", rows.tolist())
        return
    require(rows.ndim == 2 and rows.shape[1] == 3, "selected positions have shape %s", rows.shape)
    require((np.diff(rows[:, 2]) >= 0).all(), "selected positions not in order of profile number: %s", rows[:, 2].tolist())
    every = set().union(*used.values())
    # the float's own branch of longitudes may differ from profile to profile: positions modulo 360
    where = {k: ((w.casts[k]["lon"] + rotate) % 360, w.casts[k]["lat"]) for k in every}
    tol = 1 / 60 + 1e-6

    def near(p, q):
        return abs((p[0] - q[0] + 180) % 360 - 180) < tol and abs(p[1] - q[1]) < tol
    for r in rows:
        require(any(near(r, where[k]) and abs((r[0] - where[k][0] + 180) % 360 - 180) + abs(r[1] - where[k][1]) < 1e-6
                    for k in used.get(r[2], ())), "selected position %s is not that of a cast used for its profile", r.tolist())
    for k in every:
        require(any(near(r, where[k]) for r in rows), "cast at %s is not among the selected positions", where[k])
    for a in range(len(rows)):
        for b in range(a):
            require(not (abs((rows[a, 0] - rows[b, 0] + 180) % 360 - 180) < 1 / 60 - 1e-6 and abs(rows[a, 1] - rows[b, 1]) < 1 / 60 - 1e-6),
                    "selected positions %s and %s are the same", rows[a].tolist(), rows[b].tolist())


def run(case):
    from pyowc.calibration import update_salinity_mapping
    w = W.World(case)
    if not clear_of_edges(w):
        return {"nontrivial": False, "labels": ["box edge"]}
    root = harness.fresh_dir("ocean")
    try:
        with quiet():
            config = w.write(root)
        try:
            want = expected(w, config)
        except ref.Near:
            return {"nontrivial": False, "labels": ["near a decision"]}
        keep = dict(config)
        with under_test("update_salinity_mapping"):
            update_salinity_mapping(W.DIR, config, W.FLOAT)
            require(config == keep, "the configuration was changed")
            got = load(config)
            compare(w, want, got, config)
            selected(w, want, got)
    finally:
        harness.drop_dir(root)
    count = sum(len(v["levels"]) for v in want.values())
    labels = sorted(set().union(*(v["labels"] for v in want.values()))) + [case["region"]]
    labels += ["mapped" if count else "nothing mapped"]
    return {"nontrivial": 0 < count < w.pres.size, "labels": labels}


SUBS = [Sub("ocean", 640, 24000, cases, run)]
FINDINGS = {}
