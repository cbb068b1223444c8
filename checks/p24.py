"""P24: update_salinity_mapping under rotation of the globe."""
import numpy as np
from hypothesis import strategies as st

from checks import p12
from vlib import harness, world as W
from vlib.harness import Sub, under_test, require, close, quiet

RULE = ("A case is an ocean as for P12 over a sea floor that is uniform or depends on latitude only, mapped where it is "
        "and again turned by 10 to 350 degrees with all its casts, boxes and flags; turns that carry the float or some of "
        "the casts across 0/360 or 180 are drawn more often, also with casts only far to the west and east of the float. Reference longitudes are stored as 0 to 360 or -180 to 180. "
        "Non-trivial: something is mapped, and the turned (or the original) casts or profiles lie on both sides of 0/360 or 180.")
ASSUMPTIONS = ["float longitudes 0 to 360", "the front filter is off (gsw's salinity anomaly depends on longitude)"]


def cases():
    return W.cases(topo=st.sampled_from(["zonal", "-4000"]), saf=st.just(0), qc=st.just(0.0),
                   region=st.sampled_from(["north", "south", "greenwich", "tropics", "east", "dateline"]),
                   delta=st.sampled_from([600, 250]), exclude=st.sampled_from([100, 0]), wide=st.sampled_from([1.6, 1.0]),
                   branch=st.sampled_from([360, 180]), branch2=st.sampled_from([360, 180]),
                   turn=st.integers(1, 35), to=st.sampled_from(["greenwich", "edge", "dateline", "carry", "any"]),
                   layout=st.sampled_from(["around", "flanks", "around"]))


def run(case):
    from pyowc.calibration import update_salinity_mapping
    w = W.World(case)
    if not p12.clear_of_edges(w):
        return {"nontrivial": False, "labels": ["box edge"]}
    box = int(w.lon0 % 360 // 10)
    extra = case["turn"] % 5 - 2
    turn = {"greenwich": -box, "dateline": 18 - box, "edge": 36 - 1 - box + 4 * (case["turn"] % 2), "carry": 34 - box, "any": case["turn"]}[case["to"]]
    turn = (turn + (extra if case["to"] not in ("any", "carry") else 0)) % 36 or 7
    roots = [harness.fresh_dir("ocean"), harness.fresh_dir("turned")]
    try:
        got = []
        for root, rot, branch in zip(roots, (0.0, 10.0 * turn), (case["branch"], case["branch2"])):
            w.case = dict(case, branch=branch)
            with quiet():
                config = w.write(root, rotate=rot)
            with under_test("update_salinity_mapping"):
                update_salinity_mapping(W.DIR, config, W.FLOAT)
                got.append(p12.load(config))
        a, b = got
        with under_test("result of update_salinity_mapping"):
            for f in p12.FIELDS:
                scale = 1.0 if f in ("la_mapped_sal", "la_ptmp") else np.nanmax(np.abs(a[f]), initial=0)
                close(b[f], a[f], f"{f} turned by {10 * turn} degrees", rtol=1e-6, atol=1e-6 * scale)
            for f in list(p12.SETTINGS) + ["la_profile_no"]:
                close(np.ravel(b[f]), np.ravel(a[f]), f + " turned", rtol=0, atol=0)
            p, q = (np.asarray(v["selected_hist"], dtype=float).reshape(-1, 3) for v in got)
            require(len(p) == len(q), "%s selected positions, %s after turning", len(p), len(q))
            # (which of two positions closer than 1/60 degree is kept does not matter)
            off = np.abs((q[:, 0] - p[:, 0] - 10 * turn + 180) % 360 - 180)
            require((off < 1 / 60).all(), "selected longitudes %s, turned by %s: %s", p[:, 0].tolist(), 10 * turn, q[:, 0].tolist())
            close(q[:, 1], p[:, 1], "selected latitudes turned", rtol=0, atol=1 / 60)
            close(q[:, 2], p[:, 2], "profiles of selected positions turned", rtol=0, atol=0)
    finally:
        for root in roots:
            harness.drop_dir(root)
    labels, split = [case["to"]], False
    every = np.concatenate([w.long[~np.isnan(w.long)], [c["lon"] for c in w.casts]])
    for rot in (0, 10 * turn):
        x = (every + rot) % 360
        for name, edge in (("Greenwich", 0), ("the date line", 180)):
            d = (x - edge + 180) % 360 - 180
            if ((d > -60) & (d < 0)).any() and ((d >= 0) & (d < 60)).any():
                split = True
                labels.append("on both sides of " + name)
    mapped = not np.isnan(a["la_mapped_sal"]).all()
    return {"nontrivial": bool(split and mapped), "labels": sorted(set(labels)) + (["mapped"] if mapped else [])}


SUBS = [Sub("rotation", 360, 16000, cases, run)]
FINDINGS = {}
