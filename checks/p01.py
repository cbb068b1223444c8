"""P01: find_25boxes."""
import math
import numpy as np
from hypothesis import strategies as st

from vlib.gen import dyadic
from vlib.harness import Sub, under_test, require

RULE = ("A case is a float position on a 1/8-degree grid or an arbitrary position not within 0.02 degrees below a box "
        "edge (the documented 0.01-degree bias towards north/east), with a box table of arbitrary flags; or a position "
        "with a NaN. Non-trivial: the 5x5 block wraps around Greenwich, or reaches beyond a pole, or the position is on "
        "a box edge, or is missing.")
ASSUMPTIONS = ["profile longitude 0 <= longitude <= 360, latitude -90 <= latitude < 90 (the convention of the float source files)",
               "the order of the 25 rows is not part of the property"]


def table(seed_bits):
    boxes = np.zeros((648, 4))
    # box numbers of the table are arbitrary labels: make them all different and not equal to the row
    boxes[:, 0] = 1000 + (np.arange(648) * 7) % 6480
    bits = np.frombuffer(seed_bits, dtype=np.uint8)
    for k in range(3):
        boxes[:, k + 1] = (bits[(np.arange(648) * 3 + k) % len(bits)] >> (np.arange(648) % 8)) & 1
    return boxes


def expected(lon, lat, boxes):
    """Rows of the block: the table runs down each 10-degree strip from north to south, strips eastward from 0."""
    col = int(math.floor(lon / 10.0)) % 36
    row = min(int(math.floor((90.0 - lat) / 10.0)), 17)
    if (90.0 - lat) / 10.0 == math.floor((90.0 - lat) / 10.0) and row > 0 and lat < 90.0 and lat > -90.0:
        row -= 1          # on an edge: the box to the north
    rows = []
    empty = 0
    for dr in (-2, -1, 0, 1, 2):
        for dc in (-2, -1, 0, 1, 2):
            r = row + dr
            if 0 <= r <= 17:
                rows.append(tuple(boxes[((col + dc) % 36) * 18 + r]))
            else:
                empty += 1
    wraps = col < 2 or col > 33
    return sorted(rows), empty, wraps


def run(case):
    from pyowc.core.finders import find_25boxes
    lon, lat = case["lon"], case["lat"]
    boxes = table(case["flags"])
    keep = boxes.copy()
    edge = False
    if not math.isnan(lon) and not math.isnan(lat):
        rows, empty, wraps = expected(lon, lat, boxes)
        edge = lon % 10 == 0 or lat % 10 == 0
    else:
        rows, empty, wraps = [], 25, False
    with under_test("find_25boxes"):
        got = np.asarray(find_25boxes(lon, lat, {"la_wmo_boxes": boxes}), dtype=float)
        require(got.shape == (25, 4), f"shape {got.shape}")
        nan = np.isnan(got)
        require(np.all(nan.all(axis=1) == nan.any(axis=1)), "a row is partly NaN")
        require(int(nan.all(axis=1).sum()) == empty, f"{int(nan.all(axis=1).sum())} empty rows, expected {empty} "
                f"at ({lon}, {lat})")
        have = sorted(tuple(r) for r in got[~nan.any(axis=1)])
        require(have == rows, f"boxes at ({lon}, {lat}): {sorted(set(have) - set(rows))[:3]} not expected, "
                f"{sorted(set(rows) - set(have))[:3]} missing, {len(have)} rows")
        require(np.array_equal(boxes, keep), "box table modified")
    labels = []
    if not rows:
        labels.append("missing position")
    if wraps:
        labels.append("wraps around Greenwich")
    if rows and empty:
        labels.append("reaches beyond a pole")
    if edge:
        labels.append("on a box edge")
    return {"nontrivial": bool(labels), "labels": labels}


def ok(x):
    """not in the band below an edge that the 0.01-degree bias carries over it, nor within rounding of an edge"""
    return 1e-6 < x % 10 < 9.98


@st.composite
def cases(draw):
    flags = draw(st.binary(min_size=8, max_size=8))
    kind = draw(st.sampled_from(["grid", "grid", "edge", "free", "pole", "greenwich", "nan"]))
    if kind == "nan":
        lon, lat = draw(st.sampled_from([(float("nan"), 10.0), (20.0, float("nan")), (float("nan"), float("nan"))]))
    else:
        lon = draw(dyadic(0, 360))
        lat = draw(dyadic(-90, 89.875))
        if kind == "edge":
            lon = 10.0 * draw(st.integers(0, 36))
        if kind == "edge" and draw(st.booleans()):
            lat = 10.0 * draw(st.integers(-9, 8))
        if kind == "pole":
            lat = draw(st.sampled_from([1, -1])) * (89.875 - draw(dyadic(0, 30)))
        if kind == "greenwich":
            lon = (draw(dyadic(-25, 25)) + 360.0) % 360.0
        if kind == "free":
            lon = draw(st.floats(0, 360, exclude_max=True).filter(ok))
            lat = draw(st.floats(-90, 89.9).filter(ok))
    return {"lon": lon, "lat": lat, "flags": flags}


SUBS = [Sub("block", 18000, 720000, cases, run)]
FINDINGS = {}
