"""P20: get_topo_grid."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from vlib import topo
from vlib.harness import Sub, under_test, require, close, HarnessError

RULE = ("A case is a longitude range (starting anywhere from -180 to 540, a third of them around 0 or 360, up to 15 degrees wide, edges on the 1/12 "
        "degree raster, next to it, at multiples of 360 or anywhere; one in ten is up to 359 degrees wide) and a "
        "latitude range (up to 6 degrees, also over a pole and beyond), over a topography file whose values identify "
        "their place. Non-trivial: the range crosses a multiple of 360 degrees or a pole, or lies outside 0 to 360.")
ASSUMPTIONS = ["the range is at most 359 degrees wide and lies within -360 to 720 degrees"]


@st.composite
def edge(draw, lo, hi):
    kind = draw(st.sampled_from(["free", "raster", "near", "circle"]))
    if kind == "free":
        return draw(st.integers(int(lo * 1000), int(hi * 1000))) / 1000 + draw(st.sampled_from([0.0, 0.00037]))
    if kind == "circle":
        return float(min(max(draw(st.sampled_from([-180, 0, 180, 360, 540])) + draw(st.sampled_from([0, 0, -1 / 12, 1 / 12, 0.01, -0.01])), lo), hi))
    v = draw(st.integers(int(lo * 12), int(hi * 12))) / 12
    return v + (draw(st.sampled_from([-.02, .02])) if kind == "near" else 0)


@st.composite
def cases(draw):
    lon = draw(edge(-180, 540))
    wide = draw(st.integers(0, 9)) == 0
    span = draw(edge(0, 15)) if not wide else draw(st.integers(0, 359000)) / 1000
    if draw(st.integers(0, 2)) == 0:
        lon = draw(st.sampled_from([0, 360])) - abs(span) * draw(st.integers(0, 8)) / 8
    pole = draw(st.sampled_from([0, 0, 0, 1, -1]))
    height = abs(draw(edge(0, 6))) if not wide else draw(st.sampled_from([0.0, 0.05, 0.2]))
    if pole:
        lat = pole * (90 + draw(st.integers(-5000, 5000)) / 1000) - (height if pole > 0 else 0) * draw(st.sampled_from([0.5, 1.0]))
        if lat > 89.5:
            lat = 89.5
        if lat + height < -89.5:
            height = -89.5 - lat
    else:
        lat = draw(edge(-84, 84))
    return {"min_long": lon, "max_long": lon + abs(span), "min_lat": lat, "max_lat": lat + height}


def run(case):
    from pyowc.data.fetchers import get_topo_grid
    a, b, c, d = (case[k] for k in ("min_long", "max_long", "min_lat", "max_lat"))
    if c > 90 or d < -90:
        raise HarnessError("range outside the globe")
    table = topo.table("hash")
    # columns from the last raster line at or below the range to the first at or above it
    cols = np.arange(math.floor(a * 12), math.ceil(b * 12) + 1)
    top, bottom = math.ceil(min(d, 90) * 12), max(math.floor(max(c, -90) * 12), -1079)
    rows = np.arange(top, bottom - 1, -1)
    want = table[1080 - rows][:, cols % 4320].astype(float)
    config = {"CONFIG_DIRECTORY": os.path.dirname(topo.path("hash"))}
    with under_test("get_topo_grid"):
        elev, lon, lat = get_topo_grid(a, b, c, d, config)
        elev, lon, lat = (np.asarray(v, dtype=float) for v in (elev, lon, lat))
        require(elev.shape == lon.shape == lat.shape, "shapes differ: %s %s %s", elev.shape, lon.shape, lat.shape)
        require(elev.ndim == 2 and elev.size > 0, "shape %s", elev.shape)
        glon, glat = lon[0], lat[:, 0]
        require((lon == glon[None]).all() and (lat == glat[:, None]).all(), "coordinates are not a grid")
        require((np.diff(glon) > 0).all() and (np.diff(glat) < 0).all(), "coordinates are not in order")
        require(glon[0] <= a + 1e-9 and glon[-1] >= b - 1e-9, "longitudes %s..%s do not cover %s..%s", glon[0], glon[-1], a, b)
        require(glat[0] >= min(d, 90) - 1e-9 and glat[-1] <= max(c, -1079 / 12) + 1e-9,
                "latitudes %s..%s do not cover %s..%s", glat[0], glat[-1], c, d)
        close(glon, cols / 12, "longitudes", rtol=0, atol=1e-9)
        close(glat, rows / 12, "latitudes", rtol=0, atol=1e-9)
        close(elev, want, "elevations", rtol=0, atol=0)
    crosses = math.floor(a / 360) != math.floor(b / 360)
    labels = ["crosses" if crosses else "inside", "pole" if d > 90 or c < -90 else "no pole"]
    if a < 0 or b > 360:
        labels.append("outside 0..360")
    return {"nontrivial": crosses or d > 90 or c < -90 or a < 0 or b > 360, "labels": labels}


SUBS = [Sub("grid", 18000, 180000, cases, run)]
FINDINGS = {}
