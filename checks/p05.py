"""P05: find_ellipse, spatial_correlation, potential_vorticity."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.gen import Stream, raw
from vlib.harness import Sub, under_test, require

RULE = ("A case is a set of two to eight points, scales and vorticity on or off (including points on the equator and "
        "coincident points), evaluated one by one and as arrays. Non-trivial: the points are distinct and, where "
        "vorticity is on, have different vorticity.")
ASSUMPTIONS = ["positive scales, non-zero depths, finite positions"]


@st.composite
def cases(draw):
    return {"raw": draw(raw(64)), "n": draw(st.integers(2, 8)), "pv": draw(st.booleans()),
            "coincident": draw(st.booleans()), "equator": draw(st.booleans())}


def pv_ref(lat, z):
    v = 2 * 7.292e-5 * math.sin(math.radians(lat)) / z
    return 1e-5 if v == 0 else v


def pv_term(a, b, phi):
    return ((b - a) / math.hypot(a, b) / phi) ** 2 if a != 0 and b != 0 else 0.0


def near(a, b, what, rtol=1e-11):
    require(math.isfinite(a) and abs(a - b) <= rtol * abs(b) + 1e-300, f"{what}: {a!r}, expected {b!r}")


def run(case):
    from pyowc.core.finders import find_ellipse
    from pyowc.utilities import potential_vorticity, spatial_correlation
    s = Stream(case["raw"])
    n = case["n"]
    lon, lat, date = s.u(n, 0, 400), s.u(n, -89, 89), s.u(n, 1950, 2030)
    z = s.u(n, 20, 7000) * np.where(s.flags(n, 0.1), -1, 1)
    if case["equator"]:
        lat[0] = 0.0
    if case["coincident"]:
        lon[1], lat[1], date[1], z[1] = lon[0], lat[0], date[0], z[0]
    sx, sy, age, phi = s.u(None, .05, 20), s.u(None, .05, 20), s.u(None, .05, 60), s.u(None, .005, 2)
    grow = 1 + s.u(None, 0.1, 3)
    pv = [pv_ref(a, b) for a, b in zip(lat, z)] if case["pv"] else [0] * n
    distinct = False
    with under_test("measures"):
        for a, b in zip(lat, z):
            near(potential_vorticity(a, b), pv_ref(a, b), "potential vorticity")
        for i in range(n):
            for j in range(n):
                args = ((lon[i], lon[j], sx, lat[i], lat[j], sy, phi) + ((pv[i], pv[j]) if case["pv"] else ()))
                sep = ((lon[i] - lon[j]) / sx) ** 2 + ((lat[i] - lat[j]) / sy) ** 2
                want = math.sqrt(sep / 9 + pv_term(pv[i], pv[j], phi))
                got = find_ellipse(*args)
                near(got, want, "ellipse")
                if i != j and want > 0:
                    distinct = True
                big = find_ellipse(args[0], args[1], sx * grow, args[3], args[4], sy * grow, phi * grow, *args[7:])
                require(big <= got, "a larger ellipse leaves the point further out")
                args = ((lon[i], lon[j], sx, lat[i], lat[j], sy, date[i], date[j], age, phi)
                        + ((pv[i], pv[j]) if case["pv"] else ()))
                want = sep + ((date[i] - date[j]) / age) ** 2 + pv_term(pv[i], pv[j], phi)
                got = spatial_correlation(*args)
                near(got, want, "separation")
                back = spatial_correlation(lon[j], lon[i], sx, lat[j], lat[i], sy, date[j], date[i], age, phi,
                                           *((pv[j], pv[i]) if case["pv"] else ()))
                near(back, want, "separation the other way")
                if i == j:
                    require(got == 0, "separation of a point from itself is not 0")
        vec = np.vectorize(find_ellipse)(lon, lon[0], sx, lat, lat[0], sy, phi, np.array(pv, dtype=float) if case["pv"] else 0,
                                         pv[0] if case["pv"] else 0)
        for i in range(n):
            near(float(vec[i]), math.sqrt((((lon[i] - lon[0]) / sx) ** 2 + ((lat[i] - lat[0]) / sy) ** 2) / 9
                                          + pv_term(pv[0], pv[i], phi)), "ellipse of an array")
    return {"nontrivial": distinct, "labels": [k for k in ("pv", "coincident", "equator") if case[k]]}


SUBS = [Sub("measures", 4800, 240000, cases, run)]
FINDINGS = {}
