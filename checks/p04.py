"""P04: wrap_longitude."""
import numpy as np
from hypothesis import strategies as st

from vlib.gen import dyadic
from vlib.harness import Sub, under_test, require

RULE = ("A case is an array of 0 to 40 longitudes between -180 and 360, on a 1/8-degree grid so that the limits 0, 40, "
        "320 and 360 are hit, or arbitrary. Non-trivial: some value is negative, or lies in [320, 360] together with "
        "one in [0, 40].")
ASSUMPTIONS = ["longitudes between -180 and 360, no NaN"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["any", "high", "low", "nohigh", "edges", "free"]))
    one = {"any": dyadic(-180, 360), "high": st.one_of(dyadic(300, 360), dyadic(0, 60)),
           "low": dyadic(0, 90), "nohigh": dyadic(0, 319.875),
           "edges": st.sampled_from([0.0, 40.0, 320.0, 360.0, -40.0, -40.125, 40.125, 319.875, -180.0, 180.0]),
           "free": st.floats(-180, 360)}[kind]
    return {"long": draw(st.lists(one, min_size=0, max_size=40))}


def run(case):
    from pyowc.utilities import wrap_longitude
    a = np.array(case["long"], dtype=float)
    base = np.where(a < 0, a + 360.0, a)
    carry = bool(np.any(base >= 320))
    want = np.where((base <= 40) & carry, base + 360.0, base)
    with under_test("wrap_longitude"):
        got = np.asarray(wrap_longitude(a.copy()), dtype=float)
        require(got.shape == a.shape, f"shape {got.shape}, expected {a.shape}")
        require(np.all(np.abs(got - want) <= 1e-9), f"{a.tolist()} gives {got.tolist()}, expected {want.tolist()}")
        if len(a):
            turns = (got - a) / 360.0
            require(np.all(np.abs(turns - np.round(turns)) <= 1e-9), "a point was moved")
            require(got.min() >= 0, "negative longitude left")
        again = np.asarray(wrap_longitude(got.copy()), dtype=float)
        require(np.all(np.abs(again - got) <= 1e-9), "normalising twice changes the values")
    neg = bool(np.any(a < 0))
    both = carry and bool(np.any(base <= 40))
    return {"nontrivial": neg or both,
            "labels": (["negative"] if neg else []) + (["carried past 360"] if both else [])}


SUBS = [Sub("wrap", 18000, 720000, cases, run)]
FINDINGS = {}
