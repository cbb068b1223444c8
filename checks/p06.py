"""P06: find_besthist."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.gen import Stream, raw
from vlib.harness import Sub, under_test, require

RULE = ("A case is up to 80 reference casts (positions, dates, depths; none, some or all inside the ellipse; row or column "
        "arrays), a profile, small and large scales, vorticity on or off, and a limit from 5 to 60. Non-trivial: more "
        "casts inside the ellipse than the limit and at least one outside it. Cases with two casts nearer than 1e-9 in "
        "the closeness they are ranked by, or a cast within 1e-9 of the ellipse, are not counted and not compared.")
ASSUMPTIONS = ["limit of at least 5 casts", "non-zero depths"]


@st.composite
def cases(draw):
    return {"raw": draw(raw(256)), "n": draw(st.sampled_from([1, 2, 5, 10, 20, 40, 60, 80])),
            "max": draw(st.sampled_from([5, 6, 7, 8, 9, 10, 12, 15, 20, 31, 60])), "pv": draw(st.sampled_from([0, 0, 1, 1])),
            "spread": draw(st.sampled_from([1.0, 2.0, 3.0, 6.0])), "south": draw(st.booleans()),
            "shape": draw(st.sampled_from(["flat", "row", "column"]))}


def vorticity(lat, z):
    return 2 * 7.292e-5 * math.sin(math.radians(lat)) / z


def run(case):
    from pyowc.core.finders import find_besthist
    s = Stream(case["raw"])
    n, pv = case["n"], case["pv"]
    big = {"x": s.u(None, 4, 9), "y": s.u(None, 3, 8), "phi": s.u(None, .3, 1), "age": s.u(None, 10, 40)}
    small = {"x": big["x"] * s.u(None, .2, .8), "y": big["y"] * s.u(None, .2, .8), "phi": big["phi"] * s.u(None, .1, .8),
             "age": big["age"] * s.u(None, .1, .7)}
    me = {"x": s.u(None, 30, 330), "y": s.u(None, 20, 55) * (-1 if case["south"] else 1), "t": s.u(None, 1995, 2020),
          "z": s.u(None, 800, 5500)}
    x = me["x"] + s.u(n, -1, 1) * big["x"] * case["spread"]
    y = np.clip(me["y"] + s.u(n, -1, 1) * big["y"] * case["spread"], -85, 85)
    t = s.u(n, 1960, 2021)
    z = s.u(n, 400, 6000)

    vf = vorticity(me["y"], me["z"])
    v = [vorticity(a, b) for a, b in zip(y, z)]

    def pvt(k, phi):
        if not pv or v[k] == 0:
            return 0.0
        return ((vf - v[k]) / math.hypot(vf, v[k]) / phi) ** 2

    inside, doubtful = [], False
    for k in range(n):
        e = math.sqrt(((x[k] - me["x"]) / big["x"] / 3) ** 2 + ((y[k] - me["y"]) / big["y"] / 3) ** 2 + pvt(k, big["phi"]))
        doubtful |= abs(e - 1) < 1e-9
        if e < 1:
            inside.append(k)

    def close_by(k, sc):
        return ((x[k] - me["x"]) / sc["x"]) ** 2 + ((y[k] - me["y"]) / sc["y"]) ** 2 + ((t[k] - me["t"]) / sc["age"]) ** 2 + pvt(k, sc["phi"])

    m = case["max"]
    third = math.ceil(m / 3)

    def expected(members):
        """indices in the order of the three stages"""
        if len(members) <= m:
            return [sorted(members)], False
        # the generator is seeded with the number of casts in the ellipse
        r = np.random.RandomState(len(members)).rand(third) * len(members) - 1
        pick = sorted({max(int(np.round(q)), 0) for q in r})
        first = [members[q] for q in pick]
        rest = [k for k in members if k not in first]
        near = False
        for sc, count in ((big, 2 * third - len(first)), (small, m - 2 * third)):
            d = {k: close_by(k, sc) for k in rest}
            rest.sort(key=lambda k: d[k])
            ds = [d[k] for k in rest]
            near |= any(b - a <= 1e-9 * max(b, 1) for a, b in zip(ds, ds[1:]))
            first = first + [None] + rest[:count]
            rest = rest[count:]
        cut = [i for i, k in enumerate(first) if k is None]
        return [first[:cut[0]], first[cut[0] + 1:cut[1]], first[cut[1] + 1:]], near

    want, near = expected(inside)
    if doubtful or near:
        return {"nontrivial": False, "labels": ["near tie"]}
    form = {"flat": lambda a: a.copy(), "row": lambda a: a[None].copy(), "column": lambda a: a[:, None].copy()}[case["shape"]]

    def call(keep=None, state=1):
        sel = slice(None) if keep is None else keep
        arrays = [form(a[sel]) for a in (y, x, t, z)]
        copies = [a.copy() for a in arrays]
        np.random.seed(state)
        got = find_besthist(*arrays, me["y"], me["x"], me["t"], me["z"], big["y"], small["y"], big["x"], small["x"],
                            big["phi"], small["phi"], big["age"], small["age"], pv, m)
        for a, b in zip(arrays, copies):
            require(np.array_equal(a, b), "an input array was modified")
        got = np.asarray(got)
        require(got.ndim == 1 and (got.size == 0 or got.dtype.kind in "iu"), "not a vector of indices")
        return [int(k) for k in got]

    with under_test("find_besthist"):
        got = call()
        require(len(got) == min(len(inside), m) if len(inside) <= m else len(got) == m, "%d casts selected of %d, limit %d", len(got), len(inside), m)
        require(len(set(got)) == len(got), "casts selected twice")
        require(set(got) <= set(inside), "cast %s outside the ellipse selected", sorted(set(got) - set(inside)))
        require(set(got) == {k for part in want for k in part}, "selected %s, expected %s", sorted(got), sorted(k for part in want for k in part))
        require(call(state=99) == got, "the selection depends on the state of the random generator")
        if inside and len(inside) < n:
            sub = call(keep=np.array(inside))
            require({inside[k] for k in sub} == set(got), "the selection depends on casts outside the ellipse")
    over = len(inside) > m
    return {"nontrivial": over and len(inside) < n,
            "labels": [f"pv {pv}", "over the limit" if over else "within the limit" if inside else "none inside"]}


SUBS = [Sub("selection", 9000, 480000, cases, run)]
FINDINGS = {}
