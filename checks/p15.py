"""P15: brk_pt_fit (and sorter)."""
import numpy as np
from hypothesis import strategies as st

from vlib.gen import Stream, raw
from vlib.harness import Sub, under_test, require, close

RULE = ("fit: 4 to 60 observations sorted in x (repeated x, break points exactly on observations, with weights over up "
        "to four decades or none), zero to four break points inside the range; random observations, or observations "
        "exactly on a piecewise linear function. Non-trivial: at least one break point or weights, and a design "
        "conditioned better than 1e5. degenerate: input lengths differ, or the last break point is at or beyond the "
        "last observation. interval: sorter places random sites between sorted limits.")
ASSUMPTIONS = ["designs with a condition number above 1e5 are compared on degenerate cases only"]


@st.composite
def cases(draw):
    return {"raw": draw(raw(256)), "n": draw(st.integers(4, 60)), "b": draw(st.integers(0, 4)),
            "weights": draw(st.sampled_from(["none", "flat", "mild", "wild"])),
            "exact": draw(st.booleans()), "repeat": draw(st.booleans()), "on_point": draw(st.booleans()),
            "scale": draw(st.sampled_from([1.0, 100.0, 1e-3]))}


def material(case):
    s = Stream(case["raw"])
    n = case["n"]
    x = np.sort(s.u(n, -1, 1)) * case["scale"] + s.u(None, -2, 2) * case["scale"]
    if case["repeat"]:
        x = x[np.sort(s.integers(n, 0, n - 1))]
    inside = np.unique(x)
    b = []
    if case["b"] and len(inside) > 2:
        if case["on_point"]:
            b = sorted(set(inside[1 + s.integers(case["b"], 0, len(inside) - 3)].tolist()))
        else:
            b = sorted(s.u(case["b"], x[0], x[-1]).tolist())
    b = [v for v in b if x[0] < v < x[-1]]
    w = {"none": None, "flat": np.ones(n), "mild": s.u(n, 0.3, 3), "wild": 10 ** s.u(n, -2, 2)}[case["weights"]]
    y = s.normal(n)
    return s, x, y, b, w


def hinges(x, b):
    """intercept at the first point, slope, changes of slope"""
    cols = [np.ones(len(x)), x - x[0]] + [np.maximum(x - v, 0) for v in b]
    return np.stack(cols, axis=1)


def call(x, y, w, b):
    from pyowc.core.stats import brk_pt_fit
    wi = np.diag(w) if w is not None else []
    args = (x.copy(), y.copy(), wi)
    got = brk_pt_fit(*args, np.array(b)) if b else brk_pt_fit(*args)
    return np.asarray(got[0], dtype=float), np.asarray(got[1], dtype=float)


def run(case):
    s, x, y, b, w = material(case)
    D = hinges(x, b)
    norm = np.linalg.norm(D, axis=0)
    if (norm == 0).any() or len(np.unique(x)) < len(b) + 2:
        return {"nontrivial": False}
    sw = np.sqrt(w) if w is not None else np.ones(len(x))
    Dw = (D / norm) * sw[:, None]
    cond = np.linalg.cond(Dw)
    if not cond < 1e5:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    # the code's own parameters (slopes) as scaled columns: their conditioning bounds its rounding
    true = None
    if case["exact"]:
        true = np.concatenate(([s.u(None, -3, 3)], s.u(len(b) + 1, -2, 2) / case["scale"]))
        hin = np.concatenate((true[:2], np.diff(true[1:])))
        y = D @ hin
    sol = np.linalg.lstsq(Dw, y * sw, rcond=None)[0] / norm
    par = np.concatenate((sol[:1], np.cumsum(sol[1:])))
    fit = D @ sol
    size = np.abs(y).max() + 1e-300
    tol = 1e-14 * max(cond, 10) ** 2 * len(x)
    with under_test("brk_pt_fit"):
        A, res = call(x, y, w, b)
        require(A.shape == (len(b) + 2,), "parameters have shape %s", A.shape)
        close(res, y - fit, "residual", rtol=0, atol=size * tol)
        span = x[-1] - x[0]
        close(A[0], par[0], "intercept", rtol=0, atol=size * tol * 10)
        close(A[1:] * span, par[1:] * span, "slopes", rtol=0, atol=size * tol * 10 * np.abs(span / norm[1:] * np.sqrt(len(x))).max())
        if true is not None:
            close(res, np.zeros(len(x)), "residual of exact data", rtol=0, atol=size * tol)
        # optimal: no other function of this form is closer
        ww = w if w is not None else np.ones(len(x))
        ss = np.sum(ww * res ** 2)
        for _ in range(4):
            other = y - D @ (sol + s.normal(len(sol)) * 0.1 * np.maximum(np.abs(sol), size / norm))
            require(ss <= np.sum(ww * other ** 2) * (1 + 1e-9) + 1e-20, "another function fits better")
    return {"nontrivial": bool(b) or w is not None,
            "labels": [f"breaks {len(b)}", "weights " + case["weights"]] + (["exact"] if case["exact"] else [])}


@st.composite
def degenerate_cases(draw):
    return {"raw": draw(raw(64)), "n": draw(st.integers(4, 30)), "b": draw(st.integers(0, 3)),
            "kind": draw(st.sampled_from(["lengths", "beyond", "at end"])), "extra": draw(st.sampled_from([-2, -1, 1, 3])),
            "weights": draw(st.booleans())}


def run_degenerate(case):
    s = Stream(case["raw"])
    n = case["n"]
    x = np.sort(s.u(n, -1, 1))
    w = s.u(n, .3, 3) if case["weights"] else None
    b = sorted(s.u(case["b"], x[0], x[-1]).tolist())
    if case["kind"] == "lengths":
        y = s.normal(n + case["extra"])
    else:
        y = s.normal(n)
        b = b + [x[-1] if case["kind"] == "at end" else x[-1] + s.u(None, 0.1, 1)]
    with under_test("brk_pt_fit (degenerate)"):
        A, res = call(x, y, w, b)
        require(A.size == len(b) + 2 and not A.any(), "parameters %s, expected %s zeros", A.ravel().tolist(), len(b) + 2)
        close(res, y, "residual", rtol=0, atol=0)
    return {"nontrivial": True, "labels": [case["kind"]]}


@st.composite
def sorter_cases(draw):
    return {"raw": draw(raw(64)), "m": draw(st.integers(1, 6)), "n": draw(st.integers(1, 40)),
            "grid": draw(st.booleans())}


def run_sorter(case):
    from pyowc.utilities import sorter
    s = Stream(case["raw"])
    lim, x = np.sort(s.u(case["m"], 0, 10)), np.sort(s.u(case["n"], -3, 13))
    if case["grid"]:
        lim, x = np.round(lim), np.round(x)
    want = [sum(1 for v in lim if v <= t) - 1 for t in x]
    with under_test("sorter"):
        got = np.asarray(sorter(lim.copy(), x.copy()))
        require(got.tolist() == want, "intervals %s, expected %s", got.tolist(), want)
    return {"nontrivial": len(set(want)) > 1}


SUBS = [Sub("fit", 15000, 720000, cases, run),
        Sub("degenerate", 1800, 36000, degenerate_cases, run_degenerate),
        Sub("interval", 3000, 60000, sorter_cases, run_sorter)]
FINDINGS = {}
