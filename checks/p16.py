"""P16: fit_cond, the model it chooses and fits."""
import numpy as np
from hypothesis import strategies as st

from vlib import fitgen
from vlib.fitref import Problem
from vlib.gen import Stream
from vlib.harness import Sub, under_test, require, close

RULE = ("Series of 1 to 18 profiles with 1 to 6 observations each (missing ones, profiles without any, gaps in the "
        "numbering, profiles in any order), flat, sloping or with kinks, noise from 2 % to 200 %, error estimates over "
        "up to 1.5 decades, covariances from diagonal to nearly total. given: offset, one to four prescribed breaks, "
        "or at most a line, or a line and nothing else; non-trivial: more than three profiles left and, for breaks, a design conditioned better "
        "than 1e5. open: up to one to four breaks, or the default; non-trivial: at least a line was allowed. default: saw-tooth series, without a maximum "
        "as with a maximum of four; non-trivial: two breaks or more fitted. relations: "
        "transformed series; non-trivial: as open.")
ASSUMPTIONS = ["fewer prescribed breaks than the maximum asks the code for a search it cannot do: not generated, "
               "recorded as a known finding",
               "where the search for breaks is unstable (a change of the data by 1e-9 changes its result) only the "
               "optimality conditions are checked, not the break points themselves",
               "profiles before the first fitted one need only be finite"]


def call(x, y, err, cov, *options):
    from pyowc.core.stats import fit_cond
    out = fit_cond(x.copy(), y.copy(), err.copy(), cov.copy(), *options)
    require(len(out) == 10, "%s results", len(out))
    return out


def flat(v):
    return np.asarray(v, dtype=float).ravel()


def check_model(p, out, b, tol, what):
    """the results are those of the weighted fit for these (scaled) breaks"""
    A, _ = p.solve(b)
    size = 1 + np.abs(A).max()
    after = p.xp >= p.x[0] - 1e-12
    got = flat(out[1])
    close(flat(out[0]), p.profiles, what + " profile numbers", rtol=0, atol=1e-9 * max(1, np.abs(p.profiles).max()))
    require(np.isfinite(got).all(), "%s fit is not finite", what)
    close(got[after], p.fitted(A, b)[after], what + " fit", rtol=1e-12, atol=p.ys * size * tol)
    close(flat(out[3]), p.slopes(A, b), what + " time derivative", rtol=0, atol=p.ys / p.xs * size * tol)
    c = p.coefficients(A)
    coef = flat(out[8])
    require(coef.size == c.size, "%s: %s coefficients, expected %s", what, coef.size, c.size)
    close(coef[:1], c[:1], what + " intercept", rtol=1e-12, atol=p.ys * size * tol)
    close(coef[1:], c[1:], what + " coefficients", rtol=0, atol=p.ys / p.xs * size * tol)
    br = flat(out[9])
    require(br.size == (0 if b is None else len(b)), "%s: %s breaks", what, br.size)
    if br.size:
        close(br, np.asarray(b) * p.xs + p.x0, what + " breaks", rtol=1e-12, atol=p.xs * 1e-9)
    close(float(out[7]), p.ndf, what + " degrees of freedom", rtol=1e-9)


def check_nothing(p, out):
    for i in (1, 2, 3, 4, 5, 6):
        v = flat(out[i])
        require(v.size == len(p.profiles) and np.isnan(v).all(), "nothing to fit, result %s is %s", i, v.tolist())
    close(flat(out[0]), p.profiles, "profile numbers", rtol=0, atol=0)


# ---- prescribed -----------------------------------------------------------------------------------------------

def given_cases():
    return fitgen.series(model=st.sampled_from(["breaks", "breaks", "offset", "line or offset", "breaks=max", "line"]),
                         b=st.integers(1, 4), on_profile=st.booleans())


def run_given(case):
    s, x, y, err, cov = fitgen.material(case)
    p = Problem(x, y, err, cov)
    if p.m == 0:
        with under_test("fit_cond without data"):
            check_nothing(p, call(x, y, err, cov, "max_no_breaks", 2, "nloops", 3))
        return {"nontrivial": True, "labels": ["nothing to fit"]}
    few = p.m < 2 or len(p.ux) < 2 or np.ptp(p.raw_y) == 0
    if case["model"] == "offset" or (few and case["model"] != "line or offset"):
        with under_test("fit_cond"):
            out = call(x, y, err, cov, "max_no_breaks", -1, "nloops", 3)
            check_model(p, out, None, 1e-10, "offset")
        return {"nontrivial": len(p.ux) > 3, "labels": ["offset"]}
    if case["model"] == "line":
        # a number of breaks: nothing else is tried, unless there are too few degrees of freedom
        if p.condition([]) > 1e5 or min(abs(p.ndf - v) for v in (3, 5)) < 1e-6:
            return {"nontrivial": False, "labels": ["ill-conditioned"]}
        with under_test("fit_cond"):
            out = call(x, y, err, cov, "number_breaks", 0, "nloops", 3)
            check_model(p, out, [] if p.ndf >= 5 else None, 1e-8, "a line")
        return {"nontrivial": len(p.ux) > 3, "labels": ["line asked for"]}
    if case["model"] == "line or offset":
        tried = p.allowed(0)
        b = None
        if len(tried) > 1:
            if p.condition([]) > 1e5 or few:
                return {"nontrivial": False, "labels": ["ill-conditioned"]}
            c = p.criterion(None), p.criterion([])
            if not abs(c[0] - c[1]) > 1e-7 * (1 + abs(c[0])):
                return {"nontrivial": False, "labels": ["tie"]}
            b = None if c[0] < c[1] else []
        with under_test("fit_cond"):
            out = call(x, y, err, cov, "max_no_breaks", 0, "nloops", 3)
            check_model(p, out, b, 1e-8, "at most a line")
        return {"nontrivial": len(p.ux) > 3, "labels": ["line" if b is not None else "offset of two" if len(tried) > 1 else "offset, few degrees of freedom"]}
    lo, hi = p.raw_x[0], p.raw_x[-1]
    br = np.sort(s.u(case["b"], lo + .02 * (hi - lo), hi - .02 * (hi - lo)))
    if case["on_profile"]:
        br = np.unique(np.round(br))
        br = br[(br > lo) & (br < hi)]
    b = p.scale_breaks(br)
    if not len(b) or p.condition(b) > 1e5 or p.m < len(b) + 2:
        return {"nontrivial": False, "labels": ["ill-conditioned"]}
    opt = ["breaks", br] + (["max_no_breaks", len(br)] if case["model"] == "breaks=max" else []) + ["nloops", 3]
    with under_test("fit_cond"):
        out = call(x, y, err, cov, *opt)
        check_model(p, out, b, 1e-8, "prescribed breaks")
    return {"nontrivial": len(p.ux) > 3, "labels": ["%s breaks" % len(b)]}


# ---- open -------------------------------------------------------------------------------------------------------

def open_cases():
    return fitgen.series(levels=st.integers(1, 4), profiles=st.sampled_from([14, 10, 18, 24, 8, 6, 5, 12, 21]), most=st.sampled_from([1, 2, 3, 4, None]),
                         cov=st.sampled_from(["diagonal", "diagonal", "weak", "strong", "levels"]),
                         missing=st.sampled_from([0.0, .15]), blank=st.sampled_from([0.0, .2]))


def returned(p, out):
    """(scaled) breaks of a result, None for the offset"""
    coef, br = flat(out[8]), flat(out[9])
    if coef.size == 1:
        require(br.size == 0, "an offset with break points %s", br.tolist())
        return None
    require(coef.size == br.size + 2, "%s coefficients with %s break points", coef.size, br.size)
    require(np.isfinite(br).all() and (np.diff(br) > 0).all(), "break points %s", br.tolist())
    return p.scale_breaks(br)


def replica(p, tried, reps=3):
    """The result of the published search, or None where it is unstable. (breaks, criterion per number of breaks)"""
    rng = np.random.default_rng(5)
    results = []
    for rep in range(reps):
        y = p.y + ([1e-9, 1e-9, 1e-8, 1e-10, 1e-12][rep % 5] * rng.standard_normal(p.m) if rep else 0)
        best, crit, at = None, [], []
        for k in tried:
            if k < 1:
                b = None if k < 0 else []
                res = p.solve(b, y)[1]
            else:
                found = p.search(k, y, noise=rng if rep else None)
                if found is None:
                    return None
                b, res = found
            crit.append(p.criterion(b, res))
            at.append(b)
        if not np.isfinite(crit).all():
            return None
        i = int(np.argmin(crit))
        results.append((i, at[i], crit))
    i, b, crit = results[0]
    others = [c for j, c in enumerate(crit) if j != i]
    if others and min(others) - crit[i] < 1e-4 * (1 + abs(crit[i])):
        return None
    for j, bb, cc in results[1:]:
        if j != i or np.abs(np.array(cc) - crit).max() > 1e-6 * (1 + np.abs(crit).max()):
            return None
        if b is not None and len(b) and np.abs(bb - b).max() > 1e-5:
            return None
    return b, crit


def same_model(a, b):
    if a is None or b is None:
        return a is b
    return len(a) == len(b) and (not len(a) or np.abs(np.asarray(a) - b).max() < 1e-4)


def run_open(case):
    s, x, y, err, cov = fitgen.material(case)
    p = Problem(x, y, err, cov)
    if p.m < 8 or len(p.ux) < 5 or np.ptp(p.raw_y) == 0:
        return {"nontrivial": False, "labels": ["too few"]}
    most = 4 if case["most"] is None else case["most"]
    tried = p.allowed(most)
    if abs(p.ndf - 3) < 1e-6 or min(abs(p.ndf - (2 * j + 1)) for j in range(0, 8)) < 1e-6 and case["cov"] != "diagonal":
        return {"nontrivial": False, "labels": ["tie"]}
    opt = ["nloops", 2] + ([] if case["most"] is None else ["max_no_breaks", case["most"]])
    labels = ["tried up to %s" % tried[-1]]
    with under_test("fit_cond"):
        out = call(x, y, err, cov, *opt)
        b = returned(p, out)
        nb = -1 if b is None else len(b)
        require(nb in tried, "%s breaks, allowed %s", nb, tried)
        labels.append("chose %s" % nb)
        if nb > 0:
            require(p.lim[0] - 1e-7 <= b[0] and b[-1] <= p.lim[1] + 1e-7,
                    "break points %s outside the second and the second last profile", b.tolist())
        if nb <= 0 or p.condition(b) < 1e5:
            check_model(p, out, b, 1e-5 if nb > 0 else 1e-8, "open")
            c = p.criterion(b)
            for other in (None, []):
                if (-1 if other is None else 0) in tried:
                    co = p.criterion(other)
                    require(not co < c - 1e-4 * (1 + abs(c)), "criterion %s with %s breaks, but %s with %s",
                            c, nb, co, "offset" if other is None else "a line")
        rep = replica(p, tried)
        if rep is not None and not same_model(b, rep[0]):
            rep = replica(p, tried, 60)         # a closer look, whether the search is stable
        if rep is not None:
            labels.append("search stable")
            rb, crit = rep
            require((rb is None) == (b is None) and (rb is None or len(rb) == nb),
                    "chose %s breaks, the smallest criterion is that of %s (%s)", nb,
                    -1 if rb is None else len(rb), crit)
            if nb > 0:
                close(b, rb, "break points (scaled)", rtol=0, atol=2e-4)
    return {"nontrivial": len(tried) > 1, "labels": labels}


# ---- recovery ------------------------------------------------------------------------------------------------------

def recovery_cases():
    return st.fixed_dictionaries({"raw": fitgen.raw(256), "n": st.integers(10, 30), "k": st.integers(1, 4),
                                  "most": st.sampled_from([1, 1, 2, 3, 4]), "noise": st.sampled_from([.02, .005, .05]),
                                  "scale": st.sampled_from([1e-3, 1.0, 50.0])})


def run_recovery(case):
    """one clear kink"""
    s = Stream(case["raw"])
    n, k = case["n"], case["k"]
    num = np.arange(1., n + 1) + s.integer(0, 40)
    t = np.linspace(-1, 1, n)
    c = s.u(None, -.45, .45)
    turn = s.u(None, 1.5, 3) * (1 if s.flag(.5) else -1)
    truth = s.u(None, -.5, .5) * t + turn * np.maximum(t - c, 0)
    y = case["scale"] * (truth + case["noise"] * s.normal((k, n)) + s.u(None, -5, 5))
    x, err, cov = np.repeat(num[None, :], k, axis=0), np.full((k, n), case["scale"] * case["noise"]), np.eye(n * k)
    p = Problem(x, y, err, cov)
    if len(p.allowed(case["most"])) < 3:
        return {"nontrivial": False}
    at = (c + 1) / 2 * (n - 1) + num[0]
    with under_test("fit_cond"):
        out = call(x, y, err, cov, "max_no_breaks", case["most"], "nloops", 2)
        br = flat(out[9])
        require(br.size > 0, "no break point for a series with a clear kink at %s", at)
        b = p.scale_breaks(br)
        line = np.sum(p.solve([])[1] ** 2)
        ss, best = np.sum(p.solve(b)[1] ** 2), np.sum(p.solve(p.scale_breaks([at]))[1] ** 2)
        # (the squared residual has shallow local minima next to the profiles, in which the search may stop)
        require(ss <= max(best * 1.2, .4 * line), "residual %s, with the break at the kink %s, of a line %s", ss, best, line)
        require(np.abs(b - p.scale_breaks([at])).min() < .35, "break points %s, the kink is at %s", br.tolist(), at)
    return {"nontrivial": True, "labels": ["%s breaks" % br.size]}


# ---- default ------------------------------------------------------------------------------------------------------

def default_cases():
    return st.fixed_dictionaries({"raw": fitgen.raw(256), "n": st.integers(16, 30), "k": st.integers(1, 3), "kinks": st.sampled_from([4, 4, 3, 5, 2]),
                                  "noise": st.sampled_from([.02, .005, .05])})


def run_default(case):
    """a zigzag: without a maximum, up to four break points are looked for"""
    s = Stream(case["raw"])
    n, k, kinks = case["n"], case["k"], case["kinks"]
    num = np.arange(1., n + 1) + s.integer(0, 40)
    at = np.linspace(-1, 1, kinks + 2) + np.concatenate(([0], s.u(kinks, -.3, .3) / kinks, [0]))
    turn = np.cumsum(np.where(np.arange(kinks + 2) % 2, 1, -1) * s.u(kinks + 2, .5, 1)) * (1 if s.flag(.5) else -1)
    t = np.linspace(-1, 1, n)
    y = np.interp(t, at, turn) + case["noise"] * s.normal((k, n))
    x, err, cov = np.repeat(num[None, :], k, axis=0), np.full((k, n), case["noise"]), np.eye(n * k)
    p = Problem(x, y, err, cov)
    with under_test("fit_cond"):
        out = call(x, y, err, cov, "nloops", 2)
        same = call(x, y, err, cov, "max_no_breaks", 4, "nloops", 2)
        for i in (1, 3, 8, 9):
            close(flat(out[i]), flat(same[i]), "result %d, without a maximum and with four break points" % i, rtol=1e-9, atol=1e-9)
        b = returned(p, out)
        if b is None or p.condition(b) < 1e5:
            check_model(p, out, b, 1e-5, "default")
    return {"nontrivial": b is not None and len(b) > 2, "labels": ["%s breaks" % (0 if b is None else len(b))]}


# ---- relations ----------------------------------------------------------------------------------------------------

def relation_cases():
    return fitgen.series(levels=st.integers(1, 3), profiles=st.integers(4, 16), most=st.sampled_from([2, 1, 4, 0, -1]),
                         relation=st.sampled_from(["factor", "shift", "error factor", "missing", "constant", "order"]),
                         prescribed=st.booleans(), cov=st.sampled_from(["diagonal", "weak", "levels"]),
                         missing=st.sampled_from([.15, 0.0]), blank=st.sampled_from([0.0, .2]))


def run_relation(case):
    s, x, y, err, cov = fitgen.material(case)
    p = Problem(x, y, err, cov)
    if p.m < 6 or len(p.ux) < 4 or np.ptp(p.raw_y) == 0:
        return {"nontrivial": False, "labels": ["too few"]}
    x2, y2, e2, c2 = x, y, err, cov
    f, sh, const = 1.0, 0.0, 0.0
    rel = case["relation"]
    if rel == "factor":
        f = [-4.0, .5, -1.0, 1024.0][s.integer(0, 3)]
        y2, e2 = y * f, err * abs(f)
    elif rel == "shift":
        sh = float(s.integer(-300, 300))
        x2 = x + sh
    elif rel == "error factor":
        e2 = err * [.25, 8.0][s.integer(0, 1)]
    elif rel == "missing":
        # observations that are missing are as good as not there
        keep = ~np.isnan(y).all(axis=0)
        kk = np.repeat(keep, y.shape[0])
        x2, y2, e2, c2 = x[:, keep], y[:, keep], err[:, keep], cov[np.ix_(kk, kk)]
    elif rel == "constant":
        const = s.u(None, -3, 3) * case["scale"]
        y2 = y + const
    else:
        q = s.perm(x.shape[1])
        k = x.shape[0]
        qq = (q[:, None] * k + np.arange(k)[None, :]).ravel()
        x2, y2, e2, c2 = x[:, q], y[:, q], err[:, q], cov[np.ix_(qq, qq)]
    opt, opt2, tol = ["max_no_breaks", case["most"], "nloops", 2], ["max_no_breaks", case["most"], "nloops", 2], 1e-9
    if case["prescribed"]:
        br = np.sort(s.u(2, p.raw_x[0], p.raw_x[-1]))
        if p.condition(p.scale_breaks(br)) > 1e4:
            return {"nontrivial": False, "labels": ["ill-conditioned"]}
        opt, opt2 = ["breaks", br, "nloops", 2], ["breaks", br + sh, "nloops", 2]
    else:
        tried = p.allowed(case["most"])
        rep = replica(p, tried)
        if rep is None or (rep[0] is not None and p.condition(rep[0]) > 1e4):
            return {"nontrivial": False, "labels": ["unstable"]}
        tol = 1e-3 if rep[0] is not None and len(rep[0]) else 1e-9
    with under_test("fit_cond"):
        a = call(x, y, err, cov, *opt)
        b = call(x2, y2, e2, c2, *opt2)
        if not case["prescribed"] and not same_model(p.scale_breaks(flat(a[9])), p.scale_breaks(flat(b[9]) - sh)) and replica(p, tried, 60) is None:
            return {"nontrivial": False, "labels": ["unstable"]}
        na, nb = flat(a[0]), flat(b[0])
        require((flat(a[8]).size, flat(a[9]).size) == (flat(b[8]).size, flat(b[9]).size), "%s: another model: %s, %s", rel, a[8], b[8])
        pick = [int(np.argmin(np.abs(na + sh - v))) for v in nb]
        size = p.ys * abs(f) * 3
        inside = (na[pick] >= p.raw_x[0])
        close(flat(b[1])[inside], (f * flat(a[1])[pick] + const)[inside], rel + ": fit", rtol=1e-9, atol=size * tol)
        close(flat(b[3]), f * flat(a[3])[pick], rel + ": time derivative", rtol=1e-9, atol=size * tol / p.xs * 10)
        close(flat(b[9]), flat(a[9]) + sh, rel + ": breaks", rtol=1e-9, atol=p.xs * tol)
        close(float(b[7]), float(a[7]), rel + ": degrees of freedom", rtol=1e-9)
    return {"nontrivial": True, "labels": [rel]}


def too_few_breaks():
    """fewer prescribed breaks than the maximum: raises"""
    import contextlib
    import io
    from pyowc.core.stats import fit_cond
    x = np.arange(1., 31.)[None, :]
    y = np.abs(x - 15) + .1 * np.sin(9 * x)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            fit_cond(x, y, np.full(x.shape, .1), np.eye(30), "breaks", np.array([15.]), "max_no_breaks", 2)
    except Exception:   # noqa: B902
        return True
    return False


SUBS = [Sub("given", 3000, 80000, given_cases, run_given),
        Sub("open", 1400, 80000, open_cases, run_open),
        Sub("recovery", 600, 16000, recovery_cases, run_recovery),
        Sub("default", 240, 9000, default_cases, run_default),
        Sub("relations", 1600, 48000, relation_cases, run_relation)]
FINDINGS = {"fewer-breaks-than-maximum": too_few_breaks}
