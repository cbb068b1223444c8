"""P17: fit_cond, uncertainties and station statistics."""
import numpy as np
from hypothesis import strategies as st

from vlib import fitgen
from vlib.fitref import Problem
from vlib.gen import Stream
from vlib.harness import Sub, under_test, require, close

RULE = ("Series as for P16 (missing observations, profiles without any, any order, error estimates over up to 1.5 "
        "decades, covariances from diagonal to nearly total). errors: offset, line or prescribed breaks, the sampled "
        "errors with 3000 repetitions (or the default 200) against their expectation within six standard deviations of "
        "the sampling; non-trivial: at least four fitted profiles. stations: mean and rms per profile; non-trivial: "
        "a profile with and one without data or several observations. open: break points found by the fit, one clear "
        "kink, errors against a second, independent sampling; non-trivial: a break point was found. scaling: "
        "observations and errors multiplied, constants added; non-trivial: as errors.")
ASSUMPTIONS = ["with several observations in a profile the station statistics are accepted if they are those of the "
               "definition or those of the known finding, exactly",
               "the error of a fit is sampled by the code: its expectation is checked, not its last digit"]


def call(seed, x, y, err, cov, *options):
    from pyowc.core.stats import fit_cond
    np.random.seed(seed % 2 ** 32)
    out = fit_cond(x.copy(), y.copy(), err.copy(), cov.copy(), *options)
    require(len(out) == 10, "%s results", len(out))
    return out


def flat(v):
    return np.asarray(v, dtype=float).ravel()


def choose(case, s, p):
    """options and (scaled) breaks; None if the case is not usable"""
    if p.m < 3 or len(p.ux) < 2 or np.ptp(p.raw_y) == 0:
        return None
    if case["model"] == "offset":
        return ["max_no_breaks", -1], None
    if case["model"] == "line":
        if len(p.allowed(0)) < 2 or p.condition([]) > 1e4 or not p.criterion([]) < p.criterion(None) - 1e-6:
            return None
        return ["max_no_breaks", 0], []
    br = np.sort(s.u(case["b"], p.raw_x[0], p.raw_x[-1]))
    b = p.scale_breaks(br)
    if p.condition(b) > 1e4 or p.m < len(b) + 2:
        return None
    return ["breaks", br], b


def spread(p, b):
    """are the variances of the parameters and of the fit well away from zero?"""
    p1, p2 = p.variances(b)
    E = p.design(p.xp, b)
    return (p2 > 1e-3 * p1).all() and (E @ p2 > 1e-3 * (E @ p1)).all()


def error_cases():
    return fitgen.series(model=st.sampled_from(["breaks", "line", "breaks", "offset"]), b=st.integers(1, 3),
                         shape=st.sampled_from(["line", "kink", "two kinks", "noise"]),
                         loops=st.sampled_from([3000, 3000, 200]), default=st.booleans())


def run_errors(case):
    s, x, y, err, cov = fitgen.material(case)
    p = Problem(x, y, err, cov)
    if p.m == 0:
        return {"nontrivial": False}
    chosen = choose(case, s, p)
    if chosen is None or not spread(p, chosen[1]):
        return {"nontrivial": False, "labels": ["not usable"]}
    opt, b = chosen
    loops = case["loops"]
    opt = opt + ([] if loops == 200 and case["default"] else ["nloops", loops])
    with under_test("fit_cond"):
        out = call(s.integer(0, 10 ** 6), x, y, err, cov, *opt)
        got, want = flat(out[2]), p.fit_error(b)
        after = p.xp >= p.x[0] - 1e-12
        require(got.size == want.size and np.isfinite(got).all() and (got >= 0).all(), "fit errors %s", got.tolist())
        if b is None:
            close(got, want, "error of the offset", rtol=1e-8)
        else:
            off = 6.5 * np.sqrt(2 / loops)
            ratio = (got / want)[after] ** 2
            require((np.abs(ratio - 1) < off).all(), "error of the fit %s, expected about %s", got[after].tolist(), want[after].tolist())
        close(flat(out[4]), p.slope_error(b), "error of the time derivative", rtol=1e-7, atol=1e-300)
        close(flat(out[3]).size, len(p.profiles), "number of profiles")
    return {"nontrivial": len(p.ux) > 3, "labels": [case["model"]] + ["repetitions %s" % loops]}


def station_cases():
    return fitgen.series(levels=st.sampled_from([1, 3, 1, 2, 6]), most=st.sampled_from([-1, 0, 1]))


def run_stations(case):
    s, x, y, err, cov = fitgen.material(case)
    p = Problem(x, y, err, cov)
    with under_test("fit_cond"):
        out = call(1, x, y, err, cov, "max_no_breaks", case["most"], "nloops", 2)
        mean, rms = flat(out[5]), flat(out[6])
        if p.m == 0:
            require(mean.size == rms.size == len(p.profiles) and np.isnan(mean).all() and np.isnan(rms).all(), "nothing to fit: %s %s", mean, rms)
            return {"nontrivial": True, "labels": ["nothing to fit"]}
        single = all(np.sum(p.raw_x == v) <= 1 for v in p.profiles)
        tol = dict(rtol=1e-10, atol=1e-9 * p.ys)
        wm, wr = p.stations()
        label = "one observation"
        if not single:
            label = "several observations"
            dm, dr = p.stations(defect=True)
            # the recorded defect, exactly, or the definition
            if mean.size == dm.size and np.nanmax(np.abs(mean - dm), initial=0) < 1e-9 * p.ys + 1e-10 * np.nanmax(np.abs(dm)):
                wm, wr = dm, dr
        close(mean, wm, "station mean", **tol)
        close(rms, wr, "station rms", rtol=1e-10, atol=1e-7 * p.ys + 1e-12 * np.abs(p.raw_y).max())
    return {"nontrivial": len(p.ux) > 1 and (not single or len(p.ux) < len(p.profiles)), "labels": [label]}


def open_cases():
    return st.fixed_dictionaries({"raw": fitgen.raw(256), "n": st.integers(12, 24), "k": st.integers(1, 3),
                                  "noise": st.sampled_from([.05, .02]), "scale": st.sampled_from([1e-3, 1.0])})


def run_open(case):
    s = Stream(case["raw"])
    n, k = case["n"], case["k"]
    t = np.linspace(-1, 1, n)
    c = s.u(None, -.4, .4)
    turn = s.u(None, 2, 4) * (1 if s.flag(.5) else -1)
    sc = case["scale"]
    y = sc * (s.u(None, -.5, .5) * t + turn * np.maximum(t - c, 0) + case["noise"] * s.normal((k, n)) * .3)
    x = np.repeat(np.arange(1., n + 1)[None, :], k, axis=0)
    err = np.full((k, n), sc * case["noise"])
    # profiles related over L: the covariance makes the errors larger
    num = np.repeat(np.arange(n), k)
    cov = np.exp(-((num[:, None] - num) / s.u(None, .3, 1.0)) ** 2)
    p = Problem(x, y, err, cov)
    if len(p.allowed(1)) < 3:
        return {"nontrivial": False, "labels": ["too few degrees of freedom"]}
    with under_test("fit_cond"):
        out = call(s.integer(0, 10 ** 6), x, y, err, cov, "max_no_breaks", 1, "nloops", 300)
        br = flat(out[9])
        if br.size != 1:
            return {"nontrivial": False, "labels": ["no break found"]}
        b = p.scale_breaks(br)
        near = min(np.abs(p.x - b[0]))
        got = flat(out[2])
        require(got.size == n and np.isfinite(got).all() and (got > 0).all(), "fit errors %s", got.tolist())
        close(flat(out[4]), p.slope_error(b), "error of the time derivative", rtol=1e-4)
    # the same sampling, done independently
    rng = np.random.default_rng(7)
    A, _ = p.solve(b)
    fit = p.design(p.xp, b) @ A
    sq = []
    for _ in range(200):
        yy = p.y + p.e * rng.standard_normal(p.m)
        found = p.search(1, yy, guess=[b[0]] if b[0] > -1 else None)
        if found is None:
            return {"nontrivial": False, "labels": ["search failed"]}
        Ai, _ = p.solve(found[0], yy)
        sq.append((fit - p.design(p.xp, found[0]) @ Ai) ** 2)
    sq = np.array(sq)
    mean = sq.mean(axis=0)
    heavy = (sq.std(axis=0) > 4 * mean).any()
    p1, p2 = p.variances(b)
    E = p.design(p.xp, b)
    want = np.sqrt(mean * (E @ p2) / (E @ p1)) * p.ys
    with under_test("fit_cond"):
        if not heavy:
            r = got / want
            require((np.abs(np.log(r)) < .5).all(), "errors with a free break point %s, sampled independently %s",
                    got.tolist(), want.tolist())
    return {"nontrivial": True, "labels": ["heavy tails" if heavy else "compared", "at a profile" if near < .01 else "between profiles"]}


def scaling_cases():
    return fitgen.series(model=st.sampled_from(["breaks", "line", "offset"]), b=st.integers(1, 3),
                         shape=st.sampled_from(["line", "kink", "two kinks", "noise"]),
                         factor=st.sampled_from([1000.0, -64.0, 1.0, 1e-3]), constant=st.sampled_from([0.0, 5.0, -3.0]))


def run_scaling(case):
    s, x, y, err, cov = fitgen.material(case)
    p = Problem(x, y, err, cov)
    if p.m == 0:
        return {"nontrivial": False}
    chosen = choose(case, s, p)
    if chosen is None or not spread(p, chosen[1]):
        return {"nontrivial": False, "labels": ["not usable"]}
    opt, b = chosen
    f, c = case["factor"], case["constant"] * case["scale"]
    if case["model"] == "line":
        q = Problem(x, f * y + c, abs(f) * err, cov)
        if not q.criterion([]) < q.criterion(None) - 1e-6:
            return {"nontrivial": False, "labels": ["tie"]}
    with under_test("fit_cond"):
        a = call(11, x, y, err, cov, *opt)
        z = call(11, x, f * y + c, abs(f) * err, cov, *opt)
        ea, ez = flat(a[2]) * abs(f), flat(z[2])
        require(np.isfinite(ez).all(), "errors %s", ez.tolist())
        after = p.xp >= p.x[0] - 1e-12
        # sampled with 200 repetitions each: equal within the sampling
        require((np.abs(np.log(ez / ea))[after] < (.6 if b is not None else 1e-8)).all(),
                "errors after scaling %s, expected about %s", ez.tolist(), ea.tolist())
        close(flat(z[4]), flat(a[4]) * abs(f), "error of the time derivative after scaling", rtol=1e-6)
        size = p.ys * abs(f)
        close(flat(z[5]), flat(a[5]) * f + c, "station mean after scaling", rtol=1e-9, atol=1e-7 * size)
        close(flat(z[6]), flat(a[6]) * abs(f), "station rms after scaling", rtol=1e-9, atol=1e-6 * size)
    return {"nontrivial": len(p.ux) > 3, "labels": [case["model"]]}


def station_grouping():
    """two profiles of two observations each: the second profile's statistics are of other observations"""
    import contextlib
    import io
    from pyowc.core.stats import fit_cond
    x = np.array([[1., 2.], [1., 2.]])
    y = np.array([[1., 5.], [3., 9.]])
    with contextlib.redirect_stdout(io.StringIO()):
        out = fit_cond(x, y, np.full((2, 2), .1), np.eye(4), "max_no_breaks", -1)
    return abs(flat(out[5])[1] - 7.0) > 1e-6


SUBS = [Sub("errors", 500, 16000, error_cases, run_errors),
        Sub("stations", 2400, 60000, station_cases, run_stations),
        Sub("open", 48, 2400, open_cases, run_open),
        Sub("scaling", 500, 16000, scaling_cases, run_scaling)]
FINDINGS = {"station-grouping": station_grouping}
