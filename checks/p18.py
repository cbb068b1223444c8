"""P18: calc_piecewisefit."""
import os

import gsw
import numpy as np
from hypothesis import strategies as st
from scipy.io import loadmat, savemat

from checks import p10, p14
from vlib import harness, topo, world as W
from vlib.fitref import Problem
from vlib.gen import Stream, raw
from vlib.harness import Sub, Violation, under_test, require, close, quiet

RULE = ("A case is a float file (1 to 12 profiles of 8 to 25 levels in any column order, ragged, missing levels, profiles "
        "without position, possibly astride Greenwich or the date line), mapped data with errors (unmapped levels and "
        "profiles), a sensor drift, and a series file: one to three series and excluded profiles, limits on the number "
        "of breaks (one, or one per series in a row or a column), prescribed breaks (for all series or for some), bounds, required fraction. "
        "pipeline: offset, line or prescribed breaks, against an independent pipeline. open: up to four breaks sought "
        "by the code; the file must follow from its factors. scaling: the same float with its conductivity multiplied "
        "by a constant. agree: mapped salinity equal to the float's. mismatch: breaks or limits that do not fit the "
        "series. limits: a clear drift and a maximum of its own for each series. some: breaks prescribed for some series only, the others up to their own maximum. Non-trivial: at least one profile with a factor, and (pipeline) two series, a prescribed break, an "
        "excluded profile or a missing profile.")
ASSUMPTIONS = ["temperatures between -2 and 30 degC", "gsw converts conductivities",
               "errors of the factors (sampled by the code with 200 repetitions) are compared with their expectation within "
               "six standard deviations; errors of an offset exactly",
               "errors and the choice between offset and line are accepted for the definition of the covariance or for the known finding, exactly",
               "station statistics are accepted for the definition or for P17's known finding, exactly",
               "cases within rounding of a choice of level or model are not compared"]
KEYS = ["cal_SAL", "cal_SAL_err", "pcond_factor", "pcond_factor_err", "cal_COND", "cal_COND_err", "time_deriv",
        "time_deriv_err", "sta_mean", "sta_rms", "sta_SAL", "sta_SAL_err"]


def world(**extra):
    d = {"raw": raw(512), "n": st.sampled_from([8, 6, 12, 10, 4, 9, 3, 2, 1]), "K": st.sampled_from([14, 25, 9]),
         "ragged": st.sampled_from([False, True]), "nan": st.sampled_from([0, .1]), "unmapped": st.sampled_from([0, .15]),
         "blank": st.sampled_from([0, .2]), "position": st.sampled_from([0, 0, .15]),
         "where": st.sampled_from(["west", "greenwich", "east", "dateline"]),
         "drift": st.sampled_from(["line", "kink", "none", "offset"]), "size": st.sampled_from([8e-4, 6e-3]), "order": st.sampled_from(["up", "up", "shuffled"]),
         "series": st.sampled_from([1, 2, 1, 3]), "exclude": st.sampled_from([0, .2]),
         "theta": st.sampled_from(["", "", "", "lt", "gt", "band"]), "pres": st.sampled_from(["", "", "", "lt", "gt", "outside"]),
         "percent": st.sampled_from([.5, .2, .8]), "pv": st.sampled_from([0, 0, 1]), "topo": st.sampled_from(["smooth", "zonal"]),
         "postfix": st.booleans(), "reach": st.sampled_from([.15, 1.0]),
         "revised": st.sampled_from([0, 0, .02]), "sparse": st.sampled_from([False, False, True])}
    d.update(extra)
    return st.fixed_dictionaries(d)


class Float:
    """Everything in order of profile number; write() permutes the columns of the float file."""

    def __init__(self, case):
        self.case = case
        s = self.s = Stream(case["raw"])
        n, K = case["n"], case["K"]
        self.number = np.cumsum(s.integers(n, 1, 3)).astype(float)
        x0 = {"west": s.u(None, 190, 340), "greenwich": s.u(None, -.6, .6), "east": s.u(None, 10, 170), "dateline": s.u(None, 179.3, 180.7)}[case["where"]]
        y0 = s.u(None, -55, 55)
        self.scales = {"MAPSCALE_LONGITUDE_SMALL": s.u(None, .2, 2) * case["reach"], "MAPSCALE_LATITUDE_SMALL": s.u(None, .2, 2) * case["reach"],
                       "MAPSCALE_PHI_SMALL": s.u(None, .1, 1), "MAP_USE_PV": case["pv"],
                       "MAPSCALE_LONGITUDE_LARGE": 9.0, "MAPSCALE_LATITUDE_LARGE": 7.0, "MAPSCALE_PHI_LARGE": 5.0}
        spread = s.u(None, 1, 6)
        self.lon = np.mod(x0 + s.u(n, -1, 1) * spread, 360)
        self.lat = y0 + s.u(n, -1, 1) * s.u(None, .3, 4)
        lost = s.flags(n, case["position"])
        self.lon[lost], self.lat[lost] = np.nan, np.nan
        self.pres = np.cumsum(s.u((K, n), .4, 1.6), axis=0) * 1900 / K + 5
        self.ptmp = 3 + 12 * np.exp(-self.pres / 500) + s.u(n, -.3, .3) * np.exp(-self.pres / 800)
        true = 34.4 + .5 * np.exp(-self.pres / 600) + .03 * s.normal((K, n)) * np.exp(-self.pres / 400) + s.u(n, -.01, .01)
        t = np.linspace(-1, 1, n) if n > 1 else np.zeros(1)
        a = s.u(None, .3, 1) * (1 if s.flag(.5) else -1) * case["size"]
        f = {"none": 0 * t, "offset": a + 0 * t, "line": a * t, "kink": 3 * a * np.maximum(t - s.u(None, -.5, .3), 0)}[case["drift"]]
        cond = gsw.C_from_SP(true, self.ptmp, 0) * (1 + f + 2e-5 * s.normal(n))
        self.sal = gsw.SP_from_C(cond, self.ptmp, 0)
        self.msal = true + .004 * s.normal((K, n))
        self.merr = s.u((K, n), .005, .04)
        if case["ragged"]:
            for j, m in enumerate(s.integers(n, 2, K)):
                for v in (self.pres, self.ptmp, self.sal):
                    v[m:, j] = np.nan
        for v in (self.pres, self.ptmp, self.sal):
            v[s.flags((K, n), case["nan"] / 3)] = np.nan
        un = s.flags((K, n), case["unmapped"]) | np.isnan(self.pres + self.ptmp + self.sal)
        un[:, s.flags(n, case["blank"]) | lost] = True
        # (temperatures revised after the mapping: those of the float file count)
        self.mptmp = np.where(un, np.nan, self.ptmp + case.get("revised", 0) * np.sin(self.pres))
        self.msal[un], self.merr[un] = np.nan, np.nan
        cut = sorted(s.integers(case["series"] - 1, 1, n)) if case["series"] > 1 else []
        self.flags = 1.0 + np.searchsorted(cut, np.arange(n), side="right")
        if case["series"] == 2 and s.flag(.3):
            self.flags = np.where(self.flags == 1, 5.0, 2.0)        # (any labels, in any order)
        elif case.get("sparse"):
            self.flags = 2 * self.flags + (self.flags == 3)
        self.flags[s.flags(n, case["exclude"])] = 0

        def pair(kind, lo, hi):
            a, b = sorted((s.u(None, lo, hi), s.u(None, lo, hi)))
            return {"": (None, None), "lt": (b, None), "gt": (None, a), "band": (b, a), "outside": (a, b)}[kind]
        self.tlt, self.tgt = pair(case["theta"], 3, 9)
        self.plt, self.pgt = pair(case["pres"], 100, 1900)
        if case["raw"][0] % 8 == 0:     # bounds that are exactly the values of levels
            self.snap()
        self.labels = [v for v in np.unique(self.flags) if v]
        self.max_breaks = np.array([[4.0]])
        self.breaks = np.zeros((0, 0))

    def snap(self):
        self.tlt, self.tgt, self.plt, self.pgt = (p14.snap(v, a, self.s) for v, a in (
            (self.tlt, self.ptmp), (self.tgt, self.ptmp), (self.plt, self.pres), (self.pgt, self.pres)))

    def config(self, root):
        from pyowc.configuration import load
        c = dict(load())
        c.update({"FLOAT_SOURCE_DIRECTORY": os.path.join(root, "source"), "FLOAT_MAPPED_DIRECTORY": os.path.join(root, "mapped"),
                  "FLOAT_CALIB_DIRECTORY": os.path.join(root, "calib"), "FLOAT_PLOTS_DIRECTORY": os.path.join(root, "plots") + os.sep,
                  "CONFIG_DIRECTORY": os.path.join(root, "const")})
        c.update(self.scales)
        if self.case["postfix"]:
            c.update({"FLOAT_SOURCE_POSTFIX": "_s.mat", "FLOAT_MAPPED_POSTFIX": "_m.mat", "FLOAT_CALIB_POSTFIX": "_c.mat"})
        return c

    def write(self, root):
        for d in ("const", "mapped/" + W.DIR, "calib/" + W.DIR, "plots/" + W.DIR, "source/" + W.DIR):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        if not os.path.exists(os.path.join(root, "const", "tbase.int")):
            os.symlink(topo.path(self.case["topo"]), os.path.join(root, "const", "tbase.int"))
        c = self.config(root)
        n = len(self.number)
        k = np.arange(n)
        if self.case["order"] == "shuffled":
            k = Stream(self.case["raw"][::-1]).perm(n)
        savemat(os.path.join(root, "source", W.DIR, W.FLOAT + c["FLOAT_SOURCE_POSTFIX"]),
                {"PRES": self.pres[:, k], "TEMP": self.ptmp[:, k], "PTMP": self.ptmp[:, k], "SAL": self.sal[:, k], "LAT": self.lat[None, k],
                 "LONG": self.lon[None, k], "DATES": 2005 + self.number[None, k] / 36, "PROFILE_NO": self.number[None, k]})
        good = ~np.isnan(self.mptmp)
        sel = np.array([[self.lon[j], self.lat[j], self.number[j]] for j in range(n) if good[:, j].any()])
        savemat(os.path.join(root, "mapped", W.DIR, c["FLOAT_MAPPED_PREFIX"] + W.FLOAT + c["FLOAT_MAPPED_POSTFIX"]),
                {"la_mapped_sal": self.msal, "la_mapsalerrors": self.merr, "la_ptmp": self.mptmp, "la_profile_no": self.number,
                 "la_noise_sal": self.merr ** 2, "la_signal_sal": self.merr ** 2, "selected_hist": sel})
        box = lambda v: np.zeros((0, 0)) if v is None else np.array([[v]])
        savemat(os.path.join(root, "calib", W.DIR, c["FLOAT_CALSERIES_PREFIX"] + W.FLOAT + c["FLOAT_CALIB_POSTFIX"]),
                {"breaks": self.breaks, "max_breaks": self.max_breaks, "calseries": self.flags, "calib_profile_no": self.number,
                 "use_theta_lt": box(self.tlt), "use_theta_gt": box(self.tgt), "use_pres_lt": box(self.plt),
                 "use_pres_gt": box(self.pgt), "use_percent_gt": np.array([[self.case["percent"]]])})
        return c

    def result(self, c):
        return loadmat(os.path.join(c["FLOAT_CALIB_DIRECTORY"], W.DIR, c["FLOAT_CALIB_PREFIX"] + W.FLOAT + c["FLOAT_CALIB_POSTFIX"]))

    # -- what the fit is given
    def levels(self, j):
        """Level indices of the ten levels for the profiles j of a series (columns), or None"""
        _, index, _ = p14.reference(self.sal[:, j], self.ptmp[:, j], self.pres[:, j], self.mptmp[:, j],
                                    self.tlt, self.tgt, self.plt, self.pgt, self.case["percent"])
        return index

    def depth(self, j):
        x, y = self.lon[j], self.lat[j]
        return np.nan if np.isnan(x) else W.depth(self.case["topo"], x, y)

    def problem(self, j, swapped):
        index = self.levels(j)
        k = len(j)
        ten = {f: np.full((10, k), np.nan) for f in ("sal", "ptmp", "msal", "merr")}
        for q, col in enumerate(j):
            i = [int(v) for v in index[:, q] if not np.isnan(v)]
            for f in ten:
                ten[f][:len(i), q] = getattr(self, f)[i, col]
        C = lambda v: gsw.C_from_SP(v, ten["ptmp"], 0)
        cond = C(ten["sal"])
        y = C(ten["msal"]) / cond
        err = 100 * np.abs(C(ten["msal"]) - C(ten["msal"] + ten["merr"] / 100)) / cond
        mid = np.nanmedian(self.lon) if not np.isnan(self.lon).all() else 0
        lon = (self.lon - mid + 180) % 360 - 180 + mid
        pos = np.array([(lon[col], self.lat[col], self.depth(col)) if swapped else (self.lat[col], lon[col], self.depth(col)) for col in j])
        sx, sy = self.scales["MAPSCALE_LONGITUDE_SMALL"], self.scales["MAPSCALE_LATITUDE_SMALL"]
        cov = np.empty((10 * k, 10 * k))
        for p in range(k):
            t = ten["ptmp"][:, p]
            V = np.array([[p10.vertical(t, a, b) for b in range(10)] for a in range(10)])
            for q in range(k):
                try:
                    h = p10.horizontal(pos[p], pos[q], sx, sy, self.scales["MAPSCALE_PHI_SMALL"], self.scales["MAP_USE_PV"])
                except ValueError:
                    h = np.nan
                cov[10 * p:10 * p + 10, 10 * q:10 * q + 10] = V * h
        x = np.repeat(self.number[j][None], 10, axis=0)
        return Problem(x, y, err, cov)


def follows(f, got, series):
    """Everything in the file that follows from its factors and station statistics"""
    n = len(f.number)
    close(np.ravel(got["PROFILE_NO"]), f.number, "profile numbers", rtol=0, atol=0)
    v = {k: np.asarray(got[k], dtype=float) for k in KEYS}
    for k in ("pcond_factor", "pcond_factor_err", "time_deriv", "time_deriv_err", "sta_mean", "sta_rms"):
        require(v[k].shape == (1, n), "%s has shape %s", k, v[k].shape)
    cond = gsw.C_from_SP(f.sal, f.ptmp, 0)
    out = np.array([j not in series for j in range(n)])
    for k in KEYS:
        require(np.isnan(v[k][:, out]).all(), "%s has values for profiles outside any series", k)
    S = lambda c: gsw.SP_from_C(c, f.ptmp, 0)
    tol = dict(rtol=1e-11, atol=1e-11)
    close(v["cal_COND"], cond * v["pcond_factor"], "calibrated conductivity", **tol)
    close(v["cal_SAL"], S(cond * v["pcond_factor"]), "calibrated salinity", **tol)
    close(v["cal_COND_err"], cond * v["pcond_factor_err"], "error of the calibrated conductivity", **tol)
    close(v["cal_SAL_err"], np.abs(S(cond * (v["pcond_factor"] + v["pcond_factor_err"])) - S(cond * v["pcond_factor"])),
          "error of the calibrated salinity", **tol)
    close(v["sta_SAL"], S(cond * v["sta_mean"]), "station salinity", **tol)
    close(v["sta_SAL_err"], np.abs(S(cond * (v["sta_mean"] + v["sta_rms"])) - S(cond * v["sta_mean"])), "error of the station salinity", **tol)
    return v


def calibrate(f, root, c):
    from pyowc.calibration import calc_piecewisefit
    np.random.seed(f.s.integer(0, 10 ** 6))
    calc_piecewisefit(W.DIR, W.FLOAT, c)
    return f.result(c)


def members(f):
    return {v: np.nonzero(f.flags == v)[0] for v in f.labels}


def flat(v):
    """numbers in a saved list of lists"""
    v = np.asarray(v)
    if v.dtype == object:
        return np.concatenate([flat(q) for q in v.ravel()]) if v.size else np.zeros(0)
    return v.astype(float).ravel()


# -- sub-check: pipeline

def pipeline_cases():
    return world(model=st.sampled_from(["breaks", "line", "offset", "per series", "some breaks"]), nb=st.integers(1, 2),
                 series=st.sampled_from([2, 1, 3]))


def settle(case, f):
    """Sets the limits and breaks of the series file. Breaks (raw) per series, or the maximum."""
    s, groups = f.s, members(f)
    model = {}
    if case["model"] in ("breaks", "some breaks"):
        rows = []
        for v, j in groups.items():
            if case["model"] == "some breaks" and s.flag(.5):       # none for this series: at most a line
                model[v] = ("most", 0.0)
                rows.append(np.full(case["nb"], np.nan))
                continue
            nb = s.integer(1, case["nb"])
            x = f.number[j]
            b = np.sort(s.u(nb, x[0], x[-1])) if len(j) > 2 else x[0] + np.arange(1, nb + 1) * .37
            model[v] = ("breaks", b)
            rows.append(np.concatenate([b, np.full(case["nb"] - nb, np.nan)]))
        if rows:
            f.breaks = np.array(rows)
            f.max_breaks = np.array([[float(np.isfinite(r).sum())] for r in rows])
            if len({v for v in f.max_breaks[:, 0]}) == 1 and s.flag(.5):
                f.max_breaks = f.max_breaks[:1]
    elif case["model"] == "per series" and len(groups) > 1:
        most = s.integers(len(groups), -1, 0).astype(float)
        f.max_breaks = most[:, None] if s.flag(.5) else most[None, :]       # as a column or as a row
        model = {v: ("most", m) for v, m in zip(groups, most)}
    else:
        most = {"offset": -1.0, "line": 0.0, "per series": 0.0}[case["model"]]
        f.max_breaks = np.array([[most]])
        model = {v: ("most", most) for v in groups}
    return model


class Close(Exception):
    pass


def chosen(p, kind, value):
    """Breaks (scaled) of the expected model, None for the offset"""
    if kind == "breaks":
        b = p.scale_breaks(value)
        if p.condition(b) > 1e4 or p.m < len(b) + 2 or np.ptp(p.raw_y) == 0:
            raise Close()
        return b
    if value == -1 or 0 not in p.allowed(0):
        return None
    if len(p.ux) < 2 or p.condition([]) > 1e4:
        raise Close()
    a, b = p.criterion([]), p.criterion(None)
    if abs(a - b) < 1e-6 * max(1, abs(a)):
        raise Close()
    return [] if a < b else None


def expectations(f, model, swapped):
    """Per series: (columns, problem or None, breaks)"""
    out = []
    for v, j in members(f).items():
        p = f.problem(j, swapped)
        for edge in (5, 2 * 2 + 1, 3):
            if p.m and abs(p.ndf - edge) < 1e-6:
                raise Close()
        out.append((j, p, chosen(p, *model[v]) if p.m else None))
    return out


def matches(f, v, got, want):
    coefs, breaks = [], []
    for j, p, b in want:
        if not p.m:
            for k in KEYS:
                require(np.isnan(v[k][:, j]).all(), "%s has values for a series with nothing to fit", k)
            continue
        A, _ = p.solve(b)
        tol = dict(rtol=1e-11, atol=1e-6 * p.ys)
        close(v["pcond_factor"][0, j], p.fitted(A, b), "factors", **tol)
        span = p.ys / p.xs
        close(v["time_deriv"][0, j], p.slopes(A, b) if b is not None else p.slopes(A, b) * np.nan if np.isnan(v["time_deriv"][0, j]).all() else p.slopes(A, b),
              "time derivative", rtol=1e-6, atol=1e-5 * span)
        e, we = v["pcond_factor_err"][0, j], p.fit_error(b)
        if b is None:
            close(e, we, "error of the offset", rtol=1e-6)
        else:
            p1, p2 = p.variances(b)
            after = p.xp >= p.x[0] - 1e-12
            if (p2 > 1e-3 * p1).all() and (we[after] > 1e-6 * p.ys).all():
                require((np.abs((e / we)[after] ** 2 - 1) < 6.5 * np.sqrt(2 / 200)).all(), "errors of the factors %s, expected about %s", e[after].tolist(), we[after].tolist())
                close(v["time_deriv_err"][0, j], p.slope_error(b), "error of the time derivative", rtol=1e-5)
        wm, wr = p.stations()
        dm, dr = p.stations(defect=True)
        mean = v["sta_mean"][0, j]
        if np.array_equal(np.isnan(mean), np.isnan(dm)) and np.nanmax(np.abs(mean - dm), initial=0) < 1e-8 * p.ys + 1e-12:
            wm, wr = dm, dr
        close(mean, wm, "station mean", rtol=1e-11, atol=1e-8 * p.ys)
        close(v["sta_rms"][0, j], wr, "station scatter", rtol=1e-9, atol=1e-7 * p.ys)
        coefs += p.coefficients(A).tolist()
        if b is not None:
            breaks += (np.asarray(b) * p.xs + p.x0).tolist()
    close(np.sort(flat(got["fcoef"])[np.isfinite(flat(got["fcoef"]))]), np.sort(coefs), "fitted coefficients", rtol=1e-6, atol=1e-9)
    fb = flat(got["fbreaks"])
    close(np.sort(fb[np.isfinite(fb)]), np.sort(breaks), "fitted break points", rtol=1e-9)


def run_pipeline(case):
    f = Float(case)
    model = settle(case, f)
    try:
        wants = [expectations(f, model, sw) for sw in (True, False)]
    except (Close, p14.Tie):
        return {"nontrivial": False, "labels": ["near a choice"]}
    except ValueError:
        return {"nontrivial": False, "labels": ["outside the water-mass table"]}
    root = harness.fresh_dir("cal")
    try:
        with quiet():
            c = f.write(root)
        keep = dict(c)
        with under_test("calc_piecewisefit"):
            got = calibrate(f, root, c)
            require(c == keep, "the configuration was changed")
            v = follows(f, got, np.concatenate([[]] + list(members(f).values())))
            try:
                matches(f, v, got, wants[0])
            except Violation as first:
                try:
                    matches(f, v, got, wants[1])
                except Violation:
                    raise first
    finally:
        harness.drop_dir(root)
    fitted = ~np.isnan(v["pcond_factor"])
    special = len(f.labels) > 1 or "breaks" in case["model"] or (f.flags == 0).any() or np.isnan(f.mptmp).all(axis=0).any()
    return {"nontrivial": fitted.any() and special,
            "labels": [case["model"], "%d series" % len(f.labels), case["where"]] + (["fitted"] if fitted.any() else ["nothing fitted"])
            + sorted({"chose " + ("offset" if b is None else "line" if len(b) == 0 else "breaks") for _, p, b in wants[0] if p.m})}


# -- sub-check: some

def limit_cases():
    """a clear drift, and a maximum of its own for each series: some may be lines, some only offsets"""
    return world(model=st.just("per series"), nb=st.just(1), series=st.sampled_from([2, 3]), n=st.sampled_from([12, 10]), K=st.sampled_from([14, 25]),
                 nan=st.just(0), unmapped=st.just(0), blank=st.just(0), position=st.just(0), drift=st.just("line"), size=st.just(6e-3),
                 exclude=st.sampled_from([0, .1]), theta=st.just(""), pres=st.just(""), reach=st.just(.15), sparse=st.booleans())


def some_cases():
    """a clear kink, and a series without prescribed breaks beside others: at most a line for it"""
    return world(model=st.just("some breaks"), nb=st.integers(1, 2), series=st.sampled_from([1, 2]), n=st.sampled_from([12, 10]), K=st.just(14),
                 drift=st.just("kink"), size=st.just(6e-3), reach=st.just(.15), exclude=st.just(0), blank=st.just(0), nan=st.just(0), ragged=st.just(False),
                 unmapped=st.just(0), position=st.just(0), theta=st.just(""), pres=st.just(""))


# -- sub-check: open

def open_cases():
    return world(most=st.sampled_from([4, 1, 2]), n=st.sampled_from([9, 12, 6]), drift=st.sampled_from(["kink", "line", "none"]))


def run_open(case):
    f = Float(case)
    f.max_breaks = np.array([[float(case["most"])]])
    root = harness.fresh_dir("cal")
    try:
        with quiet():
            c = f.write(root)
        with under_test("calc_piecewisefit"):
            got = calibrate(f, root, c)
            v = follows(f, got, np.concatenate([[]] + list(members(f).values())))
            for label, j in members(f).items():
                fact = v["pcond_factor"][0, j]
                require(np.isnan(fact).all() or np.isfinite(fact).all(), "factors of a series partly missing: %s", fact.tolist())
    finally:
        harness.drop_dir(root)
    return {"nontrivial": np.isfinite(v["pcond_factor"]).any() and len(f.number) > 3,
            "labels": ["%d break points" % np.isfinite(flat(got["fbreaks"])).sum()]}


# -- sub-check: scaling

def scaling_cases():
    return world(model=st.sampled_from(["breaks", "line", "offset"]), nb=st.integers(1, 2), factor=st.sampled_from([1.001, .9985, 1.02, .97]))


def run_scaling(case):
    f, g = Float(case), Float(case)
    model = settle(case, f)
    settle(case, g)
    g.sal = gsw.SP_from_C(gsw.C_from_SP(g.sal, g.ptmp, 0) * case["factor"], g.ptmp, 0)
    try:
        for j in members(f).values():
            a, b = f.levels(j), g.levels(j)
            if not np.array_equal(np.sort(a, axis=0)[np.isfinite(np.sort(a, axis=0))], np.sort(b, axis=0)[np.isfinite(np.sort(b, axis=0))]) \
                    or not np.array_equal(np.nan_to_num(a, nan=-1), np.nan_to_num(b, nan=-1)):
                return {"nontrivial": False, "labels": ["other levels chosen"]}
        for sw in (True, False):
            expectations(f, model, sw), expectations(g, model, sw)
    except (Close, p14.Tie):
        return {"nontrivial": False, "labels": ["near a choice"]}
    except ValueError:
        return {"nontrivial": False, "labels": ["outside the water-mass table"]}
    roots = [harness.fresh_dir("cal"), harness.fresh_dir("cal")]
    try:
        with quiet():
            c = [w.write(r) for w, r in zip((f, g), roots)]
        with under_test("calc_piecewisefit"):
            a, b = (calibrate(w, r, q) for w, r, q in zip((f, g), roots, c))
            k = case["factor"]
            for key in ("pcond_factor", "sta_mean"):
                close(b[key], a[key] / k, f"{key} with the conductivity multiplied by {k}", rtol=1e-9)
            for key in ("cal_SAL", "cal_COND", "sta_SAL"):
                close(b[key], a[key], f"{key} with the conductivity multiplied by {k}", rtol=1e-8)
            # (errors are sampled; both runs use the same random numbers)
            close(b["cal_COND_err"], a["cal_COND_err"], "error of the conductivity", rtol=1e-5)
    finally:
        for r in roots:
            harness.drop_dir(r)
    return {"nontrivial": np.isfinite(a["pcond_factor"]).any(), "labels": [case["model"]]}


# -- sub-check: agree

def agree_cases():
    return world(most=st.sampled_from([4, 0, -1, 1]), drift=st.just("none"))


def run_agree(case):
    f = Float(case)
    f.max_breaks = np.array([[float(case["most"])]])
    f.msal = np.where(np.isnan(f.msal), np.nan, f.sal)
    root = harness.fresh_dir("cal")
    try:
        with quiet():
            c = f.write(root)
        with under_test("calc_piecewisefit"):
            got = calibrate(f, root, c)
            v = follows(f, got, np.concatenate([[]] + list(members(f).values())))
            done = np.isfinite(v["pcond_factor"][0])
            close(v["pcond_factor"][0, done], np.ones(done.sum()), "factors of a float that agrees with the mapped data", rtol=1e-9)
            m = np.where(done[None], f.sal, np.nan)
            m[np.isnan(f.ptmp)] = np.nan
            close(v["cal_SAL"], m, "calibrated salinity of a float that agrees with the mapped data", rtol=1e-8)
            try:
                for j in members(f).values():
                    if np.isfinite(f.levels(j)).any():
                        require(done[j].all(), "no factor although there are levels to fit")
            except p14.Tie:
                pass
    finally:
        harness.drop_dir(root)
    return {"nontrivial": done.any(), "labels": ["most %d" % case["most"]]}


# -- sub-check: mismatch

def mismatch_cases():
    return world(kind=st.sampled_from(["rows of breaks", "more breaks than allowed", "limits"]), series=st.sampled_from([2, 3, 1]),
                 exclude=st.just(0), n=st.sampled_from([6, 9, 4]))


def run_mismatch(case):
    f = Float(case)
    k = len(f.labels)
    if case["kind"] == "rows of breaks":
        rows = k + f.s.integer(1, 2) if k == 1 or f.s.flag(.4) else k - 1
        f.breaks = np.sort(f.s.u((rows, 1), 2, f.number[-1]), axis=1)
        f.max_breaks = np.array([[1.0]])
    elif case["kind"] == "more breaks than allowed":
        f.breaks = np.sort(f.s.u((k, 2), 2, f.number[-1]), axis=1)
        f.max_breaks = np.full((k, 1), 2.0)
        f.max_breaks[f.s.integer(0, k - 1)] = 1.0
    else:
        f.max_breaks = np.zeros((k + 1 if k <= 2 or f.s.flag(.5) else k - 1, 1))
        if f.s.flag(.5):
            f.max_breaks = f.max_breaks.T
        if f.s.flag(.5):
            f.breaks = np.sort(f.s.u((k, 1), 2, f.number[-1]), axis=1)
    root = harness.fresh_dir("cal")
    try:
        with quiet():
            c = f.write(root)
        with under_test("calc_piecewisefit"):
            got = calibrate(f, root, c)
            close(np.ravel(got["PROFILE_NO"]), f.number, "profile numbers", rtol=0, atol=0)
            for key in KEYS:
                want = (1, len(f.number)) if key in KEYS[2:4] + KEYS[6:10] else f.sal.shape
                require(got[key].shape == want and np.isnan(got[key]).all(), "%s is not missing: %s", key, got[key].tolist())
    finally:
        harness.drop_dir(root)
    return {"nontrivial": True, "labels": [case["kind"], "%d series" % k]}


def swapped_coordinates():
    """Two profiles 4 degrees of latitude apart; small scales 8 (latitude) and 0.5 (longitude): their errors should be correlated"""
    case = {"raw": bytes(range(256)) * 2, "n": 2, "K": 14, "ragged": False, "nan": 0, "unmapped": 0, "blank": 0, "position": 0, "where": "east",
            "drift": "none", "size": 8e-4, "order": "up", "series": 1, "exclude": 0, "theta": "", "pres": "", "percent": .5, "pv": 0,
            "topo": "smooth", "postfix": False, "reach": 1.0}
    f = Float(case)
    f.lon[:], f.lat[:] = 100.0, (30.0, 34.0)
    f.scales.update({"MAPSCALE_LATITUDE_SMALL": 8.0, "MAPSCALE_LONGITUDE_SMALL": .5})
    f.max_breaks = np.array([[-1.0]])
    root = harness.fresh_dir("cal")
    try:
        with quiet():
            got = calibrate(f, root, f.write(root))
        right = f.problem(np.arange(2), False).fit_error(None)
        return abs(got["pcond_factor_err"][0, 0] / right[0] - 1) > 1e-3
    finally:
        harness.drop_dir(root)


SUBS = [Sub("pipeline", 1200, 20000, pipeline_cases, run_pipeline),
        Sub("some", 64, 1600, some_cases, run_pipeline),
        Sub("limits", 96, 2400, limit_cases, run_pipeline),
        Sub("open", 160, 3200, open_cases, run_open),
        Sub("scaling", 200, 6000, scaling_cases, run_scaling),
        Sub("agree", 160, 4800, agree_cases, run_agree),
        Sub("mismatch", 120, 4000, mismatch_cases, run_mismatch)]
FINDINGS = {"longitude-scaled-as-latitude": swapped_coordinates}
