"""A small synthetic ocean on disk: topography, reference database, box table, front climatology, a float, a configuration."""
import os

import gsw
import numpy as np
from hypothesis import strategies as st
from scipy.io import savemat

from vlib import box, harness, topo
from vlib.gen import Stream, raw

FLOAT = "5901234"
DIR = "dac"

# region: (longitude, latitude) ranges of the float
REGIONS = {"north": ((40, 140), (22, 55)), "south": ((200, 310), (-55, -34)), "tropics": ((60, 150), (-12, 12)),
           "greenwich": ((-4, 4), (25, 50)), "dateline": ((176, 184), (-50, -35)), "east": ((318, 344), (15, 50)),
           "polar": ((20, 340), (70, 78)),
           # a long way from west to east, so that reference casts lie on another branch of longitudes for each end
           "crossing": ((-2, 2), (15, 45))}


def cases(**extra):
    d = {"raw": raw(512), "region": st.sampled_from(["north", "south", "greenwich", "tropics", "east", "south", "polar", "dateline", "crossing"]),
         "topo": st.sampled_from(["smooth", "zonal", "smooth"]), "n": st.sampled_from([2, 1, 3, 4]),
         "levels": st.sampled_from([4, 6, 3, 9]), "casts": st.sampled_from([25, 14, 40, 60, 8]),
         "max_casts": st.sampled_from([300, 12, 20, 9]), "pv": st.sampled_from([0, 1]), "saf": st.sampled_from([0, 0, 1]),
         "noise": st.sampled_from([.03, .1, .01]), "outliers": st.sampled_from([0, 1, 2]), "nan": st.sampled_from([0, .1]),
         "blank": st.sampled_from([None, None, None, "position", "salinity", "pressure", "remote", "lonely"]),
         "exclude": st.sampled_from([100, 0, 100, 400]), "delta": st.sampled_from([250, 600, 60]),
         "flags": st.sampled_from([1.0, 1.0, .7]), "wide": st.sampled_from([1.0, .5, 1.6]),
         "age": st.sampled_from([1, 1, 0]), "order": st.sampled_from(["up", "up", "shuffled"]),
         "branch": st.sampled_from([360, 180]), "own": st.sampled_from([0, .3]), "qc": st.sampled_from([0.0, 0.0, 0.0, 5.2, -4.6])}
    d.update(extra)
    return st.fixed_dictionaries(d)


def off_edge(x):
    """not within 0.05 degree of the edge of a box"""
    d = np.mod(np.asarray(x, dtype=float) + 5, 10) - 5
    return x + np.where(np.abs(d) < .05, .1, 0.0)


def temperature(p):
    return 3 + 12 * np.exp(-p / 500)


class World:
    """case -> what is in the files. write() puts it on disk."""

    def __init__(self, case):
        self.case = case
        s = self.s = Stream(case["raw"])
        (x0, x1), (y0, y1) = REGIONS[case["region"]]
        self.lon0, self.lat0 = s.u(None, x0, x1), s.u(None, y0, y1)
        k = case["wide"]
        self.scales = {"MAPSCALE_LONGITUDE_LARGE": s.u(None, 4, 8) * k, "MAPSCALE_LATITUDE_LARGE": s.u(None, 2, 5) * k,
                       "MAPSCALE_PHI_LARGE": s.u(None, .3, 1), "MAPSCALE_AGE_LARGE": s.u(None, 8, 20)}
        for a in ("LONGITUDE", "LATITUDE", "PHI", "AGE"):
            self.scales[f"MAPSCALE_{a}_SMALL"] = self.scales[f"MAPSCALE_{a}_LARGE"] * s.u(None, .3, .8)
        self.make_casts()
        self.make_float()

    def salt(self, p, th, lon, lat, extra=0.0):
        return (34.3 + .06 * th + .25 * np.exp(-((p - 700) / 500) ** 2) + .015 * (lat - self.lat0) + .01 * (lon - self.lon0)
                + extra + self.case["qc"])

    def make_casts(self):
        s, case = self.s, self.case
        N = case["casts"]
        # (a few degrees beyond the ellipse, so that some casts are outside it)
        rx = min(2.6 * self.scales["MAPSCALE_LONGITUDE_LARGE"], 17) * 1.15
        ry = min(2.6 * self.scales["MAPSCALE_LATITUDE_LARGE"], 14) * 1.15
        self.casts = []
        outlier = set(s.integers(case["outliers"], 0, N - 1)) if case["outliers"] else set()
        for i in range(N):
            r, a = np.sqrt(s.u()), s.u(None, 0, 2 * np.pi)
            lon, lat = self.lon0 + rx * r * np.cos(a), float(np.clip(self.lat0 + ry * r * np.sin(a), -85, 85))
            if case.get("layout") == "flanks":      # casts west and east of the float and none near it
                lon = self.lon0 + rx * s.u(None, .85, 1) * (1 if i % 2 else -1)
                lat = self.lat0 + .3 * (lat - self.lat0)
            lon, lat = float(off_edge(lon)), float(off_edge(lat))
            K = s.integer(6, 14)
            p = np.sort(s.u(K, 8, 2100))
            th = temperature(p) + s.u(None, -.5, .5) * np.exp(-p / 700) + s.u(K, -.05, .05)
            if case["saf"]:
                th -= s.u(None, 4, 11) * s.flag(.35) * np.exp(-p / 700)
            sal = self.salt(p, th, lon, lat, s.normal() * case["noise"] + .2 * case["noise"] * s.normal(K))
            if i in outlier:
                sal += (12 * case["noise"] + .4) * (1 if i % 2 else -1)
            if s.flag(case["nan"]):
                for v in (p, th, sal):
                    v[s.flags(K, .1)] = np.nan
            kind = box.TYPES[s.integer(0, 2)]
            stamp = float("%04d%02d%02d%02d%02d%02d" % (s.integer(1975, 2020), s.integer(1, 12), s.integer(1, 28),
                                                     s.integer(0, 23), s.integer(0, 59), s.integer(0, 59)))
            own = kind == "argo" and s.flag(case["own"])
            self.casts.append({"lon": lon % 360, "lat": lat, "date": stamp, "sal": sal, "ptmp": th, "pres": p, "kind": kind,
                               "source": "argo_%s_%d" % (FLOAT if own else "1900%03d" % i, i), "own": own})
        self.flags = (s.flags((648, 3), case["flags"])).astype(float)

    def make_float(self):
        s, case = self.s, self.case
        n, m = case["n"], case["levels"]
        step = s.u((2, n), -.4, .4).cumsum(axis=1)
        self.lat = self.lat0 + step[0]
        self.long = np.mod(self.lon0 + step[1] + s.u(None, -1, 1), 360)
        if case["region"] == "crossing":
            self.long = np.mod(self.lon0 + (np.linspace(-14, 24, n) if s.flag(.3) else np.linspace(9, 27, n)[s.perm(n)]) + s.u(n, -2, 2), 360)
        self.lat, self.long = off_edge(self.lat), np.mod(off_edge(self.long), 360)
        self.dates = 2004 + np.sort(s.u(n, 0, 8))
        self.number = np.cumsum(s.integers(n, 1, 3)).astype(float)
        if case["order"] == "shuffled":
            self.number = self.number[s.perm(n)]
        self.pres = np.sort(s.u((m, n), 15, 1900), axis=0)
        self.ptmp = temperature(self.pres) + s.u(n, -.3, .3) * np.exp(-self.pres / 700)
        if case["saf"]:
            self.ptmp -= s.u(n, 2, 11) * s.flags(n, .4) * np.exp(-self.pres / 700)
        if case["exclude"] and s.flag(.4):          # a level exactly at the upper limit
            self.pres[0, s.integer(0, n - 1)] = float(case["exclude"])
            self.pres.sort(axis=0)
            self.ptmp = temperature(self.pres) + s.u(n, -.3, .3) * np.exp(-self.pres / 700)
        self.sal = self.salt(self.pres, self.ptmp, self.long, self.lat, s.normal((m, n)) * .02) - case["qc"]
        for v in (self.pres, self.ptmp, self.sal):
            v[s.flags((m, n), case["nan"] / 2)] = np.nan
        for j, c in enumerate(s.integers(n, 1, m)):
            if s.flag(.4):
                for v in (self.pres, self.ptmp, self.sal):
                    v[c:, j] = np.nan
        which = s.integer(0, n - 1)
        blank = case["blank"]
        if blank == "position":
            (self.lat if s.flag(.5) else self.long)[which] = np.nan
        elif blank == "salinity":
            self.sal[:, which] = np.nan
        elif blank == "pressure":
            self.pres[:, which] = np.nan
        elif blank == "remote":         # no reference data in the boxes around
            self.long[which] = off_edge((self.lon0 + 120) % 360)
        elif blank == "lonely":         # reference data in the boxes around, none in the ellipse
            if abs(self.lat0) < 60:
                self.lat[which] = off_edge(self.lat0 - np.sign(self.lat0 or 1) * 21.0)
        self.temp = self.ptmp + 1e-4 * self.pres

    # -- on disk
    def config(self, root):
        from pyowc.configuration import load
        c = dict(load())
        c.update(box.config(os.path.join(root, "hist")))
        c.update({"FLOAT_SOURCE_DIRECTORY": os.path.join(root, "source"), "FLOAT_MAPPED_DIRECTORY": os.path.join(root, "mapped"),
                  "FLOAT_CALIB_DIRECTORY": os.path.join(root, "calib"), "FLOAT_PLOTS_DIRECTORY": os.path.join(root, "plots") + os.sep,
                  "CONFIG_DIRECTORY": os.path.join(root, "const"), "CONFIG_WMO_BOXES": "boxes.mat", "CONFIG_SAF": "saf.mat"})
        c.update(self.scales)
        case = self.case
        c.update({"CONFIG_MAX_CASTS": case["max_casts"], "MAP_USE_PV": case["pv"], "MAP_USE_SAF": case["saf"],
                  "MAP_P_EXCLUDE": case["exclude"], "MAP_P_DELTA": case["delta"]})
        return c

    def table(self):
        t = np.zeros((648, 4))
        t[:, 0] = 1001 + np.arange(648)
        t[:, 1:] = self.flags
        return t

    @staticmethod
    def row(lon, lat):
        return int((lon % 360) // 10) * 18 + int((90 - lat) // 10)

    def write(self, root, rotate=0.0):
        """rotate: degrees east, a multiple of ten"""
        for d in ("const", "mapped/" + DIR, "calib/" + DIR, "plots/" + DIR, "source/" + DIR):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        hist = os.path.join(root, "hist")
        box.directories(hist)
        os.symlink(topo.path(self.case["topo"]), os.path.join(root, "const", "tbase.int"))
        table = self.table()
        turn = int(round(rotate / 10))
        table[:, 1:] = np.roll(table[:, 1:], 18 * turn, axis=0)
        savemat(os.path.join(root, "const", "boxes.mat"), {"la_wmo_boxes": table})
        if self.case["saf"]:
            savemat(os.path.join(root, "const", "saf.mat"), self.front())
        files = {}
        for c in self.casts:
            files.setdefault((c["kind"], self.row(c["lon"] + rotate, c["lat"])), []).append(c)
        for (kind, row), casts in files.items():
            K = max(len(c["pres"]) for c in casts)

            def field(name):
                out = np.full((K, len(casts)), np.nan)
                for j, c in enumerate(casts):
                    out[:len(c[name]), j] = c[name]
                return out
            lon = np.array([(c["lon"] + rotate) % 360 for c in casts])
            if self.case["branch"] == 180:
                lon = np.where(lon > 180, lon - 360, lon)
            box.write(hist, kind, 1001 + row, [c["lat"] for c in casts], lon, np.array([c["date"] for c in casts]),
                      field("sal"), field("ptmp"), field("pres"), [c["source"] for c in casts] if kind == "argo" else None)
        self.write_float(root, rotate=rotate)
        return self.config(root)

    def write_float(self, root, columns=None, levels=None, rotate=0.0):
        k = np.arange(len(self.number)) if columns is None else np.asarray(columns)
        m = self.pres.shape[0] if levels is None else levels
        savemat(os.path.join(root, "source", DIR, FLOAT + ".mat"),
                {"PRES": self.pres[:m][:, k], "TEMP": self.temp[:m][:, k], "PTMP": self.ptmp[:m][:, k], "SAL": self.sal[:m][:, k],
                 "LAT": self.lat[None, k], "LONG": np.mod(self.long + rotate, 360)[None, k], "DATES": self.dates[None, k],
                 "PROFILE_NO": self.number[None, k]})

    def front(self):
        """Typical profiles north and south of the front; the float's water is on the southern side or undecided."""
        from checks import p07
        d = p07.DEPTH
        s = Stream(self.case["raw"][::-1])
        c = p07.climatology(s, True)
        out = {k: v[None] for k, v in c.items()}
        out["Deph"] = d[None].astype(np.uint16)
        self.saf = c
        return out


def depth(kind, lon, lat):
    """Bilinear in the stored values (rows 90 - r/12 north, columns c/12 east)"""
    v = topo.table(kind)
    x, y = (lon % 360) * 12, (90 - lat) * 12
    c, r = int(np.floor(x)), int(np.floor(y))
    fx, fy = x - c, y - r
    q = [[float(v[min(r + i, 2159), (c + j) % 4320]) for j in (0, 1)] for i in (0, 1)]
    return -((1 - fy) * ((1 - fx) * q[0][0] + fx * q[0][1]) + fy * ((1 - fx) * q[1][0] + fx * q[1][1]))
