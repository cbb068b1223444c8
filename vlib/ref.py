"""The mapping of a float's profiles, written independently of the code (from scalar definitions)."""
import math

import gsw
import numpy as np

from checks import p02, p07, p08
from vlib import world as W


class Near(Exception):
    """A decision too close to call: the case is not compared."""


def vort(lat, z):
    return 2 * 7.292e-5 * math.sin(math.radians(lat)) / z


def year(stamp):
    y, d, f = p02.decimal(stamp)
    return y + (d + f) / 365


def margin(a, b, tol=1e-9):
    if abs(a - b) <= tol * max(1, abs(b)):
        raise Near()
    return a < b


def selection(casts, me, big, small, pv, most):
    """casts: [(lon, lat, date, z)]. Indices of the casts chosen."""
    vf = vort(me[1], me[3])
    v = [vort(c[1], c[3]) for c in casts]

    def pvt(k, phi):
        return ((vf - v[k]) / math.hypot(vf, v[k]) / phi) ** 2 if pv else 0.0
    inside = []
    for k, c in enumerate(casts):
        e = math.sqrt(((c[0] - me[0]) / big[0] / 3) ** 2 + ((c[1] - me[1]) / big[1] / 3) ** 2 + pvt(k, big[3]))
        if margin(e, 1.0):
            inside.append(k)
    if len(inside) <= most:
        return inside
    third = math.ceil(most / 3)
    r = np.random.RandomState(len(inside)).rand(third) * len(inside) - 1
    chosen = [inside[q] for q in sorted({max(int(np.round(q)), 0) for q in r})]
    rest = [k for k in inside if k not in chosen]
    for sc, count in ((big, 2 * third - len(chosen)), (small, most - 2 * third)):
        d = {k: ((casts[k][0] - me[0]) / sc[0]) ** 2 + ((casts[k][1] - me[1]) / sc[1]) ** 2
             + ((casts[k][2] - me[2]) / sc[2]) ** 2 + pvt(k, sc[3]) for k in rest}
        rest.sort(key=lambda k: d[k])
        if 0 < count < len(rest):
            margin(d[rest[count - 1]], d[rest[count]])
        chosen += rest[:count]
        rest = rest[count:]
    return chosen


def cov(a, b, sc, pv):
    """a, b: rows lon, lat, date, z; sc: lon, lat, age, phi"""
    d = ((a[:, None, 0] - b[None, :, 0]) / sc[0]) ** 2 + ((a[:, None, 1] - b[None, :, 1]) / sc[1]) ** 2
    if sc[2]:
        d = d + ((a[:, None, 2] - b[None, :, 2]) / sc[2]) ** 2
    if pv:
        p, q = (np.array([vort(c[1], c[3]) for c in m]) for m in (a, b))
        d = d + ((p[:, None] - q[None]) / np.hypot(p[:, None], q[None]) / sc[3]) ** 2
    return np.exp(-d)


def mapping(sal, me, pos, sc, sv, nv, pv):
    n = len(sal)
    C = sv * cov(pos, pos, sc, pv)
    K = C + nv * np.eye(n)
    if np.linalg.cond(K) > 1e7:
        raise Near()
    c = sv * cov(me[None], pos, sc, pv)[0]
    one = np.ones(n)
    k1 = np.linalg.solve(K, one)
    m = k1 @ sal / k1.sum()
    kd = np.linalg.solve(K, sal - m)
    var = sv - c @ np.linalg.solve(K, c) + (1 - c @ k1) ** 2 / k1.sum()
    return m + c @ kd, math.sqrt(var), m + C @ kd


def noise(sal, pos):
    sq = []
    for i in range(len(sal)):
        d = [((pos[i, 0] - pos[j, 0]) ** 2 + (pos[i, 1] - pos[j, 1]) ** 2, j) for j in range(len(sal))]
        d = sorted(v for v in d if v[0] > 0)
        if not d:
            return 0.0
        if len(d) > 1:
            margin(d[0][0], d[1][0], 1e-10)
        sq.append((sal[i] - sal[d[0][1]]) ** 2)
    return math.fsum(sq) / len(sq) / 2


def side_of_cast(pres, insitu, rows):
    """Side of the front of a reference cast; not compared where the last row of the matrix matters (P07)"""
    G = len(pres)
    ok = [i for i in range(G) if not math.isnan(pres[i] + insitu[i])]
    ok = [i for k, i in enumerate(ok) if k + 1 == len(ok) or pres[ok[k + 1]] != pres[i]]
    p = [pres[i] for i in ok]
    if ok and ok[-1] == rows - 1 and (len(ok) < 4 or not p[-2] > 300):
        raise Near()
    if len(ok) > 2 and p[0] < 300 < p[-1]:
        return p07.side_of_temperature(p07.interp(300, p, [insitu[i] for i in ok]))
    return 0


def candidates(world, j, config, order, rotate=0.0):
    """Casts of the boxes around profile j in the order in which they are listed. order: labels of the boxes."""
    lon0 = (world.long[j] + rotate) % 360
    out = []
    table = world.table()
    for label in order:
        r = int(label) - 1001
        for i, kind in enumerate(("ctd", "bottle", "argo")):
            q = r - 18 * int(round(rotate / 10))
            if table[q % 648, 1 + i] != 1:
                continue
            for k, c in enumerate(world.casts):
                if c["kind"] == kind and world.row(c["lon"] + rotate, c["lat"]) == r and not (kind == "argo" and c["own"]):
                    lon = (c["lon"] + rotate - lon0 + 180) % 360 - 180 + lon0
                    out.append((lon, c["lat"], year(c["date"]), W.depth(world.case["topo"], lon, c["lat"]), k))
    return out


def profile(world, j, config, order, rotate=0.0):
    """What is mapped for column j: {level: values}, casts used per level."""
    lat, lon = world.lat[j], (world.long[j] + rotate) % 360
    pres, ptmp, sal = world.pres[:, j], world.ptmp[:, j], world.sal[:, j]
    result = {"levels": {}, "used": set(), "labels": set()}
    if math.isnan(lat) or math.isnan(lon) or np.isnan(pres).all():
        result["labels"].add("missing profile")
        return result
    me = (lon, lat, world.dates[j], W.depth(world.case["topo"], lon, lat))
    casts = candidates(world, j, config, order, rotate)
    if not casts:
        result["labels"].add("no reference data around")
        return result
    c = config
    big, small = ([c[f"MAPSCALE_{a}_{z}"] for a in ("LONGITUDE", "LATITUDE", "AGE", "PHI")] for z in ("LARGE", "SMALL"))
    pv = c["MAP_USE_PV"] == 1
    pick = selection(casts, me, big, small, pv, c["CONFIG_MAX_CASTS"])
    if not pick:
        result["labels"].add("no cast in the ellipse")
    limit = np.nanmax(pres) + c["MAP_P_DELTA"]
    data = []
    for i in sorted(pick):
        cast = world.casts[casts[i][4]]
        rows = [(s, t, p) for s, t, p in zip(cast["sal"], cast["ptmp"], cast["pres"])
                if p <= limit and not math.isnan(s + t + p)]
        if rows:
            data.append((casts[i], np.array(rows)))
    if len(pick) < len(casts):
        result["labels"].add("casts left out")
    if c["MAP_USE_SAF"] == 1 and data:
        data = front(world, j, data, result)
    for n in range(len(pres)):
        if math.isnan(sal[n]) or math.isnan(pres[n]) or not pres[n] >= c["MAP_P_EXCLUDE"]:
            continue
        if math.isnan(ptmp[n]):
            continue
        rows = []
        for cast, v in data:
            a, b, _ = p08.candidates(v[:, 0], v[:, 1], v[:, 2], ptmp[n])
            if not a:
                continue
            best = sorted((abs(p - pres[n]), p, q) for p, q in a + b)
            other = [w for w in best if abs(w[2] - best[0][2]) > 1e-12]
            if other and other[0][0] - best[0][0] < 1e-6:
                raise Near()
            if margin(best[0][0], c["MAP_P_DELTA"]):
                rows.append((best[0][2], cast))
        if len(rows) <= 5:
            continue
        s = np.array([r[0] for r in rows])
        dev = np.abs(s - s.mean()) / s.std()
        for d in dev:
            margin(d, 3.0)
        if (dev > 3).any():
            result["labels"].add("outliers")
        rows = [r for r, d in zip(rows, dev) if not d > 3]
        s = np.array([r[0] for r in rows])
        pos = np.array([r[1][:4] for r in rows])
        nv, sv = noise(s, pos), s.var()
        m = np.array(me)
        g, e, at = mapping(s, m, pos, big, sv, nv, pv)
        res = s - at
        g2, e2, _ = mapping(res, m, pos, small, res.var(), nv, pv)
        value = g + g2
        margin(value, 30.0), margin(value, 40.0)
        result["levels"][n] = (value if 30 <= value <= 40 else math.nan, math.hypot(e, e2), nv, sv, ptmp[n])
        result["used"] |= {r[1][4] for r in rows}
        if not 30 <= value <= 40:
            result["labels"].add("out of range")
    return result


def front(world, j, data, result):
    lat = world.lat[j]
    if not lat < -30:
        return data
    try:
        here = p07.side_of_float(world.saf, world.pres[:, j], world.temp[:, j], world.sal[:, j])
        if here == 0:
            return data
        keep = []
        rows = max(len(v) for _, v in data)
        for cast, v in data:
            sa = gsw.SA_from_SP(v[:, 0], v[:, 2], cast[0], cast[1])
            t = gsw.t_from_CT(sa, gsw.CT_from_pt(sa, v[:, 1]), v[:, 2])
            if side_of_cast(v[:, 2], t, rows) == here:
                keep.append((cast, v))
    except p07.Near:
        raise Near()
    if len(keep) > 5:
        result["labels"].add("front applied")
        return keep
    return data
