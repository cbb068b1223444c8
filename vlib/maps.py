"""Synthetic coastline, bathymetry and reef shapefiles."""
import os

import numpy as np

DEPTHS = ["L_0", "K_200", "J_1000", "I_2000", "H_3000", "G_4000", "F_5000", "E_6000", "D_7000", "C_8000", "B_9000"]


def ring(s, x, y):
    k = s.integer(3, 6)
    a = np.sort(s.u(k, 0, 6.28))
    r = s.u(None, .5, 8)
    pts = [[float(x + r * np.cos(v)), float(y + r * np.sin(v) / 2)] for v in a]
    return pts + [pts[0]]


def write(const, s, x=0.0, y=0.0, count=2):
    """Writes the files; returns {name: list of shapes, each a list of parts}"""
    import shapefile
    out = {}

    def one(name, kind, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        shapes = []
        with shapefile.Writer(path, shapeType=kind) as w:
            w.field("id", "N")
            for i in range(s.integer(0, count) if name != "coastline" else count):
                parts = [ring(s, x + s.u(None, -20, 20), y + s.u(None, -15, 15)) for _ in range(s.integer(1, 3))]
                if kind == shapefile.POLYLINE:
                    parts = [p[:-1] for p in parts]
                    w.line(parts)
                else:
                    # (outer rings run clockwise, or the reader warns)
                    parts = [p[::-1] for p in parts]
                    w.poly(parts)
                w.record(i)
                shapes.append(parts)
        out[name] = shapes
    one("coastline", 3, os.path.join(const, "coastline", "ne_10m_coastline"))
    for d in DEPTHS:
        one(d, 5, os.path.join(const, "bathymetry", "ne_10m_bathymetry_" + d))
    one("reefs", 5, os.path.join(const, "reefs", "ne_10m_reefs"))
    return out
