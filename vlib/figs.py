"""What is drawn on a figure at the moment it is saved."""
import contextlib

import numpy as np


def snapshot(fig):
    out = []
    for ax in fig.axes:
        d = {"lines": [], "segments": [], "polygons": [], "title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
             "xlim": ax.get_xlim(), "ylim": ax.get_ylim(), "texts": [(t.get_text(), tuple(getattr(t, "xy", (None, None)))) for t in ax.texts],
             "contours": list(getattr(ax, "_verif_contours", [])), "bands": list(getattr(ax, "_verif_bands", [])),
             "paths": [(np.array(p.get_path().vertices), None if p.get_path().codes is None else np.array(p.get_path().codes)) for p in ax.patches]}
        for line in ax.get_lines():
            d["lines"].append((line.get_label(), np.array(line.get_xdata(), dtype=float).ravel(),
                               np.array(line.get_ydata(), dtype=float).ravel(), line.get_color()))
        for c in ax.collections:
            kind = type(c).__name__
            if kind == "LineCollection":
                segs = [np.asarray(v, dtype=float) for v in c.get_segments()]
                d["segments"].append([v for v in segs if v.shape == (2, 2) and np.isfinite(v).all()])
            elif "PolyCollection" in kind:
                d["polygons"].append([np.asarray(p.vertices, dtype=float) for p in c.get_paths()])
        out.append(d)
    return out


def bands(contours):
    """(low, high, colour) of filled contours, [] where that cannot be told"""
    colours = np.asarray(contours.get_facecolor()) if hasattr(contours, "get_facecolor") else np.zeros((0, 4))
    if contours.extend != "neither" or len(colours) != len(contours.levels) - 1:
        return []
    return [(float(a), float(b), tuple(v)) for a, b, v in zip(contours.levels, contours.levels[1:], colours)]


@contextlib.contextmanager
def record(render=False):
    """Yields a list of (path, format, snapshot) of the figures saved. Unless render, only a stub is written."""
    from matplotlib.axes import Axes
    from matplotlib.backend_bases import FigureCanvasBase
    from matplotlib.figure import Figure
    import matplotlib.pyplot as plt
    save, filled, lines, idle = Figure.savefig, Axes.contourf, Axes.contour, FigureCanvasBase.draw_idle
    saved = []

    def fake(self, fname, *args, **kw):
        saved.append((str(fname), kw.get("format"), snapshot(self)))
        if render:
            kw["dpi"] = 20
            return save(self, fname, *args, **kw)
        with open(fname, "w") as f:
            f.write("a figure")

    def wrap(kind, func):
        def inner(self, *args, **kw):
            if len(args) >= 3:
                data = [np.array(args[0], dtype=float), np.array(args[1], dtype=float),
                        np.ma.filled(np.ma.masked_array(args[2], dtype=float, copy=True), np.nan)]
            out = func(self, *args, **kw)
            if len(args) >= 3:
                low, high = out.levels[0], out.levels[-1]
                if out.extend in ("both", "min"):
                    low = -np.inf
                if out.extend in ("both", "max"):
                    high = np.inf
                self.__dict__.setdefault("_verif_contours", []).append((kind, *data, (float(low), float(high))))
                self.__dict__.setdefault("_verif_bands", []).extend(bands(out) if kind == "filled" else [])
            return out
        return inner
    Figure.savefig, Axes.contourf, Axes.contour = fake, wrap("filled", filled), wrap("lines", lines)
    if not render:
        FigureCanvasBase.draw_idle = lambda self, *args, **kw: None     # pyplot draws again after saving
    plt.close("all")
    try:
        yield saved
    finally:
        Figure.savefig, Axes.contourf, Axes.contour, FigureCanvasBase.draw_idle = save, filled, lines, idle
        plt.close("all")
