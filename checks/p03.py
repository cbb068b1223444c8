"""P03: change_dates, cal2dec."""
import calendar
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vlib.harness import Sub, under_test, require, Violation

RULE = ("A case is an array of stamps, each a valid calendar date with 8, 10, 12 or 14 digits or an invalid one (month "
        "00 or 13-99, day 00 or 32-99, or not a number), given as int, float, string or a float array as loaded from "
        "a .mat file. Non-trivial: at least two stamps, with a month after February or a leap day or an invalid stamp.")
ASSUMPTIONS = ["years 1000..2999; hours 0-23, minutes and seconds 0-59 (the code does not check them)",
               "29 February counts as 1 March (365-day calendar)"]

CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def want_of(stamp):
    """exact decimal year, or 0"""
    if not stamp.isdigit():
        return Fraction(0)
    y, m, d = int(stamp[:4]), int(stamp[4:6]), int(stamp[6:8])
    hh = int(stamp[8:10]) if len(stamp) >= 10 else 0
    mm = int(stamp[10:12]) if len(stamp) >= 12 else 0
    if not 1 <= m <= 12 or not 1 <= d <= 31:
        return Fraction(0)
    return y + (CUM[m - 1] + d - 1 + Fraction(hh, 24) + Fraction(mm, 1440)) / 365


@st.composite
def stamp(draw):
    kind = draw(st.sampled_from(["ok"] * 6 + ["feb", "end", "month", "day", "junk"]))
    y = draw(st.integers(1000, 2999))
    m = draw(st.integers(1, 12))
    if kind == "feb":
        m = 2
        y -= y % 4
    d = draw(st.integers(1, calendar.monthrange(y, m)[1]))
    if kind == "end":
        d = calendar.monthrange(y, m)[1]
    if kind == "month":
        m = draw(st.sampled_from([0, 13, 14, 20, 55, 99]))
    if kind == "day":
        d = draw(st.sampled_from([0, 32, 33, 40, 99]))
    text = f"{y:04d}{m:02d}{d:02d}"
    n = draw(st.sampled_from([8, 10, 12, 14, 14]))
    if n >= 10:
        text += f"{draw(st.integers(0, 23)):02d}"
    if n >= 12:
        text += f"{draw(st.integers(0, 59)):02d}"
    if n == 14:
        text += f"{draw(st.integers(0, 59)):02d}"
    if kind == "junk":
        text = draw(st.sampled_from(["abcd", "nan", "20xx0101", "2001ab01", "2001-01-01"]))
    return text


@st.composite
def cases(draw):
    return {"stamps": draw(st.lists(stamp(), min_size=1, max_size=12)),
            "form": draw(st.sampled_from(["int", "float", "str", "array"]))}


def run(case):
    from pyowc.utilities import change_dates
    stamps = case["stamps"]
    form = case["form"]
    if form != "str":
        stamps = [s for s in stamps if s.isdigit()] or ["19991231"]
    want = [want_of(s) for s in stamps]
    if form == "int":
        arg = [int(s) for s in stamps]
    elif form == "float":
        arg = [float(s) for s in stamps]
    elif form == "array":
        arg = np.array([float(s) for s in stamps])
    else:
        arg = list(stamps)
    with under_test("change_dates"):
        got = np.asarray(change_dates(arg), dtype=float)
        require(got.shape == (len(stamps),), f"shape {got.shape} for {len(stamps)} dates")
        for i, s in enumerate(stamps):
            require(abs(got[i] - float(want[i])) <= 1e-9, f"{s} ({form}) at {i} gives {got[i]!r}, expected {float(want[i])!r}")
        order = sorted((s[:12].ljust(12, "0"), g) for s, g, w in zip(stamps, got, want)
                       if w != 0 and s[4:8] != "0229")
        for a, b in zip(order, order[1:]):
            require(a[1] <= b[1] + 1e-12, f"{b[0]} is later than {a[0]} but gets a smaller value")
    labels = [form] + [f"{len(s)} digits" for s in set(stamps) if s.isdigit()]
    inval = any(w == 0 for w in want)
    if inval:
        labels.append("has an invalid stamp")
    late = any(s.isdigit() and int(s[4:6]) > 2 for s in stamps)
    return {"nontrivial": len(stamps) > 1 and (late or inval), "labels": labels}


@st.composite
def cal_cases(draw):
    return {"m": draw(st.integers(0, 20)), "d": draw(st.sampled_from([1, 2, 15, 28, 30, 31, 32, 40, 370, 400])),
            "hh": draw(st.integers(0, 23)), "mm": draw(st.integers(0, 59)), "short": draw(st.booleans())}


def run_cal(case):
    from pyowc.utilities import cal2dec
    m, d, hh, mm = case["m"], case["d"], case["hh"], case["mm"]
    if case["short"]:
        hh = mm = 0
    args = (m, d) if case["short"] else (m, d, hh, mm)
    cum = CUM + [365]
    bad = m > 12
    val = None
    if not bad:
        val = cum[m] + d - 1 + Fraction(hh, 24) + Fraction(mm, 1440)
        if val == 366:
            return {"nontrivial": False}
        bad = val > 366
    if bad:
        with under_test("cal2dec"):
            try:
                r = cal2dec(*args)
            except ValueError:
                return {"nontrivial": True, "labels": ["error"]}
            raise Violation(f"cal2dec{args} gives {r!r}, expected an error")
    with under_test("cal2dec"):
        r = cal2dec(*args)
        require(abs(float(r) - float(val)) <= 1e-10, f"cal2dec{args} gives {r!r}, expected {float(val)!r}")
    return {"nontrivial": m > 1 and (hh or mm), "labels": ["value"]}


SUBS = [Sub("stamps", 15000, 720000, cases, run), Sub("calendar", 3600, 96000, cal_cases, run_cal)]
FINDINGS = {}
