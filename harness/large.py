"""Cases of realistic size: the generators of the checks with other sizes put in.

The small cases cover what depends on shape, order and values; a few large ones per
run cover what only shows in long records, many columns or big arrays (blocking,
accumulated rounding, thresholds on sizes)."""

import numpy as np
from hypothesis import strategies as st

from . import tsp
from .core import Sub


@st.composite
def _large(draw, strategy, change):
    case = draw(strategy)
    change(case, draw(st.integers(0, 2)))
    return case


def sub(strategy, f, change, quick=30, thorough=240, shards=3, name="large"):
    """cases of `strategy` with change(case, k) applied (k = 0, 1, 2: how large)"""
    return Sub(name, _large(strategy, change), f, quick=quick, thorough=thorough, shards=shards)


def arrays(case, k):
    """T, S, p arrays of 6e4 to 3e5 elements, half of the time of a round number"""
    n = [[65536, 100000, 131072, 262144], [70001], [140000, 300000]][k]
    n = n[case["seed"] % len(n)]
    if not case["dims"]:
        case["dims"] = tsp.DIMS[-1:]
        case["shape"] = [1]
    lead = [s if s < 3 else 4 for s in case["shape"][:-1]]
    case["shape"] = lead + [n // int(np.prod(lead, dtype=int))]


def ocean(case, k):
    o = case["o"]
    o["nt"] = [2, 3, 2][k]
    o["ny"], o["nx"] = [(30, 50), (64, 48), (101, 72)][k]
    o["z"]["n"] = [75, 35, 50][k]
    if o["z"]["kind"] in ("stretched", "random"):
        o["z"]["kind"] = "deep"
    o["chunk"] = 0
    if "idx" in case:
        case["k"] = max(-o["nt"], min(case["k"], o["nt"] - 1))


def years(case, k):
    """long records of few columns"""
    o = case["o"]
    o["nt"] = [240, 150, 366][k]
    o["ny"], o["nx"] = 2, 3
    o["z"]["n"] = 4
    o["chunk"] = 0


def columns(case, k):
    """profiles"""
    if "z" in case:
        case["z"]["n"] = [75, 35, 50][k]
        if case["z"]["kind"] in ("stretched", "random"):
            case["z"]["kind"] = "deep"
    else:
        case["nz"] = [75, 35, 50][k]
    case["shape"] = [[40, 60, 2], [90, 30, 3], [70, 101, 1]][k][: len(case["shape"])]
    case["chunk"] = 0


def grid(case, k):
    case["ny"], case["nx"] = [(120, 180), (201, 90), (80, 361)][k]


def points(case, k):
    grid(case, k)
    case["nloc"] = [120, 300, 200][k]
    if "nt" in case:
        case["nt"] = min(case["nt"], 3)


def monthly(case, k):
    """records of 60 to 250 years (clear of 1582)"""
    case["ax"]["ny"] = [60, 165, 250][k]
    case["ax"]["y0"] = [1850, 1601, 1][k]
    case["c"]["other"] = case["c"]["other"][:1]
    case["c"]["tpos"] = min(case["c"]["tpos"], len(case["c"]["other"]))


def axis(case, k):
    case["ax"]["n"] = [3650, 1001, 8000][k]
    if case["ax"]["step"] in ("irregular", "monthly"):
        case["ax"]["step"] = "daily"
    case["c"]["other"] = [min(s, 3) for s in case["c"]["other"]]


def samples(case, k):
    case["n"] = [3000, 700, 1500][k]
    if case["step"] != "hours":
        case["step"] = "days"
    case["c"]["other"] = [min(s, 3) for s in case["c"]["other"]]


def days(case, k):
    case["n"] = [11000, 3653, 7305][k]
    case["y0"] = [1850, 1970, 2081][k]
    case["c"]["other"] = [min(s, 3) for s in case["c"]["other"]]


def many_columns(case, k):
    case["c"]["other"] = [[20, 50], [61, 40], [3000]][k]
    case["c"]["tpos"] = min(case["c"]["tpos"], len(case["c"]["other"]))
    case["c"]["chunk"] = 0


def span(case, k):
    case["span"] = [3700, 9200, 5600][k]
    case["y0"] = [1850, 1970, 2081][k]
    case["c"]["other"] = case["c"]["other"][:1]
    case["c"]["tpos"] = min(case["c"]["tpos"], len(case["c"]["other"]))
