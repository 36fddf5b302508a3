"""C21 - seasonal model (trend, annual and semi-annual harmonics)"""

import numpy as np
from hypothesis import strategies as st

from momlevel import trend

from .. import gen, large, orc, series
from ..core import Prop, Sub, check, close, same_coords, sut, vals

import cftime
import datetime


@st.composite
def cases(draw):
    return {
        "typ": draw(gen.weighted(("cftime", 3), ("datetime64", 2))),
        "cal": draw(st.sampled_from(gen.CALENDARS)),
        "y0": draw(st.one_of(st.integers(1960, 2040), st.sampled_from([1, 850, 1850, 2100]))),
        "step": draw(gen.weighted(("monthly", 3), ("tenday", 2), ("daily", 1), ("sixhourly", 1), ("irregular", 2), ("days", 2), ("hours", 1))),
        "n": draw(gen.weighted((24, 2), (40, 2), (90, 1), (7, 1), (150, 1))),
        "seed": draw(gen.seeds()),
        "signal": draw(gen.weighted(("noise", 2), ("model", 2))),
        "c": draw(series.shapes(dtypes=(("f8", 8), ("f4", 1), ("i4", 1)))),
        "model": draw(gen.weighted((None, 1), (True, 3), (False, 1))),
        "default_t": draw(gen.often(0.5)),
    }


def axis(case):
    """time values and decimal years (year + days since January 1 / 365)"""
    r = gen.rng(case["seed"], 5)
    n = case["n"]
    if case["step"] == "irregular":
        hrs = np.cumsum(r.integers(24, 24 * 40, n))
    else:
        hrs = np.arange(n) * {"monthly": 731, "tenday": 240, "daily": 24 * 9, "sixhourly": 6 * 43, "days": 24, "hours": 12}[case["step"]]
    hrs = [int(h) for h in hrs]
    if case["typ"] == "datetime64":
        y = min(max(case["y0"], 1700), 2200)
        t0 = datetime.datetime(y, 1, 16, 6)
        ts = [t0 + datetime.timedelta(hours=h) for h in hrs]
        cal = "proleptic_gregorian"
        vals_ = np.array([np.datetime64(t, "ns") for t in ts])
    else:
        cal = case["cal"]
        y = gen.safe_year(case["y0"], cal, 10)
        t0 = cftime.datetime(y, 1, 16, 6, calendar=cal)
        ts = [t0 + datetime.timedelta(hours=h) for h in hrs]
        vals_ = gen.obj_array(ts)
    dec = []
    for t in ts:
        doy = sum(orc.month_length(t.year, m, cal) for m in range(1, t.month)) + t.day
        dec.append(orc.LD(t.year) + (orc.LD(doy - 1) + orc.LD(t.hour) / 24) / 365)
    return vals_, np.array(dec)


def design(dec):
    pi = np.arccos(orc.LD(-1))
    return np.array(
        [
            np.ones(len(dec), dtype=orc.LD),
            dec - dec.mean(),
            np.sin(2 * pi * dec),
            np.cos(2 * pi * dec),
            np.sin(4 * pi * dec),
            np.cos(4 * pi * dec),
        ]
    )


def fit(dec, y):
    """least squares, columns with a missing value become missing;
    -> coefficients (6, ...), model (time, ...), condition number"""
    m = design(dec)
    md = m.astype(float)
    cond = np.linalg.cond(md)
    y2 = np.asarray(y, dtype=orc.LD).reshape(len(dec), -1)
    yy = np.where(np.isnan(y2), 0, y2).astype(float)
    co = np.linalg.lstsq(md.T, yy, rcond=None)[0].astype(orc.LD)
    # one step of iterative refinement
    res = np.where(np.isnan(y2), 0, y2) - m.T @ co
    co = co + np.linalg.lstsq(md.T, res.astype(float), rcond=None)[0]
    mod = m.T @ co
    bad = np.isnan(y2).any(axis=0)
    co[:, bad] = np.nan
    mod[:, bad] = np.nan
    shp = np.asarray(y).shape[1:]
    return co.reshape((6,) + shp), mod.reshape((len(dec),) + shp), cond


def f_seasonal(case, rec):
    c = dict(case["c"])
    if case["default_t"]:
        c["tname"] = 0
    t = series.tname(c)
    tv, dec = axis(case)
    a = series.numbers(c, len(tv))
    exact = case["signal"] == "model" and c["dtype"] == "f8"
    if exact:
        lo, hi = series.LOHI[c["scale"]]
        k = gen.rng(c["seed"], 8).uniform(lo, hi, (6, *a.shape[1:])).reshape(6, -1)
        a = np.where(np.isnan(a), np.nan, (design(dec).T @ k).astype(float).reshape(a.shape))
    da = series.data_array(c, a, tv)
    kw = {} if t == "time" else {"tcoord": t}
    if case["model"] is not None:
        kw["return_model"] = case["model"]
    co, mod, cond = fit(dec, a)
    if cond > (1e5 if c["dtype"] == "f4" else 3e7):
        return
    out = sut("seasonal_model", trend.seasonal_model, da, **kw)
    if case["model"]:
        check(isinstance(out, tuple) and len(out) == 2, "return_model=True must give model and residuals")
        smodel, resid = out
    else:
        smodel, resid = None, out
    dims = [t] + series.DIMS[: len(c["other"])]
    scale = float(np.nanmax(np.abs(a.astype(float)), initial=0.0)) or 1e-30
    # (the decimal year has an absolute precision of about 4e-13 years)
    at = scale * (1e-5 if c["dtype"] == "f4" else 1e-12) * (10 + cond)
    close("residuals", vals("residuals", resid, dims), a.astype(orc.LD) - mod, rtol=0, atol=at)
    same_coords("residuals", resid, {t: tv, **series.other_coords(c)})
    if smodel is not None:
        close("model", vals("model", smodel, dims), mod, rtol=0, atol=at)
        same_coords("model", smodel, {t: tv, **series.other_coords(c)})
    if exact and bool(np.isfinite(mod).any()):
        rv = vals("residuals", resid, dims)
        check(float(np.nanmax(np.abs(rv))) <= at, "a series that follows the model leaves residuals")
    src = gen.attrs_of(c["attrs"])
    for what, obj, tag in (("residuals", resid, "sresid"), ("model", smodel, "smodel")):
        if obj is None:
            continue
        check(obj.attrs.get("units") == src.get("units", ""), f"units of the {what}: {obj.attrs.get('units')!r}")
        check(tag in str(obj.attrs.get("standard_name")), f"standard_name of the {what}: {obj.attrs.get('standard_name')!r}")
        check(src.get("standard_name", "") in str(obj.attrs.get("standard_name")), f"standard_name of the {what}: {obj.attrs.get('standard_name')!r}")
        if "long_name" in src:
            check(src["long_name"] in str(obj.attrs.get("long_name")), f"long_name of the {what}")
    rec.nt(bool(np.isfinite(mod).any()))
    rec.label(case["typ"] if case["typ"] == "datetime64" else case["cal"])
    rec.label(case["step"])
    rec.label("exact", exact)
    rec.label("missing values", c["nan"] != "none")
    rec.label("dask", bool(c["chunk"]))
    rec.label("renamed", t != "time")


PROP = Prop(
    "C21",
    "series of 24-90 points (monthly, ten-daily, nine-daily, irregular, at any "
    "hour) in six calendars or datetime64, 0-2 other dimensions, missing values, "
    "noise or a series made of the model itself. Non-trivial: at least one "
    "complete column.",
    [
        Sub("seasonal", cases(), f_seasonal, quick=2400, thorough=6000, shards=8),
        large.sub(cases(), f_seasonal, large.samples),
        large.sub(cases(), f_seasonal, large.many_columns, name="many"),
    ],
    assumptions=["time axes on which the six terms cannot be told apart (condition number above 3e7) are skipped"],
)
