"""C22 - deseasoning of daily series"""

import datetime

import cftime
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import trend

from .. import gen, large, orc, series
from ..core import Prop, Sub, check, close, must_raise, same_coords, sut, vals
from .c21 import design, fit

NAMES = ["constant", "trend", "sin_annual", "cos_annual", "sin_semiannual", "cos_semiannual"]


@st.composite
def cases(draw):
    return {
        "cal": draw(st.sampled_from(gen.CALENDARS)),
        "y0": draw(st.one_of(st.integers(1960, 2040), st.sampled_from([1, 850, 1850, 1899, 1999, 2099]))),
        "day0": draw(gen.weighted((0, 2), (1, 1))) and draw(st.integers(1, 364)),
        "n": draw(gen.weighted((400, 2), (550, 1), (800, 2), (1500, 1), (60, 1), (150, 1))),
        "signal": draw(gen.weighted(("noise", 2), ("model", 2))),
        "c": draw(series.shapes(dtypes=(("f8", 7), ("f4", 1), ("i4", 1), ("i8", 1)))),
        "fmt": draw(gen.weighted(("residuals", 3), ("model", 3), ("coeff", 4), (None, 1), ("coef", 1))),
        "default_t": draw(gen.often(0.5)),
        "tchunk": draw(gen.weighted((100, 1), (-1, 1))),
    }


def axis(case):
    cal = case["cal"]
    y = gen.safe_year(case["y0"], cal, 8)
    t0 = cftime.datetime(y, 1, 1, 12, calendar=cal) + datetime.timedelta(days=case["day0"])
    ts = [t0 + datetime.timedelta(days=k) for k in range(case["n"])]
    # decimal years since the first day
    w = [orc.LD(1) / orc.year_length(t.year, cal) for t in ts]
    dec = np.cumsum(w) - w[0]
    return gen.obj_array(ts), dec


def f_deseason(case, rec):
    c = dict(case["c"])
    if case["default_t"]:
        c["tname"] = 0
    lazy = bool(c["chunk"])
    t = series.tname(c)
    tv, dec = axis(case)
    a = series.numbers(c, len(tv))
    exact = case["signal"] == "model" and c["dtype"] == "f8"
    if exact:
        lo, hi = series.LOHI[c["scale"]]
        k = gen.rng(c["seed"], 8).uniform(lo, hi, (6, *a.shape[1:])).reshape(6, -1)
        a = np.where(np.isnan(a), np.nan, (design(dec).T @ k).astype(float).reshape(a.shape))
    da = series.data_array(c, a, tv, chunk=False)
    if lazy:
        da = da.chunk({d: (case["tchunk"] if d == t else 1) for d in da.dims})
    kw = {} if t == "time" else {"tdim": t}
    if case["fmt"] is not None:
        kw["output_format"] = case["fmt"]
    fmt = case["fmt"] or "residuals"
    if fmt == "coef":
        must_raise("deseason(output_format='coef')", trend.deseason, da, **kw)
        rec.nt()
        return
    co, mod, cond = fit(dec, a)
    if cond > (1e5 if fmt == "coeff" or c["dtype"] == "f4" else 1e8):
        return
    res = sut("deseason", trend.deseason, da, **kw)
    check((res.chunks is not None) == lazy, "a dask array must stay one, an eager one must not become one")
    if lazy:
        got = np.asarray(res.values).dtype
        check(res.dtype == got, f"a lazy result of declared type {res.dtype} (which reductions use) computes as {got}")
    other = series.DIMS[: len(c["other"])]
    scale = float(np.nanmax(np.abs(a.astype(float)), initial=0.0)) or 1e-30
    at = scale * (1e-5 if c["dtype"] == "f4" else 1e-12) * (10 + cond)
    if fmt != "coeff" and c["dtype"] != "f4":
        # (the fitted values, unlike the coefficients, are well determined)
        at = scale * (1e-12 + 1e-14 * cond)
    # (the days of a long record add up to years with an error of their own)
    at += scale * 13 * len(tv) * 1.2e-16 * float(dec[-1])
    src = gen.attrs_of(c["attrs"])
    if fmt == "coeff":
        close("coefficients", vals("coefficients", res, ["coeff"] + other), co, rtol=0, atol=at)
        check([str(v) for v in res["coeff"].values] == NAMES, f"coefficient names {list(res['coeff'].values)}")
        same_coords("coefficients", res, series.other_coords(c))
        check("units" not in res.attrs, "coefficients of different units claim the units of the input")
    else:
        e = mod if fmt == "model" else a.astype(orc.LD) - mod
        close(fmt, vals(fmt, res, [t] + other), e, rtol=0, atol=at)
        same_coords(fmt, res, {t: tv, **series.other_coords(c)})
        if "units" in src:
            check(res.attrs.get("units") == src["units"], f"units {res.attrs.get('units')!r}")
    check("standard_name" not in res.attrs, "the standard name of the input no longer applies")
    word = {"residuals": "residual", "model": "model", "coeff": "coefficient"}[fmt]
    check(word in str(res.attrs.get("processing")).lower(), f"the processing attribute of {fmt} is {res.attrs.get('processing')!r}")
    if "long_name" in src:
        new = str(res.attrs.get("long_name"))
        check(new.startswith(src["long_name"]), "long_name lost")
        check(word in new[len(src["long_name"]) :].lower(), f"the long_name of {fmt} is {new!r}")
    if exact and bool(np.isfinite(mod).any()) and fmt == "residuals":
        check(float(np.nanmax(np.abs(res.values))) <= at, "a series that follows the model leaves residuals")
    rec.nt(bool(np.isfinite(mod).any()))
    rec.label(fmt)
    rec.label(case["cal"])
    rec.label("lazy", lazy)
    rec.label("one series", not c["other"])
    rec.label("missing values", c["nan"] != "none")
    rec.label("renamed", t != "time")


# -- the model of a single series ------------------------------------------------


@st.composite
def one_cases(draw):
    return {
        "n": draw(st.integers(60, 500)),
        "diy": draw(gen.weighted((None, 1), (365.0, 1), (365, 1), (366, 1), (360, 1), (12, 2), (52.0, 1))),
        "seed": draw(gen.seeds()),
        "kind": draw(st.sampled_from(gen.KINDS)),
        "scale": draw(st.sampled_from([1.0, 1e-6, 1e5])),
        "off": draw(st.sampled_from([0.0, 100.0])),
        "int": draw(gen.often(0.2)),
    }


def f_one(case, rec):
    n = case["n"]
    y = (gen.field(case["seed"], case["kind"], (n,), -1, 1, salt=3) + case["off"]) * case["scale"]
    if case.get("int"):
        y = np.round(y * 40).astype("int64")
    d = 365.0 if case["diy"] is None else case["diy"]
    dec = np.arange(n).astype(orc.LD) / orc.LD(d)
    co, mod, cond = fit(dec, y)
    if cond > 1e5:
        return
    kw = {} if case["diy"] is None else {"daysinyear": case["diy"]}
    got = sut("seasonal_cycle_model", trend.seasonal_cycle_model, y, **kw)
    check(len(got) == 3, "coefficients, residuals and model expected")
    at = float(np.abs(y).max()) * 1e-12 * (10 + cond)
    close("coefficients", got[0], co, rtol=0, atol=at)
    close("residuals", got[1], y - mod, rtol=0, atol=at)
    close("model", got[2], mod, rtol=0, atol=at)
    close("model plus residuals", got[1] + got[2], y, rtol=0, atol=float(np.abs(y).max()) * 1e-14)
    rec.nt(float(np.ptp(y)) > 0)
    rec.label(f"year of {d}")


PROP = Prop(
    "C22",
    "daily series of 400-1500 days starting on any day, six calendars, 0-2 other "
    "dimensions, eager or dask (any chunking), missing values, noise or a series "
    "made of the model itself, each output format. Non-trivial: at least one "
    "complete column, or a rejected format.",
    [
        Sub("deseason", cases(), f_deseason, quick=1440, thorough=3600, shards=8),
        Sub("single", one_cases(), f_one, quick=1800, thorough=4500, shards=2),
        large.sub(cases(), f_deseason, large.days),
        large.sub(cases(), f_deseason, large.many_columns, name="many"),
    ],
    assumptions=["time axes on which the six terms cannot be told apart (condition number above 1e5) are skipped"],
)
