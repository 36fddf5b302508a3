"""C19 - linear trends and their units"""

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import trend

from .. import gen, large, orc, series
from ..core import Prop, Sub, check, close, must_raise, same_coords, sut, vals

UNITS = ["ns", "s", "min", "hr", "day", "mon", "yr"]


# -- conversion factors -------------------------------------------------------


@st.composite
def conv_cases(draw):
    return {
        "src": draw(st.sampled_from(UNITS + ["year", "", "Yr", "days", "h"])) if draw(gen.often(0.15)) else draw(st.sampled_from(UNITS)),
        "dst": draw(st.sampled_from(UNITS + ["years", "month", "ms"])) if draw(gen.often(0.15)) else draw(st.sampled_from(UNITS)),
        "via": draw(st.sampled_from(UNITS)),
        "dpm": draw(gen.weighted((None, 2), (1, 2))) and draw(st.floats(27.0, 32.0)),
        "dpy": draw(gen.weighted((None, 2), (1, 2))) and draw(st.sampled_from([360.0, 365, 365.25, 365.2425, 366])),
    }


def f_conv(case, rec):
    f = trend.time_conversion_factor
    kw = {}
    if case["dpm"]:
        kw["days_per_month"] = case["dpm"]
    if case["dpy"]:
        kw["days_per_year"] = case["dpy"]
    s, d, v = case["src"], case["dst"], case["via"]
    if s not in UNITS or d not in UNITS:
        must_raise(f"time_conversion_factor({s!r}, {d!r})", f, s, d, **kw)
        rec.nt()
        rec.label("unknown unit rejected")
        return
    exp = orc.unit_ns(s, **kw) / orc.unit_ns(d, **kw)
    got = sut("time_conversion_factor", f, s, d, **kw)
    close(f"{s} in {d}", got, exp, rtol=1e-13)
    back = sut("time_conversion_factor", f, d, s, **kw)
    close("there and back", got * back, 1.0, rtol=1e-13)
    two = sut("time_conversion_factor", f, s, v, **kw) * sut("time_conversion_factor", f, v, d, **kw)
    close(f"{s} in {d} by way of {v}", two, exp, rtol=1e-13)
    rec.nt(s != d)
    rec.label("custom length", bool(kw))


# -- trends -------------------------------------------------------------------


@st.composite
def trend_cases(draw):
    return {
        "ax": draw(series.axes()),
        "c": draw(series.shapes(dtypes=(("f8", 8), ("f4", 1), ("i4", 1)))),
        "signal": draw(gen.weighted(("line", 2), ("noise", 2))),
        "tu": draw(gen.weighted((None, 2), (1, 5))) and draw(st.sampled_from(UNITS)),
        "name": draw(st.sampled_from(["var", "thetao", "zos"])),
        "units": draw(st.sampled_from([None, "m", "degC", "kg m s-2 ", "1"])),
        "zero": draw(gen.often(0.5)),
        "default_t": draw(gen.often(0.5)),
    }


def setup(case):
    c = dict(case["c"])
    if case["default_t"]:
        c["tname"] = 0
    tv, x = series.build_axis(case["ax"])
    a = series.numbers(c, len(tv))
    if case.get("signal") == "line" and not c["dtype"].startswith("i"):
        u = np.linspace(-1, 1, len(tv)).reshape((-1,) + (1,) * (a.ndim - 1))
        lo, hi = series.LOHI[c["scale"]]
        amp = gen.rng(c["seed"], 8).uniform(-2, 2, a.shape[1:]) * (hi - lo)
        a = (a + u * amp).astype(a.dtype)
    # at least two valid points, or none, in every column
    f = a.astype(float).reshape(len(tv), -1)
    n = (~np.isnan(f)).sum(axis=0).reshape(a.shape[1:])
    bad = n == 1
    if bad.any():
        a = np.where(bad, np.nan, a).astype(a.dtype)
    da = series.data_array(c, a, tv, name=case["name"])
    if case["units"] is None:
        da.attrs.pop("units", None)
    else:
        da.attrs["units"] = case["units"]
    return c, tv, x, a, da


def tolerance(c, x, a):
    w, cond = series.spread(x, a)
    scale = float(np.nanmax(np.abs(a.astype(float)), initial=0.0)) or 1e-30
    eps = 1e-5 if c["dtype"] == "f4" else 3e-13
    return scale * eps * (1 + cond) / w, scale * eps * (1 + cond) * (1 + cond), w, cond


def f_trend(case, rec):
    c, tv, x, a, da = setup(case)
    ax = case["ax"]
    t = series.tname(c)
    w, cond = series.spread(x, a)
    if cond > 1e6:
        return
    istime = ax["type"] != "numeric"
    kw = {} if t == "time" else {"dim": t}
    if case["tu"] is not None:
        kw["time_units"] = case["tu"]
    ds = sut("calc_linear_trend", trend.calc_linear_trend, da, **kw)
    name = case["name"]
    for k in ("slope", "intercept"):
        check(f"{name}_{k}" in ds, f"{name}_{k} is missing: {list(ds)}")
    sl, ic = ds[f"{name}_slope"], ds[f"{name}_intercept"]
    es, ei, nv = series.line_fit(x, a)
    at_s, at_i, _, _ = tolerance(c, x, a)
    unit = (case["tu"] or "ns") if istime else None
    fac = orc.unit_ns(unit) if istime else 1.0
    other = series.DIMS[: len(c["other"])]
    close(f"slope per {unit}", vals("slope", sl, other), es * fac, rtol=1e-11, atol=at_s * fac)
    close("intercept", vals("intercept", ic, other), ei, rtol=1e-11, atol=at_i)
    same_coords("slope", sl, series.other_coords(c))
    same_coords("intercept", ic, series.other_coords(c))
    if istime:
        want = (case["units"].split() if case["units"] else []) + [f"{unit}-1"]
        check(str(sl.attrs.get("units", "")).split() == want, f"units of the slope {sl.attrs.get('units')!r}, expected {' '.join(want)!r}")
    if case["units"] is not None:
        check(ic.attrs.get("units", "").split() == case["units"].split(), f"units of the intercept {ic.attrs.get('units')!r}")
    for k, v in da.attrs.items():
        if k not in ("units", "comment"):
            check(sl.attrs.get(k) == v and ic.attrs.get(k) == v, f"attribute {k!r} is lost")

    # slope and intercept give the fitted line back
    slope = sl
    if istime and case["units"] is not None and "-" in case["units"]:
        slope = sl.assign_attrs(units=f"{unit}-1")
    fit = sut("broadcast_trend", trend.broadcast_trend, slope, da[t], **({"subtract_time_zero": True} if case["zero"] else {}))
    xx = x.reshape((-1,) + (1,) * es.ndim)
    e = es[None] * (xx - (xx[:1] if case["zero"] else 0))
    span = float(np.abs(x).max())
    close("slope times time", vals("slope times time", fit, [t] + other), e, rtol=1e-10, atol=at_s * span * 2)
    same_coords("slope times time", fit, {t: tv, **series.other_coords(c)})
    rec.nt(bool((nv >= 2).any()) and case["ax"]["n"] > 2)
    rec.label(ax["type"])
    rec.label(f"unit {unit}")
    rec.label("missing values", c["nan"] != "none")
    rec.label("dask", bool(c["chunk"]))
    rec.label("renamed", t != "time")


# -- broadcasting a given slope ------------------------------------------------


@st.composite
def bc_cases(draw):
    return {
        "ax": draw(series.axes(lo=1, hi=8)),
        "c": draw(series.shapes(dtypes=(("f8", 1),), nan=True)),
        "unit": draw(gen.weighted((None, 2), (1, 6))) and draw(st.sampled_from(UNITS)),
        "prefix": draw(st.sampled_from(["", "m", "degC", "kg m2"])),
        "zero": draw(gen.weighted((None, 1), (True, 1), (False, 1))),
        "bad": draw(gen.weighted((None, 12), ("two", 1), ("unknown", 1), ("numpy", 1), ("2d", 1))),
    }


def f_bc(case, rec):
    c = case["c"]
    t = series.tname(c)
    tv, x = series.build_axis(case["ax"])
    istime = case["ax"]["type"] != "numeric"
    a = series.numbers(c, 1)[0]
    other = series.DIMS[: len(c["other"])]
    slope = xr.DataArray(a, dims=other, coords=series.other_coords(c), name="s")
    if case["unit"]:
        slope.attrs["units"] = f"{case['prefix']} {case['unit']}-1".strip()
    elif case["prefix"]:
        slope.attrs["units"] = case["prefix"]
    dim = xr.DataArray(tv, dims=[t], coords={t: tv}, name=t)
    kw = {} if case["zero"] is None else {"subtract_time_zero": case["zero"]}
    bad = case["bad"]
    if bad:
        if bad == "two":
            if not istime:
                return
            slope.attrs["units"] = "m s-1 yr-1"
        elif bad == "unknown":
            if not istime:
                return
            slope.attrs["units"] = "m fortnight-1"
        elif bad == "numpy":
            slope = np.asarray(a)
        else:
            dim = dim.expand_dims("ens")
        must_raise(f"broadcast_trend with a wrong input ({bad})", trend.broadcast_trend, slope, dim, **kw)
        rec.nt()
        rec.label(f"rejected {bad}")
        return
    got = sut("broadcast_trend", trend.broadcast_trend, slope, dim, **kw)
    fac = orc.unit_ns(case["unit"]) if istime and case["unit"] else 1.0
    xx = x.reshape((-1,) + (1,) * a.ndim)
    if case["zero"]:
        e = a[None].astype(orc.LD) / fac * (xx - xx[:1])
    else:
        e = a[None].astype(orc.LD) / fac * xx
    at = float(np.nanmax(np.abs(a), initial=0) / fac * np.abs(x).max()) * 1e-14
    close("slope times time", vals("slope times time", got, [t] + other), e, rtol=1e-12, atol=at)
    same_coords("slope times time", got, {t: tv, **series.other_coords(c)})
    rec.nt(case["ax"]["n"] > 1 and bool(np.isfinite(a).any()))
    rec.label(case["ax"]["type"])
    rec.label(f"unit {case['unit']}")


PROP = Prop(
    "C19",
    "time axes in six calendars, datetime64 and plain numbers (monthly, daily, "
    "hourly, yearly, irregular; years 1-2250), 0-2 other dimensions, missing "
    "values, every time unit; conversion factors with custom month and year "
    "lengths. Non-trivial: at least three points and a column with two valid "
    "ones; a conversion between different units; a rejected input.",
    [
        Sub("convert", conv_cases(), f_conv, quick=3600, thorough=9000, shards=1),
        Sub("trend", trend_cases(), f_trend, quick=3600, thorough=9000, shards=8),
        Sub("broadcast", bc_cases(), f_bc, quick=3000, thorough=7500, shards=4),
        large.sub(trend_cases(), f_trend, large.axis),
        large.sub(trend_cases(), f_trend, large.many_columns, name="many"),
    ],
    assumptions=["fits whose time axis is more than 1e6 spreads away from 1970 are skipped (no meaningful digits)"],
)
