"""C18 - annual cycle climatology"""

import datetime

import cftime
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import util

from .. import gen, large, orc, series
from ..core import Prop, Sub, check, close, must_raise, same_coords, sut, vals
from .c16 import add_extras, check_static


@st.composite
def cases(draw):
    return {
        "ax": draw(gen.monthly_axis(2, 5, whole=False, big=40)),
        "c": draw(series.shapes()),
        "func": draw(gen.weighted(("mean", 3), ("min", 2), ("max", 2), ("std", 3), (None, 1), ("median", 1), ("MEAN", 1))),
        "year": draw(gen.weighted((None, 3), (1, 1))) and draw(st.sampled_from([1, 50, 999, 1900, 2000, 2001, 2004])),
        "container": draw(st.sampled_from(["array", "dataset"])),
        "extras": draw(st.lists(st.sampled_from(["object", "timedelta", "string", "static"]), max_size=2, unique=True)),
        "default_t": draw(gen.often(0.5)),
        "shuffle": draw(gen.weighted((0, 3), (1, 1))) and draw(gen.seeds()),
        "repeat": draw(gen.often(0.15)),
    }


def f_cycle(case, rec):
    c = dict(case["c"])
    if case["default_t"]:
        c["tname"] = 0
    ax = case["ax"]
    t = series.tname(c)
    tv = gen.build_monthly(ax)
    if case.get("repeat"):
        tv = sorted(tv + [tv[i] for i in gen.rng(c["seed"], 6).integers(0, len(tv), 5)])
    if case.get("shuffle") and len(tv) > 2:
        # (the ends stay: the middle of the record is between them)
        k = gen.rng(case["shuffle"], 3).permutation(len(tv) - 2) + 1
        if case["year"] is not None:
            k = gen.rng(case["shuffle"], 3).permutation(len(tv))
            tv = [tv[i] for i in k]
        else:
            tv = [tv[0]] + [tv[i] for i in k] + [tv[-1]]
    tv = gen.obj_array(tv)
    nt = len(tv)
    if len({x.month for x in tv}) < 12:
        return
    a = series.numbers(c, nt)
    da = series.data_array(c, a, tv)
    kw = {} if t == "time" else {"tcoord": t}
    if case["func"] is not None:
        kw["func"] = case["func"]
    if case["year"] is not None:
        kw["time_axis_year"] = case["year"]
    ds = None
    if case["container"] == "dataset":
        ds = xr.Dataset({"var": da})
        b = series.numbers(c, nt, salt=5)
        ds["other"] = series.data_array(c, b, tv, name="other")
        ds = add_extras(case, ds, t, tv, nt)
    obj = da if ds is None else ds
    func = case["func"] or "mean"
    if func not in ("mean", "min", "max", "std"):
        must_raise(f"annual_cycle(func={func!r})", util.annual_cycle, obj, **kw)
        rec.nt()
        rec.label("unknown func rejected")
        return
    res = sut("annual_cycle", util.annual_cycle, obj, **kw)
    if case["year"] is not None:
        year = case["year"]
    else:
        year = (tv[0] + (tv[-1] - tv[0]) / 2).year
    dims = [t] + series.DIMS[: len(c["other"])]
    f4 = c["dtype"] == "f4"

    def compare(what, got, arr):
        e = []
        for m in range(1, 13):
            v = arr[[i for i in range(nt) if tv[i].month == m]].astype(orc.LD)
            ok = ~np.isnan(v)
            n = ok.sum(axis=0)
            with np.errstate(all="ignore"):
                if func == "mean":
                    x = np.nansum(v, axis=0) / n
                elif func == "min":
                    x = np.where(n > 0, np.where(ok, v, np.inf).min(axis=0), np.nan)
                elif func == "max":
                    x = np.where(n > 0, np.where(ok, v, -np.inf).max(axis=0), np.nan)
                else:
                    mean = np.nansum(v, axis=0) / n
                    x = np.sqrt(np.nansum((v - mean) ** 2, axis=0) / n)
            e.append(x)
        e = np.array(e)
        scale = float(np.nanmax(np.abs(arr.astype(float)), initial=0.0))
        tol = 0.0 if func in ("min", "max") else scale * (1e-5 if f4 else 1e-13)
        close(f"{what} {func}", vals(what, got, dims), e, rtol=0, atol=tol)
        same_coords(what, got, {**series.other_coords(c), **{k: v[1] for k, v in series.aux_coords(c).items()}})
        check(len(got[t]) == 12, f"{what}: {len(got[t])} months")
        for g, m in zip(got[t].values, range(1, 13)):
            mid = cftime.datetime(year, m, 1, calendar=ax["cal"]) + datetime.timedelta(hours=12 * orc.month_length(year, m, ax["cal"]))
            check(g == mid and g.calendar == mid.calendar, f"{what}: time {g!r}, expected {mid!r}")

    if ds is None:
        compare("annual cycle", res, a)
    else:
        compare("annual cycle of var", res["var"], a)
        compare("annual cycle of other", res["other"], b)
        # (a minimum of text is well defined and not claimed either way)
        for e in ("object", "timedelta"):
            check(f"v_{e}" not in res.data_vars, f"a variable of type {e} was averaged")
        if func != "std":
            check_static("annual cycle", res, ds)
    rec.nt()
    rec.label(func)
    rec.label(ax["cal"])
    rec.label("year given", case["year"] is not None)
    rec.label("starts mid-year", bool(ax["skip"]))
    rec.label(case["container"])
    rec.label("out of order", bool(case.get("shuffle")))


PROP = Prop(
    "C18",
    "monthly series of 2-5 years that start and end in any month, six calendars, "
    "0-2 other dimensions, missing values, each of mean/min/max/std, a given or "
    "default year of the time axis, unknown functions. Non-trivial: a climatology "
    "was made and compared with a direct calculation, or an unknown function "
    "was rejected.",
    [
        Sub("cycle", cases(), f_cycle, quick=1920, thorough=4800, shards=8),
        large.sub(cases(), f_cycle, large.monthly),
        large.sub(cases(), f_cycle, large.many_columns, name="many"),
    ],
)
