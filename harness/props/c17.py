"""C17 - monthly averages"""

import datetime

import cftime
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import util

from .. import gen, large, orc, series
from ..core import Prop, Sub, check, close, same_coords, sut, vals
from .c16 import add_extras, check_static


@st.composite
def cases(draw):
    cal = draw(st.sampled_from(gen.CALENDARS))
    y = draw(st.one_of(st.integers(1970, 2030), st.sampled_from([1, 4, 999, 1900, 2000, 2100])))
    return {
        "cal": cal,
        "y0": gen.safe_year(y, cal, 15),
        "start": draw(gen.weighted((0, 2), (1, 2))) and draw(st.integers(1, 364)),
        "span": draw(gen.weighted((365, 2), (800, 1), (40, 2), (10, 1), (200, 1), (3, 1), (1500, 1))),
        "step": draw(gen.weighted(("daily", 4), ("pentad", 1), ("sixhourly", 1), ("irregular", 2), ("gap", 1), ("longgap", 1), ("monthly", 1), ("hourly", 1))),
        "seed": draw(gen.seeds()),
        "c": draw(series.shapes(dtypes=(("f8", 6), ("f4", 1), ("i4", 1)))),
        "container": draw(st.sampled_from(["array", "dataset"])),
        "extras": draw(st.lists(st.sampled_from(["object", "string", "timedelta", "datetime", "static", "bool"]), max_size=2, unique=True)),
        "default_t": draw(gen.often(0.5)),
        "shuffle": draw(gen.weighted((0, 3), (1, 1))) and draw(gen.seeds()),
        "repeat": draw(gen.often(0.15)),
    }


def axis(case):
    t0 = cftime.datetime(case["y0"], 1, 1, 12, calendar=case["cal"]) + datetime.timedelta(days=case["start"])
    r = gen.rng(case["seed"], 2)
    if case["step"] == "pentad":
        h = np.arange(0, case["span"] * 24, 120)
    elif case["step"] == "monthly":
        h = np.arange(0, case["span"] * 24, 730)
    elif case["step"] == "hourly":
        h = np.arange(0, min(case["span"], 45) * 24, 1)
    elif case["step"] == "sixhourly":
        h = np.arange(0, min(case["span"], 100) * 24, 6)
    else:
        h = np.arange(0, case["span"] * 24, 24)
        if case["step"] == "irregular":
            k = r.random(len(h)) < 0.4
            k[0] = True
            h = h[k]
        elif case["step"] == "gap" and len(h) > 70:
            h = np.concatenate([h[:10], h[60:]])
        elif case["step"] == "longgap":
            # a gap of years: the same month twice in a row
            h = np.concatenate([h, h + 24 * 365 * (1 + case["seed"] % 4) + h[-1]])
    if case.get("repeat"):
        h = np.concatenate([h, r.choice(h, max(1, len(h) // 4))])
        h.sort()
    if case.get("shuffle"):
        h = gen.rng(case["shuffle"], 3).permutation(h)
    return gen.obj_array([t0 + datetime.timedelta(hours=int(x)) for x in h])


def f_monthly(case, rec):
    c = dict(case["c"])
    if case["default_t"]:
        c["tname"] = 0
    if c["chunk"] == 1:
        c["chunk"] = 30
    t = series.tname(c)
    tv = axis(case)
    nt = len(tv)
    a = series.numbers(c, nt)
    da = series.data_array(c, a, tv)
    kw = {} if t == "time" else {"tcoord": t}
    ds = None
    if case["container"] == "dataset":
        ds = xr.Dataset({"var": da})
        b = series.numbers(c, nt, salt=5)
        ds["other"] = series.data_array(c, b, tv, name="other")
        ds = add_extras(case, ds, t, tv, nt)
    res = sut("monthly_average", util.monthly_average, da if ds is None else ds, **kw)
    keys = sorted({(x.year, x.month) for x in tv})
    dims = [t] + series.DIMS[: len(c["other"])]
    f4 = c["dtype"] == "f4"

    def compare(what, got, arr):
        e = []
        for key in keys:
            k = [i for i in range(nt) if (tv[i].year, tv[i].month) == key]
            v = arr[k].astype(orc.LD)
            n = (~np.isnan(v)).sum(axis=0)
            with np.errstate(all="ignore"):
                e.append(np.nansum(v, axis=0) / n)
        e = np.array(e)
        scale = float(np.nanmax(np.abs(arr.astype(float)), initial=0.0))
        close(what, vals(what, got, dims), e, rtol=0, atol=scale * (1e-5 if f4 else 1e-13))
        same_coords(what, got, {**series.other_coords(c), **{k: v[1] for k, v in series.aux_coords(c).items()}})
        for g, (y, m) in zip(got[t].values, keys):
            mid = cftime.datetime(y, m, 1, calendar=case["cal"]) + datetime.timedelta(hours=12 * orc.month_length(y, m, case["cal"]))
            check(g == mid and g.calendar == mid.calendar, f"{what}: time {g!r}, expected {mid!r}")

    if ds is None:
        compare("monthly average", res, a)
    else:
        compare("monthly average of var", res["var"], a)
        compare("monthly average of other", res["other"], b)
        for e in ("object", "string", "timedelta", "datetime"):
            check(f"v_{e}" not in res.data_vars, f"a variable of type {e} was averaged")
        check_static("monthly average", res, ds)
        if "v_bool" in ds:
            check("v_bool" in res, "a boolean variable is lost")
            k = [[i for i in range(nt) if (tv[i].year, tv[i].month) == key] for key in keys]
            close("average of a boolean", vals("bool", res["v_bool"], [t]), np.array([ds["v_bool"].values[i].mean() for i in k]), atol=1e-12)
    rec.nt(len(keys) > 1)
    rec.label(case["cal"])
    rec.label("several years", keys[0][0] != keys[-1][0])
    rec.label("incomplete months", case["step"] in ("irregular", "gap"))
    rec.label("renamed time", t != "time")
    rec.label("dask", bool(c["chunk"]))
    rec.label("out of order", bool(case.get("shuffle")))
    rec.label("repeated times", bool(case.get("repeat")))
    rec.label(case["container"])


PROP = Prop(
    "C17",
    "records of 10-800 days (daily, five-daily, hourly to monthly, irregular, with gaps of days to years) "
    "that start and end anywhere in the year, six calendars, 0-2 other dimensions, "
    "missing values, datasets with non-numeric and time-independent variables. "
    "Non-trivial: more than one month.",
    [
        Sub("monthly", cases(), f_monthly, quick=1440, thorough=3600, shards=8),
        large.sub(cases(), f_monthly, large.span),
        large.sub(cases(), f_monthly, large.many_columns, name="many"),
    ],
)
