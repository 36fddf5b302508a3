"""C16 - annual averages"""

import cftime
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import util

from .. import gen, large, orc, series
from ..core import Prop, Sub, check, close, has_attrs, must_raise, same_coord_attrs, same_coords, sut, vals


@st.composite
def cases(draw):
    return {
        "ax": draw(gen.monthly_axis(1, 4, big=30)),
        "c": draw(series.shapes()),
        "container": draw(st.sampled_from(["array", "dataset"])),
        "extras": draw(st.lists(st.sampled_from(["object", "string", "timedelta", "datetime", "static", "bool", "complex", "int"]), max_size=3, unique=True)),
        "shuffle": draw(gen.weighted((0, 4), (1, 1))) and draw(gen.seeds()),
        "broken": draw(gen.weighted((None, 15), ("short", 1), ("long", 1), ("double", 1), ("balanced", 1), ("hole", 1), ("lone", 1))),
        "default_t": draw(gen.often(0.5)),
    }


def midpoint(y, cal):
    a = cftime.datetime(y, 1, 1, calendar=cal)
    return a + (cftime.datetime(y + 1, 1, 1, calendar=cal) - a) / 2


def add_extras(case, ds, t, tv, nt):
    r = gen.rng(case["c"]["seed"], 91)
    for e in case["extras"]:
        if e == "object":
            ds["v_object"] = ((t,), tv.copy())
        elif e == "string":
            ds["v_string"] = ((t,), np.array(["ab"] * nt))
        elif e == "timedelta":
            ds["v_timedelta"] = ((t,), np.arange(nt).astype("timedelta64[ns]"))
        elif e == "datetime":
            ds["v_datetime"] = ((t,), np.array(["2000-01-01"] * nt, dtype="datetime64[ns]"))
        elif e == "static":
            ds["v_static"] = (("lev",), r.uniform(1, 2, 2))
        elif e == "bool":
            ds["v_bool"] = ((t,), r.random(nt) < 0.5)
        elif e == "complex":
            ds["v_complex"] = ((t,), r.random(nt) + 1j * r.random(nt))
        elif e == "int":
            ds["v_int"] = ((t,), r.integers(-100, 100, nt).astype(["i1", "u2", "i8"][case["c"]["seed"] % 3]))
    return ds


def check_static(what, res, ds, dim="lev"):
    """a variable that does not depend on time keeps its values"""
    if "v_static" not in ds:
        return
    check("v_static" in res, f"{what}: the time-independent variable is lost")
    got = res["v_static"]
    exp = ds["v_static"].values
    got = np.asarray(got.transpose(..., dim).values)
    close(f"{what}: time-independent variable", got, np.broadcast_to(exp, got.shape), rtol=1e-12)


def f_annual(case, rec):
    c = dict(case["c"])
    if case["default_t"]:
        c["tname"] = 0
    ax = case["ax"]
    t = series.tname(c)
    tv = gen.build_monthly(ax)
    if case["broken"] == "short":
        tv = tv[: len(tv) - 1 - case["c"]["seed"] % 11]
    elif case["broken"] == "long":
        x = tv[-1]
        tv.append(x.replace(day=x.day + (1 if x.day < 28 else -1)))
    elif case["broken"] == "double":
        # every month of a year twice
        y = tv[case["c"]["seed"] % len(tv)].year
        tv += [x.replace(day=x.day + (1 if x.day < 28 else -1)) for x in tv if x.year == y]
    elif case["broken"] == "balanced":
        # one value moved to another year: the total is still a multiple of 12
        x = tv.pop(case["c"]["seed"] % 12)
        tv.append(x.replace(year=tv[-1].year if ax["ny"] > 1 else x.year + 1, day=2 if x.day != 2 else 3))
    elif case["broken"] == "hole":
        tv.pop(case["c"]["seed"] % len(tv))
    elif case["broken"] == "lone":
        tv.append(tv[-1].replace(year=tv[-1].year + 1, month=1, day=1))
    nt = len(tv)
    order = np.arange(nt)
    if case["shuffle"]:
        order = gen.rng(case["shuffle"], 3).permutation(nt)
    tv = gen.obj_array([tv[i] for i in order])
    a = series.numbers(c, nt)
    da = series.data_array(c, a, tv)
    kw = {} if t == "time" else {"tcoord": t}
    ds_in = None
    if case["container"] == "dataset":
        ds = xr.Dataset({"var": da}, attrs={"title": "x", "history": "y"})
        b = series.numbers(c, nt, salt=5)
        ds["other"] = series.data_array(c, b, tv, name="other").assign_attrs(which="other")
        ds = add_extras(case, ds, t, tv, nt)
        ds_in = obj = ds
    else:
        obj = da
    if case["broken"]:
        must_raise(f"annual_average of a year without exactly 12 values ({case['broken']})", util.annual_average, obj, **kw)
        rec.nt()
        rec.label("incomplete year rejected")
        return
    res = sut("annual_average", util.annual_average, obj, **kw)

    years = sorted({x.year for x in tv})
    w = np.array([orc.month_length(x.year, x.month, ax["cal"]) for x in tv], dtype=orc.LD)

    def expected(arr):
        out = []
        for y in years:
            k = np.array([i for i in range(nt) if tv[i].year == y])
            v = arr[k].astype(orc.LD)
            ww = w[k].reshape((-1,) + (1,) * (v.ndim - 1)) * ~np.isnan(v)
            with np.errstate(all="ignore"):
                out.append(np.nansum(v * ww, axis=0) / ww.sum(axis=0))
        return np.array(out)

    dims = [t] + series.DIMS[: len(c["other"])]
    f4 = c["dtype"] == "f4"

    def compare(what, got, arr):
        e = expected(arr)
        scale = float(np.nanmax(np.abs(arr.astype(float)), initial=0.0))
        close(what, vals(what, got, dims), e, rtol=0, atol=scale * (2e-6 if f4 else 1e-13))
        same_coords(what, got, {**series.other_coords(c), **{k: v[1] for k, v in series.aux_coords(c).items()}})
        same_coord_attrs(what, got, da, [k for k in da.coords if k != t])
        check(len(got[t]) == len(years), f"{what}: {len(got[t])} years")
        for g, y in zip(got[t].values, years):
            m = midpoint(y, ax["cal"])
            check(g == m and g.calendar == m.calendar, f"{what}: time {g!r} instead of the middle of year {y}: {m!r}")

    if case["container"] == "dataset":
        compare("annual average of var", res["var"], a)
        compare("annual average of other", res["other"], b)
        has_attrs("annual average of other", res["other"], {"which": "other"})
        has_attrs("annual average", res, {"title": "x", "history": "y"})
        for e in ("object", "string", "timedelta", "datetime"):
            check(f"v_{e}" not in res, f"a variable of type {e} was averaged")
        check_static("annual average", res, ds_in)
        if "bool" in case["extras"]:
            check("v_bool" in res, "a boolean variable is lost")
            close("average of a boolean", vals("bool", res["v_bool"], [t]), expected(ds["v_bool"].values.astype(float)), atol=1e-12)
        if "int" in case["extras"]:
            check("v_int" in res, "an integer variable is lost")
            close("average of an integer", vals("int", res["v_int"], [t]), expected(ds["v_int"].values.astype(float)), atol=1e-9)
        if "complex" in case["extras"]:
            check("v_complex" in res, "a complex variable is lost")
            got = res["v_complex"].values
            close("average of a complex variable", got.real, expected(ds["v_complex"].values.real), atol=1e-12)
            close("average of a complex variable", got.imag, expected(ds["v_complex"].values.imag), atol=1e-12)
        at = res["var"]
    else:
        compare("annual average", res, a)
        at = res
        check(res.name == "var", f"name {res.name!r}")
    has_attrs("annual average", at, gen.attrs_of(c["attrs"]))
    has_attrs("annual average time", at[t], {"axis": "T", "note": "time"})
    for d in series.other_coords(c):
        has_attrs(f"annual average {d}", at[d], {"axis": d})
    rec.nt(len(years) > 1 or bool(np.unique(w).size > 1))
    rec.label(ax["cal"])
    rec.label("renamed time", t != "time")
    rec.label("time not first", c["tpos"] > 0)
    rec.label("missing values", c["nan"] != "none")
    rec.label("out of order", bool(case["shuffle"]))
    rec.label("dask", bool(c["chunk"]))
    rec.label(case["container"])


PROP = Prop(
    "C16",
    "monthly series of 1-4 years in six calendars (first year 1-2500), 0-2 other "
    "dimensions, time anywhere, any name of the time coordinate, missing values, "
    "float32/float64/int, dask or not, in any order of time; datasets with further "
    "numeric, text, date, duration and time-independent variables; records with an "
    "incomplete or over-full year must be rejected. Non-trivial: months of "
    "different length or more than one year, or a rejected record.",
    [
        Sub("annual", cases(), f_annual, quick=1080, thorough=5400, shards=8),
        large.sub(cases(), f_annual, large.monthly),
        large.sub(cases(), f_annual, large.many_columns, name="many"),
    ],
)
