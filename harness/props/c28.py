"""C28 - synthetic test data"""

import datetime

import cftime
import numpy as np
from hypothesis import strategies as st

import momlevel
from momlevel import test_data, util
from momlevel.test_data import time as tmod
from momlevel.test_data import tripolar

from .. import gen, orc
from ..core import Prop, Sub, check, must_raise, sut, sut_report

KID = "time-stub-years-before-1000"


class Known(Exception):
    """the call failed in the way of the known finding"""


def call(rec, func, **kw):
    """call a generator; years before 1000 fail (known finding)"""
    res, exc, _, _ = sut_report(func, **kw)
    if exc is None:
        return res
    y = kw.get("start_year", 2000)
    txt = f"{func.__name__}({kw}): {type(exc).__name__}: {exc}"
    if y < 1000 and isinstance(exc, ValueError) and f"{y}-01-01" in str(exc):
        rec.known_finding(KID, txt)
        rec.label("known finding")
        raise Known()
    check(False, f"raised on a valid input: {txt}")


def dates(y0, ny, cal, freq):
    """bounds of all months or days"""
    out = []
    for y in range(y0, y0 + ny):
        for m in range(1, 13):
            if freq == "MS":
                out.append((y, m, 1))
            else:
                out += [(y, m, d) for d in range(1, orc.month_length(y, m, cal) + 1)]
    out.append((y0 + ny, 1, 1))
    return [cftime.datetime(*x, calendar=cal) for x in out]


def check_axis(what, ds, y0, ny, cal, freq):
    b = dates(y0, ny, cal, freq)
    n = len(b) - 1
    tv = ds["time"].values
    check(len(tv) == n, f"{what}: {len(tv)} times, expected {n}")
    T1, T2, DT = ds["average_T1"].values, ds["average_T2"].values, ds["average_DT"].values
    bn = ds["time_bnds"].transpose("time", ...).values
    for k in range(n):
        ln = b[k + 1] - b[k]
        mid = b[k] + ln / 2
        check(tv[k] == mid and tv[k].calendar == cal, f"{what}: time {k} is {tv[k]!r}, expected {mid!r}")
        check(T1[k] == b[k] and T2[k] == b[k + 1], f"{what}: period {k} is {T1[k]!r} to {T2[k]!r}, expected {b[k]!r} to {b[k + 1]!r}")
        check(bn[k][0] == b[k] and bn[k][1] == b[k + 1], f"{what}: bounds {k}")
        check(np.timedelta64(DT[k], "ns") == np.timedelta64(ln, "ns"), f"{what}: length {k} is {DT[k]!r}, expected {ln!r}")
    check(ds["time"].attrs.get("calendar_type") == cal, f"{what}: calendar_type {ds['time'].attrs.get('calendar_type')!r}")
    check(ds["time"].attrs.get("bounds") == "time_bnds", f"{what}: bounds attribute")


@st.composite
def time_cases(draw):
    cal = draw(st.sampled_from(gen.CALENDARS))
    ny = draw(gen.size(1, 5))
    y = draw(st.one_of(st.integers(1970, 2030), st.sampled_from([1, 4, 99, 999, 1000, 1900, 2000, 2100, 9990])))
    return {
        "cal": cal,
        "y0": gen.safe_year(y, cal, ny),
        "ny": ny,
        "freq": draw(gen.weighted(("MS", 3), ("D", 2), (None, 1), ("H", 1), ("YS", 1))),
    }


def f_time(case, rec):
    kw = {"start_year": case["y0"], "nyears": case["ny"], "calendar": case["cal"]}
    if case["freq"] in ("H", "YS"):
        must_raise(f"generate_time_stub(frequency={case['freq']!r})", tmod.generate_time_stub, **kw, frequency=case["freq"])
        rec.nt()
        return
    freq = case["freq"] or "MS"
    if freq == "D":
        kw["nyears"] = ny = min(case["ny"], 2)
    else:
        ny = case["ny"]
    if case["freq"]:
        kw["frequency"] = case["freq"]
    try:
        ds = call(rec, tmod.generate_time_stub, **kw)
    except Known:
        ds = None
    if ds is not None:
        check_axis("time stub", ds, case["y0"], ny, case["cal"], freq)
    kw.pop("frequency", None)
    days = sut("generate_daily_timeaxis", tmod.generate_daily_timeaxis, **kw)
    e = dates(case["y0"], ny, case["cal"], "D")[:-1]
    check(list(days) == e and all(x.calendar == case["cal"] for x in days), f"daily axis: {len(days)} days, expected {len(e)}")
    rec.nt()
    rec.label(case["cal"])
    rec.label(freq)


@st.composite
def data_cases(draw):
    cal = draw(st.sampled_from(gen.CALENDARS))
    ny = draw(gen.weighted((0, 2), (1, 2), (2, 1), (3, 1)))
    y = draw(st.sampled_from([1981, 2000, 1, 850, 1999, 2100]))
    return {
        "cal": cal,
        "y0": gen.safe_year(y, cal, ny),
        "ny": ny,
        "seed": draw(st.integers(0, 2**31 - 1)),
        "seed2": draw(st.integers(0, 2**31 - 1)),
        "which": draw(st.sampled_from(["data", "uv", "dz", "time", "grid"])),
        "freq": draw(gen.weighted(("MS", 3), ("D", 1))),
    }


def _same(what, a, b, expect, names):
    for n in names:
        eq = gen.same_values(a[n].values, b[n].values)
        check(eq == expect, f"{what}: {n} is {'different for the same seed' if expect else 'the same for different seeds'}")


def f_data(case, rec):
    w, s = case["which"], case["seed"]
    kw = {"start_year": case["y0"], "nyears": case["ny"], "calendar": case["cal"]}
    s2 = case["seed2"] if case["seed2"] != s else s + 1
    if w == "data":
        f, names = test_data.generate_test_data, ["thetao", "so", "volcello"]
    elif w == "uv":
        f, names = test_data.generate_test_data_uv, ["uo", "vo", "Coriolis", "areacello_bu"]
    elif w == "dz":
        f, names, kw = test_data.generate_test_data_dz, ["deptho"], {}
    elif w == "time":
        f, names = test_data.generate_test_data_time, ["var_a", "var_b"]
        kw["nyears"] = ny = max(1, case["ny"] if case["freq"] == "MS" else 1)
        kw["frequency"] = case["freq"]
    else:
        return f_grid(case, rec)
    try:
        a = call(rec, f, **kw, seed=s)
    except Known:
        return
    b = sut(f.__name__, f, **kw, seed=s)
    d = gen.same_dataset(a, b)
    check(d is None, f"{f.__name__}: two calls with the same arguments differ: {d}")
    o = sut(f.__name__, f, **kw, seed=s2)
    _same(f.__name__, a, o, False, names)
    if kw.get("nyears") or w == "time":
        check_axis(f.__name__, a, case["y0"], kw["nyears"], case["cal"], kw.get("frequency", "MS"))
    elif w != "dz":
        check(list(a["time"].values) == [1.0, 2.0, 3.0, 4.0, 5.0], "default time axis")
    if w == "data":
        sut("validate_dataset of the test data", util.validate_dataset, a, additional_vars=["deptho", "z_i"])
        for n in names:
            check(a[n].sizes == {"time": len(a.time), "z_l": 5, "yh": 5, "xh": 5}, f"{n}: sizes {dict(a[n].sizes)}")
            check(bool(np.isfinite(a[n].values).all()), f"{n}: not finite")
        check(bool((np.diff(a.z_i.values) > 0).all()) and bool(((a.z_l.values > a.z_i.values[:-1]) & (a.z_l.values < a.z_i.values[1:])).all()), "levels lie outside their interfaces")
        check(bool((a.deptho.values >= 0).all() and (a.deptho.values <= a.z_i.values[-1]).all()), "sea floor outside the grid")
        check(util.validate_areacello(a.areacello), "the cell areas do not sum up to the area of the ocean")
        sut("steric of the test data", momlevel.steric, a)
    elif w == "uv":
        sut("calc_rel_vort of the test data", momlevel.derived.calc_rel_vort, a)
        check(util.validate_areacello(a.areacello_bu), "the corner cell areas do not sum up to the area of the ocean")
    elif w == "dz":
        sut("calc_dz of the test data", momlevel.derived.calc_dz, a.z_l, a.z_i, a.deptho)
    rec.nt()
    rec.label(w)
    rec.label("calendar axis", bool(kw.get("nyears")))


POINTS = {
    "h": ("xh", "yh", "geolon", "geolat", "areacello"),
    "u": ("xq", "yh", "geolon_u", "geolat_u", "areacello_cu"),
    "v": ("xh", "yq", "geolon_v", "geolat_v", "areacello_cv"),
    "c": ("xq", "yq", "geolon_c", "geolat_c", "areacello_bu"),
}


def f_grid(case, rec):
    pt = "huvc"[case["seed"] % 4]
    x, y, lon, lat, area = POINTS[pt]
    a = sut("xy_fields", tripolar.xy_fields, point=pt, seed=case["seed"])
    b = sut("xy_fields", tripolar.xy_fields, point=pt, seed=case["seed"])
    d = gen.same_dataset(a, b)
    check(d is None, f"xy_fields: two calls with the same arguments differ: {d}")
    for n in (lon, lat, area):
        check(n in a and a[n].dims == (y, x) and a[n].shape == (5, 5), f"xy_fields(point={pt!r}): {n}")
    check(util.validate_areacello(a[area]), "the cell areas do not sum up to the area of the ocean")
    check(bool((np.abs(a[lat].values) <= 90).all()), "latitude outside -90..90")
    check(bool((np.diff(a[lat].values, axis=0) > 0).all() and (np.diff(a[lon].values, axis=1) > 0).all()), "coordinates do not increase")
    z = sut("zlevel_fields", tripolar.zlevel_fields, seed=case["seed"])
    check("deptho" in z and "areacello" in z, "zlevel_fields without a dataset must bring its own grid")
    z2 = sut("zlevel_fields", tripolar.zlevel_fields, include_deptho=False, seed=case["seed"])
    check("deptho" not in z2 and len(z2.z_i) == len(z2.z_l) + 1, "zlevel_fields(include_deptho=False)")
    rec.nt()
    rec.label(f"grid {pt}")


PROP = Prop(
    "C28",
    "start years 1-9990, 0-5 years, six calendars, monthly and daily frequency, "
    "any seed, every generator. Non-trivial: every case (an axis compared date by "
    "date, or a dataset compared with its repetition and with another seed).",
    [
        Sub("time", time_cases(), f_time, quick=1320, thorough=3300, shards=4),
        Sub("data", data_cases(), f_data, quick=960, thorough=2400, shards=4),
    ],
)
