"""series.py - generated time series (arrays with a time axis)"""

import datetime

import cftime
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from . import gen, orc

TNAMES = ["time", "t", "Time", "year_axis"]


@st.composite
def shapes(draw, max_other=2, dtypes=(("f8", 6), ("f4", 1), ("i4", 1)), nan=True, coords=True):
    """everything but the time axis"""
    nother = draw(gen.weighted((1, 3), (0, 2), (2, 2))) if max_other >= 2 else draw(st.integers(0, max_other))
    return {
        "other": [draw(gen.sizes(1, 3, 15, 0.05)) for _ in range(nother)],
        "tpos": draw(st.integers(0, nother)),
        "tname": draw(gen.weighted((0, 3), (1, 1), (2, 1), (3, 1))),
        "dtype": draw(gen.weighted(*dtypes)),
        "kind": draw(st.sampled_from(gen.KINDS)),
        "scale": draw(gen.weighted(("unit", 3), ("offset", 1), ("tiny", 1), ("big", 1))),
        "seed": draw(gen.seeds()),
        "nan": draw(gen.weighted(("none", 3), ("some", 2), ("column", 2))) if nan else "none",
        "attrs": draw(st.integers(0, 3)),
        "chunk": draw(gen.weighted((0, 5), (1, 1), (5, 1))),
        "coords": draw(gen.often(0.7)) if coords else True,
        "scalar": draw(gen.often(0.2)),
        "aux": draw(gen.often(0.2)),
    }


LOHI = {"unit": (-5.0, 5.0), "offset": (95.0, 120.0), "tiny": (-1e-7, 1e-7), "big": (-1e6, 3e6)}
DIMS = ["lat", "lon"]


def tname(c):
    return TNAMES[c["tname"]]


def dims_of(c):
    """dimension names in the order of the array the user passes"""
    d = DIMS[: len(c["other"])]
    return d[: c["tpos"]] + [tname(c)] + d[c["tpos"] :]


def numbers(c, nt, salt=0):
    """(time, other...) values as the array stores them"""
    shp = (nt, *c["other"])
    lo, hi = LOHI[c["scale"]]
    if c["dtype"].startswith("i"):
        lo, hi = (-50.0, 90.0)
    a = gen.cast(gen.field(c["seed"], c["kind"], shp, lo, hi, salt=20 + salt), c["dtype"])
    if not c["dtype"].startswith("i"):
        if c["nan"] == "some":
            a[gen.mask_nan(c["seed"], shp, 0.15, salt=31 + salt)] = np.nan
        if c["nan"] in ("column", "some") and c["other"]:
            m = gen.mask_nan(c["seed"], shp[1:], 0.3, salt=32 + salt)
            a[:, m] = np.nan
    return a


def other_coords(c):
    """coordinates of the other dimensions"""
    return {d: np.arange(n) * 2.0 - 3.0 for d, n in zip(DIMS, c["other"])} if c["coords"] else {}


def aux_coords(c):
    """coordinates that are not dimensions (they do not depend on time)"""
    if c["scalar"]:
        height = {"height": ((), np.float64(2.5), {"units": "m"})}
    else:
        height = {}
    if not c.get("aux") or not c["other"]:
        return height
    d = DIMS[: len(c["other"])]
    out = {"area_aux": (tuple(d), gen.field(c["seed"], "noise", c["other"], 0, 9, salt=78), {"units": "m2"})}
    out["name_aux"] = (d[:1], np.array([f"p{i}" for i in range(c["other"][0])]))
    return {**out, **height}


def data_array(c, a, tvals, name="var", chunk=True):
    t = tname(c)
    dims = [t] + DIMS[: len(c["other"])]
    coords = {t: (t, tvals, {"axis": "T", "note": "time"})}
    for d, v in other_coords(c).items():
        coords[d] = (d, v, {"units": "degrees", "axis": d})
    for k, v in aux_coords(c).items():
        coords[k] = v
    da = xr.DataArray(a, dims=dims, coords=coords, name=name, attrs=gen.attrs_of(c["attrs"]))
    da = da.transpose(*dims_of(c))
    if chunk and c["chunk"]:
        da = gen.chunked(da, {d: c["chunk"] for d in da.dims})
    return da


# ---------------------------------------------------------------------------
# time axes for trends and seasonal fits
# ---------------------------------------------------------------------------


@st.composite
def axes(draw, lo=3, hi=24, numeric=True):
    typ = draw(gen.weighted(("cftime", 4), ("datetime64", 3), ("numeric", 2 if numeric else 0)))
    return {
        "type": typ,
        "n": draw(gen.sizes(lo, hi, 400, 0.05)),
        "cal": draw(st.sampled_from(gen.CALENDARS)),
        "y0": draw(st.one_of(st.integers(1950, 2050), st.sampled_from([1, 100, 850, 1850, 1969, 1970, 2100, 2250]))),
        "step": draw(gen.weighted(("monthly", 3), ("daily", 2), ("hourly", 1), ("yearly", 1), ("irregular", 2))),
        "seed": draw(gen.seeds()),
    }


def build_axis(ax):
    """-> coordinate values, x in nanoseconds since 1970-01-01 (longdouble; the
    plain values of a numeric axis)"""
    n, r = ax["n"], gen.rng(ax["seed"], 5)
    if ax["step"] == "yearly" and ax["type"] != "numeric":
        n = min(n, 60)  # within the range of datetime64 and clear of 1582
    if ax["type"] == "numeric":
        step = {"monthly": 1.0, "daily": 0.5, "hourly": 1.0 / 24, "yearly": 365.0, "irregular": None}[ax["step"]]
        if step is None:
            x = np.cumsum(r.uniform(0.2, 2.0, n))
        else:
            x = np.arange(n) * step
        x = x + {0: 0.0, 1: 1.0, 2: -3.0, 3: 1900.0}[int(r.integers(4))]
        return x, x.astype(orc.LD)
    if ax["step"] == "irregular":
        secs = np.cumsum(r.integers(3600, 40 * 86400, n))
    else:
        secs = np.arange(n) * {"monthly": 30 * 86400 + 37800, "daily": 86400, "hourly": 3600, "yearly": 365 * 86400}[ax["step"]]
    secs = [int(s) for s in secs]
    if ax["type"] == "datetime64":
        y = min(max(ax["y0"], 1700), 2200)
        t0 = np.datetime64(f"{y:04d}-01-15T12:00:00", "ns")
        t = np.array([t0 + np.timedelta64(s, "s") for s in secs], dtype="datetime64[ns]")
        return t, t.astype("int64").astype(orc.LD)
    y = gen.safe_year(ax["y0"], ax["cal"], 70)
    t0 = cftime.datetime(y, 1, 15, 12, calendar=ax["cal"])
    t = gen.obj_array([t0 + datetime.timedelta(seconds=s) for s in secs])
    base = days_since_epoch(y, ax["cal"]) * 86400 + 14 * 86400 + 43200
    return t, np.array([orc.LD(base + s) * orc.LD(1e9) for s in secs])


def days_since_epoch(year, cal):
    """days from 1970-01-01 to January 1 of `year`, counted year by year"""
    n = 0
    for y in range(min(year, 1970), max(year, 1970)):
        d = orc.year_length(y, cal)
        if cal == "standard" and y == 1582:
            d -= 10
        n += d
    return n if year >= 1970 else -n


def line_fit(x, y):
    """least squares line through the valid points of each column (time first);
    -> slope, intercept, number of valid points, conditioning of the intercept"""
    x = np.asarray(x).astype(orc.LD)
    y = np.asarray(y).astype(orc.LD)
    y2 = y.reshape(len(x), -1)
    sl, ic, nv = [], [], []
    for k in range(y2.shape[1]):
        ok = ~np.isnan(y2[:, k])
        nv.append(int(ok.sum()))
        if ok.sum() < 2:
            sl.append(np.nan)
            ic.append(np.nan)
            continue
        xs, ys = x[ok], y2[ok, k]
        xm, ym = xs.mean(), ys.mean()
        s = ((xs - xm) * (ys - ym)).sum() / ((xs - xm) ** 2).sum()
        sl.append(s)
        ic.append(ym - s * xm)
    shp = y.shape[1:]
    return (
        np.array(sl, dtype=orc.LD).reshape(shp),
        np.array(ic, dtype=orc.LD).reshape(shp),
        np.array(nv).reshape(shp),
    )


def spread(x, y):
    """smallest spread of x over the valid points of a column, and the ratio of
    the largest |x| to it (conditioning of a line fit)"""
    x = np.asarray(x).astype(float)
    y2 = np.asarray(y, dtype=float).reshape(len(x), -1)
    w = np.inf
    for k in range(y2.shape[1]):
        ok = ~np.isnan(y2[:, k])
        if ok.sum() >= 2:
            w = min(w, float(x[ok].std()))
    if not np.isfinite(w):
        w = float(x.std()) or 1.0
    return w, float(np.abs(x).max()) / w
