"""C20 - linear detrending"""

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import trend, util

from .. import gen, large, orc, series
from ..core import Prop, Sub, check, close, is_close, must_raise, same_coord_attrs, same_coords, sut, sut_report, vals
from .c19 import setup, tolerance


@st.composite
def cases(draw):
    return {
        "ax": draw(series.axes()),
        "c": draw(series.shapes(dtypes=(("f8", 8), ("f4", 1), ("i4", 1)))),
        "signal": draw(gen.weighted(("line", 2), ("noise", 2))),
        "name": draw(st.sampled_from(["var", "thetao"])),
        "units": draw(st.sampled_from([None, "m", "m s-1", "kg m-2 s-1", "1"])),
        "default_t": draw(gen.often(0.5)),
        "mode": draw(gen.weighted(("remove", 4), ("correct", 3), (None, 1), ("Remove", 1), ("anomaly", 1))),
        "order": draw(gen.weighted((None, 12), (1, 2), (2, 1), (0, 1))),
        "container": draw(st.sampled_from(["array", "dataset"])),
        "via": draw(gen.weighted(("trend", 4), ("util", 1))),
    }


def f_detrend(case, rec):
    c, tv, x, a, da = setup(case)
    t = series.tname(c)
    w, cond = series.spread(x, a)
    if cond > 1e6:
        return
    kw = {} if t == "time" else {"dim": t}
    if case["mode"] is not None:
        kw["mode"] = case["mode"]
    if case["order"] is not None:
        kw["order"] = case["order"]
    other = series.DIMS[: len(c["other"])]
    ds = None
    name = case["name"]
    if case["container"] == "dataset":
        static = xr.DataArray(
            gen.field(c["seed"], "noise", (3,), 0, 1, salt=60),
            dims=["station"],
            attrs={"k": "v"},
            coords={"code": ("station", ["a", "b", "c"]), "lat_s": ("station", [1.0, 2.0, 3.0], {"units": "deg"})},
        )
        ds = xr.Dataset({name: da, "static": static, "label": xr.DataArray("text")})
        b = series.numbers(c, len(tv), salt=5)
        if (np.isnan(b.astype(float)).sum(axis=0) == len(tv) - 1).any():
            b = np.nan_to_num(b)
        ds["other"] = series.data_array(c, b, tv, name="other")
    obj = da if ds is None else ds
    f = trend.linear_detrend if case["via"] == "trend" else util.linear_detrend
    mode = case["mode"] or "remove"
    if mode not in ("remove", "correct") or case["order"] not in (None, 1):
        must_raise(f"linear_detrend(mode={case['mode']!r}, order={case['order']!r})", f, obj, **kw)
        rec.nt()
        rec.label("rejected")
        return
    res, exc, wl, _ = sut_report(f, obj, **kw)
    check(exc is None, f"linear_detrend raised on a valid input: {type(exc).__name__}: {exc}")
    if case["via"] == "util":
        check(any(issubclass(i.category, DeprecationWarning) for i in wl), "no deprecation warning")

    def compare(what, got, arr):
        es, ei, nv = series.line_fit(x, arr)
        at_s, at_i, _, _ = tolerance(c, x, arr)
        xx = x.reshape((-1,) + (1,) * es.ndim)
        at = at_s * float(np.abs(x).max()) * 2 + at_i * 2
        g = vals(what, got, [t] + other).astype(orc.LD)
        y = arr.astype(orc.LD)
        same_coords(what, got, {t: tv, **series.other_coords(c), **{k: v[1] for k, v in series.aux_coords(c).items()}})
        same_coord_attrs(what, got, da)
        if mode == "remove":
            close(what, g, y - (es[None] * xx + ei[None]), rtol=0, atol=at)
            return
        # the drift is taken out ...
        lvl = g - y + es[None] * xx  # must be constant in time: slope * x_ref
        const = np.nanmax(np.where(np.isnan(lvl), -np.inf, lvl), axis=0)
        close(f"{what}: level of the corrected series", lvl, np.where(np.isnan(y), np.nan, const[None]), rtol=0, atol=at)
        # ... and the magnitude is kept: the corrected series sits at a value the
        # fitted line takes within the record
        lo = np.minimum(es * x.min(), es * x.max())
        hi = np.maximum(es * x.min(), es * x.max())
        with np.errstate(all="ignore"):
            inside = np.isnan(es) | ((const >= lo - at) & (const <= hi + at))
        if not inside.all():
            if is_close(np.where(inside, 0.0, const), np.zeros_like(const), rtol=0, atol=at):
                rec.known_finding("correct-level-at-1970", f"{what}: mode='correct' moves the level to the value of the fitted line at 1970 (or 0)")
                rec.label("known finding")
            else:
                k = tuple(int(v) for v in np.argwhere(~inside)[0])
                check(False, f"{what}: mode='correct' moves the level: offset {float(const[k])!r}, not within {float(lo[k])!r}..{float(hi[k])!r} nor 0")

    if ds is None:
        compare("detrended", res, a)
        check(res.name == name, f"name {res.name!r}")
        at = res
    else:
        compare(f"detrended {name}", res[name], a)
        compare("detrended other", res["other"], b)
        check("static" in res and res["static"].identical(ds["static"]), "a variable without the time dimension was changed")
        check("label" in res, "a text variable was lost")
        at = res[name]
    for k, v in da.attrs.items():
        check(at.attrs.get(k) == v, f"attribute {k!r} is {at.attrs.get(k)!r}, was {v!r}")

    # nothing is left to remove
    if mode == "remove":
        again = sut("linear_detrend twice", trend.linear_detrend, at, **kw)
        at_s, at_i, _, _ = tolerance(c, x, a)
        tol = (at_s * float(np.abs(x).max()) + at_i) * 4
        close("detrended twice", vals("twice", again, [t] + other), vals("once", at, [t] + other), rtol=0, atol=tol)
    rec.nt(case["ax"]["n"] > 2)
    rec.label(mode)
    rec.label(case["container"])
    rec.label(case["ax"]["type"])
    rec.label("inverse units", bool(case["units"]) and "-1" in case["units"])


PROP = Prop(
    "C20",
    "as the trends of C19, arrays and datasets (with variables that have no time "
    "dimension), both modes, unknown modes and orders. Non-trivial: at least three "
    "points, or a rejected argument.",
    [
        Sub("detrend", cases(), f_detrend, quick=2400, thorough=6000, shards=8),
        large.sub(cases(), f_detrend, large.axis),
        large.sub(cases(), f_detrend, large.many_columns, name="many"),
    ],
    assumptions=["fits whose time axis is more than 1e6 spreads away from 1970 are skipped (no meaningful digits)"],
)
