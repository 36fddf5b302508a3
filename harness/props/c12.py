"""C12 - wave speed, Rossby radius, Coriolis parameter"""

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import derived

from .. import gen, large
from ..core import Prop, Sub, Violation, check, close, has_attrs, is_close, same_coords, sut, vals
from .c11 import adj_array, adj_cases, adjusted, adjusted_known, dims_order

KID = "wave-speed-z-not-leading"


@st.composite
def ws_cases(draw):
    case = draw(adj_cases())
    case["dzfull"] = draw(gen.often(0.5))
    case["dznan"] = draw(gen.often(0.2))
    case["dzdims"] = draw(gen.weighted(("zyx", 3), ("z", 1), ("all", 1)))
    case["dzperm"] = draw(gen.often(0.3))
    case["dzint"] = draw(gen.often(0.1))
    return case


def f_wave(case, rec):
    n2 = adj_array(case)
    zn = case["zname"]
    other = ["yh", "xh", "time"][: case["nd"] - 1]
    nat = [zn] + other
    order = dims_order(case, zn, other)
    coords = {zn: np.arange(case["nz"]) * 10.0 + 5, **{d: np.arange(n2.shape[i + 1]) * 1.0 for i, d in enumerate(other)}}
    da = xr.DataArray(n2, dims=nat, coords=coords, name="obvfsq").transpose(*order)
    # dz is (z, y, x): no time
    how = case.get("dzdims", "zyx")
    hd = [] if how == "z" else [d for d in other if d != "time" or how == "all"]
    shp = n2.shape[: 1 + len(hd)]
    r = gen.rng(case["seed"], 9)
    dz = r.uniform(1, 500, shp)
    if not case["dzfull"]:
        dz = np.where(r.random(shp) < 0.3, 0.0, dz)
    if case.get("dzint"):
        dz = np.round(dz).astype("int64")
    elif case["dznan"]:
        dz = np.where(r.random(shp) < 0.2, np.nan, dz)
    ddz = xr.DataArray(dz, dims=[zn] + hd, coords={k: coords[k] for k in [zn] + hd})
    if case.get("dzperm"):
        ddz = ddz.transpose(*ddz.dims[::-1])
    dzb = np.broadcast_to(dz.reshape(dz.shape + (1,) * (n2.ndim - dz.ndim)), n2.shape)

    exp = np.nansum(np.sqrt(adjusted(n2)) * dzb, axis=0) / np.pi
    exp = np.where(np.isnan(n2[0]), np.nan, exp)
    res = sut("calc_wave_speed", derived.calc_wave_speed, da, ddz, **({} if zn == "z_l" else {"zcoord": zn}))
    try:
        close("wave speed", vals("wave speed", res, other), exp, rtol=1e-11)
    except Violation as v:
        # known finding: the vertical axis is not the first one
        if order[0] == zn:
            raise
        nn = da.values
        s = np.nansum(
            np.moveaxis(np.sqrt(adjusted_known(nn, order, zn)), [order.index(d) for d in nat], range(len(nat))) * dzb, axis=0
        ) / np.pi
        s = xr.DataArray(s, dims=other, coords={d: coords[d] for d in other})
        cond = da.isel({order[0]: 0}, drop=True).isnull()
        alt = xr.where(cond, np.nan, s)
        ok = set(alt.dims) == set(res.dims) and is_close(res.transpose(*alt.dims).values, alt.values, rtol=1e-11)
        if not ok:
            raise
        rec.known_finding(KID, str(v))
        rec.label("known finding")
        return
    same_coords("wave speed", res, {d: coords[d] for d in other})
    has_attrs("wave speed", res, {"units": "m s-1"})
    rec.nt(bool((n2 <= 0).any()) and bool(np.nansum(exp) > 0))
    rec.label("land", bool(np.isnan(n2[0]).any()))


@st.composite
def lat_cases(draw):
    return {
        "seed": draw(gen.seeds()),
        "shape": draw(st.lists(gen.size(1, 4), min_size=0, max_size=3)),
        "kind": draw(st.sampled_from(["random", "special", "int", "tropics"])),
        "lead": draw(gen.often(0.3)),
        "nan": draw(gen.weighted((0.0, 2), (0.2, 1))),
        "attrs": draw(st.integers(0, 3)),
        "named": draw(gen.often(0.5)),
        "kindc": draw(st.sampled_from(["random", "zeros"])),
        "chunk": draw(gen.often(0.2)),
    }


def f_cor(case, rec):
    r = gen.rng(case["seed"], 1)
    shp = tuple(case["shape"])
    if case["kind"] == "random":
        lat = r.uniform(-90, 90, shp)
    elif case["kind"] == "tropics":
        lat = r.choice([-1.0, 1.0], shp) * 10.0 ** r.uniform(-6, 1, shp)
    elif case["kind"] == "special":
        lat = r.choice([-90.0, -45.0, -30.0, 0.0, 1e-9, 30.0, 60.0, 90.0], shp)
    else:
        lat = r.integers(-90, 91, shp)
    lat = np.asarray(lat)
    if case["nan"] and lat.dtype.kind == "f":
        lat = np.where(r.random(shp) < case["nan"], np.nan, lat)
    dims = ["yq", "xq", "tile"][: len(shp)]
    coords = {d: np.arange(shp[i]) * 1.0 for i, d in enumerate(dims)}
    da = xr.DataArray(lat, dims=dims, coords=coords, name="lat" if case["named"] else None, attrs=gen.attrs_of(case["attrs"]))
    if case["chunk"] and dims:
        da = da.chunk({dims[0]: 1})
    f = sut("calc_coriolis", derived.calc_coriolis, da)
    exp = 2 * (2 * np.pi / 86400.0) * np.sin(np.radians(lat.astype(np.longdouble)))
    close("Coriolis parameter", vals("Coriolis parameter", f, dims), exp, rtol=1e-12, atol=1e-19)
    same_coords("Coriolis parameter", f, coords)
    has_attrs("Coriolis parameter", f, {"units": "s-1"})
    # Rossby radius
    c = r.uniform(0, 5, shp)
    if case["kindc"] == "zeros":
        c = np.where(r.random(shp) < 0.3, 0.0, c)
    c = np.where(r.random(shp) < case["nan"], np.nan, c)
    if case.get("lead"):
        # a wave speed that changes in time, one Coriolis parameter
        c = np.stack([c, c * 0.5 + 1.0, c * 2.0])
        dims = ["time"] + dims
        coords["time"] = np.arange(3) * 1.0
    p = gen.perm_of(case["seed"], len(dims))
    dc = xr.DataArray(c, dims=dims, coords=coords, name="c1").transpose(*[dims[i] for i in p])
    rd = sut("calc_rossby_rd", derived.calc_rossby_rd, dc, f)
    fv = vals("f", f, [d for d in dims if d != "time"])
    with np.errstate(all="ignore"):
        e2 = c / np.abs(fv)
    close("Rossby radius", vals("Rossby radius", rd, dims), e2, rtol=1e-12)
    has_attrs("Rossby radius", rd, {"units": "m"})
    same_coords("Rossby radius", rd, coords)
    rec.nt(bool((np.nan_to_num(lat.astype(float)) < 0).any()))
    rec.label("equator", bool((lat == 0).any()))


PROP = Prop(
    "C12",
    "N2 fields as for C11 with a thickness field of any subset of their dimensions; latitude arrays of 0-3 dimensions "
    "including poles, equator and missing values. Non-trivial: non-positive N2 "
    "present and a positive speed; a southern latitude present.",
    [
        Sub("wave_speed", ws_cases(), f_wave, quick=5400, thorough=13500, shards=6),
        Sub("coriolis_rossby", lat_cases(), f_cor, quick=3600, thorough=9000, shards=2),
        large.sub(ws_cases(), f_wave, large.columns),
    ],
)
