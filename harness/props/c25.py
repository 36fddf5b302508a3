"""C25 - cell areas and coordinates of regular grids"""

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import util

from .. import gen, large, orc
from ..core import Prop, Sub, check, close, has_attrs, must_raise, same_coords, sut, sut_report, vals


@st.composite
def cases(draw):
    return {
        "seed": draw(gen.seeds()),
        "ny": draw(gen.sizes(2, 12, 180)),
        "nx": draw(gen.sizes(2, 12, 360)),
        "extent": draw(gen.weighted(("global", 3), ("regional", 3))),
        "latdir": draw(st.sampled_from([1, -1])),
        "londir": draw(gen.weighted((1, 3), (-1, 1))),
        "typ": draw(gen.weighted(("xarray", 4), ("numpy", 2), ("mixed", 1), ("list", 1))),
        "r": draw(gen.weighted((None, 3), (6378.0e3, 1), (1.0, 1), (1, 1), (6371, 1))),
        "names": draw(gen.often(0.4)),
        "dtype": draw(gen.weighted(("f8", 5), ("f4", 1))),
        "int": draw(gen.often(0.1)),
    }


def f_area(case, rec):
    r = gen.rng(case["seed"], 1)
    ny, nx = case["ny"], case["nx"]
    if case["extent"] == "global":
        dy, dx = 180.0 / ny, 360.0 / nx
        lat = -90 + dy * (np.arange(ny) + 0.5)
        lon = r.choice([0.0, -180.0, -300.0, 20.0]) + dx * (np.arange(nx) + 0.5)
    else:
        dy = r.choice([0.1, 0.25, 1.0, 2.5, 0.02, 12.0])
        dx = r.choice([0.1, 0.3125, 1.0, 5.0, 1.0 / 12, 45.0, 200.0])
        lat0 = float(np.round(r.uniform(-60, 50), 1))
        # (no farther than the pole)
        ny = min(ny, 50, int((90 - dy / 2 - lat0) / dy))
        lat = lat0 + dy * np.arange(ny)
        lon = float(np.round(r.uniform(-180, 180), 1)) + dx * np.arange(nx)
        if case["int"]:
            dy = dx = 2.0
            lat = (np.arange(ny) * 2 - 10).astype(int)
            lon = (np.arange(nx) * 2 + 100).astype(int)
    lat = lat[:: case["latdir"]].copy()
    lon = lon[:: case["londir"]].copy()
    lat, lon = gen.cast(lat, case["dtype"]), gen.cast(lon, case["dtype"])
    rad = 6371.0e3 if case["r"] is None else case["r"]
    kw = {} if case["r"] is None else {"r_earth": case["r"]}
    yn, xn = ("latitude", "longitude") if case["names"] else ("lat", "lon")
    la = xr.DataArray(lat, dims=[yn], coords={yn: lat}, name=yn, attrs={"units": "degrees_north"})
    lo = xr.DataArray(lon, dims=[xn], coords={xn: lon}, name=xn, attrs={"units": "degrees_east"})
    args = {"xarray": (la, lo), "numpy": (lat, lon), "list": (list(lat), list(lon)), "mixed": (la, lon)}[case["typ"]]
    a = sut("standard_grid_cell_area", util.standard_grid_cell_area, *args, **kw)
    L, D = lat.astype(orc.LD), orc.LD(np.pi) / 180
    h = orc.LD(dy) / 2
    e = orc.LD(rad) ** 2 * orc.LD(dx) * D * np.abs(np.sin((L + h) * D) - np.sin((L - h) * D))
    e = np.broadcast_to(e[:, None], (ny, nx))
    # single precision: differences of nearby coordinates and of their sines cancel
    eps = float(np.finfo(np.float32).eps)
    cond = float(np.abs(lat).max() / dy + np.abs(lon).max() / dx)
    # (towards a pole the cosine shrinks the difference of the sines as well)
    cond += float((1.0 / (np.cos(np.deg2rad(np.abs(lat).max())) * np.deg2rad(dy))))
    tol = max(2e-4, 8 * eps * cond) if case["dtype"] == "f4" else 1e-10
    if case["typ"] == "xarray":
        got = vals("area", a, [yn, xn])
        same_coords("area", a, {yn: lat, xn: lon})
        has_attrs("area", a, {"units": "m2", "standard_name": "cell_area"})
    else:
        got = np.asarray(a)
    close("cell area", got, e, rtol=tol, atol=float(e.max()) * tol)
    check(bool((np.asarray(got) > 0).all()), "a cell area is not positive")
    if case["extent"] == "global":
        close("sum of the cell areas", np.sum(np.asarray(got, dtype=float)), 4 * np.pi * float(rad) ** 2, rtol=tol)
    rec.nt()
    rec.label(case["extent"])
    rec.label(case["typ"])
    rec.label("north to south", case["latdir"] < 0)


@st.composite
def tile_cases(draw):
    return {
        "seed": draw(gen.seeds()),
        "ny": draw(gen.sizes(1, 6, 60)),
        "nx": draw(gen.sizes(1, 6, 60)),
        "sorted": draw(gen.weighted((1, 3), (-1, 1), (0, 1))),
        "names": draw(st.sampled_from([["xh", "yh"], ["lon", "lat"], ["i", "j"]])),
        "warn": draw(gen.weighted((None, 1), (True, 1), (False, 1))),
        "dtype": draw(gen.weighted(("f8", 3), ("f4", 1), ("i4", 1))),
        "bad": draw(gen.weighted((None, 8), ("x", 1), ("y", 1))),
    }


def f_tile(case, rec):
    r = gen.rng(case["seed"], 1)
    x = gen.cast(np.sort(r.uniform(-180, 180, case["nx"])), case["dtype"])
    y = gen.cast(np.sort(r.uniform(-90, 90, case["ny"])), case["dtype"])
    if case.get("sorted", 1) == -1:
        x, y = x[::-1].copy(), y[::-1].copy()
    elif case.get("sorted", 1) == 0:
        x, y = r.permutation(x), r.permutation(y)
    xn, yn = case["names"]
    xd = xr.DataArray(x, dims=[xn], coords={xn: x}, name=xn)
    yd = xr.DataArray(y, dims=[yn], coords={yn: y}, name=yn)
    kw = {} if case["warn"] is None else {"warn": case["warn"]}
    if case["bad"]:
        args = (x, yd) if case["bad"] == "x" else (xd, y)
        must_raise("tile_nominal_coords of a numpy array", util.tile_nominal_coords, *args, **kw)
        rec.nt()
        return
    res, exc, wl, _ = sut_report(util.tile_nominal_coords, xd, yd, **kw)
    check(exc is None, f"tile_nominal_coords raised: {type(exc).__name__}: {exc}")
    check(len(res) == 2, "longitude and latitude expected")
    lon, lat = res
    close("longitude", vals("longitude", lon, [yn, xn]), np.broadcast_to(x[None, :], (len(y), len(x))), rtol=0)
    close("latitude", vals("latitude", lat, [yn, xn]), np.broadcast_to(y[:, None], (len(y), len(x))), rtol=0)
    for what, v in (("longitude", lon), ("latitude", lat)):
        same_coords(what, v, {xn: x, yn: y})
    check(lon.name == "geolon" and lat.name == "geolat", f"names {lon.name!r}, {lat.name!r}")
    warned = any("1-D" in str(w.message) for w in wl)
    check(warned == (case["warn"] is not False), f"warn={case['warn']}: warned {warned}")
    rec.nt(len(x) != len(y))
    rec.label(case["names"][0])


PROP = Prop(
    "C25",
    "uniform global and regional grids of 2x2 to 180x360 cells, either direction, "
    "as xarray, numpy, list or mixed; 1-d coordinates of 1-60 points in any order. Non-trivial: "
    "every area; coordinates of different lengths.",
    [
        Sub("area", cases(), f_area, quick=3000, thorough=7500, shards=4),
        Sub("tile", tile_cases(), f_tile, quick=1800, thorough=4500, shards=2),
        large.sub(cases(), f_area, large.grid),
    ],
)
