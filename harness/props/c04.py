"""C04 - layer thickness with partial cells"""

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import derived

from .. import gen, large, orc
from ..core import Prop, Sub, Violation, close, must_raise, same_coords, sut, vals

KID = "dz-top-inside-bottom-cell"


@st.composite
def cases(draw):
    return {
        "z": draw(gen.zgrid(1, 7, 40)),
        "shape": [draw(gen.sizes(1, 4, 24)) for _ in range(draw(gen.weighted((2, 8), (1, 1), (3, 1))))],
        "seed": draw(gen.seeds()),
        "depth": draw(gen.weighted(("random", 4), ("interfaces", 2), ("zero", 1), ("beyond", 1), ("shallow", 1), ("sliver", 2))),
        "nan": draw(gen.weighted((0.0, 2), (0.3, 2))),
        "dtype": draw(gen.weighted(("f8", 6), ("f4", 1), ("i8", 1))),
        "top": draw(gen.weighted(("default", 4), ("random", 3), ("interface", 2), ("zero", 1), ("int", 1), ("sliver", 1))),
        "bottom": draw(gen.weighted(("default", 4), ("random", 3), ("interface", 2), ("deep", 1), ("zero", 1), ("attop", 1), ("int", 1))),
        "fraction": draw(gen.often(0.35)),
        "names": draw(st.sampled_from([["z_l", "z_i"], ["lev", "lev_edges"], ["depth", "depth_bnds"]])),
        "order": draw(gen.often(0.2)),
        "chunk": draw(gen.weighted((0, 4), (1, 1), (2, 1))),
        "attrs": draw(st.integers(0, 3)),
    }


def build(case):
    zi, zl = gen.build_z(case["z"])
    r = gen.rng(case["seed"], 1)
    shp = tuple(case["shape"])
    k = case["depth"]
    if k == "random":
        d = r.uniform(0, zi[-1] * 1.05, shp)
    elif k == "interfaces":
        d = r.choice(np.concatenate([zi, [0.0]]), shp)
    elif k == "zero":
        d = np.where(r.random(shp) < 0.5, 0.0, r.uniform(0, zi[-1], shp))
    elif k == "beyond":
        d = r.uniform(zi[-1] * 0.9, zi[-1] * 2, shp)
    elif k == "sliver":
        # a little water in a cell, or a little missing to fill it
        d = r.choice(zi, shp) + r.choice([-1.0, 1.0], shp) * 2.0 ** r.integers(-14, 4, shp)
        d = np.maximum(d, 0.0)
    else:
        d = r.uniform(0, zi[1], shp)
    d = gen.cast(d, case["dtype"])
    if d.dtype.kind == "f":
        d = np.where(r.random(shp) < case["nan"], np.nan, d).astype(d.dtype)
    top = {
        "default": 0.0,
        "zero": 0.0,
        "random": round(float(r.uniform(0, zi[-1])), 2),
        "int": int(r.uniform(0, zi[-1])),
        "interface": float(r.choice(zi)),
        "sliver": 0.0,
    }[case["top"]]
    if case["top"] == "sliver":
        top = min(float(zi[-1]), max(0.0, float(r.choice(zi) + r.choice([-1.0, 1.0]) * 2.0 ** r.integers(-14, 4))))
    bottom = {
        "default": None,
        "random": round(float(r.uniform(top, zi[-1] * 1.02)), 2) + 0.01,
        "interface": float(zi[zi >= top][-1] if len(zi[zi > top]) == 0 else r.choice(zi[zi > top])),
        "deep": float(zi[-1] * 3),
        "zero": 0.0 if case["top"] in ("default", "zero") else float(zi[-1]),
        "attop": float(top),
        "int": int(r.uniform(top, zi[-1])) + 1,
    }[case["bottom"]]
    return zi, zl, d, top, bottom


def objects(case, zi, zl, d):
    zn, zin = case["names"]
    hd = ["yh", "xh", "member"][: d.ndim]
    levels = xr.DataArray(zl, dims=[zn], coords={zn: zl}, name=zn, attrs={"units": "m"})
    interf = xr.DataArray(zi, dims=[zin], coords={zin: zi}, name=zin, attrs={"units": "m"})
    hc = {h: np.arange(d.shape[i]) + 0.5 for i, h in enumerate(hd)}
    depth = xr.DataArray(d, dims=hd, coords=hc, name="deptho", attrs=gen.attrs_of(case["attrs"]))
    if case["order"]:
        depth = depth.transpose(*hd[::-1])
    depth = gen.chunked(depth, {h: case["chunk"] for h in hd} if case["chunk"] else None)
    return levels, interf, depth, zn, hd, hc


def f_dz(case, rec):
    zi, zl, d, top, bottom = build(case)
    levels, interf, depth, zn, hd, hc = objects(case, zi, zl, d)
    kw = {}
    if case["top"] != "default":
        kw["top"] = top
    if bottom is not None:
        kw["bottom"] = bottom
    if case["fraction"]:
        kw["fraction"] = True
    r = sut("calc_dz", derived.calc_dz, levels, interf, depth, **kw)
    got = vals("dz", r, [zn] + hd)
    same_coords("dz", r, {zn: zl, **hc})
    exp = orc.overlap_dz(zi, d, top, bottom)
    cell = np.diff(zi).reshape((-1,) + (1,) * d.ndim)
    # the value the known finding leads to, which differs from the right one only
    # where the upper bound and the (effective) floor are both inside one cell
    fl = np.where(np.isnan(d), 0.0, d)
    fl = fl if bottom is None else np.minimum(fl, bottom)
    zt = zi[:-1].reshape(cell.shape)
    zb = zi[1:].reshape(cell.shape)
    inside = (top > zt) & (top < zb) & (fl[None] < zb) & (fl[None] > zt)
    alt = np.minimum(np.minimum(np.maximum(fl[None] - zt, 0), cell), np.maximum(zb - top, 0))
    if case["fraction"]:
        exp, alt = [np.where(x == 0, np.nan, x) / cell for x in (exp, alt)]
    # single precision: depths are rounded relative to the deepest one
    eps = 8 * float(np.finfo(np.float32).eps) * float(zi[-1])
    rtol, atol = (1e-5, max(1e-3, eps)) if case["dtype"] == "f4" else (1e-11, 1e-9)
    if case["fraction"]:
        atol = atol / cell
        # a cell that is dry within rounding
        exp = np.where(np.abs(np.nan_to_num(exp)) <= atol, np.nan, exp)
        got = np.where(np.abs(np.nan_to_num(got)) <= atol, np.nan, got)
        alt = np.where(np.abs(np.nan_to_num(alt)) <= atol, np.nan, alt)
    try:
        close("dz", got, exp, rtol=rtol, atol=atol)
    except Violation as v:
        mixed = np.where(inside, alt, exp)
        close("dz", got, mixed, rtol=rtol, atol=atol)
        rec.known_finding(KID, str(v))
        rec.label("known finding")
    e = orc.overlap_dz(zi, d, top, bottom)
    rec.nt(bool(((e > 0) & (e < cell)).any()) and bool((e > 0).any()))
    rec.label("range", case["top"] != "default" or bottom is not None)
    rec.label("fraction", case["fraction"])
    rec.label("missing depth", case["nan"] > 0)


def f_column(case, rec):
    """the thicknesses of a column add up to the water depth"""
    zi, zl, d, _, bottom = build(case)
    levels, interf, depth, zn, hd, _ = objects(case, zi, zl, d)
    kw = {} if bottom is None else {"bottom": bottom}
    r = sut("calc_dz", derived.calc_dz, levels, interf, depth, **kw)
    tot = vals("column", r.sum(zn), hd)
    floor = np.where(np.isnan(d), 0.0, d)
    floor = floor if bottom is None else np.minimum(floor, bottom)
    exp = np.maximum(np.minimum(floor, zi[-1]) - zi[0], 0.0)
    close("column total", tot, exp, rtol=1e-5 if case["dtype"] == "f4" else 1e-11, atol=1e-2 if case["dtype"] == "f4" else 1e-8)
    v = vals("dz", r, [zn] + hd)
    if not bool((v >= 0).all()):
        raise Violation("a thickness is negative or missing")
    rec.nt(bool((exp > 0).any()))


def f_reject(case, rec):
    zi, zl, d, top, bottom = build(case["base"])
    zi, zl, d = zi.copy(), zl.copy(), np.array(d, dtype=float)
    neg = -abs(case["neg"])
    r = gen.rng(case["base"]["seed"], 8)
    if case["what"] == "depth":
        d.ravel()[int(r.integers(d.size))] = neg
    elif case["what"] == "levels":
        zl[int(r.integers(len(zl)))] = neg
    elif case["what"] == "interfaces":
        zi[int(r.integers(len(zi)))] = neg
    else:
        zl, zi = -zl, -zi
    levels, interf, depth, *_ = objects(case["base"], zi, zl, d)
    must_raise(f"calc_dz with a negative value in {case['what']}", derived.calc_dz, levels, interf, depth)
    rec.nt()
    rec.label(case["what"])


PROP = Prop(
    "C04",
    "vertical grids of 1-7 (now and then up to 40) cells (uniform, stretched, irregular; levels mid-cell or "
    "not), 1-3 dimensional bathymetry (random, on interfaces, zero, deeper than the "
    "grid, missing), any top/bottom pair, fraction on/off. Non-trivial: some cell is "
    "partially filled.",
    [
        Sub("thickness", cases(), f_dz, quick=1600),
        large.sub(cases(), f_dz, large.columns),
        Sub("column", cases(), f_column, quick=1200, thorough=9000, shards=2),
        Sub(
            "reject",
            st.fixed_dictionaries(
                {
                    "base": cases(),
                    "what": st.sampled_from(["depth", "levels", "interfaces", "axis"]),
                    "neg": st.sampled_from([1e-6, 0.5, 10.0, 5000.0]),
                }
            ),
            f_reject,
            quick=600, thorough=4500,
            shards=1,
        ),
    ],
    assumptions=["interfaces strictly increase and are one more than the levels", "bottom >= top"],
)
