"""tsp.py - temperature / salinity / pressure inputs, shared by the checks of the
equation of state"""

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from . import gen

DIMS = ["time", "z_l", "yh", "xh"]
RANGES = {"T": (-5.0, 60.0), "S": (-1.0, 60.0), "p": (-2.0e5, 2.0e8)}
SPECIAL = {
    "T": [0.0, -0.0, 4.0, 10.0, -2.0, 40.0, 1e-12, -1.8],
    "S": [0.0, 35.0, 40.0, 42.0, 1e-12, 5.0],
    "p": [0.0, 101325.0, 1e5, 1e8, 2e7, 1.0, -5000.0],
}


@st.composite
def arrays(draw, max_dims=4, dtypes=(("f8", 7), ("f4", 2), ("i8", 2), ("i4", 1))):
    """a set of T, S, p arrays with labelled dimensions"""
    nd = min(max_dims, draw(gen.weighted((1, 2), (0, 1), (2, 3), (3, 3), (4, 3))))
    dims = DIMS[:nd] if draw(gen.often(0.5)) else DIMS[4 - nd :]
    case = {
        "dims": dims,
        "shape": [draw(gen.sizes(1, 4, 40, 0.05)) for _ in dims],
        "seed": draw(gen.seeds()),
        "kind": {v: draw(st.sampled_from(gen.KINDS)) for v in "TSp"},
        "dtype": {v: draw(gen.weighted(*dtypes)) for v in "TS"},
        "perm": {v: draw(gen.seeds()) for v in "TSp"},
        # dims the array does not have
        "drop": {v: draw(gen.weighted(("none", 4), ("first", 2), ("last", 1))) for v in "TSp"},
        "p": draw(gen.weighted(("full", 4), ("float", 2), ("z", 3))),
        "nan": {v: draw(gen.weighted((0.0, 3), (0.3, 2))) for v in "TS"},
        "nanp": draw(gen.weighted((0.0, 6), (0.3, 1))),
        "scale": draw(gen.weighted(("ocean", 3), ("wide", 2))),
        "eos": draw(gen.weighted(("Wright", 4), ("linear", 3))),
        "case": draw(st.sampled_from(["asis", "lower", "upper", "title", "swap"])),
        "named": draw(gen.often(0.5)),
        "attrs": draw(st.integers(0, 3)),
        "chunk": draw(gen.weighted((0, 4), (1, 1), (2, 1))),
        # a few elements replaced with special values
        "special": draw(gen.weighted((0.0, 3), (0.3, 1))),
    }
    # keep the largest arrays affordable
    while int(np.prod(case["shape"])) > 20000:
        k = case["shape"].index(max(case["shape"]))
        case["shape"][k] = 4
    return case


def eos_kw(case, key="eos"):
    """the default is left out of some of the calls with the documented name"""
    if case["eos"] == "Wright" and case["case"] == "asis" and case["attrs"] != 1:
        return {}
    return {key: eos_name(case)}


def eos_name(case):
    e = case["eos"]
    return {
        "asis": e,
        "lower": e.lower(),
        "upper": e.upper(),
        "title": e.title(),
        "swap": e.swapcase(),
    }[case["case"]]


def _lim(case, v):
    if case["scale"] == "wide":
        return RANGES[v]
    return {"T": (-2.0, 35.0), "S": (0.0, 42.0), "p": (1.0e5, 7.0e7)}[v]


def np_values(case):
    """numpy T, S, p of the full shape (float64 holding the values after the cast)"""
    out = {}
    for i, v in enumerate("TSp"):
        a = gen.field(case["seed"], case["kind"][v], case["shape"], *_lim(case, v), salt=i)
        if case.get("special"):
            r = gen.rng(case["seed"], 70 + i)
            pick = r.choice(SPECIAL[v], a.shape)
            a = np.where(r.random(a.shape) < case["special"], pick, a)
        if v in "TS":
            a = gen.cast(a, case["dtype"][v])
            if a.dtype.kind == "f":
                a = np.where(gen.mask_nan(case["seed"], a.shape, case["nan"][v], salt=50 + i), np.nan, a).astype(a.dtype)
        else:
            a = np.where(gen.mask_nan(case["seed"], a.shape, case["nanp"], salt=59), np.nan, a)
        out[v] = a
    return out


def build(case):
    """-> dict of DataArrays / float for p, and full-shape float arrays

    dimensions can be dropped from single arrays (never from all of T and S), and
    each array has its own dimension order"""
    dims, shape = case["dims"], case["shape"]
    vals = np_values(case)
    coords = {}
    for i, d in enumerate(dims):
        coords[d] = np.arange(shape[i]) * 2.5 + i
    das, full = {}, {}
    tdrop = case["drop"]["T"]
    for v in "TSp":
        a = vals[v]
        ddims = list(dims)
        drop = case["drop"][v]
        # S keeps everything when T drops something, so that T and S together
        # span all dims
        if v == "S" and tdrop != "none":
            drop = "none"
        if v == "p":
            if case["p"] == "float":
                fp = float(vals["p"].ravel()[0]) if vals["p"].size else 1e5
                fp = 101325.0 if np.isnan(fp) else fp
                das["p"] = fp
                full["p"] = np.full(shape, fp)
                continue
            if case["p"] == "z":
                keep = [d for d in dims if d == "z_l"]
                idx = tuple(slice(None) if d in keep else 0 for d in dims)
                full["p"] = np.broadcast_to(
                    a[tuple(slice(None) if d in keep else slice(0, 1) for d in dims)], shape
                )
                a = a[idx]
                ddims = keep
                drop = "none"
        if drop != "none" and ddims:
            k = 0 if drop == "first" else len(ddims) - 1
            full[v] = np.broadcast_to(np.take(a, [0], axis=k), shape)
            a = np.take(a, 0, axis=k)
            ddims = [d for j, d in enumerate(ddims) if j != k]
        elif v not in full:
            full[v] = a
        p = gen.perm_of(case["perm"][v], len(ddims))
        da = xr.DataArray(
            a,
            dims=ddims,
            coords={d: coords[d] for d in ddims},
            name={"T": "thetao", "S": "so", "p": "pres"}[v] if case["named"] else None,
            attrs=gen.attrs_of(case["attrs"]),
        ).transpose(*[ddims[j] for j in p])
        if case["chunk"]:
            da = gen.chunked(da, {d: case["chunk"] for d in ddims})
        das[v] = da
    return das, full, coords


def is_f4(case):
    return "f4" in case["dtype"].values()


def nontrivial(case):
    n = int(np.prod(case["shape"])) if case["shape"] else 1
    return n >= 2 and not all(k == "const" for k in case["kind"].values())
