"""C11 - buoyancy frequency"""

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import derived

from .. import gen, large, orc
from ..core import Prop, Sub, Violation, close, has_attrs, is_close, same_coords, sut, vals

KID = "n2-adjust-z-not-leading"


@st.composite
def cases(draw, adjust=False):
    nd = draw(gen.weighted((1, 1), (2, 1), (3, 4), (4, 3)))
    return {
        "nd": nd,
        "z": draw(gen.zgrid(3, 8, 40)),
        "shape": [draw(gen.sizes(1, 3, 20, 0.05)) for _ in range(nd - 1)],
        "seed": draw(gen.seeds()),
        "kindT": draw(st.sampled_from(gen.KINDS + ["stable", "stable"])),
        "kindS": draw(st.sampled_from(gen.KINDS)),
        "dtype": draw(gen.weighted(("f8", 6), ("i8", 1))),
        "land": draw(gen.weighted(("none", 2), ("columns", 2), ("bathy", 3), ("holes", 1), ("apart", 1))),
        "zname": draw(gen.weighted(("z_l", 4), ("lev", 2), ("zlevel", 1))),
        "order": draw(gen.weighted(("zfirst", 4), ("tzyx", 2), ("any", 2))),
        "perm": draw(gen.seeds()),
        "permS": draw(gen.often(0.2)),
        "eos": draw(gen.weighted(("Wright", 3), ("linear", 2))),
        "gravity": draw(gen.weighted((None, 4), (-9.81, 1), (-3.7, 1), (-10, 1), (9.8, 1), (-0.5, 1))),
        "patm": draw(gen.weighted(("default", 3), ("float", 1), ("field", 1), ("zero", 1))),
        "dropS": draw(gen.often(0.15)),
        "adjust": adjust or draw(gen.often(0.4)),
        "chunk": draw(gen.weighted((0, 4), (1, 1))),
    }


def state(case):
    """numpy T, S in (z, others...), levels, names of the other dims"""
    zi, zl = gen.build_z(case["z"])
    other = ["yh", "xh", "time"][: case["nd"] - 1]
    shp = [len(zl)] + case["shape"]
    if case["kindT"] == "stable":
        T = 20.0 - np.linspace(0, 15, len(zl)).reshape([-1] + [1] * len(other)) + gen.field(case["seed"], "noise", shp, -1.0, 1.0, salt=1)
    else:
        T = gen.field(case["seed"], case["kindT"], shp, -2, 35, salt=1)
    S = gen.field(case["seed"], case["kindS"], shp, 0, 42, salt=2)
    if case.get("dropS") and other:
        S = np.broadcast_to(S[..., :1], shp).copy()
    T, S = gen.cast(T, case["dtype"]), gen.cast(S, case["dtype"])
    S0 = S
    r = gen.rng(case["seed"], 3)
    if case["land"] != "none":
        T, S = T.astype(float), S.astype(float)
        if case["land"] == "columns":
            m = np.broadcast_to(r.random(shp[1:]) < 0.35, shp)
        elif case["land"] == "bathy":
            nlev = r.integers(0, len(zl) + 1, shp[1:])
            m = np.arange(len(zl)).reshape([-1] + [1] * len(other)) >= nlev[None]
        else:
            m = r.random(shp) < 0.15
        # (missing in the one and not in the other)
        mS = r.random(shp) < 0.15 if case["land"] == "apart" else m
        T, S = np.where(m, np.nan, T), np.where(mS, np.nan, S)
        if case.get("dropS") and other:
            S = S0.astype(float)
    return zi, zl, T, S, other


def dims_order(case, zname, other):
    nat = [zname] + other
    if case["order"] == "zfirst":
        return nat
    if case["order"] == "tzyx" and len(other) == 3:
        return [other[2], zname, other[0], other[1]]
    return [nat[i] for i in gen.perm_of(case["perm"], len(nat))]


def adjusted(n2):
    """right adjustment, vertical axis first"""
    pos = np.where(n2 > 0, n2, np.nan)
    out = pos.copy()
    out[0] = np.where(np.isnan(out[0]), 1e-8, out[0])
    for k in range(1, len(out)):
        out[k] = np.where(np.isnan(out[k]), out[k - 1], out[k])
    return np.where(np.isnan(n2), np.nan, out)


def adjusted_known(n2, dims, zname):
    """what the known finding leads to; n2 in the order of `dims`"""
    pos = np.where(n2 > 0, n2, np.nan)
    pos[0] = np.where(np.isnan(pos[0]), 1e-8, pos[0])
    ax = dims.index(zname)
    out = np.moveaxis(pos.copy(), ax, 0)
    for k in range(1, len(out)):
        out[k] = np.where(np.isnan(out[k]), out[k - 1], out[k])
    out = np.moveaxis(out, 0, ax)
    return np.where(np.isnan(n2), np.nan, out)


def cmp_adjusted(what, got, n2, dims, zname, rec, **tol):
    """got and n2 are in the order of `dims` (that of the array passed in)"""
    ax = dims.index(zname)
    right = np.moveaxis(adjusted(np.moveaxis(n2, ax, 0)), 0, ax)
    try:
        close(what, got, right, **tol)
    except Violation as v:
        if ax == 0:
            raise
        if not is_close(got, adjusted_known(n2, dims, zname), **tol):
            raise
        rec.known_finding(KID, str(v))
        rec.label("known finding")


def f_n2(case, rec):
    zi, zl, T, S, other = state(case)
    zn = case["zname"]
    nat = [zn] + other
    order = dims_order(case, zn, other)
    coords = {zn: zl, **{d: np.arange(T.shape[i + 1]) * 1.0 for i, d in enumerate(other)}}
    dT = xr.DataArray(T, dims=nat, coords=coords, name="thetao", attrs={"units": "degC"}).transpose(*order)
    dS = xr.DataArray(S, dims=nat, coords=coords, name="so").transpose(*(order[::-1] if case["permS"] else order))
    if case.get("dropS") and other:
        # salinity without the last dimension
        dS = dS.isel({other[-1]: 0}, drop=True)
    if case["chunk"] and other and not case["adjust"]:
        dT, dS = [gen.chunked(x, {d: 1 for d in other}).chunk({zn: -1}) for x in (dT, dS)]
    kw = {}
    g = -9.8
    if case["gravity"] is not None:
        g = kw["gravity"] = case["gravity"]
    if zn != "z_l":
        kw["zcoord"] = zn
    kw.update(gen.eos_kw("eos", case["eos"], case["seed"]))
    patm = 101325.0
    if case["patm"] == "float":
        patm = kw["patm"] = 90000.0
    elif case["patm"] == "zero":
        patm = kw["patm"] = 0
    elif case["patm"] == "field" and other:
        patm = gen.field(case["seed"], "noise", T.shape[1:2], 9e4, 1.1e5, salt=5)
        kw["patm"] = xr.DataArray(patm, dims=other[:1], coords={other[0]: coords[other[0]]})
        patm = patm.reshape([1, -1] + [1] * (len(other) - 1))
    p = zl.reshape([-1] + [1] * len(other)) * 1e4 + patm
    a, b = orc.alpha(T, S, p, case["eos"]), orc.beta(T, S, p, case["eos"])
    exp = g * (a * orc.derivative(T, zl, 0) - b * orc.derivative(S, zl, 0))
    exp = exp.astype(float)
    dzmin = np.min(np.diff(zl))
    tol = dict(rtol=1e-9, atol=abs(g) * 1e-12 / dzmin)
    r = sut("calc_n2", derived.calc_n2, dT, dS, **kw)
    got = vals("N2", r, nat)
    close("N2", got, exp, **tol)
    same_coords("N2", r, coords)
    has_attrs("N2", r, {"units": "s-2"})
    if case["adjust"]:
        ra = sut("calc_n2(adjust_negative=True)", derived.calc_n2, dT, dS, adjust_negative=True, **kw)
        raw = r.transpose(*order).values
        # the order in which the known finding acts is that of the unadjusted result
        d = list(r.dims)
        cmp_adjusted("adjusted N2", vals("adjusted N2", ra, d), r.values, d, zn, rec, rtol=1e-12)
        same_coords("adjusted N2", ra, coords)
    fin = np.isfinite(exp)
    rec.nt(fin.any() and bool((exp[fin] != 0).any()) and len(np.unique(np.round(np.diff(zl), 9))) > 1)
    rec.label(case["eos"])
    rec.label("land", case["land"] != "none")
    rec.label("adjust", case["adjust"])


# --- adjust_negative_n2 on its own -------------------------------------------------


@st.composite
def adj_cases(draw):
    nd = draw(gen.weighted((1, 1), (2, 1), (3, 4), (4, 3)))
    return {
        "nd": nd,
        "nz": draw(gen.sizes(1, 7, 60, 0.15)),
        "shape": [draw(gen.sizes(1, 3, 20, 0.05)) for _ in range(nd - 1)],
        "seed": draw(gen.seeds()),
        "neg": draw(st.sampled_from([0.0, 0.2, 0.5, 0.9, 0.98])),
        "wide": draw(gen.often(0.2)),
        "zero": draw(st.sampled_from([0.0, 0.2])),
        "nan": draw(st.sampled_from([0.0, 0.2])),
        "bathy": draw(gen.often(0.4)),
        "zname": draw(gen.weighted(("z_l", 3), ("lev", 2))),
        "order": draw(gen.weighted(("zfirst", 4), ("tzyx", 2), ("any", 2))),
        "perm": draw(gen.seeds()),
        "attrs": draw(st.integers(0, 3)),
    }


def adj_array(case):
    r = gen.rng(case["seed"], 1)
    shp = [case["nz"]] + case["shape"]
    n2 = 10.0 ** (r.uniform(-30, 1, shp) if case.get("wide") else r.uniform(-9, -3, shp))
    u = r.random(shp)
    n2 = np.where(u < case["neg"], -n2, n2)
    n2 = np.where(r.random(shp) < case["zero"], 0.0, n2)
    n2 = np.where(r.random(shp) < case["nan"], np.nan, n2)
    if case["bathy"]:
        nlev = r.integers(0, case["nz"] + 1, shp[1:])
        n2 = np.where(np.arange(case["nz"]).reshape([-1] + [1] * (len(shp) - 1)) >= nlev[None], np.nan, n2)
    return n2


def f_adj(case, rec):
    n2 = adj_array(case)
    zn = case["zname"]
    other = ["yh", "xh", "time"][: case["nd"] - 1]
    nat = [zn] + other
    order = dims_order(case, zn, other)
    coords = {zn: np.arange(case["nz"]) * 10.0 + 5, **{d: np.arange(n2.shape[i + 1]) * 1.0 for i, d in enumerate(other)}}
    at = gen.attrs_of(case["attrs"])
    da = xr.DataArray(n2, dims=nat, coords=coords, name="obvfsq", attrs=at).transpose(*order)
    keep = da.copy(deep=True)
    r = sut("adjust_negative_n2", derived.adjust_negative_n2, da, **({} if zn == "z_l" else {"zcoord": zn}))
    got = vals("adjusted N2", r, order)
    cmp_adjusted("adjusted N2", got, keep.values.copy(), order, zn, rec, rtol=1e-12)
    same_coords("adjusted N2", r, coords)
    has_attrs("adjusted N2", r, at)
    rec.nt(bool((n2 <= 0).any()))
    rec.label("vertical axis first", order[0] == zn)
    rec.label("surface not positive", bool((n2[0] <= 0).any()))


PROP = Prop(
    "C11",
    "temperature/salinity columns of 3-8 (now and then up to 40) levels with 0-3 more dimensions in any "
    "order, irregular levels, land, bathymetry, holes, any gravity/pressure/equation; "
    "N2 fields with negative, zero and missing values. Non-trivial: irregular spacing "
    "and non-zero N2 (value), at least one non-positive value (adjustment).",
    [
        Sub("n2", cases(), f_n2, quick=1600, thorough=12000, shards=8),
        Sub("adjust", adj_cases(), f_adj, quick=1600, thorough=12000, shards=4),
        large.sub(cases(), f_n2, large.columns),
        large.sub(adj_cases(), f_adj, large.columns, name="large_adjust"),
    ],
    assumptions=[
        "at least three levels, strictly increasing",
        "the `interfaces` option is not exercised: it needs numba, which is not installed",
    ],
)
