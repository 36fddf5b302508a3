"""C08 - reference state and global totals"""

import numpy as np
import xarray as xr
from hypothesis import strategies as st

import momlevel
from momlevel import derived, reference, util

from .. import gen, large, ocean, orc
from ..core import Prop, Sub, check, close, has_attrs, must_raise, same_coords, sut, vals


@st.composite
def cases(draw):
    o = draw(ocean.oceans(names=True))
    return {
        "o": o,
        "idx": draw(gen.weighted(("default", 3), ("given", 5))),
        "k": draw(st.integers(-o["nt"], o["nt"] - 1)),
    }


def _eos_kw(c, key):
    return gen.eos_kw(key, c["eos"], c["seed"])


def check_state(ref, c, o, r):
    n = ocean.names_of(c)
    d3 = [n["z"], n["y"], n["x"]]
    f4 = c["dtype"] == "f4"
    rt = 4e-6 if f4 else 1e-12
    need = {"thetao", "so", "volcello", "areacello", "rho", "volo", "masso", "rhoga"}
    check(need <= set(ref.data_vars), f"reference lacks {sorted(need - set(ref.data_vars))}")
    check(n["t"] not in ref.variables and n["t"] not in ref.dims, "reference has a time coordinate")
    close("reference thetao", vals("thetao", ref["thetao"], d3), r.T)
    close("reference so", vals("so", ref["so"], d3), r.S)
    close("reference volcello", vals("volcello", ref["volcello"], d3), r.vol)
    close("reference areacello", vals("areacello", ref["areacello"], d3[1:]), r.area)
    close("reference rho", vals("rho", ref["rho"], d3), r.rho, rtol=rt)
    close("volo", vals("volo", ref["volo"], []), r.volo, rtol=1e-12)
    close("masso", vals("masso", ref["masso"], []), r.masso, rtol=rt)
    close("rhoga", vals("rhoga", ref["rhoga"], []), r.rhoga, rtol=rt)
    same_coords("reference", ref, {**ocean.axes_coords(c), n["z"]: o.zl})


def f_state(case, rec):
    c = case["o"]
    o = ocean.arrays(c)
    ds = ocean.dataset(c, o)
    kw, patm_np = ocean.common_kw(c, o)
    kw.update(_eos_kw(c, "eos"))
    k = 0
    if case["idx"] == "given":
        k = kw["time_index"] = case["k"]
    ref = sut("setup_reference_state", reference.setup_reference_state, ds, **kw)
    r = ocean.reference(c, o, patm_np, k=k)
    check_state(ref, c, o, r)
    for v, u in (("volo", "m3"), ("masso", "kg"), ("rhoga", "kg m-3"), ("rho", "kg m-3")):
        has_attrs(v, ref[v], {"units": u})
    sut("validate_dataset(reference)", util.validate_dataset, ref, reference=True)
    # a time that is not there
    off = o.shape[0] + abs(case["k"]) if case["k"] >= 0 else case["k"] - o.shape[0]
    must_raise(f"setup_reference_state(time_index={off}) with {o.shape[0]} times", reference.setup_reference_state, ds, **dict(kw, time_index=off))
    rec.nt(o.shape[0] > 1 and k % o.shape[0] != 0)
    rec.label("missing volume", bool(np.isnan(r.vol).any()))
    rec.label("time index given", case["idx"] == "given")


def f_reuse(case, rec):
    """steric returns the reference it used; passing it back changes nothing"""
    c = case["o"]
    o = ocean.arrays(c)
    ds = ocean.dataset(c, o)
    kw, patm_np = ocean.steric_kw(c, o)
    kw["domain"] = case["domain"]
    kw["variant"] = case["variant"]
    res, ref = sut("steric", momlevel.steric, ds, **kw)
    check_state(ref, c, o, ocean.reference(c, o, patm_np, k=0))
    keep = ref.copy(deep=True)
    res2, ref2 = sut("steric with the returned reference", momlevel.steric, ds, reference=ref, **kw)
    d = gen.same_dataset(ref2.load(), keep.load())
    check(d is None, f"the supplied reference is not returned as it was: {d}")
    for v in res.data_vars:
        close(f"{v} with the returned reference", res2[v].values, res[v].values, rtol=1e-12, atol=1e-13)
    must_raise("steric with a reference that is not a dataset", momlevel.steric, ds, reference={"rho": 1}, **kw)
    # a reference with another density field is honoured
    other = ref.assign(
        rho=ref["rho"] + 1.0, masso=ref["masso"] * 1.001, rhoga=ref["rhoga"] * 1.001
    )
    res3, _ = sut("steric", momlevel.steric, ds, reference=other, **kw)
    v = case["variant"]
    n = ocean.names_of(c)
    f4 = c["dtype"] == "f4"
    eps = float(np.finfo(np.float32).eps)
    if case["domain"] == "local":
        dz = orc.overlap_dz(o.zi, o.depth)
        drho = ocean.local(c, o, ocean.reference(c, o, patm_np), patm_np, v)[0].astype(float)
        rz = 1035.0 if c["rhozero"] is None else c["rhozero"]
        add = np.nansum(np.where(np.isnan(drho), 0.0, dz[None]), axis=1) / rz
        dims = [n["t"], n["y"], n["x"]]
        # single precision: each density is off by its rounding, over the whole column
        at = 16 * eps * 1030.0 * float(np.nanmax(dz.sum(axis=0), initial=0.0)) / rz if f4 else 1e-9
        close("sea level, denser reference", vals(v, res3[v], dims), vals(v, res[v], dims) + add, rtol=1e-9, atol=max(at, 1e-9))
    else:
        H = float(vals("reference_height", res["reference_height"], []))
        close("sea level, denser reference", vals(v, res3[v], [n["t"]]), vals(v, res[v], [n["t"]]) + H * np.log(1.001), rtol=1e-9, atol=H * (16 * eps if f4 else 1e-11))
    rec.nt(ocean.changing(o))
    rec.label(f"{case['domain']} {v}")


def f_totals(case, rec):
    """calc_volo, calc_masso, calc_rhoga on any arrays"""
    r = gen.rng(case["seed"], 1)
    dims = ["z_l", "yh", "xh"]
    shp = case["shape"][:3]
    nt = case["shape"][3]
    vol = r.uniform(0.1, 1e3, shp)
    vol = np.where(r.random(shp) < case["nan"], np.nan, vol)
    rho = r.uniform(990, 1060, [nt] + shp)
    rho = np.where(r.random([nt] + shp) < case["nan"], np.nan, rho)
    p3, p4 = gen.perm_of(case["seed"], 3), gen.perm_of(case["seed"] + 1, 4)
    V = xr.DataArray(vol, dims=dims, name="volcello").transpose(*[dims[i] for i in p3])
    td = [case["tname"]] + dims
    R = xr.DataArray(rho, dims=td, coords={case["tname"]: np.arange(nt)}).transpose(*[td[i] for i in p4])
    if case["chunk"]:
        V = gen.chunked(V, {d: case["chunk"] for d in dims})
        R = gen.chunked(R, {d: case["chunk"] for d in td})
    kw = {} if case["tname"] == "time" else {"tcoord": case["tname"]}
    m = sut("calc_masso", derived.calc_masso, R, V, **kw)
    em = np.nansum(rho * vol[None], axis=(1, 2, 3))
    close("mass", vals("mass", m, [case["tname"]]), em, rtol=1e-12)
    same_coords("mass", m, {case["tname"]: np.arange(nt)})
    m0 = sut("calc_masso", derived.calc_masso, R.isel({case["tname"]: 0}, drop=True), V, **kw)
    close("mass of one time", vals("mass", m0, []), em[0], rtol=1e-12)
    # fewer dimensions: a section, a column, a single box
    for k in range(1, 4):
        sel = {d: 0 for d in dims[:k]}
        mk = sut("calc_masso", derived.calc_masso, R.isel(sel), V.isel(sel), **kw)
        part = rho[(slice(None),) + (0,) * k] * vol[(0,) * k][None]
        part = part.reshape(nt, -1)
        got, exp = vals("mass", mk, [case["tname"]]), np.nansum(part, axis=1)
        if k == 3:  # (nothing to sum over: a missing box may stay missing)
            got, exp = np.where(np.isnan(part[:, 0]), 0.0, got), exp
        close(f"mass without {dims[:k]}", got, exp, rtol=1e-12)
    v = sut("calc_volo", derived.calc_volo, V)
    close("volume", vals("volume", v, []), np.nansum(vol), rtol=1e-12)
    has_attrs("mass", m, {"units": "kg"})
    has_attrs("volume", v, {"units": "m3"})
    if np.nansum(vol) > 0:
        g = sut("calc_rhoga", derived.calc_rhoga, m, v)
        close("mean density", vals("mean density", g, [case["tname"]]), em / np.nansum(vol), rtol=1e-12)
        has_attrs("mean density", g, {"units": "kg m-3"})
    must_raise("calc_volo of a 4-dimensional array", derived.calc_volo, R)
    must_raise("calc_volo of a 2-dimensional array", derived.calc_volo, V.isel(z_l=0))
    rec.nt(int(np.prod(shp)) > 1)


PROP = Prop(
    "C08",
    "the datasets of C05, any time index (negative too); totals of random labelled "
    "arrays. Non-trivial: a time index other than the first (state), a state that "
    "changes in time (reuse), more than one cell (totals).",
    [
        Sub("state", cases(), f_state, quick=960, thorough=7200, shards=8),
        large.sub(cases(), f_state, large.ocean),
        Sub(
            "reuse",
            st.fixed_dictionaries(
                {
                    "o": ocean.oceans(names=True),
                    "domain": st.sampled_from(["local", "global"]),
                    "variant": st.sampled_from(["steric", "thermosteric", "halosteric"]),
                }
            ),
            f_reuse,
            quick=480, thorough=3600,
            shards=8,
        ),
        Sub(
            "totals",
            st.fixed_dictionaries(
                {
                    "seed": gen.seeds(),
                    "shape": st.lists(st.integers(1, 4), min_size=4, max_size=4),
                    "nan": gen.weighted((0.0, 1), (0.3, 2)),
                    "tname": st.sampled_from(["time", "t", "Time"]),
                    "chunk": gen.weighted((0, 4), (2, 1)),
                }
            ),
            f_totals,
            quick=800, thorough=6000,
            shards=4,
        ),
    ],
    assumptions=["the ocean volume is positive"],
)
