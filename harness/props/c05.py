"""C05 - local steric sea level"""

import numpy as np
from hypothesis import strategies as st

import momlevel

from .. import gen, large, ocean, orc
from ..core import Prop, Sub, check, close, has_attrs, same_coords, sut, vals


@st.composite
def cases(draw):
    return {
        "o": draw(ocean.oceans(names=True)),
        "ref": draw(gen.weighted(("default", 3), ("supplied", 2))),
        "k": draw(st.integers(0, 3)),
        "domain": draw(gen.often(0.5)),
        "strictoff": draw(gen.often(0.2)),
        # a supplied reference of another origin: more or less land, holes, another
        # dimension order
        "refland": draw(gen.weighted(("same", 2), ("more", 2), ("less", 1))),
        "refperm": draw(gen.weighted((0, 2), (1, 1))) and draw(gen.seeds()),
        "verbose": draw(gen.often(0.15)),
    }


def prepare(case):
    """dataset, keyword arguments, numbers of the reference state"""
    c = case["o"]
    o = ocean.arrays(c)
    ds = ocean.dataset(c, o)
    kw, patm_np = ocean.steric_kw(c, o)
    if case["ref"] == "supplied":
        other = ocean.arrays(c, salt=100, nt=2)
        rr = gen.rng(c["seed"], 900)
        shp = other.shape[1:]
        if case.get("refland") == "more":
            land = rr.random(shp) < 0.25
            land[:, rr.random(shp[1:]) < 0.2] = True
            land[0, 0, 0] = False
            for a, frac in ((other.vol, 1.0), (other.T, 0.5), (other.S, 0.5)):
                a[:, land & (rr.random(shp) < frac)] = np.nan
        elif case.get("refland") == "less":
            for a, (lo, hi) in ((other.vol, (500.0, 1500.0)), (other.T, (-2.0, 35.0)), (other.S, (0.0, 42.0))):
                fill = rr.uniform(lo, hi, a.shape).astype(a.dtype)
                a[...] = np.where(np.isnan(a), fill, a)
        r = ocean.reference(c, other, patm_np, k=case["k"] % 2)
        ref = ocean.ref_dataset(c, r)
        if case.get("refperm"):
            d3 = list(ref["volcello"].dims)
            for i, v in enumerate(("thetao", "so", "volcello", "rho")):
                ref[v] = ref[v].transpose(*[d3[j] for j in gen.perm_of(case["refperm"] + i, 3)])
        kw["reference"] = ref
    else:
        r = ocean.reference(c, o, patm_np, k=0)
    if case["strictoff"]:
        kw["strict"] = False
    if case.get("verbose"):
        kw["verbose"] = True
    return c, o, ds, kw, patm_np, r


def check_meta(what, da, c, units, dtype):
    has_attrs(what, da, {"units": units})
    enc = da.encoding.get("dtype")
    check(
        enc is not None and np.dtype(enc) == np.dtype(dtype),
        f"{what}: encoding dtype is {enc!r}, expected {dtype!r}",
    )


def f_local(case, rec):
    c, o, ds, kw, patm_np, r = prepare(case)
    n = ocean.names_of(c)
    if case["domain"]:
        kw["domain"] = "local"
    res, ref = sut("steric", momlevel.steric, ds, **kw)
    drho, sl, tol_d, tol_s = ocean.local(c, o, r, patm_np)
    check(set(res.data_vars) == {"delta_rho", "steric"}, f"variables {sorted(res.data_vars)}")
    close("delta_rho", vals("delta_rho", res["delta_rho"], [n["t"], n["z"], n["y"], n["x"]]), drho, rtol=1e-9, atol=tol_d)
    close("steric", vals("steric", res["steric"], [n["t"], n["y"], n["x"]]), sl, rtol=1e-9, atol=tol_s)
    check(res["steric"].dims[0] == n["t"], f"time is not the leading dimension: {res['steric'].dims}")
    check(res["delta_rho"].dims[0] == n["t"], f"time is not the leading dimension: {res['delta_rho'].dims}")
    co = ocean.axes_coords(c)
    tv = ocean.time_values(c)
    if tv is not None:
        co[n["t"]] = tv
    same_coords("steric", res["steric"], co)
    same_coords("delta_rho", res["delta_rho"], {**co, n["z"]: o.zl})
    for k in list(co) + [n["z"]]:
        check(
            dict(res[k].attrs) == dict(ds[k].attrs),
            f"attributes of coordinate {k!r}: {res[k].attrs}, expected {ds[k].attrs}",
        )
    dt = c["dtype_out"] or "float32"
    check_meta("steric", res["steric"], c, "m", dt)
    check_meta("delta_rho", res["delta_rho"], c, "kg m-3", dt)
    rec.nt(o.shape[1] > 1 and bool(np.nanmax(np.abs(np.nan_to_num(sl.astype(float)))) > 0))
    rec.label(f"land {c['land']}")
    rec.label(c["eos"])
    rec.label("reference " + case["ref"])
    rec.label("other land in the reference", case["ref"] == "supplied" and case.get("refland", "same") != "same")
    rec.label("patm " + c["patm"])
    rec.label("dask", c["chunk"] > 0)


PROP = Prop(
    "C05",
    "datasets of 1-4 times x 1-6 levels x 1-4 x 1-4 columns (each dimension larger now "
    "and then: 14 times, 35 levels, 24 rows), five naming schemes, any "
    "dimension order, four land patterns, partial cells, missing temperatures, "
    "default or supplied reference (also with other land than the state), atmospheric pressure number or field, both "
    "equations of state, dask chunks. Non-trivial: more than one level and a non-zero "
    "sea level somewhere.",
    [
        Sub("local", cases(), f_local, quick=1280, thorough=9600, shards=8),
        large.sub(cases(), f_local, large.ocean),
        large.sub(cases(), f_local, large.years, name="long"),
    ],
    assumptions=["the dataset passes validation", "interfaces increase strictly"],
)
