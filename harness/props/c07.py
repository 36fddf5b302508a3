"""C07 - thermosteric and halosteric contributions"""

import numpy as np
from hypothesis import strategies as st

import momlevel

from .. import gen, large, ocean
from ..core import Prop, Sub, check, close, must_raise, sut, vals
from .c05 import cases as base_cases
from .c05 import check_meta, prepare


@st.composite
def cases(draw):
    case = draw(base_cases())
    case["variant"] = draw(st.sampled_from(["thermosteric", "halosteric"]))
    case["global"] = draw(gen.often(0.5))
    case["wrapper"] = draw(gen.often(0.5))
    return case


def call(case, ds, kw, variant=None, wrapper=None):
    variant = variant or case["variant"]
    wrapper = case["wrapper"] if wrapper is None else wrapper
    if wrapper:
        f = {"thermosteric": momlevel.thermosteric, "halosteric": momlevel.halosteric, "steric": momlevel.steric}[variant]
        return sut(variant, f, ds, **kw)
    return sut(f"steric(variant={variant!r})", momlevel.steric, ds, variant=variant, **kw)


def f_variant(case, rec):
    """value: only one of temperature and salinity departs from the reference"""
    c, o, ds, kw, patm_np, r = prepare(case)
    n = ocean.names_of(c)
    kw["domain"] = "global" if case["global"] else "local"
    v = case["variant"]
    res, _ = call(case, ds, kw)
    dt = c["dtype_out"] or "float32"
    check(v in res.data_vars, f"result has no variable {v!r}: {list(res.data_vars)}")
    if case["global"]:
        H, sl, tol = ocean.globl(c, o, r, patm_np, v)
        close(v, vals(v, res[v], [n["t"]]), sl, rtol=1e-9, atol=tol)
        close("reference_height", vals("reference_height", res["reference_height"], []), H, rtol=1e-12)
    else:
        drho, sl, tol_d, tol = ocean.local(c, o, r, patm_np, v)
        close("delta_rho", vals("delta_rho", res["delta_rho"], [n["t"], n["z"], n["y"], n["x"]]), drho, rtol=1e-9, atol=tol_d)
        close(v, vals(v, res[v], [n["t"], n["y"], n["x"]]), sl, rtol=1e-9, atol=tol)
    check_meta(v, res[v], c, "m", dt)
    rec.nt(bool(np.max(np.abs(np.nan_to_num(sl.astype(float)))) > tol))
    rec.label(f"{v} {kw['domain']}")


def f_isolate(case, rec):
    """changing the held variable (away from the reference) changes nothing"""
    c, o, ds, kw, patm_np, r = prepare(case)
    kw["domain"] = "global" if case["global"] else "local"
    held = "so" if case["variant"] == "thermosteric" else "thetao"
    a = ds[held]
    n = ocean.names_of(c)
    start = 0 if case["ref"] == "supplied" else 1
    if o.shape[0] <= start:
        return
    # missing values stay where they are
    f = a.isel({n["t"]: slice(start, None)}) * 0.5 + 3.0
    new = a.copy(deep=True)
    new = new.load()
    new[{n["t"]: slice(start, None)}] = f.values
    ds2 = ds.assign({held: new})
    x, _ = call(case, ds, kw)
    y, _ = call(case, ds2, kw)
    v = case["variant"]
    tol = 1e-12
    close(f"{v} after changing {held}", np.asarray(y[v].values), np.asarray(x[v].values), rtol=1e-12, atol=tol)
    rec.nt(bool(np.nanmax(np.abs(np.nan_to_num(x[v].values))) > 0))


def f_linear(case, rec):
    """linear equation of state: the two contributions add up to the whole; and all
    are zero at the reference time"""
    case = dict(case, o=dict(case["o"], eos="linear" if case["linear"] else case["o"]["eos"], tsholes=0.0, dtype="f8"))
    c, o, ds, kw, patm_np, r = prepare(case)
    kw["domain"] = "local"
    n = ocean.names_of(c)
    out = {}
    for v in ("steric", "thermosteric", "halosteric"):
        out[v] = call(case, ds, kw, variant=v)[0][v].transpose(n["t"], n["y"], n["x"]).values
        if case["ref"] == "default":
            z = out[v][0]
            close(f"{v} at the reference time", np.nan_to_num(z), np.zeros_like(z), atol=1e-9)
    if case["linear"]:
        close("thermosteric + halosteric", out["thermosteric"] + out["halosteric"], out["steric"], rtol=1e-9, atol=1e-8)
    rec.nt(ocean.changing(o))
    rec.label("linear", case["linear"])


def f_unknown(case, rec):
    c, o, ds, kw, patm_np, r = prepare(case["base"])
    name = case["name"]
    if name in ("steric", "thermosteric", "halosteric"):
        return
    must_raise(f"steric(variant={name!r})", momlevel.steric, ds, variant=name, **kw)
    rec.nt()


@st.composite
def lin_cases(draw):
    case = draw(cases())
    case["linear"] = draw(gen.often(0.7))
    return case


PROP = Prop(
    "C07",
    "the datasets of C05, both variants, wrappers and the variant argument, both "
    "domains. Non-trivial: the contribution is non-zero somewhere (additivity: "
    "temperature or salinity changes in time).",
    [
        Sub("value", cases(), f_variant, quick=800, thorough=6000, shards=8),
        Sub("isolate", cases(), f_isolate, quick=320, thorough=2400, shards=4),
        Sub("additive", lin_cases(), f_linear, quick=320, thorough=2400, shards=4),
        large.sub(cases(), f_variant, large.ocean),
        Sub(
            "unknown",
            st.fixed_dictionaries(
                {
                    "base": base_cases(),
                    "name": st.one_of(
                        st.sampled_from(["Steric", "thermo", "halo", "", "STERIC", "thermosteric ", "dynamic"]),
                        st.text(max_size=6),
                    ),
                }
            ),
            f_unknown,
            quick=120, thorough=900,
            shards=2,
        ),
    ],
    assumptions=["the dataset passes validation"],
)
