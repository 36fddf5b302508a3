"""C09 - steric results do not depend on how the same ocean is presented"""

import numpy as np
import xarray as xr
from hypothesis import strategies as st

import cftime
import momlevel

from .. import gen, ocean, orc
from ..core import Prop, Sub, check, close, must_raise, same_coords, sut, sut_report, vals

VARMAP = {"thetao": "temp", "so": "salt", "volcello": "volume", "areacello": "area_t", "deptho": "bathymetry"}


@st.composite
def cases(draw):
    return {
        "o": draw(ocean.oceans(names=False, nt=(1, 5, 40, 0.2), dtypes=(("f8", 1),), chunk=0)),
        "domain": draw(st.sampled_from(["local", "global"])),
        "variant": draw(st.sampled_from(["steric", "thermosteric", "halosteric"])),
        "seed": draw(gen.seeds()),
        "how": draw(
            gen.weighted(
                ("varnames", 3), ("coords", 3), ("order", 2), ("times", 3), ("columns", 3), ("chunks", 2), ("extra", 3), ("ascoords", 1)
            )
        ),
    }


def _call(case, ds, kw, what="steric"):
    return sut(what, momlevel.steric, ds, variant=case["variant"], domain=case["domain"], **kw)


def f_present(case, rec):
    c = case["o"]
    o = ocean.arrays(c)
    ds = ocean.dataset(c, o)
    kw, patm_np = ocean.steric_kw(c, o)
    n = ocean.names_of(c)
    v, how = case["variant"], case["how"]
    base, ref = _call(case, ds, kw)
    r = gen.rng(case["seed"], 1)
    tol = dict(rtol=1e-11, atol=1e-12)
    if case["domain"] == "global":
        tol = dict(rtol=1e-11, atol=1e-12 * float(base["reference_height"]))

    # oracle for the untransformed call, so that a common mistake shows as well
    rr = ocean.reference(c, o, patm_np)
    if case["domain"] == "local":
        exp, at = ocean.local(c, o, rr, patm_np, v)[1::2]
        dims = [n["t"], n["y"], n["x"]]
    else:
        _, exp, at = ocean.globl(c, o, rr, patm_np, v)
        dims = [n["t"]]
    close(v, vals(v, base[v], dims), exp, rtol=1e-9, atol=at)

    def same(what, res, sel=None, names=None):
        a = base[v] if sel is None else base[v].isel(sel)
        d = [(names or {}).get(x, x) for x in dims]
        close(what, vals(what, res[v], d), vals(what, a, dims), **tol)

    if how == "times" or o.shape[0] > 5:
        k = int(r.integers(1, o.shape[0] + 1)) if r.random() < 0.3 else o.shape[0]
        idx = [int(x) for x in r.permutation(o.shape[0])[:k]]
        res, _ = _call(case, ds.isel({n["t"]: idx}), dict(kw, reference=ref), f"steric of times {idx} with the reference")
        same(f"times {idx}", res, sel={n["t"]: idx})
        same_coords(f"times {idx}", res[v], {n["t"]: ds[n["t"]].values[idx]} if n["t"] in ds.coords else {})

    if how == "times":
        pass
    elif how == "varnames":
        k = [x for x in VARMAP if r.random() < 0.7] or ["thetao"]
        ren = {x: VARMAP[x] for x in k}
        kw["varname_map"] = {b: a for a, b in ren.items()}
        res, _ = _call(case, ds.rename(ren), kw, f"steric(varname_map={kw['varname_map']})")
        same("renamed variables", res)
    elif how == "coords":
        alt = ocean.NAMESETS[1 + int(r.integers(len(ocean.NAMESETS) - 1))]
        ren = {n[k]: alt[k] for k in n if n[k] != alt[k] and n[k] in ds.variables or n[k] in ds.dims and n[k] != alt[k]}
        ds2 = ds.rename(ren)
        if "patm" in kw and hasattr(kw["patm"], "dims"):
            kw["patm"] = kw["patm"].rename({k: a for k, a in ren.items() if k in kw["patm"].dims})
        cn = {}
        for k in ("t", "z", "zbounds"):
            if alt[k] != n[k] or r.random() < 0.5:
                cn[k] = alt[k]
        res, _ = _call(case, ds2, dict(kw, coord_names=cn), f"steric(coord_names={cn})")
        same("renamed coordinates", res, names={n[k]: alt[k] for k in n})
    elif how == "order":
        ds2 = ds.copy()
        for name in ("thetao", "so", "volcello"):
            d = list(ds[name].dims)
            ds2[name] = ds[name].transpose(*[d[i] for i in gen.perm_of(int(r.integers(1 << 30)), 4)])
        for name in ("areacello", "deptho"):
            if r.random() < 0.5:
                ds2[name] = ds[name].transpose(*ds[name].dims[::-1])
        res, _ = _call(case, ds2, kw, "steric of transposed variables")
        same("transposed variables", res)
    elif how == "columns" and case["domain"] == "local":
        iy = sorted(int(x) for x in r.permutation(o.shape[2])[: int(r.integers(1, o.shape[2] + 1))])
        ix = sorted(int(x) for x in r.permutation(o.shape[3])[: int(r.integers(1, o.shape[3] + 1))])
        sel = {n["y"]: iy, n["x"]: ix}
        sub = ds.isel(sel)
        if "patm" in kw and hasattr(kw["patm"], "dims"):
            kw["patm"] = kw["patm"].isel(sel)
        kw["strict"] = False
        res, _ = _call(case, sub, kw, f"steric of columns {iy} x {ix}")
        same("some columns", res, sel=sel)
        res, _ = _call(case, sub, dict(kw, reference=ref.isel(sel)), f"steric of columns {iy} x {ix}")
        same("some columns, reference given", res, sel=sel)
    elif how == "columns":
        # a global mean does not depend on how the columns are arranged
        iy = [int(x) for x in r.permutation(o.shape[2])]
        ix = [int(x) for x in r.permutation(o.shape[3])]
        sel = {n["y"]: iy, n["x"]: ix}
        if "patm" in kw and hasattr(kw["patm"], "dims"):
            kw["patm"] = kw["patm"].isel(sel)
        res, _ = _call(case, ds.isel(sel), kw, "steric of rearranged columns")
        same("rearranged columns", res)
    elif how == "ascoords":
        k = [x for x in ("areacello", "deptho", "volcello") if r.random() < 0.6] or ["deptho"]
        res, _ = _call(case, ds.set_coords(k), kw, f"steric with {k} as coordinates")
        same("coordinates", res)
    elif how == "chunks":
        ch = {d: int(r.integers(1, 4)) for d in (n["t"], n["z"], n["y"], n["x"])}
        res, _ = _call(case, ds.chunk(ch), kw, f"steric of chunks {ch}")
        same("chunked", res)
    else:
        ds2 = ds.assign(other=ds["thetao"] * 0 + 5, name=xr.DataArray("abc"))
        for _ in range(3):
            ocean.add_more(ds2, n, o.shape, r)
        ds2 = xr.Dataset({k: ds2[k] for k in sorted(ds2.data_vars, reverse=True)}, coords=ds2.coords)
        res, _ = _call(case, ds2, kw, "steric with more variables")
        same("more variables", res)
    rec.nt(ocean.changing(o) and int(np.prod(o.shape[1:])) > 1)
    rec.label(f"{how} {case['domain']}")


# --- density of the layer above: strictness, rhozero --------------------------------


def f_rules(case, rec):
    c = dict(case["o"], rhozero=None)
    o = ocean.arrays(c)
    ds = ocean.dataset(c, o)
    kw, _ = ocean.steric_kw(c, o)
    v = case["variant"]
    base, _ = _call(case, ds, kw)
    if case["domain"] == "local":
        res, _ = _call(case, ds, dict(kw, rhozero=case["rhozero"]))
        close("other rhozero", res[v].values * case["rhozero"], base[v].values * 1035.0, rtol=1e-9, atol=1e-9)
    bad = ds.assign(areacello=ds["areacello"] * case["bad"])
    must_raise(
        f"steric with {case['bad']} times the ocean area", momlevel.steric, bad, variant=v, domain=case["domain"], **kw
    )
    if case["domain"] == "local":
        out, exc, wl, _ = sut_report(momlevel.steric, bad, variant=v, domain="local", strict=False, **kw)
        check(exc is None, f"steric(strict=False) raised {type(exc).__name__}: {exc}")
        check(any("areacello" in str(w.message) for w in wl), "steric(strict=False) gave no warning about the area")
        close("strict=False", out[0][v].values, base[v].values, rtol=1e-11, atol=1e-12)
    # ... whether or not a reference is given
    _, ref = _call(case, ds, kw)
    must_raise(
        f"steric with {case['bad']} times the ocean area and a reference", momlevel.steric, bad, reference=ref, variant=v, domain=case["domain"], **kw
    )
    must_raise(
        f"steric with a reference of {case['bad']} times the ocean area", momlevel.steric, ds,
        reference=ref.assign(areacello=ref["areacello"] * case["bad"]), variant=v, domain=case["domain"], **kw
    )
    # each required variable
    req = ["thetao", "so", "volcello", "areacello"] + (["deptho"] if case["domain"] == "local" else [])
    name = req[case["seed"] % len(req)]
    must_raise(f"steric without {name}", momlevel.steric, ds.drop_vars(name), variant=v, domain=case["domain"], **kw)
    must_raise(f"steric without {name}, reference given", momlevel.steric, ds.drop_vars(name), reference=ref, variant=v, domain=case["domain"], **kw)
    must_raise(f"steric(strict=False) without {name}", momlevel.steric, ds.drop_vars(name), variant=v, domain=case["domain"], strict=False, **kw)
    # each variable of a reference
    need = ["thetao", "so", "volcello", "areacello", "rho", "volo", "masso", "rhoga"]
    name = need[case["seed"] // 7 % len(need)]
    for s in ({}, {"strict": False}):
        must_raise(
            f"steric with a reference without {name} {s}", momlevel.steric, ds, reference=ref.drop_vars(name), variant=v, domain=case["domain"], **s, **kw
        )
    rec.nt(ocean.changing(o))


# --- annual means ----------------------------------------------------------------------


@st.composite
def annual_cases(draw):
    return {
        "o": draw(ocean.oceans(names=True, nt=(1, 1), nz=(1, 3), nxy=(1, 2), dtypes=(("f8", 1),), time="none", chunk=0)),
        "ax": draw(gen.monthly_axis(1, 2)),
        "domain": draw(st.sampled_from(["local", "global"])),
        "variant": draw(st.sampled_from(["steric", "thermosteric", "halosteric"])),
        "dtype": draw(gen.weighted((None, 1), ("float64", 1))),
    }


def f_annual(case, rec):
    c = dict(case["o"], dtype_out=case["dtype"])
    dates = gen.build_monthly(case["ax"])
    o = ocean.arrays(c, nt=len(dates))
    ds = ocean.dataset(c, o, tvals=gen.obj_array(dates))
    kw, patm_np = ocean.steric_kw(c, o)
    n = ocean.names_of(c)
    v = case["variant"]
    rr = ocean.reference(c, o, patm_np)
    if case["domain"] == "global" and c["seed"] % 2:
        ds = ds.drop_vars(["deptho", n["zbounds"]])
    res, _ = _call(case, ds, dict(kw, annual=True), "steric(annual=True)")
    if case["domain"] == "local":
        exp, at = ocean.local(c, o, rr, patm_np, v)[1::2]
        dims = [n["t"], n["y"], n["x"]]
    else:
        _, exp, at = ocean.globl(c, o, rr, patm_np, v)
        dims = [n["t"]]
    cal = case["ax"]["cal"]
    w = np.array([orc.month_length(d.year, d.month, cal) for d in dates], dtype=orc.LD)
    want = []
    for k in range(case["ax"]["ny"]):
        sl = slice(12 * k, 12 * k + 12)
        ww = w[sl].reshape((12,) + (1,) * (exp.ndim - 1))
        want.append((exp[sl] * ww).sum(axis=0) / ww.sum())
    close(f"annual {v}", vals(v, res[v], dims), np.array(want), rtol=1e-9, atol=at)
    years = [d.year for d in res[n["t"]].values]
    check(years == list(range(case["ax"]["y0"], case["ax"]["y0"] + case["ax"]["ny"])), f"years {years}")
    dt = c["dtype_out"] or "float32"
    enc = res[v].encoding.get("dtype")
    check(enc is not None and np.dtype(enc) == np.dtype(dt), f"annual {v}: encoding dtype {enc!r}, expected {dt!r}")
    rec.nt(True)
    rec.label(cal)


@st.composite
def rule_cases(draw):
    return {
        "o": draw(ocean.oceans(names=True, dtypes=(("f8", 1),), chunk=0)),
        "domain": draw(st.sampled_from(["local", "local", "global"])),
        "variant": draw(st.sampled_from(["steric", "thermosteric", "halosteric"])),
        "seed": draw(gen.seeds()),
        "rhozero": draw(st.sampled_from([1000.0, 1025.0, 1027.0, 1040, 2.0])),
        "bad": draw(st.sampled_from([0.5, 0.9, 1.1, 1.4, 3.0, 1e-3])),
    }


PROP = Prop(
    "C09",
    "an ocean dataset (as C05) and a change of presentation: variable names, "
    "coordinate names, dimension order, subset or permutation of times, subset or "
    "permutation of columns, chunks, additional variables; annual means on every "
    "calendar. Non-trivial: more than one cell and a state that changes in time.",
    [
        Sub("presentation", cases(), f_present, quick=800, thorough=6000, shards=8),
        Sub("rules", rule_cases(), f_rules, quick=240, thorough=1800, shards=4),
        Sub("annual", annual_cases(), f_annual, quick=160, thorough=1200, shards=4),
    ],
    assumptions=["the dataset passes validation"],
)
