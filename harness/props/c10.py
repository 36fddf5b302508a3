"""C10 - validation of input and reference datasets"""

import re

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import util

from .. import gen, ocean
from ..core import Prop, Sub, check, must_raise, sut, sut_report

VARS4 = ["thetao", "so", "volcello"]


@st.composite
def cases(draw):
    reference = draw(gen.often(0.5))
    base = VARS4 + ["areacello"] + (["rho", "volo", "masso", "rhoga"] if reference else [])
    kinds = ["missing", "rank", "area"] + (["time", "scalar"] if reference else [])
    nd = draw(gen.weighted((0, 3), (1, 5), (2, 3), (3, 1)))
    defects = []
    for _ in range(nd):
        k = draw(st.sampled_from(kinds))
        if k == "missing":
            defects.append([k, draw(st.sampled_from(base + ["extra"]))])
        elif k == "rank":
            defects.append([k, draw(st.sampled_from(VARS4 + ["areacello", "deptho"] + (["rho"] if reference else []))), draw(st.sampled_from(["more", "less"]))])
        elif k == "scalar":
            defects.append([k, draw(st.sampled_from(["volo", "masso", "rhoga"]))])
        elif k == "area":
            defects.append([k, draw(st.sampled_from([0.0, 0.5, 0.9, 0.97, 0.979, 0.981, 1.019, 1.021, 1.03, 1.1, 1.41, 100.0, -1.0]))])
        else:
            defects.append([k, draw(st.sampled_from(["time", "Time", "TIME"])), draw(st.sampled_from(["scalar", "dim"]))])
    return {
        "o": draw(ocean.oceans(names=False, chunk=0)),
        "reference": reference,
        "defects": defects,
        "strict": draw(gen.weighted((None, 3), (True, 1), (False, 3))),
        "extra": draw(gen.weighted(("none", 2), ("list", 2), ("str", 1), ("coord", 2), ("many", 1))),
        "ascoord": draw(gen.often(0.2)),
        "withdepth": draw(gen.often(0.7)),
    }


def f_validate(case, rec):
    c = case["o"]
    o = ocean.arrays(c)
    if case["reference"]:
        r = ocean.reference(c, o, 101325.0)
        ds = ocean.ref_dataset(c, r)
        if case["withdepth"]:
            ds["deptho"] = (("yh", "xh"), o.depth)
    else:
        ds = ocean.dataset(c, o)
        if not case["withdepth"]:
            ds = ds.drop_vars("deptho")
    kw = {}
    if case["strict"] is not None:
        kw["strict"] = case["strict"]
    extra = []
    if case["extra"] == "list":
        extra = ["z_extra", "cell_extra"]
        kw["additional_vars"] = list(extra)
    elif case["extra"] == "str":
        extra = ["z_extra"]
        kw["additional_vars"] = "z_extra"
    elif case["extra"] == "coord":
        extra = ["z_extra", "z_l", "xh"]
        kw["additional_vars"] = list(extra)
    elif case["extra"] == "many":
        extra = ["z_l", "xh", "yh"] + [f"extra_{k}" for k in range(3 + case["o"]["seed"] % 9)]
        kw["additional_vars"] = list(extra)
    for e in extra:
        if e in ds.coords:
            continue
        ds[e] = xr.DataArray(1.0)
    if case["reference"]:
        kw["reference"] = True

    fatal, named, area_bad = [], [], False
    done = set()  # at most one rank defect per variable: two could cancel
    for d in case["defects"]:
        if d[0] == "missing":
            v = d[1] if d[1] != "extra" else (extra[-1] if extra else None)
            if v is None:
                continue
            ds = ds.drop_vars(v, errors="ignore")
            fatal.append(d)
            named.append(v)
        elif d[0] == "rank":
            v = d[1]
            if v not in ds.variables or v in done:
                continue
            done.add(v)
            if d[2] == "more":
                ds[v] = ds[v].expand_dims("ens")
            else:
                ds[v] = ds[v].isel({ds[v].dims[-1]: 0}, drop=True)
            fatal.append(d)
            named.append(v)
        elif d[0] == "scalar":
            if d[1] in ds.variables and ds[d[1]].ndim == 0:
                ds[d[1]] = ds[d[1]].expand_dims("ens")
                fatal.append(d)
                named.append(d[1])
        elif d[0] == "area":
            if "areacello" in ds.variables:
                ds["areacello"] = ds["areacello"] * d[1]
        else:
            if d[1] in ds.coords:
                continue
            if d[2] == "scalar":
                ds = ds.assign_coords({d[1]: 3.0})
            else:
                ds = ds.assign_coords({d[1]: [1.0, 2.0]})
            fatal.append(d)
            named.append("time")
    if "areacello" in ds.variables:
        err = abs(float(ds["areacello"].sum()) - ocean.AREA) / ocean.AREA
        if abs(err - 0.02) < 1e-6:
            return
        area_bad = err > 0.02
    if case.get("ascoord"):
        # auxiliary coordinates rather than data variables
        k = [v for v in list(ds.data_vars) if (sum(map(ord, v)) + case["o"]["seed"]) % 2]
        ds = ds.set_coords(k)
    strict = case["strict"] is not False
    res, exc, wl, out = sut_report(util.validate_dataset, ds, **kw)
    want = bool(fatal) or (area_bad and strict)
    if want:
        check(exc is not None, f"accepted a dataset with {fatal or 'a wrong area'} (area wrong: {area_bad}, strict={strict})")
        check(isinstance(exc, Exception) and not isinstance(exc, (KeyError, AttributeError, TypeError, IndexError)), f"failed with {type(exc).__name__}: {exc}")
        text = (out + str(exc)).lower()
        for v in set(named):
            check(re.search(rf"(?<![a-z0-9_]){re.escape(v.lower())}(?![a-z0-9_])", text) is not None, f"the report does not mention {v!r}: {text[:300]!r}")
    else:
        check(exc is None, f"rejected a valid dataset: {type(exc).__name__}: {exc}; {out[:300]!r}")
    if area_bad:
        txt = out + " ".join(str(w.message) for w in wl)
        check("areacello" in txt, "the wrong cell area is not reported")
        if not strict:
            check(any("areacello" in str(w.message) for w in wl), "no warning about the wrong cell area")
    elif not fatal:
        check(not any("areacello" in str(w.message) for w in wl), "warning about a cell area that is right")
    rec.nt(bool(fatal) or area_bad or bool(extra))
    rec.label("reference" if case["reference"] else "input")
    rec.label("valid", not want)
    rec.label("several defects", len(fatal) + area_bad > 1)
    rec.label("area only, not strict", area_bad and not strict and not fatal)


@st.composite
def area_cases(draw):
    return {
        "seed": draw(gen.seeds()),
        "shape": draw(st.lists(gen.size(1, 4), min_size=1, max_size=2)),
        "nan": draw(gen.weighted((0.0, 1), (0.3, 1))),
        "rel": draw(st.one_of(st.sampled_from([0.0, 0.019, -0.019, 0.0201, -0.0201, -1.0, 0.41, 5.0]), st.floats(-0.1, 0.1))),
        "ref": draw(gen.weighted((None, 2), (1.0, 1), (5.1e14, 1))),
        "tol": draw(gen.weighted((None, 2), (0.05, 1), (1e-4, 1))),
        "odd": draw(gen.weighted((None, 3), ("negative", 1), ("zero", 1), ("huge", 1))),
        "dtype": draw(gen.weighted(("f8", 4), ("f4", 1))),
        "chunk": draw(gen.often(0.15)),
    }


def f_area(case, rec):
    r = gen.rng(case["seed"], 1)
    shp = case["shape"]
    a = r.uniform(0.5, 1.5, shp)
    m = r.random(shp) < case["nan"]
    if m.all():
        m[:] = False
    odd = r.random(shp) < 0.3
    odd.flat[0] = False
    m.flat[0] = False
    if case.get("odd") == "negative":
        a = np.where(odd, -0.1 * a, a)
    elif case.get("odd") == "zero":
        a = np.where(odd, 0.0, a)
    elif case.get("odd") == "huge":
        a = np.where(odd, 1e3 * a, a)
    a = np.where(m, np.nan, a)
    ref = ocean.AREA if case["ref"] is None else case["ref"]
    tol = 0.02 if case["tol"] is None else case["tol"]
    a = a / np.nansum(a) * ref * (1 + case["rel"])
    if case.get("dtype") == "f4":
        a = a.astype("f4")
    if np.nansum(a) == 0 and case["rel"] != -1.0 or abs(abs(case["rel"]) - tol) < (1e-7 if a.dtype == float else 1e-5):
        return
    kw = {}
    if case["ref"] is not None:
        kw["reference"] = case["ref"]
    if case["tol"] is not None:
        kw["tolerance"] = case["tol"]
    da = xr.DataArray(a, dims=["yh", "xh"][: len(shp)])
    if case.get("chunk"):
        da = da.chunk({"yh": 2})
    got = sut("validate_areacello", util.validate_areacello, da, **kw)
    want = abs(case["rel"]) < tol
    check(bool(got) == want, f"relative error {case['rel']} with tolerance {tol}: {got!r}, expected {want}")
    rec.nt(abs(case["rel"]) > 0)
    rec.label("inside" if want else "outside")


PROP = Prop(
    "C10",
    "a valid input or reference dataset with 0-3 defects (missing variable, one "
    "dimension too many or too few, non-scalar total, time coordinate in any "
    "capitalisation, wrong total area), strict or not, additional variables. "
    "Non-trivial: at least one defect or additional variable.",
    [
        Sub("dataset", cases(), f_validate, quick=5400, thorough=13500, shards=8),
        Sub("area", area_cases(), f_area, quick=2400, thorough=6000, shards=2),
    ],
)
