"""C06 - global steric sea level"""

import numpy as np

import momlevel

from .. import large, ocean
from ..core import Prop, Sub, check, close, same_coords, sut, vals
from . import c09
from .c05 import cases, check_meta, prepare


def f_global(case, rec):
    c, o, ds, kw, patm_np, r = prepare(case)
    n = ocean.names_of(c)
    kw["domain"] = "global"
    if case["k"] % 2:
        # the global calculation needs neither bathymetry nor interfaces
        ds = ds.drop_vars(["deptho", n["zbounds"]])
    res, ref = sut("steric(domain='global')", momlevel.steric, ds, **kw)
    H, sl, tol = ocean.globl(c, o, r, patm_np)
    check(set(res.data_vars) == {"reference_height", "steric"}, f"variables {sorted(res.data_vars)}")
    close("reference_height", vals("reference_height", res["reference_height"], []), H, rtol=1e-12)
    close("steric", vals("steric", res["steric"], [n["t"]]), sl, rtol=1e-9, atol=tol)
    tv = ocean.time_values(c)
    if tv is not None:
        same_coords("steric", res["steric"], {n["t"]: tv})
        check(dict(res[n["t"]].attrs) == dict(ds[n["t"]].attrs), "attributes of the time coordinate changed")
    dt = c["dtype_out"] or "float32"
    check_meta("steric", res["steric"], c, "m", dt)
    check_meta("reference_height", res["reference_height"], c, "m", dt)
    rec.nt(int(np.prod(o.shape[1:])) > 1 and bool(np.max(np.abs(sl)) > tol))
    rec.label(f"land {c['land']}")
    rec.label(c["eos"])
    rec.label("reference " + case["ref"])
    rec.label("volume " + c["vol"])


PROP = Prop(
    "C06",
    "the datasets of C05 (with and without bathymetry), and annual means of monthly ones. Non-trivial: more than one "
    "cell and a sea level change above the tolerance.",
    [
        Sub("global", cases(), f_global, quick=1280, thorough=9600, shards=8),
        Sub("annual", c09.annual_cases().map(lambda c: dict(c, domain="global")), c09.f_annual, quick=120, thorough=900, shards=4),
        large.sub(cases(), f_global, large.ocean),
        large.sub(cases(), f_global, large.years, name="long"),
    ],
    assumptions=["the dataset passes validation", "the ocean volume is positive"],
)
