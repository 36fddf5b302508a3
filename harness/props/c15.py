"""C15 - inverse barometer"""

import numpy as np
from hypothesis import strategies as st

import momlevel

from .. import gen, large, orc, tsp
from ..core import Prop, Sub, check, close, has_attrs, must_raise, same_coords, sut, vals


@st.composite
def cases(draw):
    case = draw(tsp.arrays(max_dims=3))
    case["p"] = draw(gen.weighted(("full", 4), ("z", 1)))
    case["gravity"] = draw(gen.weighted((None, 3), (9.81, 1), (9.80665, 1), (3.7, 1), (10, 1), (-9.8, 1), (0.5, 1)))
    case["default_eos"] = draw(gen.often(0.4))
    return case


def f_ib(case, rec):
    case = dict(case)
    if case["default_eos"]:
        case["eos"] = "Wright"
    das, full, coords = tsp.build(case)
    kw = {}
    if not case["default_eos"]:
        kw["equation_of_state"] = tsp.eos_name(case)
    g = 9.8
    if case["gravity"] is not None:
        g = kw["gravity"] = case["gravity"]
    r = sut("inverse_barometer", momlevel.inverse_barometer, das["T"], das["S"], das["p"], **kw)
    exp = -full["p"].astype(orc.LD) / (g * orc.rho(full["T"], full["S"], full["p"], case["eos"]))
    close("inverse barometer height", vals("inverse barometer height", r, case["dims"]), exp, rtol=4e-6 if tsp.is_f4(case) else 1e-12)
    same_coords("inverse barometer height", r, coords)
    has_attrs("inverse barometer height", r, {"units": "m"})
    check(r.name == "ibh", f"name {r.name!r}")
    rec.nt(tsp.nontrivial(case))
    rec.label(case["eos"])


PROP = Prop(
    "C15",
    "surface temperature, salinity and pressure of 0-3 dimensions (as C01). "
    "Non-trivial: at least two elements, not all constant.",
    [
        Sub("ib", cases(), f_ib, quick=4000, thorough=15000, shards=4),
        large.sub(cases(), f_ib, large.arrays),
    ],
)
