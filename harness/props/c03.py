"""C03 - spiciness"""

import numpy as np
from hypothesis import strategies as st

from momlevel import derived, spice

from .. import gen, large, orc, tsp
from ..core import Prop, Sub, close, has_attrs, must_raise, same_coords, sut, vals


def _cmp(what, got, T, S, f4):
    exp, mag = orc.spice(T, S)
    m = np.where(np.isnan(mag.astype(float)), 0.0, mag.astype(float))
    close(what, got, exp, rtol=0, atol=(2e-5 if f4 else 1e-13) * m + (1e-5 if f4 else 1e-14))


def f_calc(case, rec):
    case = dict(case, drop={"T": "none", "S": "none", "p": "none"}, p="float")
    # calc_spice aligns the two arrays by label, so any dimension order is fine
    das, full, coords = tsp.build(case)
    r = sut("calc_spice", derived.calc_spice, das["T"], das["S"])
    _cmp("spiciness", vals("spiciness", r, case["dims"]), full["T"], full["S"], tsp.is_f4(case))
    same_coords("spiciness", r, coords)
    has_attrs("spiciness", r, {"units": "1"})
    rec.nt(tsp.nontrivial(case))
    rec.label("dask", case["chunk"] > 0)
    rec.label("missing values", any(case["nan"].values()))


def f_module(case, rec):
    arr = case["arr"]
    v = tsp.np_values(arr)
    T, S = v["T"], v["S"]
    if case["scalar"]:
        T, S = T.ravel()[0].item(), S.ravel()[0].item()
        r = sut("spice", spice.flament.spice, T, S)
        _cmp("spice of numbers", np.asarray(r).reshape(-1), np.array([T]), np.array([S]), False)
        rec.nt()
        return
    r = sut("spice", spice.flament.spice, T, S)
    _cmp("spice", r, T, S, tsp.is_f4(arr))
    rec.nt(tsp.nontrivial(arr))
    rec.label(f"{len(arr['shape'])}-d")


def f_shape(case, rec):
    a, b = tuple(case["a"]), tuple(case["b"])
    if a == b:
        return
    must_raise(
        f"spice of shapes {a} and {b}", spice.flament.spice, np.full(a, 10.0), np.full(b, 35.0)
    )
    rec.nt()


_shape = st.lists(st.integers(1, 4), min_size=1, max_size=4)

PROP = Prop(
    "C03",
    "temperature and salinity arrays of 0-4 dimensions (sizes 1-4), own dimension "
    "order, float64/float32/integer, missing values, dask chunks. Non-trivial: at "
    "least two elements, not all constant (shape check: two different shapes).",
    [
        Sub("calc_spice", tsp.arrays(), f_calc, quick=1000),
        large.sub(tsp.arrays(), f_calc, large.arrays),
        Sub(
            "module",
            st.fixed_dictionaries({"arr": tsp.arrays(), "scalar": gen.often(0.2)}),
            f_module,
            quick=2400, thorough=18000,
            shards=2,
        ),
        Sub("shapes", st.fixed_dictionaries({"a": _shape, "b": _shape}), f_shape, quick=600, thorough=4500, shards=1),
    ],
    assumptions=["T in [-5, 60] degC, S in [-1, 60]"],
)
