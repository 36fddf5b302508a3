"""C02 - density derivatives, thermal expansion and haline contraction"""

from hypothesis import strategies as st

from momlevel import derived, eos

from .. import gen, large, orc, tsp
from ..core import Prop, Sub, close, has_attrs, same_coords, sut, vals

UNITS = {"alpha": "degC-1", "beta": "PSU-1"}


def _atol(case, per_rho):
    a = 6e-6 if tsp.is_f4(case) else 1e-12
    return a / 1000.0 if per_rho else a


def f_coeff(case, rec):
    das, full, coords = tsp.build(case)
    for which, func, oracle in (
        ("alpha", derived.calc_alpha, orc.alpha),
        ("beta", derived.calc_beta, orc.beta),
    ):
        r = sut(f"calc_{which}", func, das["T"], das["S"], das["p"], **tsp.eos_kw(case))
        exp = oracle(full["T"], full["S"], full["p"], case["eos"])
        if case["eos"] == "linear":
            exp = exp + 0 * (orc.LD(0) * full["T"] + full["S"])
        close(which, vals(which, r, case["dims"]), exp, rtol=1e-11, atol=_atol(case, True))
        same_coords(which, r, coords)
        has_attrs(which, r, {"units": UNITS[which]})
    rec.nt(tsp.nontrivial(case))
    rec.label(case["eos"])
    rec.label("missing values", any(case["nan"].values()))
    rec.label("integer input", any(d.startswith("i") for d in case["dtype"].values()))


def f_module(case, rec):
    arr = case["arr"]
    v = tsp.np_values(arr)
    T, S, p = v["T"], v["S"], v["p"]
    if case["scalar"]:
        T, S, p = [x.ravel()[0].item() for x in (T, S, p)]
    e = arr["eos"]
    mod = eos.wright if e == "Wright" else eos.linear
    exp_t, exp_s = orc.drho_dt(T, S, p, e), orc.drho_ds(T, S, p, e)
    got_t = sut("drho_dtemp", mod.drho_dtemp, T, S, p)
    got_s = sut("drho_dsal", mod.drho_dsal, T, S, p)
    if e == "linear":
        # constants: documented as a plain number
        close("drho_dtemp", float(got_t), -0.2, rtol=1e-12)
        close("drho_dsal", float(got_s), 0.8, rtol=1e-12)
    else:
        close("drho_dtemp", got_t, exp_t, rtol=1e-11, atol=_atol(arr, False))
        close("drho_dsal", got_s, exp_s, rtol=1e-11, atol=_atol(arr, False))
    close("alpha", sut("alpha", mod.alpha, T, S, p), orc.alpha(T, S, p, e), rtol=1e-11, atol=_atol(arr, True))
    close("beta", sut("beta", mod.beta, T, S, p), orc.beta(T, S, p, e), rtol=1e-11, atol=_atol(arr, True))
    rec.nt(tsp.nontrivial(arr) or case["scalar"])
    rec.label(e)


PROP = Prop(
    "C02",
    "T, S, p arrays as for C01; the expected derivatives come from forward-mode "
    "differentiation of the published density formula in extended precision. "
    "Non-trivial: at least two elements, not all constant.",
    [
        Sub("calc_alpha_beta", tsp.arrays(), f_coeff, quick=1600),
        large.sub(tsp.arrays(), f_coeff, large.arrays),
        Sub(
            "modules",
            st.fixed_dictionaries({"arr": tsp.arrays(), "scalar": gen.often(0.2)}),
            f_module,
            quick=3200, thorough=24000,
        ),
    ],
    assumptions=["T in [-5, 60] degC, S in [-1, 60], p in [0, 2e8] Pa"],
)
