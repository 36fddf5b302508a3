"""C01 - density of sea water"""

import numpy as np
from hypothesis import strategies as st

import momlevel
from momlevel import derived, eos

from .. import gen, large, orc, tsp
from ..core import Prop, Sub, check, close, has_attrs, must_raise, same_coords, sut, vals


def _tol(case):
    return dict(rtol=4e-6 if tsp.is_f4(case) else 1e-12)


# --- calc_rho on labelled arrays ------------------------------------------------


def f_rho(case, rec):
    das, full, coords = tsp.build(case)
    r = sut("calc_rho", derived.calc_rho, das["T"], das["S"], das["p"], **tsp.eos_kw(case))
    exp = orc.rho(full["T"], full["S"], full["p"], case["eos"])
    close("density", vals("density", r, case["dims"]), exp, **_tol(case))
    same_coords("density", r, coords)
    has_attrs("density", r, {"standard_name": "sea_water_density", "units": "kg m-3"})
    rec.nt(tsp.nontrivial(case))
    rec.label(case["eos"])
    rec.label("missing values", any(case["nan"].values()))
    rec.label("integer input", any(d.startswith("i") for d in case["dtype"].values()))


# --- calc_pdens ------------------------------------------------------------------


@st.composite
def s_pdens(draw):
    case = draw(tsp.arrays(max_dims=3))
    case["level"] = draw(
        st.one_of(
            st.sampled_from([0.0, 0, 7500.0, 1000, 2000.0, 4000.0]),
            st.floats(0, 7500).map(lambda x: round(x, 3)),
        )
    )
    case["patm"] = draw(gen.weighted(("default", 3), ("float", 2), ("field", 2)))
    case["kwlevel"] = draw(gen.often(0.8))
    return case


def f_pdens(case, rec):
    das, full, coords = tsp.build(case)
    kw = tsp.eos_kw(case)
    lev = 0.0
    if case["kwlevel"]:
        kw["level"] = case["level"]
        lev = case["level"]
    patm = 101325.0
    if case["patm"] == "float":
        patm = kw["patm"] = 98000.5
    elif case["patm"] == "field" and not isinstance(das["p"], float):
        kw["patm"] = das["p"]
        patm = full["p"]
    r = sut("calc_pdens", derived.calc_pdens, das["T"], das["S"], **kw)
    exp = orc.rho(full["T"], full["S"], lev * 1e4 + np.asarray(patm), case["eos"])
    close("potential density", vals("potential density", r, case["dims"]), exp, **_tol(case))
    same_coords("potential density", r, coords)
    has_attrs(
        "potential density",
        r,
        {"standard_name": "sea_water_potential_density", "units": "kg m-3"},
    )
    rec.nt(tsp.nontrivial(case) and lev > 0)
    rec.label(case["eos"])
    rec.label("pressure field", case["patm"] == "field")


def f_pdens_reject(case, rec):
    das, _, _ = tsp.build(case["arr"])
    must_raise(
        f"calc_pdens(level={case['level']})",
        derived.calc_pdens,
        das["T"],
        das["S"],
        level=case["level"],
    )
    rec.nt()


# --- the equation-of-state modules -------------------------------------------------


def f_module(case, rec):
    arr = case["arr"]
    v = tsp.np_values(arr)
    T, S, p = v["T"], v["S"], v["p"]
    if case["scalar"]:
        T, S, p = [x.ravel()[0].item() for x in (T, S, p)]
    mod = eos.wright if arr["eos"] == "Wright" else eos.linear
    tol = dict(rtol=4e-6 if tsp.is_f4(arr) else 1e-12)
    exp = orc.rho(T, S, p, arr["eos"])
    close("density", sut("density", mod.density, T, S, p), exp, **tol)
    if arr["eos"] == "linear":
        close("density without pressure", sut("density", mod.density, T, S), exp, **tol)
        ref = case["ref"]
        close(
            "density anomaly",
            sut("density", mod.density, T, S, p, rho_ref=ref),
            exp - orc.LD(ref),
            rtol=0,
            atol=4e-3 if tsp.is_f4(arr) else 1e-9,
        )
    rec.nt(tsp.nontrivial(arr) or case["scalar"])
    rec.label(arr["eos"])


# --- unknown names -------------------------------------------------------------------


def f_unknown(case, rec):
    das, _, _ = tsp.build(case["arr"])
    name = case["name"]
    if name.lower() in ("wright", "linear"):
        return
    for f in (derived.calc_rho, derived.calc_alpha, derived.calc_beta):
        must_raise(f"{f.__name__}(eos={name!r})", f, das["T"], das["S"], das["p"], eos=name)
    must_raise(f"calc_pdens(eos={name!r})", derived.calc_pdens, das["T"], das["S"], eos=name)
    rec.nt()


_names = st.one_of(
    st.sampled_from(
        ["", "wrigh", "wright ", " linear", "teos10", "TEOS-10", "unesco", "Wright97", "lin", "nonlinear", "jackett", "linear_wright"]
    ),
    st.text(max_size=8),
)

PROP = Prop(
    "C01",
    "T, S, p arrays of 0-4 labelled dimensions (sizes 1-4), own dimension order and "
    "missing dimensions per array, float64/float32/integer, missing values, dask "
    "chunks, pressure as field, profile or number, every capitalisation of the "
    "equation name. Non-trivial: at least two elements that are not all constant "
    "(potential density: also a non-zero level).",
    [
        Sub("calc_rho", tsp.arrays(), f_rho, quick=1600),
        large.sub(tsp.arrays(), f_rho, large.arrays),
        Sub("calc_pdens", s_pdens(), f_pdens, quick=1000),
        Sub(
            "calc_pdens_range",
            st.fixed_dictionaries(
                {
                    "arr": tsp.arrays(max_dims=1),
                    "level": st.one_of(
                        st.floats(7500, 1e6, exclude_min=True),
                        st.floats(-1e5, 0, exclude_max=True).filter(lambda x: x < 0),
                    ),
                }
            ),
            f_pdens_reject,
            quick=400, thorough=3000,
            shards=1,
        ),
        Sub(
            "modules",
            st.fixed_dictionaries(
                {
                    "arr": tsp.arrays(),
                    "scalar": gen.often(0.2),
                    "ref": st.sampled_from([1000.0, 1035.0, 0.0, 1027.5]),
                }
            ),
            f_module,
            quick=3200, thorough=24000,
            shards=2,
        ),
        Sub(
            "unknown",
            st.fixed_dictionaries({"arr": tsp.arrays(max_dims=1), "name": _names}),
            f_unknown,
            quick=600, thorough=4500,
            shards=1,
        ),
    ],
    assumptions=["T in [-5, 60] degC, S in [-1, 60], p in [-2e5, 2e8] Pa"],
)
