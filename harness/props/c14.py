"""C14 - stability (Turner) angle"""

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import derived

from .. import gen, large, orc
from ..core import Prop, Sub, Violation, check, has_attrs, same_coords, sut, vals
from .c11 import cases as n2_cases
from .c11 import dims_order, state


def f_angle(case, rec):
    zi, zl, T, S, other = state(case)
    for a, f in ((T, "T"), (S, "S")):
        if f == case.get("flat"):
            # a layer without any gradient of the one
            k = case["seed"] % len(zl)
            a[k : k + 4] = np.where(np.isnan(a[k : k + 4]), np.nan, 0.0) if a.dtype.kind == "f" else 0
    if case.get("dropS") and other:
        S = np.broadcast_to(S[..., :1], S.shape).copy()
    zn = case["zname"]
    nat = [zn] + other
    order = dims_order(case, zn, other)
    coords = {zn: zl, **{d: np.arange(T.shape[i + 1]) * 1.0 for i, d in enumerate(other)}}
    dT = xr.DataArray(T, dims=nat, coords=coords, name="thetao").transpose(*order)
    dS = xr.DataArray(S, dims=nat, coords=coords, name="so").transpose(*(order[::-1] if case["permS"] else order))
    if case.get("dropS") and other:
        dS = dS.isel({other[-1]: 0}, drop=True)
    if case["chunk"] and other:
        dT, dS = [gen.chunked(x, {d: 1 for d in other}).chunk({zn: -1}) for x in (dT, dS)]
    p1 = zl * 1e4 + 101325.0
    if case["patm"] == "float":
        p, pn = 2.0e6, np.full([len(zl)] + [1] * len(other), 2.0e6)
    else:
        p = xr.DataArray(p1, dims=[zn], coords={zn: zl})
        pn = p1.reshape([-1] + [1] * len(other))
    kw = {}
    if zn != "z_l":
        kw["zcoord"] = zn
    kw.update(gen.eos_kw("eos", case["eos"], case["seed"]))
    r = sut("calc_stability_angle", derived.calc_stability_angle, dT, dS, p, **kw)
    got = vals("stability angle", r, nat).astype(float)
    a, b = orc.alpha(T, S, pn, case["eos"]), orc.beta(T, S, pn, case["eos"])
    dt, dsz = orc.derivative(T, zl, 0), orc.derivative(S, zl, 0)
    dz = np.gradient(zl).min() if len(zl) > 1 else 1.0
    dzmin = float(np.min(np.diff(zl)))
    num, den = b * dsz, a * dt
    # Tu = atan2-like: angle of (den - num, den + num), known modulo 180 degrees
    with np.errstate(all="ignore"):
        exp = np.degrees(np.arctan((den + num) / (den - num))).astype(float)
    # points where rounding of a vanishing gradient decides are left out
    eps_t = 1e-12 * 50 / dzmin
    err = (np.abs(b) + np.abs(a)) * eps_t + 1e-16 * (np.abs(dt) + np.abs(dsz))
    mag = (err / np.sqrt(np.abs(num) ** 2 + np.abs(den) ** 2 + orc.LD(1e-300))).astype(float)
    ok = mag < 1e-6
    miss = np.isnan(T) | np.isnan(S)
    miss_dep = np.isnan(exp)
    # a missing value in the column next to the point makes the result missing
    dep = miss | np.isnan(dt) | np.isnan(dsz)
    bad = np.isnan(got) != miss_dep
    if (bad & (ok | dep)).any():
        idx = tuple(int(x) for x in np.argwhere(bad & (ok | dep))[0])
        raise Violation(f"stability angle: at {idx} got {got[idx]!r}, expected {exp[idx]!r}")
    sel = ok & ~miss_dep & ~np.isnan(got)
    d = np.abs(got - exp)
    flip = np.minimum(d, np.abs(180.0 - d))
    near = np.abs(np.abs(exp) - 90.0) < 1e-3
    tol = 1e-6 + 120.0 * mag
    wrong = sel & (np.where(near, flip, d) > tol)
    if wrong.any():
        idx = tuple(int(x) for x in np.argwhere(wrong)[0])
        raise Violation(f"stability angle: at {idx} got {got[idx]!r}, expected {exp[idx]!r} degrees")
    g = got[~np.isnan(got)]
    check(bool((np.abs(g) <= 90.0 + 1e-9).all()), "an angle is outside [-90, 90] degrees")
    same_coords("stability angle", r, coords)
    has_attrs("stability angle", r, {"units": "degrees"})
    rec.nt(bool(sel.any()))
    rec.label("points compared", bool(sel.any()))
    rec.label("stable", bool((np.abs(exp[sel]) < 45).any()))
    rec.label("outside +-45", bool((np.abs(exp[sel]) > 45).any()))
    rec.label("temperature gradient zero", bool((sel & (dt == 0)).any()))
    rec.label("salinity gradient zero", bool((sel & (dsz == 0)).any()))


@st.composite
def cases(draw):
    case = draw(n2_cases())
    case["flat"] = draw(gen.weighted((None, 4), ("T", 1), ("S", 1)))
    return case


PROP = Prop(
    "C14",
    "columns as for C11, some with layers in which temperature or salinity does not "
    "change at all. Non-trivial: at least one point has gradients of both "
    "temperature and salinity that are not rounding noise.",
    [
        Sub("angle", cases(), f_angle, quick=2800, thorough=10500, shards=8),
        large.sub(cases(), f_angle, large.columns),
    ],
    assumptions=["at least three levels, strictly increasing"],
)
