"""C13 - relative and potential vorticity"""

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import derived

from .. import gen, large
from ..core import Prop, Sub, close, has_attrs, must_raise, same_coords, sut, vals

NAMES = [
    {"xcenter": "xh", "ycenter": "yh", "xcorner": "xq", "ycorner": "yq"},
    {"xcenter": "lon", "ycenter": "lat", "xcorner": "lon_q", "ycorner": "lat_q"},
    {"xcenter": "ni", "ycenter": "nj", "xcorner": "niq", "ycorner": "njq"},
]


SCALES = [
    (1.0, 100.0, 9e4, 1e6, 9e9),
    (0.2, 0.01, 5.0, 1e-3, 20.0),
    (1e-4, 1e3, 2e5, 1e6, 4e10),
    (20.0, 10.0, 1e3, 50.0, 1e6),
    (1.0, 1.0, 1.5, 0.5, 2.0),
]


@st.composite
def cases(draw):
    return {
        "ny": draw(gen.sizes(1, 5, 20)),
        "nx": draw(gen.sizes(1, 5, 20)),
        "sym": draw(gen.often(0.4)),
        "lead": [draw(gen.size(1, 2)) for _ in range(draw(gen.weighted((0, 2), (1, 2), (2, 2))))],
        "seed": draw(gen.seeds()),
        "kind": draw(st.sampled_from(["noise", "quant", "const", "smooth"])),
        "nan": draw(gen.weighted((0.0, 2), (0.15, 1))),
        "names": draw(gen.weighted((0, 3), (1, 1), (2, 1))),
        "vmap": draw(gen.often(0.4)),
        "perm": draw(gen.often(0.3)),
        "chunk": draw(gen.often(0.15)),
        "attrs": draw(st.integers(0, 3)),
        "ascoord": draw(gen.often(0.2)),
        "scale": draw(gen.weighted((0, 3), (1, 1), (2, 1), (3, 1), (4, 1))),
    }


def to_corner_diff(a, axis, sym):
    """difference of centre values at corner points, zero beyond the domain"""
    z = np.zeros_like(np.take(a, [0], axis=axis))
    if sym:
        b = np.concatenate([z, a, z], axis=axis)
    else:
        b = np.concatenate([a, z], axis=axis)
    return np.diff(b, axis=axis)


def to_corner_mean(a, axis, sym):
    z = np.zeros_like(np.take(a, [0], axis=axis))
    b = np.concatenate([z, a, z] if sym else [a, z], axis=axis)
    n = b.shape[axis]
    return 0.5 * (np.take(b, range(n - 1), axis=axis) + np.take(b, range(1, n), axis=axis))


def grid(case):
    n = NAMES[case["names"]]
    ny, nx = case["ny"], case["nx"]
    ex = 1 if case["sym"] else 0
    coords = {
        n["ycenter"]: np.arange(ny) + 1.0,
        n["xcenter"]: np.arange(nx) + 1.0,
        n["ycorner"]: np.arange(ny + ex) + (0.5 if ex else 1.5),
        n["xcorner"]: np.arange(nx + ex) + (0.5 if ex else 1.5),
    }
    lead = ["time", "z_l"][: len(case["lead"])]
    for d, k in zip(lead, case["lead"]):
        coords[d] = np.arange(k) * 1.0
    return n, coords, lead


def fld(case, dims, coords, lo, hi, salt, nan=True):
    shp = [len(coords[d]) for d in dims]
    a = gen.field(case["seed"], case["kind"], shp, lo, hi, salt=salt)
    if nan:
        a = np.where(gen.mask_nan(case["seed"], shp, case["nan"], salt=salt + 30), np.nan, a)
    return a


def da(case, a, dims, coords, salt, name=None):
    x = xr.DataArray(a, dims=dims, coords={d: coords[d] for d in dims}, name=name, attrs=gen.attrs_of(case["attrs"]))
    if case["perm"]:
        p = gen.perm_of(case["seed"] + salt, len(dims))
        x = x.transpose(*[dims[i] for i in p])
    return x


def f_vort(case, rec):
    n, coords, lead = grid(case)
    ud = lead + [n["ycenter"], n["xcorner"]]
    vd = lead + [n["ycorner"], n["xcenter"]]
    qd = [n["ycorner"], n["xcorner"]]
    # speeds, lengths and areas of an ocean, a tank, slow or fast currents, and grid units
    us, l0, l1, a0, a1 = SCALES[case.get("scale", 0)]
    u = fld(case, ud, coords, -5, 5, 1) * us
    v = fld(case, vd, coords, -5, 5, 2) * us
    dx = fld(dict(case, kind="noise"), ud[-2:], coords, l0, l1, 3, nan=False)
    dy = fld(dict(case, kind="noise"), vd[-2:], coords, l0, l1, 4, nan=False)
    ar = fld(dict(case, kind="noise"), qd, coords, a0, a1, 5, nan=False)
    nm = {"u": "uo", "v": "vo", "dx": "dxCu", "dy": "dyCv", "area": "areacello_bu"}
    if case["vmap"]:
        nm = {"u": "ssu", "v": "ssv", "dx": "dxCu_", "dy": "e1v", "area": "area_q"}
    ds = xr.Dataset(coords=coords)
    for k, (a, d, s) in {"u": (u, ud, 1), "v": (v, vd, 2), "dx": (dx, ud[-2:], 3), "dy": (dy, vd[-2:], 4), "area": (ar, qd, 5)}.items():
        ds[nm[k]] = da(case, a, d, coords, s)
    if case.get("ascoord"):
        ds = ds.set_coords([nm[k] for k in ("dx", "dy", "area")])
    if case["chunk"] and lead:
        ds = ds.chunk({lead[0]: 1})
    kw = {}
    if case["names"]:
        kw["coord_dict"] = n
    if case["sym"]:
        kw["symmetric"] = True
    if case["vmap"]:
        kw["varname_map"] = nm
    r = sut("calc_rel_vort", derived.calc_rel_vort, ds, **kw)
    # zeta = (d(v dy)/di - d(u dx)/dj) / area
    ddx = to_corner_diff(v * dy, -1, case["sym"])
    ddy = to_corner_diff(u * dx, -2, case["sym"])
    exp = (ddx - ddy) / ar
    close("relative vorticity", vals("relative vorticity", r, lead + qd), exp, rtol=1e-10, atol=1e-12 * us * l1 * 10 / ar.min())
    same_coords("relative vorticity", r, {d: coords[d] for d in qd})
    has_attrs("relative vorticity", r, {"units": "s-1"})
    miss = list(nm.values())[case["seed"] % 5]
    must_raise(f"calc_rel_vort without {miss}", derived.calc_rel_vort, ds.drop_vars(miss), **kw)
    rec.nt(case["kind"] != "const")
    rec.label("symmetric", case["sym"])
    rec.label("missing values", case["nan"] > 0)


@st.composite
def pv_cases(draw):
    case = draw(cases())
    case["interp"] = draw(gen.often(0.7))
    case["units"] = draw(gen.weighted(("default", 2), ("m", 1), ("cm", 3)))
    case["gravity"] = draw(gen.weighted((None, 2), (9.81, 1), (1.5, 1), (10, 1), (-9.8, 1), (0.25, 1)))
    case["bad"] = draw(st.sampled_from(["mm", "", "M", "km", "CM"]))
    return case


def f_pv(case, rec):
    n, coords, lead = grid(case)
    qd = [n["ycorner"], n["xcorner"]]
    hd = [n["ycenter"], n["xcenter"]]
    zeta = fld(case, lead + qd, coords, -1e-4, 1e-4, 1)
    # strong and weak vortices and stratifications; a tank that turns fast
    zs, cs, ns = [(1, 1, 1), (1e2, 1, 1e3), (1e-3, 1, 1e-4), (1e4, 1e4, 1e5), (1, 1e-3, 1)][case.get("scale", 0)]
    zeta = zeta * zs
    cor = fld(case, qd, coords, -1.4e-4, 1.4e-4, 2, nan=False) * cs
    nd = hd if case["interp"] else qd
    # here and there the water is unstable
    n2 = fld(case, lead + nd, coords, 1e-7 if case["seed"] % 3 else -5e-5, 1e-4, 3) * ns
    if case["kind"] in ("quant",):
        zeta, cor, n2 = [gen.field(case["seed"], "noise", x.shape, 1e-7, 1e-4, salt=9 + i) for i, x in enumerate((zeta, cor, n2))]
    kw = {}
    if case["names"]:
        kw["coord_dict"] = n
    if case["sym"]:
        kw["symmetric"] = True
    if not case["interp"]:
        kw["interp_n2"] = False
    if case["units"] != "default":
        kw["units"] = case["units"]
    g = 9.8
    if case["gravity"] is not None:
        g = kw["gravity"] = case["gravity"]
    args = (da(case, zeta, lead + qd, coords, 1, "zeta"), da(case, cor, qd, coords, 2), da(case, n2, lead + nd, coords, 3, "n2"))
    r = sut("calc_pv", derived.calc_pv, *args, **kw)
    q = n2
    if case["interp"]:
        q = to_corner_mean(to_corner_mean(n2, -1, case["sym"]), -2, case["sym"])
    exp = (zeta + cor) * (q / g)
    if case["units"] == "cm":
        exp = np.abs(exp / 100 * 1e14)
    # cancellation in zeta + f
    at = np.nanmax(np.abs(np.nan_to_num((np.abs(zeta) + np.abs(cor)) * np.abs(q)))) / abs(g) * 1e-12 * (1e12 if case["units"] == "cm" else 1)
    close("potential vorticity", vals("potential vorticity", r, lead + qd), exp, rtol=1e-10, atol=at)
    same_coords("potential vorticity", r, {d: coords[d] for d in qd})
    has_attrs("potential vorticity", r, {"units": "10^14 cm-1 s-1" if case["units"] == "cm" else "m-1 s-1"})
    must_raise(f"calc_pv(units={case['bad']!r})", derived.calc_pv, *args, **dict(kw, units=case["bad"]))
    rec.nt(case["kind"] != "const")
    rec.label("interpolated", case["interp"])
    rec.label("cm", case["units"] == "cm")
    rec.label("symmetric", case["sym"])


PROP = Prop(
    "C13",
    "staggered grids of 1-5 x 1-5 cells (now and then up to 20) (symmetric or not, three naming schemes), 0-2 "
    "leading dimensions, any dimension order, missing values. Non-trivial: fields are "
    "not constant.",
    [
        Sub("relative", cases(), f_vort, quick=2400, thorough=6000, shards=4),
        Sub("potential", pv_cases(), f_pv, quick=2400, thorough=6000, shards=4),
        large.sub(cases(), f_vort, large.grid),
        large.sub(pv_cases(), f_pv, large.grid, name="large_potential"),
    ],
)
