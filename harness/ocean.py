"""ocean.py - generated ocean datasets (what `steric` takes as its input)"""

import cftime
import numpy as np
import xarray as xr
from hypothesis import strategies as st

from . import gen, orc

AREA = 3.6111092e14

NAMESETS = [
    {"t": "time", "z": "z_l", "zbounds": "z_i", "y": "yh", "x": "xh"},
    {"t": "time", "z": "lev", "zbounds": "lev_bnds_edges", "y": "lat", "x": "lon"},
    {"t": "t", "z": "depth_level", "zbounds": "z_i", "y": "yh", "x": "xh"},
    {"t": "Time", "z": "z_l", "zbounds": "zint", "y": "j", "x": "i"},
    {"t": "year", "z": "olevel", "zbounds": "olevel_edges", "y": "y", "x": "x"},
]


@st.composite
def oceans(draw, names=None, dtypes=(("f8", 8), ("f4", 1)), nt=(1, 4, 30), nz=(1, 6, 35), nxy=(1, 4, 24), time=None, chunk=None):
    return {
        "nt": draw(gen.sizes(*nt)),
        "z": draw(gen.zgrid(*nz)),
        "ny": draw(gen.sizes(*nxy)),
        "nx": draw(gen.sizes(*nxy)),
        "seed": draw(gen.seeds()),
        "kindT": draw(st.sampled_from(gen.KINDS)),
        "kindS": draw(st.sampled_from(gen.KINDS)),
        "dtype": draw(gen.weighted(*dtypes)),
        "land": draw(gen.weighted(("none", 2), ("columns", 3), ("bathy", 4), ("holes", 2))),
        "depth": draw(gen.weighted(("full", 2), ("random", 3), ("interfaces", 2), ("beyond", 1))),
        "depthnan": draw(gen.often(0.5)),
        "tsholes": draw(gen.weighted((0.0, 4), (0.2, 1))),
        "vol": draw(gen.weighted(("thickness", 2), ("random", 2), ("zeros", 1))),
        "areafac": draw(gen.weighted((1.0, 3), (1.015, 1), (0.985, 1), (0.9995, 1))),
        "areanan": draw(gen.often(0.3)),
        "names": 0 if names is None else draw(st.integers(0, len(NAMESETS) - 1)) if names else 0,
        "perm": draw(gen.weighted((0, 5), (1, 2))) and draw(gen.seeds()),
        "time": time if time is not None else draw(gen.weighted(("float", 2), ("cftime", 2), ("datetime64", 1), ("none", 1))),
        "cal": draw(st.sampled_from(gen.CALENDARS)),
        "extra": draw(gen.often(0.3)),
        "attrs": draw(st.integers(0, 3)),
        "eos": draw(gen.weighted(("Wright", 4), ("linear", 2))),
        "patm": draw(gen.weighted(("default", 3), ("float", 2), ("field", 2), ("zero", 1), ("int", 1))),
        "rhozero": draw(gen.weighted((None, 6), (1025.0, 1), (1030.5, 1), (1000, 1), (850.0, 1), (1.0, 1), (2000, 1))),
        "chunk": draw(gen.weighted((0, 4), (1, 1), (2, 1))) if chunk is None else chunk,
        "dtype_out": draw(gen.weighted((None, 2), ("float64", 1), ("float32", 1))),
    }


class Ocean:
    """arrays (t, z, y, x) in float64 and the dataset made of them"""


def names_of(case):
    return NAMESETS[case["names"]]


def arrays(case, salt=0, nt=None):
    """numpy content; `salt` gives another state on the same grid"""
    o = Ocean()
    nt = case["nt"] if nt is None else nt
    zi, zl = gen.build_z(case["z"])
    nz, ny, nx = case["z"]["n"], case["ny"], case["nx"]
    shp = (nt, nz, ny, nx)
    s = case["seed"]
    T = gen.field(s, case["kindT"], shp, -2.0, 35.0, salt=1 + salt)
    S = gen.field(s, case["kindS"], shp, 0.0, 42.0, salt=2 + salt)
    T, S = gen.cast(T, case["dtype"]), gen.cast(S, case["dtype"])
    # grid: independent of `salt`
    r = gen.rng(s, 3)
    zmax = zi[-1]
    if case["depth"] == "full":
        depth = np.full((ny, nx), zmax)
    elif case["depth"] == "interfaces":
        depth = r.choice(zi, (ny, nx))
    elif case["depth"] == "beyond":
        depth = r.uniform(0.5 * zmax, 1.5 * zmax, (ny, nx))
    else:
        depth = r.uniform(0.0, zmax, (ny, nx))
    wet = np.ones((nz, ny, nx), dtype=bool)
    if case["land"] in ("columns", "bathy", "holes"):
        land = r.random((ny, nx)) < 0.3
        land[0, 0] = False
        wet &= ~land[None]
        if case["land"] == "bathy":
            wet &= zi[:-1, None, None] < np.maximum(depth, zi[1] * 0.5)[None]
        if case["land"] == "holes":
            holes = r.random((nz, ny, nx)) < 0.2
            holes[:, 0, 0] = False
            wet &= ~holes
        depth = np.where(land, np.nan if case["depthnan"] else 0.0, depth)
    wet[0, 0, 0] = True
    area = r.uniform(50.0, 150.0, (ny, nx))
    if case["areanan"]:
        area = np.where(wet[0], area, np.nan)
    area = area / np.nansum(area) * AREA * case["areafac"]
    if case["vol"] == "thickness":
        dz = np.diff(zi)
        vol = np.broadcast_to(dz[:, None, None] * np.where(np.isnan(area), 1e12, area)[None], (nz, ny, nx))
        vol = vol[None] * gen.rng(s, 4, salt).uniform(0.9, 1.1, (nt, 1, 1, 1))
        vol = np.broadcast_to(vol, shp).copy()
    else:
        rv = gen.rng(s, 5, salt)
        vol = rv.uniform(500.0, 1500.0, shp)
        if case["vol"] == "zeros":
            # vanished cells are wet cells
            vol = np.where(rv.random(shp) < 0.2, 0.0, vol)
            vol[:, 0, 0, 0] = 700.0
    for a in (T, S, vol):
        a[:, ~wet] = np.nan
    if case["tsholes"]:
        h = gen.rng(s, 6, salt).random(shp) < case["tsholes"]
        h[:, 0, 0, 0] = False
        which = s % 4  # in the temperature, the salinity, both at the same or at other points
        if which != 1:
            T = np.where(h, np.nan, T).astype(T.dtype)
        if which == 3:
            h = gen.rng(s, 7, salt).random(shp) < case["tsholes"]
            h[:, 0, 0, 0] = False
        if which != 0:
            S = np.where(h, np.nan, S).astype(S.dtype)
    o.T, o.S, o.vol, o.area, o.depth, o.zi, o.zl, o.wet = T, S, vol, area, depth, zi, zl, wet
    o.shape = shp
    return o


def time_values(case, nt=None):
    nt = case["nt"] if nt is None else nt
    if case["time"] == "float":
        return np.arange(nt) * 1.0 + 1.0
    if case["time"] == "cftime":
        return gen.obj_array(
            [cftime.datetime(2000 + k // 12, 1 + k % 12, 15, calendar=case["cal"]) for k in range(nt)]
        )
    if case["time"] == "datetime64":
        return np.array(["2000-01-15"], dtype="datetime64[ns]") + np.arange(nt) * np.timedelta64(30, "D")
    return None


def dataset(case, o, tvals="auto"):
    """the dataset a user would pass"""
    n = names_of(case)
    dims = [n["t"], n["z"], n["y"], n["x"]]
    nt = o.shape[0]
    if isinstance(tvals, str):
        tvals = time_values(case, nt)
    at = gen.attrs_of(case["attrs"])
    coords = {
        n["z"]: (n["z"], o.zl, {"units": "meters", "edges": n["zbounds"]}),
        n["zbounds"]: (n["zbounds"], o.zi, {"units": "meters"}),
        n["y"]: (n["y"], np.arange(case["ny"]) * 1.5 + 10, {"axis": "Y"}),
        n["x"]: (n["x"], np.arange(case["nx"]) * 2.0 - 40, {"axis": "X"}),
    }
    if tvals is not None:
        coords[n["t"]] = (n["t"], tvals, {"axis": "T"})
    if case["extra"]:
        coords["member"] = ((), 3)
        coords["geolat_extra"] = ((n["y"], n["x"]), gen.field(case["seed"], "noise", (case["ny"], case["nx"]), -90, 90, salt=9))
    p = gen.perm_of(case["perm"], 4) if case["perm"] else [0, 1, 2, 3]
    ds = xr.Dataset(coords=coords)
    ds.attrs = {"title": "generated"}
    for name, a in (("thetao", o.T), ("so", o.S), ("volcello", o.vol)):
        da = xr.DataArray(a, dims=dims, attrs=dict(at, which=name))
        ds[name] = da.transpose(*[dims[j] for j in p])
    d2 = dims[2:] if not (case["perm"] and case["perm"] % 2) else dims[:1:-1]
    ds["areacello"] = xr.DataArray(o.area, dims=dims[2:], attrs={"units": "m2"}).transpose(*d2)
    ds["deptho"] = xr.DataArray(o.depth, dims=dims[2:], attrs={"units": "m"}).transpose(*d2)
    if case["extra"]:
        ds["unrelated"] = xr.DataArray(np.arange(nt) * 1.0, dims=[n["t"]])
        ds["label"] = xr.DataArray("text")
        ds["geolat_extra"].attrs["units"] = "degrees_north"
        add_more(ds, n, o.shape, gen.rng(case["seed"], 31))
    if case["chunk"]:
        ds = gen.chunked(ds, {d: case["chunk"] for d in dims})
    return ds


MORE = (
    "rho rhoinsitu rhopot prho pdens dens sigma thkcello dz dht h e pres pso pbo patm masso volo rhoga zos ssh "
    "steric delta_rho reference_height thermosteric halosteric ptemp tos sos sea_level vol area "
    "areacello_t wet mask basin deptho_bounds depth obvfsq n2 alpha beta reference eos rhozero gravity"
).split()


def add_more(ds, n, shape, r):
    """other variables a dataset may contain, which nothing should look at"""
    full = dict(zip((n["t"], n["z"], n["y"], n["x"]), shape))
    for name in r.choice(MORE, 6, replace=False):
        name = str(name)
        if name in ds.variables or name in ds.dims:
            continue
        d = [list(full), list(full)[1:], list(full)[2:], []][int(r.integers(4))]
        ds[name] = (d, r.uniform(-5.0, 2000.0, [full[k] for k in d]))


def patm_of(case, o):
    """-> (keyword value or None, numpy broadcastable to (z,y,x))"""
    if case["patm"] == "float":
        return 99000.25, 99000.25
    if case["patm"] == "zero":
        return 0.0, 0.0
    if case["patm"] == "int":
        return 100000, 100000
    if case["patm"] == "field":
        n = names_of(case)
        a = gen.field(case["seed"], "noise", (case["ny"], case["nx"]), 95000.0, 105000.0, salt=11)
        da = xr.DataArray(
            a,
            dims=[n["y"], n["x"]],
            coords={
                n["y"]: np.arange(case["ny"]) * 1.5 + 10,
                n["x"]: np.arange(case["nx"]) * 2.0 - 40,
            },
        )
        return da, a
    return None, 101325.0


def pres_of(o, patm_np):
    """(z, y, x)"""
    return o.zl[:, None, None] * 1e4 + np.broadcast_to(patm_np, o.shape[2:])


def coord_names(case):
    """what a user has to pass, None for the default names"""
    n = names_of(case)
    if case["names"] == 0:
        return None
    return {"t": n["t"], "z": n["z"], "zbounds": n["zbounds"], "x": n["x"], "y": n["y"]}


def common_kw(case, o):
    kw = {}
    patm_kw, patm_np = patm_of(case, o)
    if patm_kw is not None:
        kw["patm"] = patm_kw
    cn = coord_names(case)
    if cn is not None:
        kw["coord_names"] = cn
    return kw, patm_np


def steric_kw(case, o):
    kw, patm_np = common_kw(case, o)
    kw.update(gen.eos_kw("equation_of_state", case["eos"], case["seed"]))
    if case["rhozero"] is not None:
        kw["rhozero"] = case["rhozero"]
    if case["dtype_out"] is not None:
        kw["dtype"] = case["dtype_out"]
    return kw, patm_np


class Ref:
    """reference state in numbers"""


def reference(case, o, patm_np, k=0):
    r = Ref()
    r.T, r.S, r.vol = o.T[k], o.S[k], o.vol[k]
    r.area = o.area
    r.rho = orc.rho(r.T, r.S, pres_of(o, patm_np), case["eos"])
    r.volo = np.nansum(r.vol.astype(orc.LD))
    r.masso = np.nansum(r.rho * r.vol)
    r.rhoga = r.masso / r.volo
    return r


def ref_dataset(case, r):
    """reference dataset made by hand from the numbers"""
    n = names_of(case)
    d3 = [n["z"], n["y"], n["x"]]
    _, zl = gen.build_z(case["z"])
    ds = xr.Dataset(
        coords={
            n["z"]: zl,
            n["y"]: np.arange(case["ny"]) * 1.5 + 10,
            n["x"]: np.arange(case["nx"]) * 2.0 - 40,
        }
    )
    ds["thetao"] = (d3, r.T)
    ds["so"] = (d3, r.S)
    ds["volcello"] = (d3, r.vol)
    ds["rho"] = (d3, r.rho.astype(float))
    ds["volo"] = xr.DataArray(float(r.volo))
    ds["masso"] = xr.DataArray(float(r.masso))
    ds["rhoga"] = xr.DataArray(float(r.rhoga))
    ds["areacello"] = (d3[1:], r.area)
    return ds


def select(variant, o, r):
    T = o.T if variant in ("steric", "thermosteric") else r.T[None]
    S = o.S if variant in ("steric", "halosteric") else r.S[None]
    return np.broadcast_arrays(T, S)


def local(case, o, r, patm_np, variant="steric"):
    """expected delta_rho (t,z,y,x) and sea level (t,y,x), and tolerances"""
    T, S = select(variant, o, r)
    rho = orc.rho(T, S, pres_of(o, patm_np)[None], case["eos"])
    drho = rho - r.rho[None]
    drho = np.where(np.isnan(r.vol)[None], np.nan, drho)
    drho = np.broadcast_to(drho, o.shape)
    dz = orc.overlap_dz(o.zi, o.depth)
    rz = 1035.0 if case["rhozero"] is None else case["rhozero"]
    sl = -np.nansum(dz[None] * drho, axis=1) / rz
    sl = np.where(np.isnan(r.vol[0])[None], np.nan, sl)
    eps = 2e-3 if case["dtype"] == "f4" else 1e-10
    return drho, sl, eps, eps / rz * (dz.sum(axis=0).max() + 1.0)


def globl(case, o, r, patm_np, variant="steric"):
    T, S = select(variant, o, r)
    rho = orc.rho(T, S, pres_of(o, patm_np)[None], case["eos"])
    masso = np.nansum(rho * r.vol[None], axis=(1, 2, 3))
    H = r.volo / np.nansum(r.area)
    sl = H * np.log(r.rhoga / (masso / r.volo))
    if sl.shape[0] != o.shape[0]:
        sl = np.broadcast_to(sl, (o.shape[0],))
    eps = 4e-6 if case["dtype"] == "f4" else 1e-12
    return float(H), sl, float(H) * eps


def axes_coords(case):
    n = names_of(case)
    return {
        n["y"]: np.arange(case["ny"]) * 1.5 + 10,
        n["x"]: np.arange(case["nx"]) * 2.0 - 40,
    }


def changing(o):
    """does temperature or salinity change in time somewhere wet"""
    with np.errstate(all="ignore"):
        d = np.abs(o.T - o.T[:1]) + np.abs(o.S - o.S[:1])
    return o.shape[0] > 1 and bool(np.nanmax(np.where(np.isnan(d), 0, d)) > 0)
