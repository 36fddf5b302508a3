"""C29 - helpers: coordinate names, equations of state by name, encodings, grids"""

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from momlevel import eos as eos_mod
from momlevel import util

from .. import gen, orc
from ..core import Prop, Sub, check, close, must_raise, sut


@st.composite
def coord_cases(draw):
    keys = draw(st.lists(st.sampled_from(["x", "y", "z", "t", "zbounds", "tbounds", "other"]), unique=True, max_size=7))
    name = st.one_of(
        st.text(min_size=1, max_size=6),
        st.sampled_from("z_l z_i lev depth_l depth_i rho2_l rho2_i zl zi zlevel olevel deptht level_centers time Time TIME t time_counter time_bnds xh yh year".split()),
    )
    return {"map": {k: draw(name) for k in keys}, "how": draw(gen.weighted(("map", 8), ("none", 1), ("bad", 1)))}


def f_coords(case, rec):
    m = case["map"]
    if case["how"] == "bad":
        for bad in ("time", ["t", "z"], 3):
            must_raise(f"default_coords({bad!r})", util.default_coords, bad)
        rec.nt()
        return
    got = sut("default_coords", util.default_coords, *([] if case["how"] == "none" else [m]))
    if case["how"] == "none":
        m = {}
    want = (m.get("t", "time"), m.get("z", "z_l"), m.get("zbounds", "z_i"))
    check(tuple(got) == want, f"default_coords({m}) = {got}, expected {want}")
    rec.nt(bool(set(m) & {"t", "z", "zbounds"}))


@st.composite
def eos_cases(draw):
    return {
        "name": draw(st.sampled_from(["Wright", "wright", "WRIGHT", "linear", "Linear", "LINEAR", "wrigth", "teos10", "unesco", "", "jackett", "wright 97", " wright", "linear ", "linear2", "wright-red", "lin", "w", "wright_full", "linear,wright"])),
        "text": draw(st.text(max_size=8)),
        "func": draw(st.sampled_from(["density", "alpha", "beta", "drho_dtemp", "drho_dsal"])),
        "seed": draw(gen.seeds()),
        "n": draw(st.integers(1, 5)),
    }


def f_eos(case, rec):
    name, fn = case["name"], case["func"]
    if name.lower() not in ("wright", "linear"):
        e = must_raise(f"equation of state {name!r}", util.eos_func_from_str, name)
        check(isinstance(e, ValueError), f"unknown equation of state: {type(e).__name__}")
        must_raise("equation of state 3", util.eos_func_from_str, 3)
        text = case.get("text", "")
        if text.lower() not in ("wright", "linear"):
            must_raise(f"equation of state {text!r}", util.eos_func_from_str, text)
        rec.nt()
        rec.label("unknown")
        return
    mod = eos_mod.__dict__[name.lower()]
    if fn not in mod.__dict__:
        return
    f = sut("eos_func_from_str", util.eos_func_from_str, name, func_name=fn)
    r = gen.rng(case["seed"], 1)
    T, S, p = r.uniform(-2, 30, case["n"]), r.uniform(0, 40, case["n"]), r.uniform(1e5, 5e7, case["n"])
    kind = "Wright" if name.lower() == "wright" else "linear"
    exp = {
        "density": lambda: orc.rho(T, S, p, kind),
        "alpha": lambda: orc.alpha(T, S, p, kind),
        "beta": lambda: orc.beta(T, S, p, kind),
        "drho_dtemp": lambda: orc.drho_dt(T, S, p, kind),
        "drho_dsal": lambda: orc.drho_ds(T, S, p, kind),
    }[fn]()
    got = np.broadcast_to(np.asarray(sut(f"{name} {fn}", f, T, S, p), dtype=float), exp.shape)
    close(f"{name} {fn}", got, exp, rtol=1e-9)
    if fn == "density":
        check(sut("eos_func_from_str", util.eos_func_from_str, name) is f, "the default function is not the density")
    rec.nt()
    rec.label(f"{kind} {fn}")


@st.composite
def enc_cases(draw):
    keys = ["chunks", "preferred_chunks", "dtype", "_FillValue", "zlib"]
    return {
        "vars": draw(st.lists(st.lists(st.sampled_from(keys), unique=True), min_size=1, max_size=4)),
        "glob": draw(st.lists(st.sampled_from(keys), unique=True)),
        "attrs": draw(gen.weighted((None, 2), (1, 3))) and draw(st.lists(st.sampled_from(keys + ["absent"]), unique=True, max_size=4)),
        "typ": draw(gen.weighted(("dataset", 3), ("array", 2), ("numpy", 1))),
        "seed": draw(gen.seeds()),
    }


def f_enc(case, rec):
    r = gen.rng(case["seed"], 1)
    ds = xr.Dataset(coords={"x": ("x", [1.0, 2.0], {"units": "m"})}, attrs={"a": 1})
    for i, keys in enumerate(case["vars"]):
        name = f"v{i}" if i else "x"
        if i:
            ds[name] = (("x",), r.random(2), {"units": "m"})
        ds[name].encoding = {k: i for k in keys}
    ds["first"] = (("x",), r.random(2), {"long_name": "first"})
    ds["first"].encoding = {k: 9 for k in case["vars"][0]}
    ds.encoding = {k: 7 for k in case["glob"]}
    kw = {} if case["attrs"] is None else {"attrs": list(case["attrs"])}
    gone = ["chunks", "preferred_chunks"] if case["attrs"] is None else case["attrs"]
    if case["typ"] == "numpy":
        must_raise("reset_encoding of a numpy array", util.reset_encoding, ds["first"].values, **kw)
        rec.nt()
        return
    obj = ds["first"] if case["typ"] == "array" else ds
    before = obj.copy(deep=True)
    keep = {n: {k: v for k, v in ds[n].encoding.items() if k not in gone} for n in ds.variables}
    gkeep = {k: v for k, v in ds.encoding.items() if k not in gone}
    res = sut("reset_encoding", util.reset_encoding, obj, **kw)
    check(res.identical(before), "values or attributes changed")
    if case["typ"] == "array":
        check(dict(res.encoding) == keep["first"], f"encoding {res.encoding}, expected {keep['first']}")
    else:
        check(dict(res.encoding) == gkeep, f"encoding of the dataset {res.encoding}, expected {gkeep}")
        for n in ds.variables:
            check(dict(res[n].encoding) == keep[n], f"encoding of {n}: {res[n].encoding}, expected {keep[n]}")
    rec.nt(any(k in gone for v in case["vars"] for k in v))
    rec.label(case["typ"])


@st.composite
def alpha_cases(draw):
    return {
        "names": draw(st.lists(st.text("abcXYZ_019", min_size=1, max_size=5), min_size=0, max_size=6, unique=True)),
        "seed": draw(gen.seeds()),
    }


def f_alpha(case, rec):
    r = gen.rng(case["seed"], 1)
    ds = xr.Dataset(coords={"lon_dim": [1.0, 2.0]}, attrs={"a": 1})
    for n in case["names"]:
        ds[n] = (("lon_dim",), r.random(2), {"n": n})
    res = sut("alphabetize_dataset", util.alphabetize_dataset, ds)
    check(res.identical(ds), "the content of the dataset changed")
    check(list(res.data_vars) == sorted(ds.data_vars), f"order {list(res.data_vars)}")
    rec.nt(list(ds.data_vars) != sorted(ds.data_vars))


@st.composite
def grid_cases(draw):
    return {
        "ny": draw(gen.sizes(1, 5, 40)),
        "nx": draw(gen.sizes(1, 5, 40)),
        "extra": draw(st.integers(0, 3)),
        "desc": draw(gen.often(0.2)),
        "sym": draw(gen.weighted((None, 1), (False, 1), (True, 2))),
        "names": draw(gen.often(0.5)),
        "seed": draw(gen.seeds()),
    }


def f_grid(case, rec):
    n = {"xcenter": "xh", "ycenter": "yh", "xcorner": "xq", "ycorner": "yq"}
    if case["names"]:
        n = {"xcenter": "lon", "ycenter": "lat", "xcorner": "lonq", "ycorner": "latq"}
    ex = 1 if case["sym"] else 0
    nx, ny = case["nx"], case["ny"]
    off = 0.5 if ex else 1.5
    ds = xr.Dataset(
        coords={n["xcenter"]: np.arange(nx) + 1.0, n["ycenter"]: np.arange(ny) + 1.0, n["xcorner"]: np.arange(nx + ex) + off, n["ycorner"]: np.arange(ny + ex) + off}
    )
    if case.get("desc"):
        ds = ds.isel({n["ycenter"]: slice(None, None, -1), n["ycorner"]: slice(None, None, -1)})
    if case.get("extra", 0) & 1:
        ds["time"] = ("time", np.arange(3.0))
        ds["z_l"] = ("z_l", np.arange(2.0))
    if case.get("extra", 0) & 2:
        ds = ds.drop_vars([n["xcorner"]]) if ex == 0 else ds
        ds.attrs["a"] = 1
    ds["f"] = ((n["ycenter"], n["xcenter"]), gen.rng(case["seed"], 1).random((ny, nx)))
    ds["q"] = ((n["ycorner"], n["xcorner"]), gen.rng(case["seed"], 2).random((ny + ex, nx + ex)))
    kw = {}
    if case["names"]:
        kw["coord_dict"] = n
    if case["sym"] is not None:
        kw["symmetric"] = case["sym"]
    g = sut("get_xgcm_grid", util.get_xgcm_grid, ds, **kw)
    check(set(g.axes) == {"X", "Y"}, f"axes {set(g.axes)}")
    pos = "outer" if ex else "right"
    for ax, c, k in (("X", n["xcenter"], n["xcorner"]), ("Y", n["ycenter"], n["ycorner"])):
        co = dict(g.axes[ax].coords)
        check(co == {"center": c, pos: k}, f"axis {ax}: {co}, expected center={c} {pos}={k}")
    # moving from the corners to the centres averages the two neighbours
    q = ds["q"].values
    if ex:
        exp = 0.5 * (q[:, 1:] + q[:, :-1])
        got = sut("interpolation", g.interp, ds["q"], "X")
        close("interpolation to the centres", got.transpose(n["ycorner"], n["xcenter"]).values, exp, rtol=1e-12)
        got = sut("interpolation", g.interp, ds["q"], "Y")
        close("interpolation to the centres", got.transpose(n["ycenter"], n["xcorner"]).values, 0.5 * (q[1:] + q[:-1]), rtol=1e-12)
    else:
        # the corner of index i lies between the centres i and i + 1; the last one has
        # no neighbour and depends on the boundary rule
        f = ds["f"].values
        for ax, o in (("X", 1), ("Y", 0)):
            if f.shape[o] < 2:
                continue
            got = sut("interpolation", g.interp, ds["f"], ax, boundary="fill")
            to = [n["ycenter"], n["xcorner"]] if ax == "X" else [n["ycorner"], n["xcenter"]]
            gv = np.moveaxis(got.transpose(*to).values, o, 0)
            fv = np.moveaxis(f, o, 0)
            close("interpolation to the corners", gv[:-1], 0.5 * (fv[1:] + fv[:-1]), rtol=1e-12)
    rec.nt()
    rec.label("symmetric", bool(ex))


PROP = Prop(
    "C29",
    "mappings with any subset of keys; names of equations of state in any "
    "capitalisation and unknown ones; encodings with any subset of keys; datasets "
    "with any names; staggered grids. Non-trivial: the mapping names a coordinate "
    "that is used; an encoding that is removed; an order that changes; otherwise "
    "every case.",
    [
        Sub("coords", coord_cases(), f_coords, quick=1800, thorough=4500, shards=1),
        Sub("eos", eos_cases(), f_eos, quick=1800, thorough=4500, shards=2),
        Sub("encoding", enc_cases(), f_enc, quick=1800, thorough=4500, shards=2),
        Sub("alphabet", alpha_cases(), f_alpha, quick=1200, thorough=3000, shards=1),
        Sub("grid", grid_cases(), f_grid, quick=1800, thorough=4500, shards=2),
    ],
)
