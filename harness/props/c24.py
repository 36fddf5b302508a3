"""C24 - extraction of tide gauge series"""

import os
import pathlib
import tempfile

import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

import momlevel

from .. import gen, large, orc
from ..core import Prop, Sub, check, must_raise, sut_report


@st.composite
def cases(draw):
    return {
        "seed": draw(gen.seeds()),
        "ny": draw(gen.sizes(1, 6, 20)),
        "nx": draw(gen.sizes(1, 6, 20)),
        "nt": draw(gen.sizes(1, 4, 40)),
        "mtype": draw(gen.weighted(("f8", 3), ("f4", 1), ("i4", 1), ("bool", 1))),
        "twins": draw(gen.often(0.25)),
        "rows": draw(gen.often(0.3)),
        "order": draw(gen.weighted(("tyx", 4), ("yxt", 1), ("txy", 2), ("yx", 1))),
        "coords": draw(gen.weighted(("2d", 4), ("2dT", 2), ("1d", 3), ("2dobj", 2))),
        "names": draw(gen.often(0.3)),
        "dimcoord": draw(gen.weighted(("values", 4), ("none", 1))),
        "mask": draw(gen.weighted((None, 2), ("random", 4), ("nan", 2), ("basins", 1))),
        "maskorder": draw(st.sampled_from(["same", "T"])),
        "maskname": draw(st.sampled_from(["mask", "wet", None])),
        "nloc": draw(gen.sizes(1, 6, 70)),
        "threshold": draw(gen.weighted((None, 3), ("some", 3), ("none", 1))),
        "colname": draw(st.sampled_from(["name", "PSMSL_site"])),
        "attrs": draw(st.integers(0, 3)),
        "clash": draw(gen.often(0.25)),
        "chunk": draw(gen.often(0.2)),
        "warn": draw(gen.weighted((None, 3), (False, 1))),
        "scalar": draw(gen.often(0.2)),
        "holes": draw(gen.weighted((0.0, 3), (0.3, 2))),
        "csv": draw(gen.weighted(("file", 8), ("us", 1), ("global", 1))),
        "fname": draw(st.sampled_from(["list.csv", "stations.csv", "us.csv", "global.txt", "US", "world", "a list.csv"])),
        "how": draw(gen.weighted(("abs", 3), ("rel", 1), ("path", 1))),
        "sites": draw(gen.weighted(("plain", 2), ("words", 1))),
    }


def scratch_file(name="list.csv"):
    """one file per process, removed when the process ends"""
    global _TMP
    if _TMP is None:
        _TMP = tempfile.TemporaryDirectory(prefix="verif-c24-")
    d = os.path.join(_TMP.name, str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, name)


_TMP = None


def f_extract(case, rec):
    r = gen.rng(case["seed"], 1)
    ny, nx, nt = case["ny"], case["nx"], case["nt"]
    world = case["csv"] != "file"
    lat1 = np.linspace(-70, 70, ny) if world else np.linspace(20, 50, ny)
    lon1 = np.linspace(-175, 170, nx) if world else np.linspace(-80, -40, nx)
    lon, lat = np.meshgrid(lon1, lat1)
    if case["coords"] != "1d":
        lon = lon + r.uniform(-1, 1, lon.shape)
        lat = lat + r.uniform(-1, 1, lat.shape)
    yd, xd = ("j", "i") if case["names"] else ("yh", "xh")
    yn, xn = ("nav_lat", "nav_lon") if case["names"] else ("geolat", "geolon")
    data = gen.field(case["seed"], "noise", (nt, ny, nx), -1, 1, salt=4)
    if case.get("holes"):
        # missing values and land in the field say nothing about the mask
        data = np.where(gen.mask_nan(case["seed"], (nt, ny, nx), case["holes"]), np.nan, data)
        data[:, gen.mask_nan(case["seed"], (ny, nx), case["holes"], salt=78)] = np.nan
    coords = {"time": np.arange(nt) * 1.0}
    if case["coords"] == "1d":
        coords.update({yd: lat1, xd: lon1})
    elif case["dimcoord"] == "values":
        coords.update({yd: np.arange(ny) * 1.5 - 3, xd: np.arange(nx) * 2.0 + 100})
    if case["coords"] in ("2d", "2dT"):
        if case["coords"] == "2d":
            coords[yn] = ((yd, xd), lat)
            coords[xn] = ((yd, xd), lon)
        else:
            coords[yn] = ((xd, yd), lat.T)
            coords[xn] = ((xd, yd), lon.T)
    if case["scalar"]:
        coords["height"] = 3.0
    attrs = dict(gen.attrs_of(case["attrs"]))
    own = dict(attrs)
    if case.get("clash"):
        # attributes of the field with the names of what is recorded
        attrs.update(distance="far", model_coords="somewhere", real_coords=0, mod_index=-1, name="zos")
    arr = xr.DataArray(data, dims=["time", yd, xd], coords=coords, name="zos", attrs=attrs)
    order = {"tyx": ["time", yd, xd], "yxt": [yd, xd, "time"], "txy": ["time", xd, yd], "yx": [yd, xd]}[case["order"]]
    if case["order"] == "yx":
        arr = arr.isel(time=0, drop=True)
        data = data[:1]
    arr = arr.transpose(*order)
    kw = {}
    if case["coords"] == "1d":
        kw.update(xcoord=xd, ycoord=yd)
    elif case["coords"] == "2dobj":
        dc = {k: arr[k] for k in (yd, xd) if k in arr.coords}
        kw.update(
            xcoord=xr.DataArray(lon, dims=[yd, xd], coords=dc, name=xn),
            ycoord=xr.DataArray(lat, dims=[yd, xd], coords=dc, name=yn),
        )
    elif case["names"]:
        kw.update(xcoord=xn, ycoord=yn)
    use = np.ones((ny, nx), dtype=bool)
    if case["mask"]:
        use = r.random((ny, nx)) < 0.6
        if not use.any():
            use[0, 0] = True
        mv = np.where(use, 1.0, np.nan if case["mask"] == "nan" else 0.0)
        dc = {k: arr[k] for k in (yd, xd) if k in arr.coords}
        if case["mask"] == "basins":
            mv = np.where(use, 1.0, r.choice([0.0, 2.0, 3.0], use.shape))
        elif case["mask"] != "nan":
            mv = mv.astype(case.get("mtype", "f8"))
        mask = xr.DataArray(mv, dims=[yd, xd], coords=dc, name=case["maskname"])
        if case["maskorder"] == "T":
            mask = mask.transpose(xd, yd)
        kw["mask"] = mask
    tmp = None
    here = os.getcwd()
    try:
        if case["csv"] == "file":
            m = case["nloc"]
            k = r.integers(0, ny * nx, m)
            pla = np.round(lat.ravel()[k] + r.normal(0, 3, m), 4)
            plo = np.round(lon.ravel()[k] + r.normal(0, 3, m), 4)
            if case.get("twins"):
                # several gauges at the same place
                k = r.integers(0, m, m)
                pla, plo = pla[k], plo[k]
            names = [f"SITE_{i:03d}" for i in range(m)]
            if case.get("sites") == "words":
                w = ["ST. JOHN'S", "New York (The Battery)", "São Tomé", "a/b", "time", "zos", "lat", "Pt. Barrow, AK"]
                names = [w[j % 8] + ("" if j < 8 else f" {j}") for j in r.permutation(m)]
                if set(names) & (set(arr.coords) | set(arr.dims)):
                    names = [x + "_" for x in names]
            tmp = scratch_file(case.get("fname", "list.csv"))
            cols = {"country": "X", case["colname"]: names, "lat": pla, "lon": plo}
            if case.get("rows"):
                cols = {"lon": plo, "id": np.arange(m) + 7, "lat": pla, case["colname"]: names, "note": [None, "x"][case["seed"] % 2]}
            pd.DataFrame(cols).to_csv(tmp, index=False)
            kw["csv"] = tmp
            if case.get("how") == "path":
                kw["csv"] = pathlib.Path(tmp)
            elif case.get("how") == "rel":
                os.chdir(os.path.dirname(tmp))
                kw["csv"] = os.path.basename(tmp)
        else:
            src = f"/repo/src/momlevel/resources/{case['csv']}_tide_gauges.csv"
            if case["csv"] == "global" or r.random() < 0.5:
                kw["csv"] = case["csv"]
            else:
                src = "/repo/src/momlevel/resources/us_tide_gauges.csv"
            df = pd.read_csv(src, encoding="utf-8-sig")
            names = list(df["PSMSL_site"])
            pla, plo = df["lat"].values, df["lon"].values
            m = len(names)
        d = np.array([orc.haversine(a, b, lat[use], lon[use]) * 6378.0 for a, b in zip(pla, plo)]).astype(float)
        best = d.min(axis=1)
        thr = None
        if case["threshold"] == "some":
            s = np.sort(best)
            j = int(r.integers(m))
            thr = float(s[j] + (0.5 * (s[j + 1] - s[j]) if j + 1 < m else 1.0))
            if (np.abs(best - thr) < 1e-3).any():
                return
        elif case["threshold"] == "none":
            thr = -1.0
        if thr is not None:
            kw["threshold"] = thr
        if case["warn"] is not None:
            kw["disable_warning"] = case["warn"]
        if case["chunk"]:
            arr = arr.chunk({x: 2 for x in arr.dims})
        res, exc, wl, _ = sut_report(momlevel.extract_tidegauge, arr, **kw)
    finally:
        os.chdir(here)
        if tmp is not None:
            os.unlink(tmp)
    check(exc is None, f"extract_tidegauge raised on a valid input: {type(exc).__name__}: {exc}")
    keep = [i for i in range(m) if thr is None or best[i] <= thr]
    check(set(res.data_vars) == {names[i] for i in keep}, f"sites {sorted(res.data_vars)[:8]}, expected {sorted(names[i] for i in keep)[:8]}")
    seen = {}
    for i in keep:
        seen.setdefault(names[i], []).append(i)
    la, lo = lat[use], lon[use]
    pick = np.argwhere(use)
    for nm, idx in seen.items():
        v = res[nm]
        got = np.asarray(v.values, dtype=float).reshape(-1)
        dims = tuple(v.dims)
        check(dims == (() if case["order"] == "yx" else ("time",)), f"{nm}: dimensions {dims}")
        bad = []
        for i in idx:  # (two gauges of the same name: either)
            hit = False
            for q in np.where(d[i] <= best[i] + 3e-8 * 6378)[0]:
                y, x = pick[q]
                if not np.array_equal(got, data[:, y, x], equal_nan=True):
                    continue
                at = v.attrs
                if abs(at["distance"] - best[i]) > 3e-8 * 6378:
                    bad.append(f"distance {at['distance']}, expected {best[i]}")
                elif not np.allclose(at["real_coords"], (pla[i], plo[i]), atol=1e-9):
                    bad.append(f"real coordinates {at['real_coords']}, expected {(pla[i], plo[i])}")
                elif not np.array_equal(at["model_coords"], (la[q], lo[q])):
                    bad.append(f"model coordinates {at['model_coords']}, expected {(la[q], lo[q])}")
                else:
                    hit = True
            if hit:
                break
        else:
            why = bad[0] if bad else "the series is not that of the nearest unmasked grid point"
            check(False, f"{nm}: {why} (gauge at {[(pla[i], plo[i]) for i in idx]})")
        for k, w in own.items():
            check(v.attrs.get(k) == w, f"{nm}: attribute {k!r} is lost")
        if case["order"] != "yx":
            check(np.array_equal(v["time"].values, coords["time"]), f"{nm}: time changed")
    msgs = [str(w.message) for w in wl if "Unable to map" in str(w.message)]
    if case["warn"] is False:
        for i in range(m):
            if i not in keep:
                check(any(names[i] in s for s in msgs), f"no warning about {names[i]!r}, which is dropped")
    else:
        check(not msgs, "warnings although they are disabled")
    rec.nt()
    rec.label(case["coords"])
    rec.label(case["csv"])
    rec.label("masked", bool((~use).any()))
    rec.label("some dropped", 0 < len(keep) < m)
    rec.label("transposed", case["order"] in ("txy",) or case["coords"] == "2dT")


# -- inputs that must be rejected -------------------------------------------------


@st.composite
def bad_cases(draw):
    return {
        "bad": draw(st.sampled_from(["numpy", "dataset", "xname", "yname", "xnumpy", "ynumpy", "mask", "nocsv", "ranks", "dims"])),
        "names": draw(gen.often(0.5)),
        "seed": draw(gen.seeds()),
    }


def f_bad(case, rec):
    r = gen.rng(case["seed"], 1)
    lon, lat = np.meshgrid(np.linspace(-100, -60, 4), np.linspace(20, 50, 3))
    yn, xn = ("nav_lat", "nav_lon") if case["names"] else ("geolat", "geolon")
    arr = xr.DataArray(
        r.random((3, 4)), dims=["yh", "xh"], coords={"yh": np.arange(3), "xh": np.arange(4), yn: (("yh", "xh"), lat), xn: (("yh", "xh"), lon)}, name="zos"
    )
    kw = {"xcoord": xn, "ycoord": yn}
    b = case["bad"]
    if b == "numpy":
        arr = arr.values
    elif b == "dataset":
        arr = arr.to_dataset()
    elif b == "xname":
        kw["xcoord"] = "nowhere"
    elif b == "yname":
        kw["ycoord"] = "nowhere"
    elif b == "xnumpy":
        kw["xcoord"] = lon
    elif b == "ynumpy":
        kw["ycoord"] = lat
    elif b == "mask":
        kw["mask"] = np.ones((3, 4))
    elif b == "nocsv":
        kw["csv"] = "/nonexistent/list.csv"
    elif b == "ranks":
        kw["xcoord"] = arr["xh"]
    elif b == "dims":
        kw["ycoord"] = xr.DataArray(lat.T, dims=["xh", "yh"], coords={"yh": arr["yh"], "xh": arr["xh"]}, name=yn)
    must_raise(f"extract_tidegauge with a wrong input ({b})", momlevel.extract_tidegauge, arr, **kw)
    rec.nt()
    rec.label(b)


PROP = Prop(
    "C24",
    "fields on 1x1 to 20x20 grids, dimensions in several orders, 1-d or 2-d "
    "coordinates (given by name or as arrays, in either order of dimensions), "
    "masks of any type with 0 or missing values in either order and of any name, thresholds, "
    "station lists from a generated CSV file or the two built-in ones. "
    "Non-trivial: every case that was compared with a search over all grid "
    "points, and every rejected input.",
    [
        Sub("extract", cases(), f_extract, quick=2400, thorough=6000, shards=8),
        Sub("reject", bad_cases(), f_bad, quick=360, thorough=900, shards=1),
        large.sub(cases(), f_extract, large.points),
    ],
    assumptions=["distances are compared to 3e-8 Earth radii"],
)
