"""C23 - nearest model points of real-world locations"""

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from momlevel import util

from .. import gen, large, orc
from ..core import Prop, Sub, check, close, sut, sut_report


@st.composite
def cases(draw):
    return {
        "seed": draw(gen.seeds()),
        "ny": draw(gen.sizes(1, 8, 30)),
        "nx": draw(gen.sizes(1, 8, 40)),
        "grid": draw(gen.weighted(("regular", 3), ("random", 3), ("dateline", 2), ("poles", 2), ("small", 2), ("lon360", 2), ("wide", 3), ("int", 1))),
        "dtype": draw(gen.weighted(("f8", 6), ("f4", 1))),
        "dup": draw(gen.often(0.15)),
        "mask": draw(gen.weighted(("none", 2), ("random", 4), ("all", 1), ("fraction", 1), ("basins", 1))),
        "masknan": draw(gen.often(0.3)),
        "apply": draw(gen.weighted((None, 3), (True, 1), (False, 1))),
        "nloc": draw(gen.sizes(1, 6, 60)),
        "locs": draw(gen.weighted(("near", 3), ("anywhere", 3), ("exact", 1))),
        "threshold": draw(gen.weighted((None, 3), ("some", 5), ("none", 1), ("zero", 1), ("all", 1))),
        "rad": draw(gen.weighted((None, 3), (6371.0, 1), (1.0, 1))),
        "mnames": draw(gen.often(0.4)),
        "lnames": draw(gen.often(0.4)),
        "index": draw(st.sampled_from(["range", "text", "reversed", "multi", "repeated"])),
        "warn": draw(gen.weighted((None, 4), (False, 2))),
        "dupcol": draw(gen.often(0.2)),
        "extra": draw(gen.often(0.5)),
    }


def model_points(case):
    r = gen.rng(case["seed"], 1)
    ny, nx = case["ny"], case["nx"]
    g = case["grid"]
    if g == "regular":
        lat = np.linspace(-80, 80, ny) if ny > 1 else np.array([10.0])
        lon = -180 + 360.0 * np.arange(nx) / nx
    elif g == "lon360":
        lat = np.linspace(-60, 85, ny)
        lon = 360.0 * np.arange(nx) / nx
    elif g == "dateline":
        lat = np.linspace(-20, 20, ny)
        lon = 170 + 20.0 * np.arange(nx) / nx
        if case["seed"] % 2:
            lon = np.where(lon > 180, lon - 360, lon)
    elif g == "poles":
        lat = np.linspace(80, 90, ny) * (1 if case["seed"] % 2 else -1)
        lon = -300 + 360.0 * np.arange(nx) / nx
    elif g == "wide":
        # conventions of regional models: any start, also a whole turn away
        lat = np.linspace(-75, 88, ny)
        lon = (73.0, -517.0, -300.0, 240.0, 395.0)[case["seed"] % 5] + 360.0 * np.arange(nx) / nx
    elif g == "int":
        lat = np.arange(ny) * 2 - 20
        lon = np.arange(nx) * 3 + 300
    elif g == "small":
        lat = 40 + 0.1 * np.arange(ny)
        lon = -70 + 0.1 * np.arange(nx)
    else:
        lat, lon = None, None
    if lat is None:
        la, lo = r.uniform(-90, 90, (ny, nx)), r.uniform(-280, 180, (ny, nx))
    else:
        lo, la = np.meshgrid(lon, lat)
        if case["seed"] % 3 == 0 and g not in ("poles", "int"):
            la = la + r.uniform(-0.03, 0.03, la.shape)
            lo = lo + r.uniform(-0.03, 0.03, lo.shape)
    la, lo = la.ravel().copy(), lo.ravel().copy()
    if case.get("dtype") == "f4" and g != "int":
        la, lo = la.astype("f4"), lo.astype("f4")
    if case["dup"] and len(la) > 1:
        la[-1], lo[-1] = la[0], lo[0]
    return la, lo


def f_locate(case, rec):
    r = gen.rng(case["seed"], 2)
    la, lo = model_points(case)
    n = len(la)
    eps = 3e-8 if la.dtype != np.float32 else 3e-6
    mask = None
    if case["mask"] == "random":
        mask = (r.random(n) < 0.6).astype(float)
    elif case["mask"] == "fraction":
        mask = r.choice([0.0, 0.5, 1.0, np.nan], n)
    elif case["mask"] == "basins":
        # only the points marked 1 are to be used
        mask = r.choice([0.0, 1.0, 2.0, 7.0, -1.0], n)
    elif case["mask"] == "all":
        mask = np.ones(n)
    if mask is not None and not (mask == 1).any():
        mask[int(r.integers(n))] = 1.0
    use = np.ones(n, dtype=bool) if mask is None or case["apply"] is False else mask == 1
    if case["masknan"] and not use.all():
        la = np.where(use, la, np.nan)
    ok = np.where(use)[0]
    mc = ("yy", "xx") if case["mnames"] else ("geolat", "geolon")
    lc = ("latitude", "longitude") if case["lnames"] else ("lat", "lon")
    m = case["nloc"]
    if case["locs"] == "anywhere":
        pla, plo = r.uniform(-90, 90, m), r.uniform(-400, 400, m)
    else:
        k = r.choice(ok, m)
        pla, plo = la[k].astype(float), lo[k].astype(float)
        if case["locs"] == "near":
            pla = np.clip(pla + r.normal(0, 2, m), -90, 90)
            plo = plo + r.normal(0, 2, m) + r.choice([0, 0, 360, -360], m)
    rad = 6378.0 if case["rad"] is None else case["rad"]
    dist = np.array([orc.haversine(a, b, la[ok].astype(float), lo[ok].astype(float)) * rad for a, b in zip(pla, plo)]).astype(float)
    best = dist.min(axis=1)
    thr = None
    if case["threshold"] == "some":
        s = np.sort(best)
        j = int(r.integers(m))
        thr = float(s[j] + (0.5 * (s[j + 1] - s[j]) if j + 1 < m else 1e-3 * rad))
    elif case["threshold"] == "none":
        thr = -1.0
    elif case["threshold"] == "zero":
        thr = 0.0
    elif case["threshold"] == "all":
        thr = 4.0 * rad
    if thr is not None and (np.abs(best - thr) < 4 * eps * rad).any() and thr != 0.0:
        return
    if thr == 0.0 and eps > 1e-7:
        return
    if thr == 0.0 and ((best > 0) & (best < 30 * eps * rad)).any():
        return

    iy, ix = np.divmod(np.arange(n), case["nx"])
    dfm = pd.DataFrame(
        {mc[0]: la, mc[1]: lo},
        index=pd.MultiIndex.from_arrays([iy * 1.5, ix * 2 + 7], names=["yh", "xh"]),
    )
    if mask is not None:
        dfm["mask"] = mask
    if case["dupcol"]:
        dfm = pd.concat([dfm, dfm[[mc[0]]]], axis=1)
    names = [f"site {i:03d}" for i in range(m)]
    dfl = pd.DataFrame({"name": names, lc[0]: pla, lc[1]: plo})
    if case["extra"]:
        dfl["id"] = np.arange(m) + 100
    if case["index"] == "text":
        dfl.index = [f"r{i}" for i in range(m)]
    elif case["index"] == "reversed":
        dfl.index = np.arange(m)[::-1]
    elif case["index"] == "repeated":
        dfl.index = np.arange(m) // 2
    elif case["index"] == "multi":
        dfl.index = np.arange(m) * 10 + 5
    kw = {}
    if thr is not None:
        kw["threshold"] = thr
    if case["mnames"]:
        kw["model_coords"] = mc
    if case["lnames"]:
        kw["loc_coords"] = lc
    if case["rad"] is not None:
        kw["rad_earth"] = case["rad"]
    if case["apply"] is not None:
        kw["apply_mask"] = case["apply"]
    if case["warn"] is not None:
        kw["disable_warning"] = case["warn"]
    dfm0, dfl0 = dfm.copy(deep=True), dfl.copy(deep=True)
    if case["apply"] is False and np.isnan(la).any():
        return
    res, exc, wl, _ = sut_report(util.geolocate_points, dfm, dfl, **kw)
    check(exc is None, f"geolocate_points raised on a valid input: {type(exc).__name__}: {exc}")
    check(dfm.equals(dfm0) and dfl.equals(dfl0), "geolocate_points changed its inputs")
    keep = [i for i in range(m) if thr is None or best[i] <= thr * (1 + 1e-12) + (1e-6 * rad if thr == 0 else 0)]
    check(list(res["name"]) == [names[i] for i in keep], f"sites {list(res['name'])}, expected {[names[i] for i in keep]} (threshold {thr}, distances {best})")
    check(list(res.index) == [dfl.index[i] for i in keep], "the index of the locations changed")
    if case["extra"]:
        check(list(res["id"]) == [100 + i for i in keep], "columns of the locations are mixed up")
    for col in ("mod_index", "distance", "model_coords", "dim_vals", "real_coords"):
        check(col in res.columns, f"column {col!r} is missing")
    for row, i in zip(res.to_dict("records"), keep):
        j = int(row["mod_index"])
        check(0 <= j < n and use[j], f"site {i} is mapped to row {j}, which is masked or does not exist")
        d = float(orc.haversine(pla[i], plo[i], float(la[j]), float(lo[j]))) * rad
        check(d <= best[i] + eps * rad, f"site {i} is mapped to row {j} at {d} km, but the nearest is at {best[i]} km")
        check(abs(row["distance"] - d) <= eps * rad, f"site {i}: distance {row['distance']!r}, expected {d!r}")
        check(tuple(row["model_coords"]) == (la[j], lo[j]), f"site {i}: model coordinates {row['model_coords']}, expected {(la[j], lo[j])}")
        check(tuple(row["dim_vals"]) == tuple(dfm.index[j]), f"site {i}: dimension values {row['dim_vals']}, expected {dfm.index[j]}")
        check(tuple(row["real_coords"]) == (pla[i], plo[i]), f"site {i}: real coordinates {row['real_coords']}")
    lost = [names[i] for i in range(m) if i not in keep]
    msgs = [str(w.message) for w in wl if "Unable to map" in str(w.message)]
    if case["warn"] is False:
        for nm in lost:
            check(any(nm in s for s in msgs), f"no warning about {nm!r}, which is dropped")
        for i in keep:
            # at exactly the threshold a warning is allowed
            if thr is not None and best[i] < thr - 4 * eps * rad:
                check(not any(names[i] in s for s in msgs), f"warning about {names[i]!r}, which is kept")
    else:
        check(not msgs, "warnings although they are disabled")
    rec.nt(len(ok) > 1)
    rec.label(case["grid"])
    rec.label("masked", bool((~use).any()))
    rec.label("some dropped", 0 < len(keep) < m)
    rec.label("none kept", not keep)
    rec.label("warnings on", case["warn"] is False)
    rec.label("other names", case["mnames"] or case["lnames"])


PROP = Prop(
    "C23",
    "1-1200 model points (regular, random, around the date line, around a pole, "
    "longitudes in several conventions, duplicates) with 0/1, fractional or "
    "missing mask, 1-60 locations near to or far from them, thresholds between the "
    "distances, other column names and row labels. The oracle is a search over "
    "all points with the haversine formula. Non-trivial: at least two points to choose from.",
    [
        Sub("locate", cases(), f_locate, quick=5400, thorough=13500, shards=8),
        large.sub(cases(), f_locate, large.points),
    ],
    assumptions=["distances are compared to 3e-8 Earth radii (the precision of the haversine formula near antipodes; 3e-6 for single precision coordinates)"],
)
