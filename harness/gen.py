"""gen.py - generators.  Every generator yields JSON-able values; the builders
turn them into arrays and xarray objects deterministically."""

import cftime
import numpy as np
import xarray as xr
from hypothesis import strategies as st

CALENDARS = [
    "noleap",
    "standard",
    "proleptic_gregorian",
    "julian",
    "360_day",
    "all_leap",
]

KINDS = ["noise", "const", "ramp", "quant", "spiky", "smooth"]


def seeds():
    return st.integers(0, 2**31 - 1)


def often(p=0.5):
    """a boolean that is true with probability about p and shrinks to False"""
    n = int(round(p * 20))
    return st.integers(0, 19).map(lambda v: v >= 20 - n)


def weighted(*pairs):
    """value strategy with weights; first one is what shrinking goes to"""
    bag = []
    for v, w in pairs:
        bag += [v] * w
    return st.integers(0, len(bag) - 1).map(lambda i: bag[i])


def size(lo=1, hi=5):
    """lo..hi; the smallest size is half as likely as the others"""
    bag = [lo] + [v for v in range(lo + 1, hi + 1) for _ in (0, 1)]
    return st.integers(0, len(bag) - 1).map(lambda i: bag[i])


def sizes(lo=1, hi=5, big=None, p=0.08):
    """like `size`, and a large one now and then"""
    if not big:
        return size(lo, hi)
    return st.one_of(*([size(lo, hi)] * max(1, int(round(1 / p)) - 1) + [st.integers(hi + 1, big)]))


def rng(*key):
    return np.random.default_rng([abs(int(k)) for k in key])


def field(seed, kind, shape, lo, hi, salt=0):
    """array contents: a pure function of its arguments"""
    r = rng(seed, salt)
    shape = tuple(shape)
    n = int(np.prod(shape)) if shape else 1
    if kind == "const":
        a = np.full(n, r.uniform(lo, hi))
    elif kind == "ramp":
        a = np.linspace(*sorted(r.uniform(lo, hi, 2)), n)
        if r.integers(2):
            a = a[::-1].copy()
    elif kind == "quant":
        a = np.round(r.uniform(lo, hi, n))
        a = np.clip(a, np.ceil(lo), np.floor(hi))
    elif kind == "spiky":
        a = np.where(r.random(n) < 0.3, r.choice([lo, hi], n), r.uniform(lo, hi, n))
    elif kind == "smooth":
        mid, amp = 0.5 * (lo + hi), 0.5 * (hi - lo)
        a = mid + 0.3 * amp * np.sin(np.arange(n) * 0.7 + r.uniform(0, 6)) * r.random()
    else:
        a = r.uniform(lo, hi, n)
    return a.reshape(shape)


def mask_nan(seed, shape, frac, salt=77):
    """boolean array, True where a value is to be missing"""
    return rng(seed, salt).random(tuple(shape)) < frac


def cast(a, dtype):
    if dtype == "f4":
        return a.astype("float32")
    if dtype == "i8":
        return np.round(a).astype("int64")
    if dtype == "i4":
        return np.round(a).astype("int32")
    return a


ATTRS = [
    {},
    {"units": "W m-2 "},
    {"long_name": "Some long name", "units": "degC", "standard_name": "some_name"},
    {"cell_methods": "time: mean", "custom": 3, "units": "kg m-2 s-1", "standard_name": "other name"},
]


def attrs_of(i):
    return dict(ATTRS[i % len(ATTRS)])


def perm_of(seed, n):
    return [int(x) for x in rng(seed, 4242).permutation(n)]


# ---------------------------------------------------------------------------
# vertical grids
# ---------------------------------------------------------------------------


@st.composite
def zgrid(draw, lo=1, hi=6, big=None):
    """interfaces and levels of a vertical grid (positive down)"""
    n = draw(sizes(lo, hi, big))
    return {
        "n": n,
        "seed": draw(seeds()),
        "kind": draw(weighted(("uniform", 2), ("stretched", 3), ("random", 3), ("deep", 1), ("fine", 1))),
        "levels": draw(weighted(("mid", 6), ("off", 4), ("top", 1))),
        "top0": draw(weighted((0.0, 6), (2.0, 1))),
    }


def build_z(z):
    """-> interfaces (n+1), levels (n)"""
    n = z["n"]
    r = rng(z["seed"], 1)
    if z["kind"] == "uniform":
        d = np.full(n, float(r.choice([1.0, 5.0, 10.0, 100.0, 250.0])))
    elif z["kind"] == "stretched":
        d = 5.0 * np.power(r.uniform(1.1, 4.0), np.arange(n))
        d = np.minimum(d, 2500.0)
    elif z["kind"] == "fine":
        # thin cells below the surface, or everywhere
        d = np.round(r.uniform(0.05, 1.5, n), 2)
        if r.integers(2):
            d[n // 2 :] *= 100.0
    elif z["kind"] == "deep":
        d = r.uniform(0.2, 1.0, n)
        d = d / d.sum() * 11000.0
    else:
        d = np.round(r.uniform(1.0, 900.0, n), int(r.integers(0, 3)))
        d = np.maximum(d, 0.5)
    zi = z["top0"] + np.concatenate([[0.0], np.cumsum(d)])
    if z["levels"] == "mid":
        zl = 0.5 * (zi[1:] + zi[:-1])
    elif z["levels"] == "top":
        zl = zi[:-1].copy()
    else:
        zl = zi[:-1] + (zi[1:] - zi[:-1]) * r.uniform(0.2, 0.8, n)
    return zi, zl


# ---------------------------------------------------------------------------
# time axes
# ---------------------------------------------------------------------------


def safe_year(y, calendar, span=0):
    """keep clear of October 1582 of the mixed calendar"""
    if calendar in ("standard", "gregorian") and y <= 1584 and y + span >= 1581:
        return 1600
    return y


@st.composite
def monthly_axis(draw, lo=1, hi=5, whole=True, big=None):
    cal = draw(st.sampled_from(CALENDARS))
    ny = draw(sizes(lo, hi, big, 0.06))
    y = draw(
        st.one_of(
            st.integers(1970, 2030),
            st.sampled_from([1, 4, 99, 100, 850, 999, 1000, 1899, 1900, 1999, 2000, 2099, 2100]),
            st.integers(1, 2500),
        )
    )
    y = safe_year(y, cal, ny)
    out = {"cal": cal, "y0": y, "ny": ny, "where": draw(weighted(("mid", 4), ("start", 2), ("mixed", 2)))}
    if not whole:
        out["skip"] = draw(st.integers(0, 11))
        out["drop"] = draw(st.integers(0, 11))
    return out


def build_monthly(ax):
    """list of cftime dates, one per month"""
    from .orc import month_length

    cal = ax["cal"]
    out = []
    for y in range(ax["y0"], ax["y0"] + ax["ny"]):
        for m in range(1, 13):
            ml = month_length(y, m, cal)
            if ax["where"] == "start":
                d, h = 1, 0
            elif ax["where"] == "mid":
                half = ml * 12
                d, h = 1 + half // 24, half % 24
            else:
                d, h = 1 + (y * 7 + m * 11) % ml, (m * 5) % 24
            out.append(cftime.datetime(y, m, d, h, calendar=cal))
    if "skip" in ax:
        out = out[ax["skip"] :]
        if ax["drop"]:
            out = out[: max(1, len(out) - ax["drop"])]
    return out


def obj_array(lst):
    a = np.empty(len(lst), dtype=object)
    for i, v in enumerate(lst):
        a[i] = v
    return a


def chunked(obj, how):
    """how: None or dict dim -> size (dims that are not there are ignored)"""
    if not how:
        return obj
    # blocks of a large dimension grow with it: the number of blocks stays small
    return obj.chunk({k: max(v, -(-obj.sizes[k] // 5)) for k, v in how.items() if k in obj.dims})


def same_attrs(x, y):
    """equal attributes (missing numbers are equal to each other)"""
    return dict(x) == dict(y) or {k: repr(v) for k, v in x.items()} == {k: repr(v) for k, v in y.items()}


def same_dataset(a, b):
    """None, or what differs between two xarray objects (values, dims, coords,
    names, attributes, encoding, dtypes)"""
    if type(a) is not type(b):
        return f"type {type(a).__name__} / {type(b).__name__}"
    if isinstance(a, xr.Dataset):
        if list(a.variables) != list(b.variables):
            return f"variables {list(a.variables)} / {list(b.variables)}"
        if set(a.coords) != set(b.coords):
            return "coords"
        if not same_attrs(a.attrs, b.attrs):
            return f"global attributes {a.attrs} / {b.attrs}"
        names = list(a.variables)
        va, vb = a.variables, b.variables
    elif isinstance(a, xr.DataArray):
        if a.name != b.name:
            return f"name {a.name} / {b.name}"
        if list(a.coords) != list(b.coords):
            return f"coords {list(a.coords)} / {list(b.coords)}"
        names = [None] + list(a.coords)
        va = {None: a.variable, **{k: a.coords[k].variable for k in a.coords}}
        vb = {None: b.variable, **{k: b.coords[k].variable for k in b.coords}}
    else:
        return None if same_values(a, b) else "values"
    for n in names:
        x, y = va[n], vb[n]
        if x.dims != y.dims:
            return f"{n}: dims {x.dims} / {y.dims}"
        if x.dtype != y.dtype:
            return f"{n}: dtype {x.dtype} / {y.dtype}"
        if not same_attrs(x.attrs, y.attrs):
            return f"{n}: attributes {x.attrs} / {y.attrs}"
        if {k: str(v) for k, v in x.encoding.items()} != {
            k: str(v) for k, v in y.encoding.items()
        }:
            return f"{n}: encoding {x.encoding} / {y.encoding}"
        if x.chunks != y.chunks:
            return f"{n}: chunks {x.chunks} / {y.chunks}"
        if not same_values(x.values, y.values):
            return f"{n}: values"
    return None


def same_values(x, y):
    x, y = np.asarray(x), np.asarray(y)
    if x.shape != y.shape:
        return False
    if x.dtype.kind in "fc" and y.dtype.kind in "fc":
        return bool(np.array_equal(x, y, equal_nan=True))
    return bool(np.array_equal(x, y))


def eos_kw(key, eos, seed):
    """the argument that chooses an equation of state: left out (the default), as
    documented, or in another capitalisation"""
    k = int(seed) % 7
    if eos == "Wright" and k < 3:
        return {}
    return {key: {3: eos.lower(), 4: eos.upper(), 5: eos.title()}.get(k, eos)}
