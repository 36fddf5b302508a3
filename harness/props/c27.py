"""C27 - dask-chunked inputs: same results, nothing loaded early"""

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from .. import gen, ops
from ..core import Prop, Sub, check, close, sut


@st.composite
def cases(draw, op):
    return {
        "w": draw(ops.worlds()),
        "op": op,
        "chunks": draw(
            st.fixed_dictionaries(
                {
                    "time": st.sampled_from([-1, 1, 5, 12]),
                    "z_l": st.sampled_from([-1, 1, 2]),
                    "y": st.sampled_from([-1, 1, 2]),
                    "x": st.sampled_from([-1, 1, 2]),
                }
            )
        ),
    }


COUNT = [0]


def _mark(block):
    COUNT[0] += 1
    return block


def wrap_for(case):
    ch = case["chunks"]

    # (dask cannot differentiate along an axis of very small chunks)
    whole_z = case["op"].startswith(("n2", "stability"))

    def size(d):
        if d == "z_l" and whole_z:
            return -1
        if d in ("time", "z_l"):
            return ch[d]
        return ch["y"] if d in ("yh", "yq", "lat") else ch["x"]

    def one(v):
        if v.ndim < 3 and not (v.ndim == 2 and "time" in v.dims):
            return v  # grid information stays as it is
        v = v.chunk({d: size(d) for d in v.dims})
        return v.copy(data=v.data.map_blocks(_mark, dtype=v.dtype))

    def wrap(x):
        if isinstance(x, xr.DataArray):
            return one(x)
        out = x.copy()
        for n in x.data_vars:
            out[n] = one(x[n])
            out[n].encoding = x[n].encoding
        return out

    return wrap


def compare(op, eager, res, f4, how="of dask arrays"):
    """the results of both ways are the same; -> number of lazy ones"""
    check(len(res) == len(eager), "another number of results")
    nonlocal_ = 0
    for a, b in zip(eager, res):
        if not hasattr(a, "dims"):
            check(ops.differs(a, b) is None, f"{op}: {a!r} / {b!r}")
            continue
        check(type(a) is type(b), f"{op}: {type(b).__name__} instead of {type(a).__name__}")
        pairs = [(n, a[n], b.get(n)) for n in a.data_vars] if isinstance(a, xr.Dataset) else [("result", a, b)]
        if isinstance(a, xr.Dataset):
            check(set(a.variables) == set(b.variables), f"{op}: variables {sorted(map(str, b.variables))}, expected {sorted(map(str, a.variables))}")
        for n, x, y in pairs:
            if x.dtype.kind not in "fiub":
                continue
            nonlocal_ += y.chunks is not None
            check(set(x.dims) == set(y.dims), f"{op} {n}: dimensions {y.dims}, expected {x.dims}")
            xa, ya = [{k: v for k, v in q.attrs.items() if k != "detrend_comment"} for q in (x, y)]
            check(gen.same_attrs(xa, ya), f"{op} {n}: attributes {y.attrs}, expected {x.attrs}")
            xv, yv = np.asarray(x.values, dtype=float), np.asarray(y.transpose(*x.dims).values, dtype=float)
            fin = np.abs(xv[np.isfinite(xv)])
            m = float(fin.max()) if fin.size else 0.0
            check(y.dtype == y.data.dtype and np.asarray(y.values).dtype == y.dtype, f"{op} {n}: declared as {y.dtype}, but the values are {np.asarray(y.values).dtype}")
            check(f4 or x.dtype.newbyteorder("=") == y.dtype.newbyteorder("="), f"{op} {n}: type {y.dtype} for inputs {how}, {x.dtype} for the same data in memory")
            close(f"{op} {n} {how}", yv, xv, rtol=1e-4 if f4 else 1e-9, atol=m * (1e-5 if f4 else 1e-11))
            for c in x.coords:
                check(c in y.coords and gen.same_values(x[c].values, y[c].values), f"{op} {n}: coordinate {c}")
    return nonlocal_


def f_lazy(case, rec):
    f, lazy = ops.OPS[case["op"]]
    eager = ops.flat(sut(case["op"], f, ops.World(case["w"])))
    w = ops.World(case["w"], wrap_for(case))
    COUNT[0] = 0
    res = ops.flat(sut(f"{case['op']} of dask arrays", f, w))
    if lazy:
        check(COUNT[0] == 0, f"{case['op']!r} loads {COUNT[0]} blocks of a dask input before anything is asked for")
    nonlocal_ = compare(case["op"], eager, res, case["w"]["f4"])
    rec.nt(nonlocal_ > 0)
    rec.label("result is lazy", nonlocal_ > 0)


PROP = Prop(
    "C27",
    "every public calculation on inputs that are chunked in any way along any "
    "dimension, compared with the same call on eager inputs; the blocks of the "
    "inputs count how often they are computed. Non-trivial: the result has at "
    "least one dask-backed variable.",
    [Sub(n.replace(" ", "_"), cases(n), f_lazy, quick=11, thorough=100, shards=1) for n in ops.NAMES],
    assumptions=[
        "calc_spice loads its input (only its values are compared)",
        "derivatives need whole columns in one chunk (a limit of dask that it reports itself)",
    ],
)
