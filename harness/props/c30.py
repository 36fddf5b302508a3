"""C30 - results do not depend on how the arrays are stored"""

import io

import numpy as np
import xarray as xr
from hypothesis import strategies as st

from .. import gen, ops
from ..core import Prop, Sub, sut
from .c27 import compare

HOW = {
    "swap": "in the other byte order",
    "fortran": "in column-major order",
    "readonly": "in read-only memory",
    "reversed": "that are reversed views",
    "strided": "that are strided views",
    "file": "opened from a netCDF file",
}


def stored(a, how):
    """the same values, held in another way"""
    if not isinstance(a, np.ndarray) or a.dtype.kind not in "fiu":
        return a
    back = tuple(slice(None, None, -1) for _ in a.shape)
    if how == "swap":
        return a.astype(a.dtype.newbyteorder())
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "reversed":
        return a[back].copy()[back]
    if how == "strided":
        b = np.full(tuple(2 * s for s in a.shape), 77, dtype=a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    a = a.copy()
    a.flags.writeable = False
    return a


def reopened(ds):
    """written to a netCDF file (in memory) and opened again: lazy, big-endian"""
    d = ds.copy(deep=True)
    d.attrs = {}
    d.encoding = {}
    for n in d.variables:
        d[n].attrs, d[n].encoding = {}, {}
    cf = any(d[n].dtype == object for n in d.variables)
    out = xr.open_dataset(io.BytesIO(bytes(d.to_netcdf(engine="scipy", format="NETCDF3_64BIT"))), engine="scipy", use_cftime=cf)
    out = out.set_coords([n for n in ds.coords if n in out.data_vars])
    out.attrs, out.encoding = dict(ds.attrs), dict(ds.encoding)
    for n in ds.variables:
        out[n].attrs, out[n].encoding = dict(ds[n].attrs), dict(ds[n].encoding)
    return out


def wrap_for(how):
    def wrap(x):
        one = isinstance(x, xr.DataArray)
        y = x.to_dataset(name="_array", promote_attrs=False) if one else x
        if how == "file":
            y = reopened(y)
        else:
            enc = {n: dict(y[n].encoding) for n in y.variables}
            y = y.copy()
            for n in list(y.variables):
                # (index coordinates are held by pandas)
                if n not in y.dims:
                    y[n] = y[n].variable.copy(data=stored(y[n].values, how))
                    y[n].encoding = enc[n]
        return y["_array"].rename(x.name) if one else y

    return wrap


@st.composite
def cases(draw, op):
    return {"w": draw(ops.worlds()), "op": op, "how": draw(st.sampled_from(sorted(HOW)))}


def f_stored(case, rec):
    f, _ = ops.OPS[case["op"]]
    eager = ops.flat(sut(case["op"], f, ops.World(case["w"])))
    how = HOW[case["how"]]
    res = ops.flat(sut(f"{case['op']} of arrays {how}", f, ops.World(case["w"], wrap_for(case["how"]))))
    compare(case["op"], eager, res, case["w"]["f4"], how)
    rec.nt(any(hasattr(x, "dims") for x in eager))
    rec.label(case["how"])


# operations on arrays (the others have nothing that could be stored in another way)
NAMES = [n for n in ops.NAMES if not n.startswith(("default coords", "convert", "pv colours", "eos lookup", "rho number", "grid"))]

PROP = Prop(
    "C30",
    "every public calculation on inputs that are held in the other byte order, in "
    "column-major order, in read-only memory, as reversed or strided views, or opened "
    "from a netCDF file, compared with the same call on plain arrays. Non-trivial: "
    "the result has labelled arrays.",
    [Sub(n.replace(" ", "_"), cases(n), f_stored, quick=12, thorough=100, shards=1) for n in NAMES],
)
