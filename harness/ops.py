"""ops.py - a small world of inputs and the public operations on it; used by the
histories of C26 and the chunking comparison of C27"""

import datetime

import cftime
import numpy as np
import pandas as pd
import xarray as xr
from hypothesis import strategies as st

import momlevel
from momlevel import derived, reference, trend, util
from momlevel import eos as eos_mod
from momlevel import spice as spice_mod

from . import gen, ocean


@st.composite
def worlds(draw):
    return {
        "seed": draw(gen.seeds()),
        "nz": draw(gen.weighted((3, 2), (4, 4), (5, 4), (9, 1))),
        "neg": draw(gen.often(0.5)),
        "ny": draw(gen.size(2, 3)),
        "nx": draw(gen.size(2, 3)),
        "cal": draw(st.sampled_from(gen.CALENDARS)),
        "y0": draw(st.sampled_from([1999, 2000, 1970, 850])),
        "ny_": draw(gen.weighted((2, 3), (1, 1), (3, 1))),
        "land": draw(gen.often(0.6)),
        "f4": draw(gen.often(0.2)),
        "enc": draw(gen.often(0.5)),
        "order": draw(gen.weighted(("tzyx", 3), ("ztyx", 1), ("zyxt", 1))),
    }


class World:
    """named inputs; `wrap` is applied to every data array (e.g. to chunk it)"""

    def __init__(self, case, wrap=None):
        self.case = case
        wrap = wrap or (lambda x: x)
        r = gen.rng(case["seed"], 7)
        years = case.get("ny_", 2)
        nz, ny, nx, nt = case["nz"], case["ny"], case["nx"], 12 * years
        cal, y0 = case["cal"], case["y0"]
        ft = "float32" if case["f4"] else "float64"
        # (+ timedelta: the calendar-specific date class, as read from a file)
        tv = gen.obj_array([x + datetime.timedelta(0) for x in gen.build_monthly({"cal": cal, "y0": y0, "ny": years, "where": "mid"})])
        zi = np.concatenate([[0.0], np.cumsum(r.uniform(5, 400, nz))])
        zl = 0.5 * (zi[1:] + zi[:-1])
        c = {
            "time": ("time", tv, {"axis": "T", "cartesian_axis": "T"}),
            "z_l": ("z_l", zl, {"axis": "Z", "units": "meters", "positive": "down"}),
            "z_i": ("z_i", zi, {"axis": "Z", "units": "meters"}),
            "yh": ("yh", np.arange(ny) * 2.0 + 30, {"axis": "Y", "units": "degrees_north"}),
            "xh": ("xh", np.arange(nx) * 3.0 - 60, {"axis": "X", "units": "degrees_east"}),
        }
        lon, lat = np.meshgrid(c["xh"][1], c["yh"][1])
        c["geolat"] = (("yh", "xh"), lat + r.uniform(-0.5, 0.5, lat.shape), {"units": "degrees_north"})
        c["geolon"] = (("yh", "xh"), lon + r.uniform(-0.5, 0.5, lon.shape), {"units": "degrees_east"})
        land = (r.random((ny, nx)) < 0.3) & case["land"]
        land[0, 0] = False
        shp = (nt, nz, ny, nx)
        d4 = ("time", "z_l", "yh", "xh")
        order = {"tzyx": d4, "ztyx": ("z_l", "time", "yh", "xh"), "zyxt": ("z_l", "yh", "xh", "time")}[case["order"]]

        def f(lo, hi, shape, salt):
            a = gen.rng(case["seed"], salt).uniform(lo, hi, shape)
            return np.where(np.broadcast_to(land, shape) if shape[-2:] == land.shape else False, np.nan, a).astype(ft)

        ds = xr.Dataset(coords=c, attrs={"title": "world", "history": ["a"]})
        for name, lo, hi, salt in (("thetao", -1, 30, 1), ("so", 30, 38, 2), ("volcello", 500, 900, 3)):
            ds[name] = xr.DataArray(f(lo, hi, shp, salt), dims=d4, attrs={"long_name": name, "units": "u", "cell_methods": "time: mean"}).transpose(*order)
        area = np.where(land, np.nan, r.uniform(1, 2, (ny, nx)))
        ds["areacello"] = (("yh", "xh"), area / np.nansum(area) * ocean.AREA, {"units": "m2"})
        ds["deptho"] = (("yh", "xh"), np.where(land, np.nan, r.uniform(zi[1], zi[-1], (ny, nx))), {"units": "m"})
        if case["enc"]:
            ds["thetao"].encoding = {"dtype": np.dtype("float32"), "_FillValue": 1e20, "chunks": (1, 1), "preferred_chunks": {"time": 1}}
            ds["xh"].encoding = {"dtype": np.dtype("float64")}
            ds.encoding = {"unlimited_dims": {"time"}}
        self.ds = wrap(ds)
        self.pres = self.ds["z_l"] * 1e4 + 101325.0
        self.pres.attrs = {"units": "Pa"}
        self.patm = xr.DataArray(r.uniform(9.8e4, 1.03e5, (ny, nx)), dims=["yh", "xh"], coords={"yh": c["yh"][1], "xh": c["xh"][1]}, attrs={"units": "Pa"})

        # staggered velocities
        cu = dict(c)
        cu["xq"] = ("xq", c["xh"][1] + 1.5, {"axis": "X"})
        cu["yq"] = ("yq", c["yh"][1] + 1.0, {"axis": "Y"})
        uv = xr.Dataset(coords=cu)
        g = lambda lo, hi, s, k: gen.rng(case["seed"], k).uniform(lo, hi, s).astype(ft)  # noqa: E731
        uv["uo"] = (("z_l", "yh", "xq"), g(-1, 1, shp[1:], 11), {"units": "m s-1"})
        uv["vo"] = (("z_l", "yq", "xh"), g(-1, 1, shp[1:], 12), {"units": "m s-1"})
        uv["dxCu"] = (("yh", "xq"), g(1e3, 9e3, (ny, nx), 13), {"units": "m"})
        uv["dyCv"] = (("yq", "xh"), g(1e3, 9e3, (ny, nx), 14), {"units": "m"})
        uv["areacello_bu"] = (("yq", "xq"), g(1e6, 8e7, (ny, nx), 15), {"units": "m2"})
        uv["Coriolis"] = (("yq", "xq"), g(-1e-4, 1e-4, (ny, nx), 16), {"units": "s-1"})
        uv["n2"] = (("z_l", "yh", "xh"), g(-3e-4 if case.get("neg") else -1e-5, 1e-4, shp[1:], 17), {"units": "s-2", "long_name": "n2"})
        n2s = g(1e-7, 1e-4, shp[1:], 19)
        uv["n2s"] = (("z_l", "yh", "xh"), np.where(land, np.nan, n2s).astype(ft), {"units": "s-2", "long_name": "stable n2"})
        uv["zeta"] = (("z_l", "yq", "xq"), g(-1e-5, 1e-5, shp[1:], 18), {"units": "s-1"})
        self.uv = wrap(uv)

        # series
        ts = xr.DataArray(
            g(-2, 2, (nt, ny, nx), 21) + np.linspace(0, 1, nt)[:, None, None].astype(ft),
            dims=["time", "lat", "lon"],
            coords={"time": c["time"], "lat": ("lat", c["yh"][1], {"axis": "Y"}), "lon": ("lon", c["xh"][1], {"axis": "X"})},
            name="zos",
            attrs={"long_name": "sea level", "units": "m", "standard_name": "zos"},
        )
        self.ts = wrap(ts)
        self.tsds = xr.Dataset({"zos": self.ts, "static": ("station", [1.0, 2.0], {"k": "v"})}, attrs={"a": "b"})
        t0 = cftime.datetime(y0, 3, 1, 12, calendar=cal)
        dv = gen.obj_array([t0 + datetime.timedelta(days=k) for k in range(400)])
        self.daily = wrap(
            xr.DataArray(
                g(-1, 1, (400, ny), 22),
                dims=["time", "lat"],
                coords={"time": ("time", dv, {"axis": "T"}), "lat": ("lat", c["yh"][1], {"axis": "Y"})},
                name="zos",
                attrs={"long_name": "daily", "units": "m", "standard_name": "zos"},
            )
        )
        self.daily3 = wrap(
            xr.DataArray(
                g(-1, 1, (130, ny, nx), 24),
                dims=["time", "lat", "lon"],
                coords={"time": ("time", dv[:130], {"axis": "T"}), "lat": ("lat", c["yh"][1], {"axis": "Y"}), "lon": ("lon", c["xh"][1], {"axis": "X"})},
                name="zos",
                attrs={"long_name": "daily", "units": "m"},
            ).transpose(*{"tzyx": ["time", "lat", "lon"], "ztyx": ["lat", "time", "lon"], "zyxt": ["lat", "lon", "time"]}[case["order"]])
        )
        self.slope = xr.DataArray(g(-1, 1, (ny,), 23), dims=["lat"], coords={"lat": c["yh"][1]}, name="s", attrs={"units": "m yr-1"})
        self.mask = xr.DataArray(np.where(land, 0.0, 1.0), dims=["yh", "xh"], coords={"yh": c["yh"][1], "xh": c["xh"][1]}, name="wet", attrs={"f": 1})
        self.dfm = pd.DataFrame({"geolat": lat.ravel(), "geolon": lon.ravel(), "mask": np.where(land, 0.0, 1.0).ravel()})
        self.dfl = pd.DataFrame({"name": ["a", "b"], "lat": [31.0, 33.0], "lon": [-59.0, -55.0]}, index=[5, 9])
        self.vmap = {"temp": "thetao"}
        self.cnames = {"t": "time", "z": "z_l", "zbounds": "z_i"}
        self.cpart = {"z": "z_l"}
        self.cnone = {}
        self.extra = ["deptho", "z_i"]
        self.enckeys = ["chunks"]
        self.uvmap = {"u": "uo", "v": "vo", "dx": "dxCu", "dy": "dyCv", "area": "areacello_bu"}
        # symmetric staggered grid
        cs = dict(c)
        cs["xq"] = ("xq", np.concatenate([[c["xh"][1][0] - 1.5], c["xh"][1] + 1.5]), {"axis": "X"})
        cs["yq"] = ("yq", np.concatenate([[c["yh"][1][0] - 1.0], c["yh"][1] + 1.0]), {"axis": "Y"})
        sv = xr.Dataset(coords=cs)
        sv["uo"] = (("z_l", "yh", "xq"), g(-1, 1, (nz, ny, nx + 1), 31))
        sv["vo"] = (("z_l", "yq", "xh"), g(-1, 1, (nz, ny + 1, nx), 32))
        sv["dxCu"] = (("yh", "xq"), g(1e3, 9e3, (ny, nx + 1), 33))
        sv["dyCv"] = (("yq", "xh"), g(1e3, 9e3, (ny + 1, nx), 34))
        sv["areacello_bu"] = (("yq", "xq"), g(1e6, 8e7, (ny + 1, nx + 1), 35))
        sv["Coriolis"] = (("yq", "xq"), g(-1e-4, 1e-4, (ny + 1, nx + 1), 36))
        sv["n2"] = (("z_l", "yh", "xh"), g(-1e-5, 1e-4, shp[1:], 37), {"units": "s-2"})
        sv["zeta"] = (("z_l", "yq", "xq"), g(-1e-5, 1e-5, (nz, ny + 1, nx + 1), 38))
        self.sv = wrap(sv)
        if any(self.sv[n].chunks for n in self.sv.data_vars):
            # (xgcm wants symmetric axes in one chunk)
            self.sv = self.sv.chunk({"xh": -1, "yh": -1, "xq": -1, "yq": -1})
        # whole numbers
        self.its = wrap((self.ts * 10).round().astype("int32").assign_attrs(ts.attrs))
        self.idaily = wrap((self.daily * 10).round().astype("int16").assign_attrs(self.daily.attrs))
        self.dts = wrap(
            xr.DataArray(
                g(-1, 1, (nt, 2), 41),
                dims=["time", "x"],
                coords={"time": ("time", np.arange(nt) * np.timedelta64(30, "D") + np.datetime64("1999-01-15", "ns"), {"axis": "T"})},
                name="h",
                attrs={"units": "mm"},
            )
        )
        self.single = g(-1, 1, (400,), 42).astype("f8")
        self.frac = np.asarray(2000 + np.arange(400) / 365.0)
        self.cdict = {"xcenter": "xh", "ycenter": "yh", "xcorner": "xq", "ycorner": "yq"}

    INPUTS = ["ds", "pres", "patm", "uv", "ts", "tsds", "daily", "daily3", "slope", "mask", "dfm", "dfl", "vmap", "cnames", "cdict", "cpart", "cnone", "extra", "enckeys", "uvmap", "sv", "its", "idaily", "dts", "single", "frac"]

    def snapshot(self):
        out = {}
        for k in self.INPUTS:
            v = getattr(self, k)
            if hasattr(v, "dims") or isinstance(v, pd.DataFrame):
                out[k] = v.copy(deep=True)
            else:
                out[k] = v.copy()
        out["ds"].attrs["history"] = list(out["ds"].attrs["history"])
        return out

    def changed(self, snap):
        """None, or which input is not what it was"""
        for k, old in snap.items():
            new = getattr(self, k)
            if isinstance(old, pd.DataFrame):
                if not old.equals(new) or list(old.columns) != list(new.columns) or not old.index.equals(new.index):
                    return f"{k}: data frame"
            elif isinstance(old, np.ndarray):
                if not np.array_equal(old, new):
                    return f"{k}: array"
            elif isinstance(old, (dict, list)):
                if old != new:
                    return f"{k}: {old} / {new}"
            else:
                d = gen.same_dataset(old, new)
                if d:
                    return f"{k}: {d}"
        return None


def _steric(**kw):
    return lambda w: momlevel.steric(w.ds, **kw)


def _axes(grid):
    return {a: dict(grid.axes[a].coords) for a in sorted(grid.axes)}


def _derived_rd(w):
    n2 = w.uv["n2"]
    dz = derived.calc_dz(w.ds["z_l"], w.ds["z_i"], w.ds["deptho"])
    return derived.calc_rossby_rd(derived.calc_wave_speed(n2, dz), derived.calc_coriolis(w.ds["geolat"]))


# name -> (function of the world, whether dask inputs must not be computed)
OPS = {
    "steric local": (_steric(), True),
    "steric global": (_steric(domain="global"), True),
    "thermosteric": (lambda w: momlevel.thermosteric(w.ds, dtype="float64"), True),
    "halosteric": (lambda w: momlevel.halosteric(w.ds, equation_of_state="linear"), True),
    "halosteric global": (lambda w: momlevel.halosteric(w.ds, domain="global", verbose=True), True),
    "steric patm": (lambda w: momlevel.steric(w.ds, patm=w.patm, coord_names=w.cnames), True),
    "steric annual": (_steric(annual=True), True),
    "steric annual global": (_steric(annual=True, domain="global", dtype="float64"), True),
    "steric reference": (
        lambda w: momlevel.steric(w.ds, reference=reference.setup_reference_state(w.ds, time_index=3)),
        True,
    ),
    "steric renamed": (lambda w: momlevel.steric(w.ds.rename(thetao="temp"), varname_map=w.vmap), True),
    "reference": (lambda w: reference.setup_reference_state(w.ds), True),
    "reference other": (lambda w: reference.setup_reference_state(w.ds, patm=w.patm, eos="linear", coord_names=w.cnames, time_index=-1), True),
    "validate": (lambda w: util.validate_dataset(w.ds, additional_vars=["deptho"]), True),
    "rho": (lambda w: derived.calc_rho(w.ds["thetao"], w.ds["so"], w.pres), True),
    "rho linear": (lambda w: derived.calc_rho(w.ds["thetao"], w.ds["so"], w.pres, eos="linear"), True),
    "alpha": (lambda w: derived.calc_alpha(w.ds["thetao"], w.ds["so"], w.pres), True),
    "beta": (lambda w: derived.calc_beta(w.ds["thetao"], w.ds["so"], w.pres, eos="Linear"), True),
    "pdens": (lambda w: derived.calc_pdens(w.ds["thetao"], w.ds["so"], level=2000.0), True),
    "spice": (lambda w: derived.calc_spice(w.ds["thetao"], w.ds["so"]), False),
    "eos": (lambda w: eos_mod.wright.density(w.ds["thetao"], w.ds["so"], w.pres), True),
    "flament": (lambda w: spice_mod.flament.spice(w.ds["thetao"].values, w.ds["so"].values).tolist(), False),
    "masso": (lambda w: derived.calc_masso(w.ds["so"], w.ds["volcello"].isel(time=0)), True),
    "volo": (lambda w: derived.calc_volo(w.ds["volcello"].isel(time=0)), True),
    "rhoga": (lambda w: derived.calc_rhoga(w.ds["so"].sum(), w.ds["volcello"].sum()), True),
    "dz": (lambda w: derived.calc_dz(w.ds["z_l"], w.ds["z_i"], w.ds["deptho"]), True),
    "dz fraction": (lambda w: derived.calc_dz(w.ds["z_l"], w.ds["z_i"], w.ds["deptho"], bottom=300.0, fraction=True), True),
    "n2": (lambda w: derived.calc_n2(w.ds["thetao"], w.ds["so"]), True),
    "n2 patm": (lambda w: derived.calc_n2(w.ds["thetao"].isel(time=0), w.ds["so"].isel(time=0), patm=w.patm, eos="linear", adjust_negative=True), True),
    "adjust n2": (lambda w: derived.adjust_negative_n2(w.uv["n2"]), True),
    "wave speed": (lambda w: derived.calc_wave_speed(w.uv["n2"], derived.calc_dz(w.ds["z_l"], w.ds["z_i"], w.ds["deptho"])), True),
    "rossby": (_derived_rd, True),
    "coriolis": (lambda w: derived.calc_coriolis(w.ds["geolat"]), True),
    "relvort": (lambda w: derived.calc_rel_vort(w.uv), True),
    "pv": (lambda w: derived.calc_pv(w.uv["zeta"], w.uv["Coriolis"], w.uv["n2"], coord_dict=w.cdict), True),
    "pv cm": (lambda w: derived.calc_pv(w.uv["zeta"], w.uv["Coriolis"], w.uv["n2"], units="cm"), True),
    "stability": (lambda w: derived.calc_stability_angle(w.ds["thetao"], w.ds["so"], w.pres), True),
    "inverse barometer": (lambda w: momlevel.inverse_barometer(w.ds["thetao"].isel(z_l=0), w.ds["so"].isel(z_l=0), w.patm), True),
    "annual average": (lambda w: util.annual_average(w.ts), True),
    "annual average ds": (lambda w: util.annual_average(w.tsds), True),
    "monthly average": (lambda w: util.monthly_average(w.daily), True),
    "monthly average ds": (lambda w: util.monthly_average(w.tsds), True),
    "annual cycle": (lambda w: util.annual_cycle(w.ts), True),
    "annual cycle std": (lambda w: util.annual_cycle(w.tsds, func="std"), True),
    "annual cycle max": (lambda w: util.annual_cycle(w.ts, func="max", time_axis_year=1), True),
    "trend": (lambda w: trend.calc_linear_trend(w.ts, time_units="yr"), True),
    "trend ns": (lambda w: trend.calc_linear_trend(w.ts), True),
    "broadcast": (lambda w: trend.broadcast_trend(w.slope, w.ts["time"], subtract_time_zero=True), True),
    "detrend": (lambda w: trend.linear_detrend(w.ts), True),
    "detrend ds": (lambda w: trend.linear_detrend(w.tsds), True),
    "detrend correct": (lambda w: util.linear_detrend(w.ts, mode="correct"), True),
    "seasonal model": (lambda w: trend.seasonal_model(w.ts, return_model=True), True),
    "deseason": (lambda w: trend.deseason(w.daily), True),
    "deseason coeff": (lambda w: trend.deseason(w.daily, output_format="coeff"), True),
    "deseason model": (lambda w: trend.deseason(w.daily, output_format="model"), True),
    "geolocate": (lambda w: util.geolocate_points(w.dfm, w.dfl, threshold=500.0), True),
    "tidegauge": (lambda w: momlevel.extract_tidegauge(w.ds["thetao"].isel(z_l=0), mask=w.mask, threshold=2000.0), True),
    "tidegauge 1d": (lambda w: momlevel.extract_tidegauge(w.ts, xcoord="lon", ycoord="lat", csv="global"), True),
    "cell area": (lambda w: util.standard_grid_cell_area(w.ts["lat"], w.ts["lon"]), True),
    "tile": (lambda w: util.tile_nominal_coords(w.ds["xh"], w.ds["yh"]), True),
    "alphabetize": (lambda w: util.alphabetize_dataset(w.ds), True),
    "default coords": (lambda w: util.default_coords(w.cnames), True),
    "default coords partial": (lambda w: util.default_coords(w.cpart), True),
    "default coords empty": (lambda w: util.default_coords(w.cnone), True),
    "default coords none": (lambda w: util.default_coords(), True),
    "steric partial names": (lambda w: momlevel.steric(w.ds, coord_names=w.cpart), True),
    "steric no names": (lambda w: momlevel.thermosteric(w.ds, coord_names=w.cnone, varname_map={}, domain="global", strict=False), True),
    "steric rhozero": (lambda w: momlevel.steric(w.ds, rhozero=1000.0, patm=0.0), True),
    "reference partial": (lambda w: reference.setup_reference_state(w.ds, coord_names=w.cpart, time_index=1), True),
    "validate list": (lambda w: util.validate_dataset(w.ds, additional_vars=w.extra), True),
    "validate loose": (lambda w: util.validate_dataset(w.ds, strict=False), True),
    "validate area": (lambda w: util.validate_areacello(w.ds["areacello"]), True),
    "convert year": (lambda w: trend.time_conversion_factor("ns", "yr"), True),
    "convert year 360": (lambda w: trend.time_conversion_factor("ns", "yr", days_per_year=360.0), True),
    "convert mon": (lambda w: trend.time_conversion_factor("yr", "mon", days_per_month=30.0), True),
    "convert mon default": (lambda w: trend.time_conversion_factor("yr", "mon"), True),
    "convert day": (lambda w: trend.time_conversion_factor("day", "hr"), True),
    "adjust n2 stable": (lambda w: derived.adjust_negative_n2(w.uv["n2s"]), True),
    "wave speed stable": (lambda w: derived.calc_wave_speed(w.uv["n2s"], derived.calc_dz(w.ds["z_l"], w.ds["z_i"], w.ds["deptho"])), True),
    "pv stable": (lambda w: derived.calc_pv(w.uv["zeta"], w.uv["Coriolis"], w.uv["n2s"], gravity=10), True),
    "pv centres": (lambda w: derived.calc_pv(w.uv["n2"], w.ds["geolat"], w.uv["n2s"], interp_n2=False), True),
    "pv symmetric": (lambda w: derived.calc_pv(w.sv["zeta"], w.sv["Coriolis"], w.sv["n2"], symmetric=True), True),
    "relvort map": (lambda w: derived.calc_rel_vort(w.uv, varname_map=w.uvmap, coord_dict=w.cdict), True),
    "relvort symmetric": (lambda w: derived.calc_rel_vort(w.sv, symmetric=True), True),
    "grid": (lambda w: _axes(util.get_xgcm_grid(w.uv)), True),
    "grid names": (lambda w: _axes(util.get_xgcm_grid(w.uv, coord_dict=w.cdict)), True),
    "grid symmetric": (lambda w: _axes(util.get_xgcm_grid(w.sv, symmetric=True)), True),
    "eos lookup": (lambda w: util.eos_func_from_str("LINEAR", func_name="drho_dtemp").__module__, True),
    "rho number": (lambda w: float(eos_mod.wright.density(10.0, 35.0, 2e7)), True),
    "wright dT": (lambda w: eos_mod.wright.drho_dtemp(w.ds["thetao"], w.ds["so"], w.pres), True),
    "wright dS": (lambda w: eos_mod.wright.drho_dsal(w.ds["thetao"], w.ds["so"], w.pres), True),
    "wright alpha": (lambda w: eos_mod.wright.alpha(w.ds["thetao"], w.ds["so"], w.pres), True),
    "linear beta": (lambda w: eos_mod.linear.beta(w.ds["thetao"], w.ds["so"], w.pres), True),
    "alpha linear": (lambda w: derived.calc_alpha(w.ds["thetao"], w.ds["so"], w.pres, eos="linear"), True),
    "stability linear": (lambda w: derived.calc_stability_angle(w.ds["thetao"], w.ds["so"], w.pres, eos="linear"), True),
    "inverse barometer linear": (lambda w: momlevel.inverse_barometer(w.ds["thetao"].isel(z_l=0, time=1), w.ds["so"].isel(z_l=0, time=1), w.patm, equation_of_state="linear"), True),
    "trend int": (lambda w: trend.calc_linear_trend(w.its, time_units="mon"), True),
    "trend dt64": (lambda w: trend.calc_linear_trend(w.dts, time_units="yr"), True),
    "trend space": (lambda w: trend.calc_linear_trend(w.ts, dim="lat"), True),
    "broadcast line": (lambda w: trend.broadcast_trend(w.slope, w.ts["time"]), True),
    "detrend int": (lambda w: trend.linear_detrend(w.its), True),
    "detrend dt64": (lambda w: trend.linear_detrend(w.dts, mode="correct"), True),
    "detrend ds correct": (lambda w: trend.linear_detrend(w.tsds, mode="correct"), True),
    "seasonal model int": (lambda w: trend.seasonal_model(w.its), True),
    "seasonal model dt64": (lambda w: trend.seasonal_model(w.dts), True),
    "deseason int": (lambda w: trend.deseason(w.idaily), True),
    "deseason model int": (lambda w: trend.deseason(w.idaily, output_format="model"), True),
    "cycle model": (lambda w: [x.tolist() for x in trend.seasonal_cycle_model(w.single)], True),
    "cycle model days": (lambda w: [x.tolist() for x in trend.seasonal_cycle_model(w.single, daysinyear=360)], True),
    "annual average int": (lambda w: util.annual_average(w.its), True),
    "monthly average int": (lambda w: util.monthly_average(w.idaily), True),
    "annual cycle min": (lambda w: util.annual_cycle(w.its, func="min"), True),
    "cell area numpy": (lambda w: util.standard_grid_cell_area(w.ts["lat"].values, w.ts["lon"].values, r_earth=1.0).tolist(), True),
    "tile ts": (lambda w: util.tile_nominal_coords(w.ts["lon"], w.ts["lat"], warn=False), True),
    "geolocate unmasked": (lambda w: util.geolocate_points(w.dfm, w.dfl, apply_mask=False, rad_earth=1.0), True),
    "tidegauge objects": (lambda w: momlevel.extract_tidegauge(w.ds["so"].isel(z_l=0), xcoord=w.ds["geolon"], ycoord=w.ds["geolat"], mask=w.mask), True),
    "tidegauge warn": (lambda w: momlevel.extract_tidegauge(w.ts, xcoord="lon", ycoord="lat", threshold=300.0, disable_warning=False), True),
    "pv colours": (lambda w: util.get_pv_colormap(), True),
    "deseason map": (lambda w: trend.deseason(w.daily3), True),
    "deseason map model": (lambda w: trend.deseason(w.daily3, output_format="model"), True),
    "deseason map coeff": (lambda w: trend.deseason(w.daily3, output_format="coeff"), True),
    "deseason series coeff": (lambda w: trend.deseason(w.daily3.isel(lat=0, lon=0), output_format="coeff"), True),
    "monthly average map": (lambda w: util.monthly_average(w.daily3), True),
    "trend series": (lambda w: trend.calc_linear_trend(w.ts.isel(lat=0, lon=0)), True),
    "detrend series": (lambda w: trend.linear_detrend(w.ts.isel(lat=0, lon=0)), True),
    "seasonal model series": (lambda w: trend.seasonal_model(w.ts.isel(lat=0, lon=0)), True),
    "annual average 4d": (lambda w: util.annual_average(w.ds["thetao"]), True),
    "annual average all": (lambda w: util.annual_average(w.ds), True),
    "annual cycle 4d": (lambda w: util.annual_cycle(w.ds["so"]), True),
    "detrend 4d": (lambda w: trend.linear_detrend(w.ds["volcello"]), True),
}
NAMES = sorted(OPS)


def flat(res):
    """result as a list of comparable pieces"""
    if res is None:
        return []
    if isinstance(res, (tuple, list)) and any(hasattr(x, "dims") for x in res):
        return [y for x in res for y in flat(x)]
    return [res]


def copy_of(piece):
    if hasattr(piece, "dims"):
        return piece.copy(deep=True)
    if isinstance(piece, pd.DataFrame):
        return piece.copy(deep=True)
    return piece


def differs(a, b):
    if isinstance(a, pd.DataFrame):
        return None if a.equals(b) else "data frame"
    if hasattr(a, "dims"):
        a, b = clean(a), clean(b)
        # dask graphs may be chunked differently; C27 looks at the values
        return gen.same_dataset(a, b)
    return None if repr(a) == repr(b) else f"{a!r} / {b!r}"[:200]


def clean(x):
    """text of arrays in attributes is not compared (it may show memory addresses)"""
    x = x.copy(deep=False)
    vs = [x.variables[n] for n in x.variables] if isinstance(x, xr.Dataset) else [x.variable]
    for v in vs:
        v.attrs.pop("detrend_comment", None)
    if isinstance(x, xr.DataArray):
        x.attrs.pop("detrend_comment", None)
        return x
    return x[sorted(str(n) for n in x.variables)]


def scribble(res):
    """write over a result, as a caller may do with what it was given"""
    if isinstance(res, (list, tuple)):
        for x in res:
            scribble(x)
        if isinstance(res, list):
            res.append("scribble")
            res.reverse()
    elif isinstance(res, dict):
        for x in res.values():
            scribble(x)
        res["scribble"] = 1
    elif isinstance(res, pd.DataFrame):
        res["scribble"] = 1
        for c in res.columns:
            if res[c].dtype.kind == "f":
                res[c] = -1.0
    elif isinstance(res, np.ndarray):
        if res.flags.writeable and res.dtype.kind in "fi":
            res[...] = 7
    elif hasattr(res, "dims"):
        for n in list(res.variables) if isinstance(res, xr.Dataset) else [None, *res.coords]:
            v = res.variable if n is None else res[n].variable if isinstance(res, xr.Dataset) else res.coords[n].variable
            v.attrs["scribble"] = 1
            v.encoding["scribble"] = 1
            if isinstance(v._data, np.ndarray):
                scribble(v._data)
        res.attrs["scribble"] = 1
