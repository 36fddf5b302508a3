#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run from /verif)"""
import json

S = "src/momlevel/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (pid, len(title))
    P.append(
        {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": [S + f for f in files],
                "mechanism": [{"name": n, "where": S + w} for n, w in mech],
                "observe_at": observe or [],
                "hook_needed": None,
            },
        }
    )


prop(
    "C01",
    "Density and potential density follow the chosen equation of state everywhere",
    "For every temperature, salinity and pressure field (any number, order and subset of dimensions, missing values, integer or single precision, eager or dask, pressure as field, profile or number) the in-situ density is the value of the published Wright (1997) or the documented linear equation of state at each point, with the coordinates of the inputs, missing exactly where an input is missing, and carrying density metadata. Potential density is that density at the pressure of the reference level in dbar (1 dbar = 1e4 Pa) plus the atmospheric pressure, for any level from 0 to 7500, and other levels are rejected. The equation is chosen by name without regard to capitalisation; unknown names are rejected by every function that takes one.",
    ["inputs", "configurations"],
    "all T in [-5, 60], S in [-1, 60], p in [0, 2e8] Pa; all shapes, dimension orders, dtypes; both equations; all reference levels",
    "The tests evaluate a handful of points and one fixed random dataset in one dimension order; a wrong coefficient term, broadcasting or unit slip that vanishes there is not seen.",
    ["eos/wright.py", "eos/linear.py", "derived.py", "util.py"],
    [("Wright polynomial", "eos/wright.py density"), ("linear density", "eos/linear.py density"), ("calc_rho, calc_pdens", "derived.py"), ("eos_func_from_str", "util.py")],
)
prop(
    "C02",
    "Expansion and contraction coefficients are the derivatives of the density",
    "For every temperature, salinity and pressure (arrays of any shape, order, number type, with missing values, or plain numbers) the reported derivatives of density with respect to temperature and salinity are the exact derivatives of the density of the same equation of state. The thermal expansion coefficient equals minus the temperature derivative divided by density and the haline contraction coefficient equals the salinity derivative divided by density, missing where an input is missing, with units per degree and per salinity unit.",
    ["inputs", "configurations"],
    "all T, S, p as in C01, both equations of state",
    "The tests compare a few literal values; consistency of derivative and density over the whole state space is not sampled.",
    ["eos/wright.py", "eos/linear.py", "derived.py"],
    [("drho_dtemp, drho_dsal, alpha, beta", "eos/wright.py"), ("drho_dtemp, drho_dsal, alpha, beta", "eos/linear.py"), ("calc_alpha, calc_beta", "derived.py")],
)
prop(
    "C03",
    "Spiciness is the published polynomial at every point of any array",
    "For every temperature and salinity field, spiciness equals the Flament (2002) polynomial evaluated point by point, whatever the number of dimensions and their order, and is missing exactly where an input is missing. Coordinates are kept, and inputs of different shapes are rejected by the array-level function rather than combined wrongly.",
    ["inputs"],
    "all T in [-5, 60], S in [-1, 60]; 0-4 dimensions in any order; numbers, lists of shapes",
    "One test checks one published value; reshaping errors and wrong high-order coefficients need other shapes and states.",
    ["spice/flament.py", "derived.py"],
    [("spice", "spice/flament.py"), ("calc_spice", "derived.py")],
)
prop(
    "C04",
    "Layer thickness is the part of each cell above the sea floor and in range",
    "For every strictly increasing vertical grid, every bathymetry (missing means land) and every depth range, the thickness of a cell is the length of its part that lies above the sea floor and between the requested top and bottom: never negative, never more than the cell. Without a requested top the thicknesses of a column add up to the water depth (limited by the grid and the requested bottom); with the fraction option the result is thickness divided by cell height, missing where dry. Negative levels, interfaces or depths are rejected.",
    ["inputs", "configurations"],
    "all vertical grids, bathymetries of 1-3 dimensions, top/bottom/fraction options",
    "The tests use one grid, one bathymetry and four option sets.",
    ["derived.py"],
    [("calc_dz", "derived.py")],
)
prop(
    "C05",
    "Local steric sea level is the depth integral of density change over 1/rhozero",
    "For every valid dataset, the local steric calculation returns the density anomaly (density of the actual state minus reference density, both at the pressure of the level: depth x 1e4 Pa plus atmospheric pressure) and the sea level -1/rhozero times its integral over the wet part of each cell, for each time and column. Land (missing reference volume) is missing in the anomaly and in the sea level of dry columns, missing values of the state contribute nothing, and time is the leading dimension. The given reference, or by default the first time, is used; units and the requested output dtype (float32 by default) are recorded and coordinates with their attributes are kept.",
    ["inputs", "configurations"],
    "all datasets with 1-4 times, 1-6 levels, 1-4 x 1-4 columns, any land, bathymetry, naming, order, reference, pressure, equation of state",
    "The tests check sums of one random 5x5x5 dataset without land against stored numbers.",
    ["steric.py", "derived.py", "reference.py", "util.py"],
    [("steric", "steric.py"), ("calc_dz", "derived.py"), ("setup_reference_state", "reference.py"), ("default_coords", "util.py")],
)
prop(
    "C06",
    "Global steric sea level is the mean-density change times the mean depth",
    "For every valid dataset, the global calculation returns the reference height (ocean volume of the reference divided by total cell area) and, for every time, that height times the logarithm of the ratio of the reference mean density to the mean density of the state, where the mean density is total mass (density times reference volume) over reference volume. Missing cells count neither as mass nor as volume and the bathymetry is not needed.",
    ["inputs", "configurations"],
    "datasets as in C05 with and without bathymetry",
    "The tests check one random dataset against stored numbers.",
    ["steric.py", "derived.py", "reference.py"],
    [("steric(domain='global')", "steric.py"), ("calc_masso, calc_volo, calc_rhoga", "derived.py")],
)
prop(
    "C07",
    "Thermosteric and halosteric changes isolate temperature and salinity",
    "The thermosteric contribution uses the salinity of the reference and the halosteric one its temperature, in both the local and the global calculation: changing the held variable away from the reference changes nothing. All contributions vanish at the time the default reference was taken from, and with the linear equation of state the two contributions add up to the steric change. The dedicated functions and the variant argument give the same result, and other variant names are rejected.",
    ["inputs", "configurations"],
    "datasets as in C05, both variants, both domains, both ways to call",
    "The tests check one dataset against stored numbers; they do not vary the held variable.",
    ["steric.py"],
    [("steric(variant=...)", "steric.py"), ("thermosteric, halosteric", "steric.py")],
)
prop(
    "C08",
    "The reference state is one time of the dataset with consistent global totals",
    "The reference state holds temperature, salinity and volume of exactly the requested time (the first by default, negative indices count from the end), the cell area, the density of that state with the chosen equation of state and pressure, and the totals: volume is the sum of cell volumes, mass the sum of density times volume, mean density their ratio; missing cells are left out, singleton dimensions stay, and no time coordinate remains. The reference a steric calculation returns passes validation and, when supplied again, gives the same result; a supplied reference is used and returned unchanged. The totals are right for arrays in any dimension order and any time name, and a volume that is not three-dimensional is rejected.",
    ["inputs", "histories"],
    "datasets as in C05, any time index; calculate, take the returned reference, calculate again",
    "The tests check one dataset at time index 0 against stored numbers.",
    ["reference.py", "derived.py", "steric.py"],
    [("setup_reference_state", "reference.py"), ("calc_masso, calc_volo, calc_rhoga", "derived.py")],
)
prop(
    "C09",
    "Steric results do not depend on how the same ocean is presented",
    "Renaming variables or coordinates (with the matching name maps), reordering dimensions, adding variables, chunking, selecting or reordering times with the same reference, and selecting columns (local) or rearranging them (global) leave the steric results of the corresponding points unchanged. Annual output equals the month-length-weighted annual means of the monthly output, in every calendar and for any time name, keeping the requested output dtype. The reference density rhozero only scales the local result; a dataset with a missing variable or wrong total area is rejected unless the area check is switched off, which then only warns.",
    ["inputs", "configurations"],
    "an ocean dataset and a change of presentation",
    "The tests use one name set, one dimension order, one calendar.",
    ["steric.py", "util.py", "reference.py"],
    [("steric", "steric.py"), ("default_coords, validate_dataset, annual_average", "util.py")],
)
prop(
    "C10",
    "Dataset validation accepts the valid and names every defect of the invalid",
    "Input datasets with temperature, salinity, cell volume and cell area (and any additional variables asked for) of the right rank pass; one with any missing variable or wrong rank is rejected with a report naming each offending variable, however many defects there are. Reference datasets must have no time coordinate in any capitalisation, one rank less, and scalar totals. A total cell area off by more than the tolerance (2 percent of 3.6111e14 m2) is an error, or only a warning when not strict; areas inside the tolerance are never complained about.",
    ["inputs", "configurations"],
    "datasets with any combination of up to three defects, input or reference, strict or not",
    "The tests try a few single defects.",
    ["util.py"],
    [("validate_dataset, validate_areacello", "util.py")],
)
prop(
    "C11",
    "Buoyancy frequency follows from the gradients; its adjustment removes N2<=0",
    "The squared buoyancy frequency is gravity times (expansion coefficient times vertical temperature gradient minus contraction coefficient times vertical salinity gradient), with second-order derivatives on irregular levels and coefficients at the pressure of each level, for any extra dimensions in any order, any name of the vertical coordinate, gravity, atmospheric pressure and equation of state. The adjustment leaves positive and missing values alone and replaces every non-positive value by the nearest positive value above it in the same column, or by 1e-8 where there is none.",
    ["inputs", "configurations"],
    "columns of 3-8 irregular levels with land and holes; N2 fields with negative, zero and missing values",
    "The tests check sums over one dataset with uniform options.",
    ["derived.py"],
    [("calc_n2, adjust_negative_n2", "derived.py")],
)
prop(
    "C12",
    "Wave speed, Coriolis parameter and Rossby radius are exact and mask land",
    "The first-mode gravity wave speed is the vertical sum of the square root of the adjusted N2 times layer thickness, divided by pi, and missing exactly where N2 is missing at the surface. The Coriolis parameter is 2 x (2 pi / 86400 s) x sin(latitude) for every latitude, and the Rossby radius is wave speed over the absolute value of the Coriolis parameter (infinite on the equator).",
    ["inputs"],
    "N2 and thickness fields of 1-4 dimensions; latitudes of any shape including poles and equator",
    "The tests check sums over one dataset without land.",
    ["derived.py"],
    [("calc_wave_speed, calc_coriolis, calc_rossby_rd", "derived.py")],
)
prop(
    "C13",
    "Relative and potential vorticity are the grid circulation, in the units asked",
    "Relative vorticity at cell corners is the circulation (difference of v dy in x minus difference of u dx in y) divided by the corner cell area, for symmetric and non-symmetric staggered grids, any coordinate and variable names and leading dimensions; a missing variable is rejected. Potential vorticity is (relative vorticity + Coriolis) x N2 / gravity with N2 averaged to corners unless told otherwise, in m-1 s-1 or, as a magnitude, in 1e-14 cm-1 s-1; other units are rejected.",
    ["inputs", "configurations"],
    "staggered grids of 2-5 x 2-5 cells in both conventions with any fields",
    "The tests check sums over one 5x5 grid.",
    ["derived.py", "util.py"],
    [("calc_rel_vort, calc_pv", "derived.py"), ("get_xgcm_grid", "util.py")],
)
prop(
    "C14",
    "The stability angle is the Turner angle of the temperature/salinity gradients",
    "At every point of every column the stability angle is the arctangent, in degrees within [-90, 90], of (R + 1)/(R - 1) with R the ratio of expansion times temperature gradient to contraction times salinity gradient, for either equation of state, any vertical coordinate name and dimension order. It is missing where a value it depends on is missing.",
    ["inputs", "configurations"],
    "columns of 3-8 irregular levels; points where a gradient vanishes within rounding are left out",
    "The tests check the sum over one dataset.",
    ["derived.py"],
    [("calc_stability_angle", "derived.py")],
)
prop(
    "C15",
    "The inverse barometer height is -p/(rho g) at every point",
    "For every surface temperature, salinity and pressure field (0-3 dimensions in any order, missing values, any number type) the inverse barometer height is minus surface pressure divided by gravity times the density of the surface water at that pressure with the chosen equation of state. Coordinates are kept and the result is named and carries units of metres.",
    ["inputs", "configurations"],
    "all fields, gravities and both equations of state",
    "One test checks one sum.",
    ["dynamic.py", "derived.py"],
    [("inverse_barometer", "dynamic.py")],
)
prop(
    "C16",
    "Annual averages weight months by their length in the calendar of the data",
    "For every monthly record of whole years in any calendar, in any order, with any position and name of the time dimension, the annual average of each numeric variable is the mean of the valid months weighted by their length in days, labelled with the exact middle of the year in the same calendar. A year without exactly twelve values is rejected. Attributes, names and other coordinates are kept, non-numeric variables are left out and variables without time keep their values.",
    ["inputs", "configurations"],
    "1-4 years, six calendars, first year 1-2500, arrays and datasets",
    "The tests use one calendar and array layout.",
    ["util.py"],
    [("annual_average", "util.py")],
)
prop(
    "C17",
    "Monthly averages are the plain means of each month that has data",
    "For every record of several values per month (regular, irregular, with gaps, starting and ending anywhere in the year) the monthly average has exactly one entry for each month that has data, in order, equal to the mean of the valid values of that month and year and labelled with the exact middle of the month in the calendar of the data. Non-numeric variables are left out.",
    ["inputs", "configurations"],
    "records of 10-800 days, six calendars, arrays and datasets, any time name and position",
    "The tests use whole years of daily data in one calendar.",
    ["util.py"],
    [("monthly_average", "util.py")],
)
prop(
    "C18",
    "The annual cycle is the per-month statistic over all years",
    "For every monthly record that covers all calendar months the annual cycle has twelve entries, January to December, each the mean, minimum, maximum or (population) standard deviation of all valid values of that month, wherever the record starts. The entries are labelled with the exact middle of each month in the given year or in the year of the middle of the record, in the same calendar; unknown statistics are rejected.",
    ["inputs", "configurations"],
    "records of 2-5 years that start and end in any month, six calendars, four statistics",
    "The tests use one record that starts in January.",
    ["util.py"],
    [("annual_cycle", "util.py")],
)
prop(
    "C19",
    "Linear trends are least-squares fits expressed in the time unit asked for",
    "For every series on any time axis (six calendars, datetime64 or plain numbers, regular or not) slope and intercept are those of the least-squares line through the valid points of each column against time since 1970-01-01, with the slope expressed per requested time unit (nanosecond by default) and units to match. Multiplying a slope with time (optionally since its first value) honours the unit recorded on the slope and gives back the fitted line; slopes with several or unknown inverse units are rejected. Conversion factors between time units are exact ratios, consistent when chained or inverted, and unknown units are rejected.",
    ["inputs", "configurations"],
    "all time axes, units, shapes, missing values; custom month and year lengths",
    "The tests use one axis per type and a few literal conversions.",
    ["trend.py"],
    [("calc_linear_trend, broadcast_trend, time_conversion_factor", "trend.py")],
)
prop(
    "C20",
    "Detrending removes exactly the fitted line and nothing else",
    "Removing the trend gives the series minus its least-squares line in every column (missing values stay missing), so that detrending again changes nothing; the correcting mode takes out only the slope and keeps the magnitude of the record. Names, attributes, coordinates and variables without the time dimension come back unchanged, whatever the units of the variable; other modes and orders are rejected.",
    ["inputs", "configurations"],
    "arrays and datasets on all time axes of C19, both modes",
    "The tests use one axis and stored sums.",
    ["trend.py", "util.py"],
    [("linear_detrend", "trend.py"), ("deprecated linear_detrend", "util.py")],
)
prop(
    "C21",
    "The seasonal model is the least-squares trend plus two harmonics",
    "For every series on any calendar or datetime64 axis the seasonal model is the least-squares fit of a constant, a linear trend and annual and semi-annual sine and cosine against the decimal year (year plus days since January 1 / 365), and the residuals are the series minus the model. Columns with a missing value are missing; a series made of these terms leaves no residual; units are kept and metadata say which is which.",
    ["inputs", "configurations"],
    "series of 24-90 points, regular or not, any time name and position, eager or dask",
    "One test checks a stored sum.",
    ["trend.py"],
    [("seasonal_model", "trend.py")],
)
prop(
    "C22",
    "Deseasoning of daily data splits the series into fitted cycle and residual",
    "For every daily series in any calendar starting on any day, deseasoning fits mean, trend, annual and semi-annual harmonics by least squares against time in years (each day counts 1 / length of its year) and returns residuals, model or the six named coefficients as asked; columns with a missing value are missing, dask arrays stay lazy and eager ones eager. Coordinates are kept, metadata say how the result was made, and other output formats are rejected. The single-series routine returns coefficients, residuals and model with residuals plus model equal to the series.",
    ["inputs", "configurations"],
    "series of 400-1500 days, 0-2 other dimensions, any chunking",
    "The tests use one no-leap record and compare stored sums.",
    ["trend.py"],
    [("deseason, seasonal_cycle_model", "trend.py")],
)
prop(
    "C23",
    "Every location is mapped to the nearest unmasked model point",
    "For every set of model points and locations (any longitude convention, across the date line, at the poles, duplicates) each location is mapped to an unmasked model point of minimal great-circle distance, and the reported distance, row, model coordinates, dimension values and location coordinates are those of that pair. Locations farther than the threshold are dropped, with a warning if warnings are enabled, and all others are kept in order with their index and columns; other coordinate names and Earth radii are honoured.",
    ["inputs", "configurations"],
    "1-64 model points, 1-6 locations, all masks, thresholds and names",
    "The tests use one model grid and three locations.",
    ["util.py"],
    [("geolocate_points", "util.py")],
)
prop(
    "C24",
    "Tide gauge extraction returns the series of the nearest wet grid point",
    "For every field on a grid with 1-D or 2-D coordinates (given by name or as arrays), in any dimension order, with any mask and threshold, the extracted series of each gauge is that of the unmasked grid point nearest to the gauge, with the distance and the coordinates of gauge and grid point recorded and the time axis and attributes kept. Exactly the gauges of the list (built-in or from a file) within the threshold appear, under their names. Inputs of the wrong type, unknown names and inconsistent coordinates are rejected.",
    ["inputs", "configurations"],
    "fields on 2x2 to 6x6 grids, masks and coordinates in any order, both built-in lists and files",
    "The tests use one grid without a mask.",
    ["tidegauge.py", "util.py"],
    [("extract_tidegauge", "tidegauge.py"), ("geolocate_points, tile_nominal_coords", "util.py")],
)
prop(
    "C25",
    "Cell areas of regular grids are exact and tile the sphere",
    "For every uniform latitude-longitude grid, in either direction, given as arrays, lists or labelled arrays, each cell area is positive and equals that of the spherical rectangle around the point for the given radius; the areas of a global grid add up to the sphere. Tiling 1-D coordinates gives 2-D longitude and latitude fields with each point's own coordinates.",
    ["inputs", "configurations"],
    "global and regional grids of 2x2 to 12x12 cells, any radius",
    "The tests use one grid.",
    ["util.py"],
    [("standard_grid_cell_area, tile_nominal_coords", "util.py")],
)
prop(
    "C26",
    "Calculations leave their inputs alone and give the same result every time",
    "In every sequence of calls on shared inputs no calculation changes the values, coordinates, attributes, encodings or mappings it is given, nor the results of earlier calls, nor global state. Each call gives the same result as it does alone on fresh inputs.",
    ["histories", "inputs"],
    "all sequences of up to 8 public calculations on shared datasets, series, frames and mappings, eager and dask",
    "Every test makes fresh inputs or ignores what happened to them.",
    ["steric.py", "derived.py", "reference.py", "util.py", "trend.py", "tidegauge.py", "dynamic.py"],
    [("shallow/deep copies and attribute handling of every function", "derived.py, util.py, trend.py")],
)
prop(
    "C27",
    "Chunked (dask) inputs give the eager results and are not loaded early",
    "For every way to chunk the inputs, each calculation gives the same values, dimensions, coordinates and attributes as for the same data in memory. No block of a chunked data variable is computed before the result is asked for (spiciness excepted).",
    ["inputs", "configurations"],
    "all public calculations, all chunkings along all dimensions",
    "The tests use dask for one function only and never look at when blocks are computed.",
    ["steric.py", "derived.py", "reference.py", "util.py", "trend.py", "tidegauge.py"],
    [("xarray/dask-aware operations, apply_ufunc and map_blocks", "derived.py, util.py, trend.py")],
)
prop(
    "C28",
    "Synthetic datasets are reproducible, valid and have exact time axes",
    "Synthetic datasets are identical for the same arguments and seed and different for different seeds, pass validation, and work with the calculations they are made for. Their time axes contain every month or day of the requested years in the requested calendar, with exact bounds, mid-points and lengths, for start years from 1; unknown frequencies are rejected.",
    ["inputs", "configurations"],
    "all seeds, start years 1-9990, calendars, lengths, both frequencies",
    "The tests check one seed and one calendar.",
    ["test_data/__init__.py", "test_data/time.py"],
    [("generate_test_data*, tripolar", "test_data/__init__.py"), ("generate_time_stub, generate_daily_timeaxis", "test_data/time.py")],
)
prop(
    "C29",
    "Names, encodings, order and grid connectivity are resolved as requested",
    "Coordinate name maps override exactly the names they contain and fall back to the defaults for the rest; equations of state are found by name in any capitalisation with the function asked for. Resetting encodings removes exactly the requested keys from the dataset and every variable and nothing else; alphabetical ordering changes only the order of variables; the staggered grid connects centres and corners according to the symmetric or non-symmetric convention.",
    ["inputs", "configurations"],
    "all maps, names, encodings, datasets and grids",
    "The tests try one or two examples of each.",
    ["util.py"],
    [("default_coords, eos_func_from_str, reset_encoding, alphabetize_dataset, get_xgcm_grid", "util.py")],
)

ORACLE = {
    "C01": "differential: extended-precision reference of the published formula",
    "C02": "differential: forward-mode differentiation of the reference density in extended precision",
    "C03": "differential: extended-precision polynomial",
    "C04": "reference model: interval overlap; invariant: column totals",
    "C05": "reference model of the integral in extended precision",
    "C06": "reference model in extended precision",
    "C07": "reference model and metamorphic relations (isolation, additivity, zero at the reference)",
    "C08": "reference model and a two-step history (returned reference used again)",
    "C09": "metamorphic relations over changes of presentation; reference model of annual means",
    "C10": "model-based generation of defects: expected verdict and report",
    "C11": "reference model (non-uniform second-order differences; column-wise adjustment)",
    "C12": "reference model",
    "C13": "reference model of circulation and averaging on both staggered conventions",
    "C14": "reference model of the Turner angle",
    "C15": "differential: extended-precision reference",
    "C16": "reference model with calendar arithmetic of its own",
    "C17": "reference model with calendar arithmetic of its own",
    "C18": "reference model with calendar arithmetic of its own",
    "C19": "reference least squares in extended precision; round trip slope -> line; ratio laws",
    "C20": "reference least squares; idempotence",
    "C21": "reference least squares with refinement; exact-model series",
    "C22": "reference least squares with refinement; exact-model series",
    "C23": "exhaustive search over all points with the haversine formula",
    "C24": "exhaustive search over all points with the haversine formula",
    "C25": "reference model (spherical rectangles); invariant: sum is the sphere",
    "C26": "stateful: generated call histories against deep copies and against each call alone",
    "C27": "differential: eager against randomly chunked inputs; counting of computed blocks",
    "C28": "reference model of the time axes; repetition and seed differential",
    "C29": "reference model of each helper",
}

if __name__ == "__main__":
    with open("properties.jsonl", "w", encoding="utf-8") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in P:
        i = p["id"]
        checks.append(
            {
                "property": i,
                "quick_cmd": f"python3 run.py {i}",
                "thorough_cmd": f"python3 run.py {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": f"property-based testing (Hypothesis), shrinking to a replay file; {ORACLE[i]}",
                "level": "exploration",
                "level_note": "Held on every generated case (numbers, classes and samples in the evidence file) within the "
                "stated bounds and tolerances; trusts numpy, xarray, dask, cftime and the oracle in harness/.",
            }
        )
    man = {
        "version": 1,
        "setup_cmd": "python3 run.py --setup",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks: every property is observed through the public API of the package imported from /repo/src. "
        "Known findings and repaired defects: known-findings.txt. VERIF_SEED selects the random seed of every generator.",
    }
    with open("MANIFEST.json", "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
