"""orc.py - reference models, written from the published formulas and the
documentation, in plain numpy and extended precision; nothing here imports or
reads the code under test."""

import numpy as np

LD = np.longdouble

# Wright (1997) equation of state, reduced-range fit
W = dict(
    a0="7.057924e-4",
    a1="3.480336e-7",
    a2="-1.112733e-7",
    b0="5.790749e8",
    b1="3.516535e6",
    b2="-4.002714e4",
    b3="2.084372e2",
    b4="5.944068e5",
    b5="-9.643486e3",
    c0="1.704853e5",
    c1="7.904722e2",
    c2="-7.984422",
    c3="5.140652e-2",
    c4="-2.302158e2",
    c5="-3.079464",
)
W = {k: LD(v) for k, v in W.items()}


class Dual:
    """forward-mode derivative: value and derivative in one pass"""

    def __init__(self, v, d):
        self.v, self.d = v, d

    @staticmethod
    def of(x):
        return x if isinstance(x, Dual) else Dual(x, LD(0))

    def __add__(self, o):
        o = Dual.of(o)
        return Dual(self.v + o.v, self.d + o.d)

    __radd__ = __add__

    def __mul__(self, o):
        o = Dual.of(o)
        return Dual(self.v * o.v, self.d * o.v + self.v * o.d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = Dual.of(o)
        return Dual(self.v / o.v, (self.d * o.v - self.v * o.d) / (o.v * o.v))


def _wright(T, S, p):
    alpha0 = W["a0"] + W["a1"] * T + W["a2"] * S
    p0 = (
        W["b0"]
        + W["b1"] * T
        + W["b2"] * (T * T)
        + W["b3"] * (T * T * T)
        + W["b4"] * S
        + W["b5"] * (T * S)
    )
    lam = (
        W["c0"]
        + W["c1"] * T
        + W["c2"] * (T * T)
        + W["c3"] * (T * T * T)
        + W["c4"] * S
        + W["c5"] * (T * S)
    )
    q = p0 + p
    return q / (lam + alpha0 * q)


def _linear(T, S, p):
    # no dependence on pressure, not even on a missing one
    return LD("1000.0") + LD("-0.2") * T + LD("0.8") * S


def _ld(*args):
    return [np.asarray(a).astype(LD) for a in args]


def rho(T, S, p, eos="Wright"):
    T, S, p = _ld(T, S, p)
    return (_wright if eos.lower() == "wright" else _linear)(T, S, p)


def drho_dt(T, S, p, eos="Wright"):
    T, S, p = _ld(T, S, p)
    T, S, p = np.broadcast_arrays(T, S, p)
    f = _wright if eos.lower() == "wright" else _linear
    r = f(Dual(T, np.ones_like(T)), Dual(S, np.zeros_like(T)), Dual(p, np.zeros_like(T)))
    return r.d


def drho_ds(T, S, p, eos="Wright"):
    T, S, p = _ld(T, S, p)
    T, S, p = np.broadcast_arrays(T, S, p)
    f = _wright if eos.lower() == "wright" else _linear
    r = f(Dual(T, np.zeros_like(T)), Dual(S, np.ones_like(T)), Dual(p, np.zeros_like(T)))
    return r.d


def alpha(T, S, p, eos="Wright"):
    return -drho_dt(T, S, p, eos) / rho(T, S, p, eos)


def beta(T, S, p, eos="Wright"):
    return drho_ds(T, S, p, eos) / rho(T, S, p, eos)


# Flament (2002) spiciness: pi = sum_ij b_ij T^i (S-35)^j
FLAMENT = [
    ["0", "7.7442e-1", "-5.85e-3", "-9.84e-4", "-2.06e-4"],
    ["5.1655e-2", "2.034e-3", "-2.742e-4", "-8.5e-6", "1.36e-5"],
    ["6.64783e-3", "-2.4681e-4", "-1.428e-5", "3.337e-5", "7.894e-6"],
    ["-5.4023e-5", "7.326e-6", "7.0036e-6", "-3.0412e-6", "-1.0853e-6"],
    ["3.949e-7", "-3.029e-8", "-3.8209e-7", "1.0012e-7", "4.7133e-8"],
    ["-6.36e-10", "-1.309e-9", "6.048e-9", "-1.1409e-9", "-6.676e-10"],
]
FLAMENT = [[LD(x) for x in row] for row in FLAMENT]


def spice(T, S):
    T, S = _ld(T, S)
    out = np.zeros(np.broadcast(T, S).shape, dtype=LD)
    mag = np.zeros_like(out)
    for i in range(6):
        for j in range(5):
            term = FLAMENT[i][j] * T**i * (S - 35) ** j
            out = out + term
            mag = mag + np.abs(term)
    return out, mag


def overlap_dz(zi, depth, top=0.0, bottom=None):
    """thickness of the part of each cell inside [top, bottom] and above the floor

    returns (nz,) + depth.shape"""
    zi = np.asarray(zi, dtype=float)
    depth = np.where(np.isnan(depth), 0.0, np.asarray(depth, dtype=float))
    lo = depth if bottom is None else np.minimum(depth, bottom)
    out = np.empty((len(zi) - 1,) + depth.shape)
    for k in range(len(zi) - 1):
        out[k] = np.maximum(0.0, np.minimum(lo, zi[k + 1]) - np.maximum(top, zi[k]))
    return out


def derivative(f, z, axis):
    """second-order finite differences on a non-uniform axis, second-order
    one-sided at both ends (Lagrange interpolation through three points)"""
    f = np.moveaxis(np.asarray(f).astype(LD), axis, 0)
    z = np.asarray(z).astype(LD)
    n = len(z)
    out = np.empty_like(f)
    for i in range(n):
        j = min(max(i, 1), n - 2)
        x0, x1, x2 = z[j - 1], z[j], z[j + 1]
        x = z[i]
        w0 = ((x - x1) + (x - x2)) / ((x0 - x1) * (x0 - x2))
        w1 = ((x - x0) + (x - x2)) / ((x1 - x0) * (x1 - x2))
        w2 = ((x - x0) + (x - x1)) / ((x2 - x0) * (x2 - x1))
        # a weight that is exactly zero must still spread missing values only
        # from the points that are used
        terms = [(w0, f[j - 1]), (w1, f[j]), (w2, f[j + 1])]
        out[i] = sum(w * v for w, v in terms)
    return np.moveaxis(out, 0, axis)


def haversine(lat1, lon1, lat2, lon2):
    """great-circle distance in radians"""
    lat1, lon1, lat2, lon2 = [np.radians(np.asarray(v).astype(LD)) for v in (lat1, lon1, lat2, lon2)]
    h = (
        np.sin((lat2 - lat1) / 2) ** 2
        + np.cos(lat1) * np.cos(lat2) * np.sin((lon2 - lon1) / 2) ** 2
    )
    return 2 * np.arcsin(np.sqrt(np.clip(h, 0, 1)))


# ---------------------------------------------------------------------------
# calendars (independent of cftime)
# ---------------------------------------------------------------------------

_ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def is_leap(year, calendar):
    c = calendar.lower()
    if c in ("noleap", "365_day", "360_day"):
        return False
    if c in ("all_leap", "366_day"):
        return True
    if c == "julian" or (c in ("standard", "gregorian") and year <= 1582):
        return year % 4 == 0
    return year % 4 == 0 and (year % 100 != 0 or year % 400 == 0)


def month_length(year, month, calendar):
    if calendar == "360_day":
        return 30
    if month == 2 and is_leap(year, calendar):
        return 29
    return _ML[month - 1]


def year_length(year, calendar):
    return sum(month_length(year, m, calendar) for m in range(1, 13))


NS_PER = {
    "ns": 1.0,
    "s": 1e9,
    "min": 60e9,
    "hr": 3600e9,
    "day": 86400e9,
}


def unit_ns(unit, days_per_month=30.417, days_per_year=365.0):
    if unit == "mon":
        return 86400e9 * days_per_month
    if unit == "yr":
        return 86400e9 * days_per_year
    return NS_PER[unit]
