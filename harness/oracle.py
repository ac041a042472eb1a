"""Independent oracles (no code of the repository is used here)"""
import numpy as np

# affine maps to a canonical unit: canonical = a * x + b
YEAR = 365.25 * 86400.0
UNITS = {
    "mass": {"kg": (1.0, 0.0), "g": (1e-3, 0.0), "t": (1e3, 0.0), "kt": (1e6, 0.0),
             "Mt": (1e9, 0.0), "Gt": (1e12, 0.0)},
    "temperature": {"K": (1.0, 0.0), "kelvin": (1.0, 0.0), "mK": (1e-3, 0.0),
                    "degC": (1.0, 273.15), "degreeC": (1.0, 273.15),
                    "degF": (5.0 / 9.0, 459.67 * 5.0 / 9.0)},
    "emissions": {"GtC/a": (1e9 / YEAR, 0.0), "MtC/yr": (1e6 / YEAR, 0.0),
                  "tC/day": (1.0 / 86400.0, 0.0), "GtCO2/a": (1e9 / YEAR * 12 / 44, 0.0),
                  "Gt CO2 / a": (1e9 / YEAR * 12 / 44, 0.0), "t C/s": (1.0, 0.0)},
    "forcing": {"W/m^2": (1.0, 0.0), "mW/m^2": (1e-3, 0.0), "kW/m**2": (1e3, 0.0)},
    "conc": {"ppt": (1.0, 0.0), "ppb": (1e3, 0.0), "ppm": (1e6, 0.0)},
}


def conv(dim, u, v, x):
    """convert x from unit u to unit v"""
    a, b = UNITS[dim][u]
    c, d = UNITS[dim][v]
    return (a * np.asarray(x, dtype=float) + b - d) / c


def point_value(ts, vs, t, extra):
    """value at t of the straight lines through the points (ts, vs)"""
    n = len(ts)
    if t < ts[0] or t > ts[-1]:
        if extra == "none":
            return None
        if extra == "constant":
            return vs[0] if t < ts[0] else vs[-1]
        i = 0 if t < ts[0] else n - 2
    else:
        i = 0
        while i < n - 2 and t > ts[i + 1]:
            i += 1
    w = float(t - ts[i]) / float(ts[i + 1] - ts[i])
    return vs[i] * (1.0 - w) + vs[i + 1] * w


def point_convert(ts, vs, targets, extra):
    return [point_value(ts, vs, t, extra) for t in targets]


def average_function(ts, vs):
    """
    Break points of the mean-preserving continuous piecewise linear function of period
    averages vs over boundaries ts.
    """
    n = len(vs)
    edges = [None] * (n + 1)
    for i in range(1, n):
        edges[i] = (vs[i - 1] + vs[i]) / 2.0
    edges[0] = 2 * vs[0] - edges[1]
    edges[n] = 2 * vs[n - 1] - edges[n - 1]
    xs, ys = [], []
    for i in range(n):
        xs += [float(ts[i]), (ts[i] + ts[i + 1]) / 2.0]
        mid = (4 * vs[i] - edges[i] - edges[i + 1]) / 2.0
        ys += [edges[i], mid]
    xs.append(float(ts[n]))
    ys.append(edges[n])
    return xs, ys


def _integral(xs, ys, lo, hi, extra, vs):
    """exact integral over [lo, hi] of the piecewise linear function, extended"""
    total = 0.0
    cuts = sorted({float(lo), float(hi)} | {x for x in xs if lo < x < hi})
    for a, b in zip(cuts, cuts[1:]):
        m = (a + b) / 2.0
        if m < xs[0] or m > xs[-1]:
            if extra == "none":
                return None
            if extra == "constant":
                total += (vs[0] if m < xs[0] else vs[-1]) * (b - a)
                continue
            i = 0 if m < xs[0] else len(xs) - 2
        else:
            i = 0
            while i < len(xs) - 2 and m > xs[i + 1]:
                i += 1
        y = ys[i] + (ys[i + 1] - ys[i]) * (m - xs[i]) / (xs[i + 1] - xs[i])
        total += y * (b - a)
    return total


def average_convert(ts, vs, targets, extra):
    # shift origin for precision
    o = ts[0]
    ts = [t - o for t in ts]
    tg = [t - o for t in targets]
    xs, ys = average_function(ts, vs)
    return [
        _integral(xs, ys, a, b, extra, vs) / float(b - a) for a, b in zip(tg, tg[1:])
    ]


def convert_times(kind, ts, vs, targets, extra):
    ts = [int(t) for t in ts]
    targets = [int(t) for t in targets]
    vs = [float(v) for v in vs]
    if kind == "average":
        return np.array(average_convert(ts, vs, targets, extra))
    return np.array(point_convert(ts, vs, targets, extra))
