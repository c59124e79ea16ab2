"""Projection of real chainladder objects onto the abstract state of the specification.

Only the public API is read.  Every number is emitted as a string (TLC integers are 32 bit
and its JSON reader mangles floats); a missing cell and a zero cell are both "0", because
the library itself identifies them.
"""
import numpy as np
import pandas as pd


def month(ts):
    """Absolute month of a timestamp-like."""
    ts = pd.Timestamp(ts)
    return int(ts.year * 12 + ts.month - 1)


def num(x):
    x = float(x)
    if x != x or x == 0:
        return "0"
    if np.isinf(x):
        return "inf" if x > 0 else "-inf"
    if x == int(x) and abs(x) < 1e15:
        return str(int(x))
    return repr(x)


def cells(values):
    v = np.asarray(values, dtype=float)
    return [[[[num(x) for x in r] for r in m] for m in c] for c in v]


def dense(tri):
    v = tri.values
    if hasattr(v, "todense"):
        v = v.todense()
    return np.asarray(v, dtype=float)


def origin_months(tri):
    o = tri.origin
    if isinstance(o, pd.PeriodIndex):
        return [month(p.start_time) for p in o]
    return [-1] * len(o)


def dev_axis(tri):
    if tri.is_val_tri:
        return [month(x) for x in tri.ddims]
    out = []
    for x in tri.ddims:
        if isinstance(x, (np.datetime64, pd.Timestamp)):
            out.append(month(x))
        else:
            out.append(int(max(-10**6, min(10**6, int(x)))))
    return out


def tri(t):
    """The abstract triangle of specification Tri.tla."""
    v = dense(t)
    c = t.is_cumulative
    return {
        "keys": [[str(x) for x in row] for row in t.index.values.tolist()],
        "klab": [str(x) for x in t.index.columns],
        "cols": [str(x) for x in t.columns],
        "org": origin_months(t),
        "dev": dev_axis(t),
        "val": bool(t.is_val_tri),
        "cum": "N" if c is None else ("T" if c else "F"),
        "pat": bool(t.is_pattern),
        "vd": month(t.valuation_date),
        "og": str(t.origin_grain),
        "dg": str(t.development_grain),
        "v": cells(v) if v.ndim == 4 else [],
    }
