"""Executes the known findings: the exact inputs listed in known-findings.json, on the real code."""
import numpy as np
import pandas as pd

import chainladder as cl


def _raises(f, *exc):
    try:
        f()
    except exc or Exception:
        return True
    return False


def gapped_dev_to_val():
    """load_sample('quarterly').iloc[..., ::4].dev_to_val()"""
    return _raises(lambda: cl.load_sample("quarterly").iloc[..., ::4].dev_to_val(), IndexError, ValueError)


def _frame(first, n, step, ages):
    rows = []
    for k in range(n):
        o = pd.Period(first, freq="M") + k * step
        for a in range(step, ages + 1, step):
            v = o + a - 1
            if v <= pd.Period(first, freq="M") + n * step - 1:
                rows.append((o.to_timestamp(), v.to_timestamp(how="e").normalize(), 100.0 * a))
    return pd.DataFrame(rows, columns=["origin", "valuation", "paid"])


def semi_grain_off():
    """six quarters starting in April, asked for semi-annual grain: half-years start in January and July"""
    t = cl.Triangle(_frame("2001-04", 6, 3, 18), origin="origin", development="valuation", columns=["paid"], cumulative=True)
    g = t.grain("OSDS", trailing=False)
    return len(g.origin) != 4 or float(g.latest_diagonal.sum()) != float(t.latest_diagonal.sum())


def shift_valuation():
    """raa.dev_to_val().shift(-1, axis=3): the label of the first valuation is corrupted"""
    t = cl.load_sample("raa").dev_to_val()
    return not set(map(str, t.shift(-1, axis=3).ddims)) <= set(map(str, t.ddims))


def concat_integer_column():
    """clrd.sum(axis='columns') stacked on a triangle with named columns: the integer label is not found"""
    t = cl.load_sample("clrd").iloc[:3, :2]
    return _raises(lambda: cl.concat((t.sum(axis=1), t.iloc[:, :1]), axis=0), ValueError)


def cumsum():
    """raa.cumsum(axis='development')"""
    return _raises(lambda: cl.load_sample("raa").cumsum(axis="development"), TypeError)


def coarse_unmatched():
    """prices by Company with a company the detailed triangle does not have: a row labelled nan appears"""
    t = cl.load_sample("clrd").iloc[:6, :1]
    g = t.groupby("GRNAME").sum()
    keep = t[t["GRNAME"] != g.index.iloc[0, 0]]
    try:
        r = keep * g
        return bool(r.index.isna().any().any() or (r.index.astype(str) == "nan").any().any())
    except Exception:
        return True


def fillna_adds():
    """Development(fillna=5) adds 5 to every amount instead of filling the missing ones"""
    t = cl.load_sample("raa")
    return not np.allclose(cl.Development(fillna=5).fit(t).ldf_.values, cl.Development().fit(t).ldf_.values)


def empty_pattern_json():
    """read_json of a triangle developed with n_periods=1: its sigma_ has no number at all"""
    x = cl.Development(n_periods=1).fit_transform(cl.load_sample("raa"))
    return _raises(lambda: cl.read_json(x.to_json()), IndexError)


def mack_predict_other():
    """MackChainladder fitted on raa cannot predict the origins after 1987 alone"""
    t = cl.load_sample("raa")
    m = cl.MackChainladder().fit(cl.Development().fit_transform(t))
    return _raises(lambda: m.predict(t[t.origin > "1987"]), ValueError)


PROBES = {f.__name__: f for f in (gapped_dev_to_val, semi_grain_off, shift_valuation, concat_integer_column, cumsum, coarse_unmatched, fillna_adds, empty_pattern_json, mack_predict_other)}
