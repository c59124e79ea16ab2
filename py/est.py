"""Estimators: construction from abstract parameters, and projection of their fitted state."""
import hashlib

import numpy as np
import pandas as pd
from sklearn.base import BaseEstimator

import chainladder as cl
import obs
from ops import mstr

TT = cl.Triangle

# attributes read after fit, per class
METHOD = ["X_", "ldf_", "ultimate_", "ibnr_", "full_triangle_", "full_expectation_"]
ATTRS = {
    "Development": ["ldf_", "cdf_", "sigma_", "std_err_", "std_residuals_"],
    "DevelopmentConstant": ["ldf_", "cdf_"],
    "TailConstant": ["ldf_", "cdf_", "sigma_", "std_err_", "tail_"],
    "TailCurve": ["ldf_", "cdf_", "sigma_", "std_err_", "tail_", "slope_", "intercept_"],
    "TailBondy": ["ldf_", "cdf_", "sigma_", "std_err_", "tail_", "b_", "earliest_ldf_"],
    "Chainladder": METHOD,
    "BornhuetterFerguson": METHOD,
    "Benktander": METHOD,
    "ExpectedLoss": METHOD,
    "MackChainladder": METHOD + ["parameter_risk_", "process_risk_", "mack_std_err_", "total_parameter_risk_", "total_process_risk_",
                                 "total_mack_std_err_", "full_std_err_", "summary_", "fit_sigma_", "fit_std_err_", "fit_average_"],
    "CapeCod": METHOD + ["apriori_", "detrended_apriori_"],
    "VotingChainladder": ["ultimate_", "ibnr_"],
    "Trend": ["trend_"],
    "ParallelogramOLF": ["olf_"],
    "BerquistSherman": ["adjusted_triangle_", "disposal_rate_"],
}
# attributes a transformed or predicted triangle may carry
EXTRA = ["trend_", "olf_", "average_", "ldf_", "sigma_", "std_err_", "ultimate_", "ibnr_", "full_triangle_", "full_expectation_",
         "parameter_risk_", "process_risk_", "mack_std_err_", "total_parameter_risk_", "total_process_risk_", "full_std_err_", "total_mack_std_err_"]


def _table(o, name, like, dev):
    """numbers of a table in the frame of a triangle attribute"""
    v = getattr(o, name)
    if isinstance(v, TT):
        a, t = obs.dense(v), obs.tri(getattr(o, like))
    else:
        a, t = np.asarray(v.values, dtype=float), obs.tri(getattr(o, like))
        a = a.reshape(a.shape + (1,) * (4 - a.ndim))
    return {"k": "tri", "t": dict(t, dev=dev, v=obs.cells(a))}


SPECIAL = {"summary_": lambda o: _table(o, "summary_", "ultimate_", [1, 2, 3, 4]),
           "total_mack_std_err_": lambda o: _table(o, "total_mack_std_err_", "total_parameter_risk_", [1])}


def value(v):
    if isinstance(v, TT):
        return {"k": "tri", "t": obs.tri(v)}
    if isinstance(v, (pd.DataFrame, pd.Series)):
        v = np.asarray(v.values).ravel()        # a table, row by row
    if hasattr(v, "todense"):
        v = v.todense()
    if isinstance(v, (np.ndarray, list, tuple)):
        if len(v) and all(isinstance(x, str) for x in v):
            return {"k": "strs", "v": [str(x) for x in v]}
        try:
            a = np.asarray(v, dtype=float)
        except Exception:
            return {"k": "str", "s": str(v)}
        if a.ndim == 0:
            return {"k": "num", "x": obs.num(a)}

        def rec(x):
            return obs.num(x) if np.ndim(x) == 0 else [rec(y) for y in x]
        return {"k": "mat", "v": rec(a)}
    if isinstance(v, (int, float, np.number)):
        return {"k": "num", "x": obs.num(v)}
    return {"k": "str", "s": str(v)}


def read(o, names):
    at = {}
    for n in names:
        try:
            if n in SPECIAL and hasattr(o, n):
                at[n] = SPECIAL[n](o)
                continue
            v = getattr(o.X_, n[4:]) if n.startswith("fit_") else getattr(o, n)
        except AttributeError:
            continue
        except Exception as e:  # noqa
            at[n] = {"k": "err", "e": type(e).__name__ + ": " + str(e)[:150]}
            continue
        if v is None:
            continue
        try:
            at[n] = value(v)
        except Exception as e:  # noqa
            at[n] = {"k": "err", "e": "unreadable " + type(e).__name__}
    return at


def _rep(v):
    if isinstance(v, TT):
        return repr(obs.tri(v))
    if isinstance(v, BaseEstimator):
        return type(v).__name__ + repr(sorted((k, _rep(x)) for k, x in v.get_params(deep=False).items()))
    if isinstance(v, (list, tuple)):
        return type(v).__name__ + repr([_rep(x) for x in v])
    if isinstance(v, dict):
        return repr(sorted((str(k), _rep(x)) for k, x in v.items()))
    if isinstance(v, pd.DataFrame):
        return repr([list(v.columns), [[str(x) for x in r] for r in v.values.tolist()]])
    if callable(v):
        return "callable"
    if isinstance(v, np.ndarray):
        return repr(v.tolist())
    return repr(v)


def digest(e):
    try:
        return hashlib.md5(_rep(e).encode()).hexdigest()[:12]
    except Exception as x:  # noqa
        return "unreadable " + type(x).__name__


def grid_rows(e, par):
    """the results of a grid search: settings and scores, row by row"""
    r = e.results_
    return {"k": "rows", "rows": [{"p": [str(v[g["n"]]) for g in par["grid"]], "s": [obs.num(v[s]) for s in par["score"]]}
                                  for v in r.to_dict("records")]}


def project(e, cls, par):
    if cls == "Pipeline":
        last = par["steps"][-1]
        return {"cls": cls, "par": par, "hp": digest(e), "at": read(e.steps[-1][1], ATTRS.get(last["cls"], []))}
    if cls == "GridSearch":
        return {"cls": cls, "par": par, "hp": digest(e), "at": {"results_": grid_rows(e, par)} if hasattr(e, "results_") else {}}
    return {"cls": cls, "par": par, "hp": digest(e), "at": read(e, ATTRS.get(cls, []))}


# ------------------------------------------------------------------ abstract parameters -> real ones
def one(xs, f=lambda x: x):
    return f(xs[0]) if len(xs) == 1 else [f(x) for x in xs]


def date(m, g="M"):
    return mstr(m, True).strftime("%Y-%m-%d")


def grp(g):
    return None if not g else (g[0] if len(g) == 1 else list(g))


def origin_str(m, og):
    p = pd.Period(mstr(m), freq="M")
    return {"Y": str(p.year), "Q": "%dQ%d" % (p.year, p.quarter), "M": "%d-%02d" % (p.year, p.month)}[og]


def development_kw(p):
    k = {"n_periods": one(p["np"]), "average": one(p["avg"]), "sigma_interpolation": p["sig"], "preserve": p["pres"]}
    if p["drop"]:
        d = [(origin_str(o, p["og"]), a) for o, a in p["drop"]]
        k["drop"] = d[0] if len(d) == 1 and p.get("scalar") else d
    if p["dval"]:
        d = [date(m) for m in p["dval"]]
        k["drop_valuation"] = d[0] if len(d) == 1 and p.get("scalar") else d
    if p["dh"] != [0]:
        k["drop_high"] = one(p["dh"])
    if p["dl"] != [0]:
        k["drop_low"] = one(p["dl"])
    if p["above"] != ["inf"]:
        k["drop_above"] = one(p["above"], float)
    if p["below"] != ["0"]:
        k["drop_below"] = one(p["below"], float)
    if p["grp"]:
        k["groupby"] = grp(p["grp"])
    return k


def constant_kw(p):
    return {"patterns": {a: float(f) for a, f in zip(p["ages"], p["pat"])}, "style": p["style"]}


def tailconst_kw(p):
    k = {"tail": float(p["tail"]), "decay": float(p["decay"]), "projection_period": p["proj"]}
    if p["att"]:
        k["attachment_age"] = p["att"]
    return k


def tailcurve_kw(p):
    k = {"curve": p["curve"], "extrap_periods": p["extrap"], "errors": p["err"], "projection_period": p["proj"],
         "reg_threshold": (float(p["lo"]), None if p["hi"] == "inf" else float(p["hi"]))}
    if p["fl"]:
        k["fit_period"] = list(p["fl"])
    else:
        k["fit_period"] = tuple(x or None for x in p["fp"])
    if p["att"]:
        k["attachment_age"] = p["att"]
    return k


def capecod_kw(p):
    k = {"trend": float(p["trend"]), "decay": float(p["decay"]), "n_iters": p["n"]}
    if p.get("grp"):
        k["groupby"] = grp(p["grp"])
    return k


def when(m, spell):
    """a month given as its last day, some day, or a timestamp"""
    d = mstr(m, True).normalize() if spell % 3 != 1 else mstr(m) + pd.Timedelta(days=14)
    return d if spell % 2 else d.strftime("%Y-%m-%d")


def trend_kw(p):
    f = lambda m: None if m == 99999 else when(m, p["spell"])
    tr = [float(r) for r in p["tr"]]
    dates = [(f(a), f(b)) for a, b in p["dates"]]
    one_ = len(tr) == 1 and p["spell"] % 2 == 0
    k = {"trends": tr[0] if one_ else tr, "axis": p["axis"]}
    if not (len(dates) == 1 and dates[0] == (None, None)):
        k["dates"] = dates[0] if one_ else dates
    return k


def olf_kw(p):
    r = pd.DataFrame({"chg": [float(h["r"]) for h in p["ch"]],
                      "eff": ["%d-%02d-%02d" % (h["m"] // 12, h["m"] % 12 + 1, h["d"]) for h in p["ch"]]})
    for j, n in enumerate(p["lev"]):
        r[n] = [h["g"][j] for h in p["ch"]]
    if p["stamp"]:
        r["eff"] = pd.to_datetime(r["eff"])
    return {"rate_history": r, "change_col": "chg", "date_col": "eff", "approximation_grain": p["ag"], "vertical_line": p["vert"]}


def bs_kw(p):
    return {"paid_amount": p["paid"], "incurred_amount": p["inc"], "reported_count": p["rep"], "closed_count": p["clo"], "trend": float(p["tr"])}


def pipeline_kw(p):
    return {"steps": [(q["n"], build(q["cls"], q["par"])) for q in p["steps"]]}


SCORES = {"ult": lambda m: total(final(m).ultimate_),
          "ibnr": lambda m: total(final(m).ibnr_)}


def total(t):
    return float(np.nansum(obs.dense(t)))


def final(m):
    return m.steps[-1][1] if hasattr(m, "steps") else m


def grid_kw(p):
    g = {q["n"]: [literal(v) for v in q["v"]] for q in p["grid"]}
    sc = {s: SCORES[s] for s in p["score"]}
    return {"estimator": build(p["base"]["cls"], p["base"]["par"]), "param_grid": [g] if p.get("aslist") else g, "scoring": sc}


def literal(v):
    try:
        x = float(v)
        return int(v) if v.lstrip("-").isdigit() else x
    except ValueError:
        return v


def voting_kw(p):
    f = lambda w: tuple(float(x) for x in w)
    n = len(p["members"])
    k = {"estimators": [(m["n"], "drop" if m["cls"] == "drop" else build(m["cls"], m["par"])) for m in p["members"]]}
    if p["def"]:
        k["default_weighting"] = f(p["def"])
    if p["form"] == "dict":
        k["weights"] = {origin_str(q["o"], p["og"]): f(q["w"]) for q in p["w"]}
    elif p["form"] != "none":
        a = np.array(p["w"], dtype=float)
        if p.get("call") and p["form"] == "origin":
            m = {o: tuple(a[k]) for k, o in enumerate(p["org"])}
            k["weights"] = lambda o: m[obs.month(o.start_time)]
        else:
            k["weights"] = a.tolist() if p.get("aslist") else a
    return k


KW = {"Pipeline": pipeline_kw, "GridSearch": grid_kw, "VotingChainladder": voting_kw, "Trend": trend_kw, "ParallelogramOLF": olf_kw, "BerquistSherman": bs_kw,
      "Development": development_kw, "DevelopmentConstant": constant_kw, "TailConstant": tailconst_kw, "TailCurve": tailcurve_kw,
      "Chainladder": lambda p: {}, "MackChainladder": lambda p: {},
      "ExpectedLoss": lambda p: {"apriori": float(p["ap"])},
      "BornhuetterFerguson": lambda p: {"apriori": float(p["ap"])},
      "Benktander": lambda p: {"apriori": float(p["ap"]), "n_iters": p["n"]},
      "CapeCod": capecod_kw}


def build(cls, p):
    return getattr(cl, cls)(**KW[cls](p))
