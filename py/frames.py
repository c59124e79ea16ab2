"""Tables in and out of triangles: translation between abstract rows and pandas, and the round trips."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

import chainladder as cl
import obs

ULTV = 27143


def day(m, spell, end):
    """A month in one of the spellings a user may hand over."""
    y, k = m // 12, m % 12 + 1
    p = pd.Period(year=y, month=k, freq="M")
    if spell == "year":
        return y
    if spell == "yearstr":
        return str(y)
    if spell == "period":
        return p
    if spell == "iso":
        return "%04d-%02d-%02d" % (y, k, p.days_in_month if end else 1)
    if spell == "yyyymm":
        return "%04d%02d" % (y, k)
    if spell == "yyyymmint":
        return y * 100 + k
    if spell == "dmy":
        return "%02d/%02d/%04d" % (p.days_in_month if end else 1, k, y)
    if spell == "mid":
        return pd.Timestamp(y, k, 14)
    return pd.Timestamp(y, k, p.days_in_month if end else 1)


def table(a):
    """The pandas table and constructor arguments of an abstract construction."""
    so, sv = a["sp"]
    d = {}
    for n, lab in enumerate(a["klab"]):
        d[lab] = [r["k"][n] for r in a["rows"]]
        if a.get("intlab"):
            d[lab] = [int(x) for x in d[lab]]
    if so == "parts":
        d["oyear"] = [r["o"] // 12 for r in a["rows"]]
        d["omonth"] = [r["o"] % 12 + 1 for r in a["rows"]]
        origin = ["oyear", "omonth"]
    else:
        d["when"] = [day(r["o"], so, False) for r in a["rows"]]
        origin = "when"
    kw = {}
    if a["dvl"]:
        if sv == "parts":
            d["vyear"] = [r["v"] // 12 for r in a["rows"]]
            d["vmonth"] = [r["v"] % 12 + 1 for r in a["rows"]]
            kw["development"] = ["vyear", "vmonth"]
        else:
            d["asof"] = [pd.Timestamp(cl.options.ULT_VAL) if r["v"] >= ULTV else day(r["v"], sv, True) for r in a["rows"]]
            kw["development"] = "asof"
    for n, c in enumerate(a["cols"]):
        d[c] = [np.nan if r["x"][n] == "" else float(r["x"][n]) for r in a["rows"]]
    if so == "dmy":
        kw["origin_format"] = "%d/%m/%Y"
    if sv == "dmy":
        kw["development_format"] = "%d/%m/%Y"
    df = pd.DataFrame(d)
    cols = list(a["cols"])
    if a["bad"] == "text":
        df[cols[0]] = df[cols[0]].astype(str).astype(object)
    if a["bad"] == "age":
        df["asof"] = [r["v"] - r["o"] + 1 for r in a["rows"]]
    if a["bad"] == "dup":
        df = pd.concat([df, df[[cols[0]]]], axis=1)
    if a["idx"]:
        kw["index"] = a["klab"][0] if len(a["klab"]) == 1 and a["scalar"] else list(a["klab"])
    if a["shuf"]:
        df = df.sample(frac=1, random_state=a["shuf"])
        if a["shuf"] % 2:
            df = df.reset_index(drop=True)
    kw["columns"] = cols[0] if len(cols) == 1 and a["scalar"] else cols
    return df, dict(kw, origin=origin)


def construct(a):
    df, kw = table(a)
    before = df.copy()
    t = cl.Triangle(df, cumulative={"T": True, "F": False, "N": None}[a["cum"]],
                    **({"array_backend": a["backend"]} if a["backend"] else {}), **kw)
    if not before.equals(df):
        return {"k": "mutated-table"}
    return t


def onum(x):
    return obs.month(x.start_time if isinstance(x, pd.Period) else x)


def label(x):
    if isinstance(x, tuple):
        return "|".join(str(y) for y in x)
    if isinstance(x, (pd.Period, pd.Timestamp, np.datetime64)):
        return str(onum(x))
    if isinstance(x, str) and len(x) == 6 and x[4] == "H" and x[:4].isdigit():
        return str(int(x[:4]) * 12 + (int(x[5]) - 1) * 6)
    return str(x)


def to_frame(t, a):
    kw = {}
    if a["kd"]:
        kw["keepdims"] = True
    if a["imp"]:
        kw["implicit_axis"] = True
    if not a["dt"]:
        kw["origin_as_datetime"] = False
    f = t.to_frame(**kw)
    if isinstance(f, pd.Series):
        return {"k": "grid", "r": [label(x) for x in f.index], "c": [""], "x": [[obs.num(x)] for x in f.values]}
    heads = [str(c) for c in f.columns]
    if a["kd"] or heads[:1] == ["origin"]:
        extra = [h for h in ("origin", "development", "valuation") if h in heads[:3]]
        cols = [n for n, h in enumerate(heads) if n >= len(extra)]
        rows = []
        for n in range(len(f)):
            k = f.index[n]
            r = f.iloc[n]
            rows.append({"k": [str(x) for x in (k if isinstance(k, tuple) else (k,))], "o": onum(r["origin"]),
                         "d": int(r["development"]) if "development" in extra else -1,
                         "v": onum(r["valuation"]) if "valuation" in extra else -1,
                         "x": [obs.num(r.iloc[c]) for c in cols]})
        return {"k": "tab", "ix": [str(x) for x in f.index.names], "cols": heads, "rows": rows}
    return {"k": "grid", "r": [label(x) for x in f.index], "c": [label(x) for x in f.columns],
            "x": [[obs.num(x) for x in row] for row in f.values.tolist()]}


def trip(t, a):
    if a["how"] == "json":
        return cl.read_json(t.to_json())
    if a["how"] == "pickle":
        d = tempfile.mkdtemp(prefix="vtrip")
        try:
            p = os.path.join(d, "x.pkl")
            t.to_pickle(p)
            return cl.read_pickle(p)
        finally:
            shutil.rmtree(d)
    f = t.to_frame(keepdims=True, implicit_axis=True).reset_index()
    return cl.Triangle(f, origin="origin", development="valuation", index=list(t.key_labels), columns=list(t.columns), cumulative=t.is_cumulative)
