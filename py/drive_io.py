"""Seeded drivers for the boundary of the library: construction, tables, round trips."""
import numpy as np

import drive
import drive_est
import gen
import ops
from drive import P, pick, ri

GR = (("Y", "Y"), ("Y", "Q"), ("Q", "Q"), ("Q", "M"), ("M", "M"), ("Y", "M"), ("S", "S"), ("S", "Q"), ("Y", "S"), ("S", "M"))


def mixed(rng, og):
    return {"Y": ["ts", "iso", "yyyymm", "parts", "dmy", "period", "yyyymmint"], "M": ["ts", "iso", "yyyymm", "parts", "dmy", "period", "mid", "yyyymmint"]}.get(og, ["ts", "iso", "yyyymm", "parts", "dmy", "period"])


def monthly(S):
    """would the months be read as monthly (any day of the month will do)"""
    m = sorted({x % 12 for x in S})
    d = {b - a for a, b in zip(m, m[1:])}
    return len(m) > 1 and d != {6} and d != {3}


def c01_args(rng):
    og, dg = pick(rng, GR)
    norg = ri(rng, 1, 5)
    if gen.GL[og] // gen.GL[dg] > 4:
        norg = min(norg, 3)
    levels = ri(rng, 1, 3)
    cols = ["paid", "incurred", "count"][: ri(rng, 1, 3)]
    start = ri(rng, 1995, 2012) * 12
    fiscal = 0
    if rng.random() < 0.3:                       # fiscal periods
        fiscal = ri(rng, 1, 11) if og in ("Y", "M") else ri(rng, 1, gen.GL[og] - 1) if og in ("Q", "S") else 0
    start += fiscal
    kw = dict(missing=float(pick(rng, [0, 0.1, 0.4, 0.8])), neg=0.05, zero=0.05, dec=bool(rng.random() < 0.3), cum=bool(rng.random() < 0.6),
              ndev=None, ragged=0.3, start=start)
    kw["ndev"] = pick(rng, [None, None, ri(rng, 1, max(1, norg * gen.GL[og] // gen.GL[dg] + 2))])
    rows, keys, origins, vals = gen.frame(rng, og=og, dg=dg, norg=norg, nkeys=ri(rng, 1, 4), levels=levels, cols=cols, **kw)
    out = []
    for k, o, v, r in rows:
        x = [obsnum(r[c]) for c in cols]
        if rng.random() < 0.05:
            x[ri(rng, 0, len(x) - 1)] = ""           # missing amount
        n = 1
        if rng.random() < 0.15:                      # several records of one cell
            n = ri(rng, 2, 3)
        for j in range(n):
            out.append({"k": list(k), "o": o, "v": v, "x": x if j == 0 else [str(ri(rng, -50, 50)) for _ in x]})
    if rng.random() < 0.25 and out:                  # development before origin
        for _ in range(ri(rng, 1, 3)):
            r = dict(out[ri(rng, 0, len(out) - 1)])
            r["v"] = r["o"] - gen.GL[dg] * ri(rng, 1, 2) + (gen.GL[dg] - 1 if gen.GL[dg] > 1 else 0) - (gen.GL[dg] - 1)
            out.append(r)
    if rng.random() < 0.15 and out:                  # a row of labels of its own
        r = dict(out[ri(rng, 0, len(out) - 1)])
        r["k"] = list(r["k"][:-1]) + ["solo"]
        out.append(r)
    if not out:
        out = [{"k": list(keys[0]), "o": origins[0], "v": vals[0], "x": ["5" for _ in cols]}]
    dvl = bool(rng.random() < 0.9)
    so = pick(rng, mixed(rng, og))
    sv = pick(rng, ["ts", "iso", "dmy", "mid", "period"] + (["yyyymm", "parts"] if False else []))
    if og == "Y" and fiscal == 0 and rng.random() < 0.3:
        so = pick(rng, ["year", "yearstr"])
        if dg == "Y" and all(r["v"] % 12 == 11 for r in out) and rng.random() < 0.5:
            sv = pick(rng, ["year", "yearstr"])
    if dvl and rng.random() < 0.15 and sv != "period":            # ultimates in the same table
        sv = pick(rng, ["ts", "mid"])
        seen = sorted({(tuple(r["k"]), r["o"]) for r in out})
        for k, o in seen:
            out.append({"k": list(k), "o": o, "v": 27143, "x": [str(ri(rng, 1, 9000)) for _ in cols]})
        for k in sorted({k for k, _ in seen}):
            for o in range(min(o for _, o in seen), max(r["v"] for r in out if r["v"] < 27143) + 1, gen.GL[og]):
                if (k, o) not in seen and rng.random() < 0.5:
                    out.append({"k": list(k), "o": o, "v": 27143, "x": [str(ri(rng, 1, 9000)) for _ in cols]})
    if so == "mid" and not monthly({r["o"] for r in out}):
        so = "ts"
    bad = ""
    if rng.random() < 0.04:
        bad = pick(rng, ["text", "dup"] + (["age"] if dvl and sv in ("ts", "iso") else []))
    return {"rows": out, "klab": gen.KLAB[:levels], "cols": cols, "cum": pick(rng, ["T", "F", "T", "F", "N"]), "idx": bool(rng.random() < 0.85),
            "dvl": dvl, "sp": [so, sv], "bad": bad, "scalar": bool(rng.random() < 0.5), "shuf": ri(rng, 0, 5),
            "backend": pick(rng, ["", "", "numpy", "sparse"])}


def obsnum(x):
    import obs
    return obs.num(x)


WANDER = ["incr_to_cum", "dev_to_val", "iloc", "loc", "col", "mask_origin", "mask_dev", "mask_val", "latest_diagonal", "dropna", "agg", "groupby", "set_backend", "grain", "numop"]


def wander(rng, s, x):
    """a few ordinary calls, so that triangles of every kind arrive"""
    for n in range(ri(rng, 0, 3)):
        op = pick(rng, WANDER)
        r = getattr(drive, "c_" + op)(rng, s, x)
        if not r:
            continue
        a, ins = r
        s.do(op, a, ins, "w%d" % n)
        if "w%d" % n in s.heap:
            x = "w%d" % n
    return x


def c01(rng):
    s = ops.Session("construct")
    s.do("construct", c01_args(rng), [], "t0")
    if "t0" in s.heap and rng.random() < 0.3:
        s.do("trip", {"how": "table"}, ["t0"], "t1")
    return s.dump()


def c29(rng):
    s = ops.Session("frame")
    s.load("t0", gen.rand_tri(rng, missing=float(pick(rng, [0, 0.1, 0.4]))))
    x = wander(rng, s, "t0")
    for _ in range(ri(rng, 1, 3)):
        s.do("to_frame", {"kd": bool(rng.random() < 0.55), "imp": bool(rng.random() < 0.4), "dt": bool(rng.random() < 0.5)}, [x], "")
    if rng.random() < 0.4:
        s.do("trip", {"how": "table"}, [x], "t9")
    return s.dump()


def c10(rng):
    s = ops.Session("trips")
    if rng.random() < 0.55:
        s.load("t0", gen.rand_tri(rng, missing=float(pick(rng, [0, 0.1, 0.3]))))
        x = wander(rng, s, "t0")
    else:
        x = drive_est.prepared(rng, s)
        if rng.random() < 0.5:
            drive_est.method(rng, s, x, pick(rng, ["Chainladder", "BornhuetterFerguson", "Benktander", "CapeCod", "MackChainladder"]))
    for n in range(ri(rng, 1, 3)):
        y = pick(rng, sorted(s.heap))
        s.do("trip", {"how": pick(rng, ["json", "pickle"])}, [y], "r%d" % n)
    return s.dump()
