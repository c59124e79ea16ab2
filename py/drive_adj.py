"""Seeded drivers for adjustments: trend, on-level factors, Berquist-Sherman; judge nothing."""
import numpy as np

import drive as V
import gen
import ops
from drive import P, pick, ri
from drive_est import money, new, shape
from ops import NONE

RATES = ["0.05", "0.02", "-0.03", "0.1", "0", "0.25"]


def some_dates(rng, p):
    lo, hi = p["org"][0] - 13, p["vd"] + 13
    f = lambda: NONE if rng.random() < 0.5 else ri(rng, lo, hi)
    return f(), f()


def trend_args(rng, p):
    a, b = some_dates(rng, p)
    ax = "origin" if rng.random() < 0.5 else "valuation"
    return {"r": pick(rng, RATES), "axis": pick(rng, ["development", "index"]) if rng.random() < 0.03 else ax, "start": a, "end": b, "spell": ri(rng, 0, 5)}


def form(rng, s, x, tag):
    """the triangle as it comes: by age or valuation, cut to a diagonal, incremental, summed"""
    r = rng.random()
    if r < 0.2:
        s.do("dev_to_val", {"inplace": False}, [x], tag)
    elif r < 0.4:
        s.do("latest_diagonal", {"x": 0}, [x], tag)
    elif r < 0.5:
        s.do("agg", {"fn": "sum", "ax": pick(rng, [2, 3]), "spell": 0}, [x], tag)
    elif r < 0.6 and P(s, x)["cum"] == "T":
        s.do("cum_to_incr", {"inplace": False}, [x], tag)
    return tag if tag in s.heap else x


def c26(rng):
    s = ops.Session("trend")
    s.load("t0", money(rng, missing=float(rng.choice([0, 0.1]))))
    x = shape(rng, s, "t0", "x0")
    x = form(rng, s, x, "x1")
    a = trend_args(rng, P(s, x))
    s.do("trend", a, [x], "y1")
    if "y1" in s.heap and rng.random() < 0.4:
        s.do("trend", trend_args(rng, P(s, "y1")), ["y1"], "y2")
    if rng.random() < 0.5:
        n = ri(rng, 1, 3)
        p = P(s, x)
        if n == 1 and rng.random() < 0.5:
            d = [[NONE, NONE]]
        else:
            d = [list(some_dates(rng, p)) for _ in range(n)]
        par = {"tr": [pick(rng, RATES) for _ in range(n)], "dates": d, "axis": pick(rng, ["origin", "valuation"]), "spell": ri(rng, 0, 5)}
        if new(s, "Trend", par):
            s.do("fit", {"x": 0}, ["e", x], "")
            s.do("transform", {"x": 0}, ["e", x], "z")
    return s.dump()


def c27(rng):
    s = ops.Session("onlevel")
    og = pick(rng, ["Y", "Y", "Y", "Q", "S", "M"])
    start = ri(rng, 1996, 2010) * 12
    if og != "Y" or rng.random() < 0.2:
        start += pick(rng, [0, 6]) if og in "YS" else gen.GL[og] * ri(rng, 0, 11 // gen.GL[og])
    s.load("t0", money(rng, grains=((og, og),), start=start, nkeys=ri(rng, 1, 4), norg=ri(rng, 3, 6), missing=float(rng.choice([0, 0, 0.05]))))
    x = "t0"
    if rng.random() < 0.7:
        s.do("latest_diagonal", {"x": 0}, [x], "x1")
        x = "x1" if "x1" in s.heap else x
    p = P(s, x)
    lev = [n for n in p["klab"] if rng.random() < 0.4]
    lo, hi = p["org"][0] - 30, p["org"][-1] + gen.GL[og] + 8
    groups = sorted({tuple(k[p["klab"].index(n)] for n in lev) for k in map(tuple, p["keys"])})
    ch = []
    for g in groups:
        for _ in range(pick(rng, [1, 1, 2, 3, 4])):
            ch.append({"m": ri(rng, lo, hi), "d": 1 if rng.random() < 0.5 else ri(rng, 1, 28), "r": pick(rng, ["0.05", "0.1", "-0.08", "0.2", "0.035", "0"]), "g": list(g)})
    if rng.random() < 0.3:
        ch.append(dict(pick(rng, ch), r="0.07"))             # two changes on one day
    ch = [ch[k] for k in rng.permutation(len(ch))]
    par = {"ch": ch, "lev": lev, "ag": pick(rng, ["M", "D"]), "vert": bool(rng.random() < 0.35), "stamp": bool(rng.random() < 0.5)}
    if new(s, "ParallelogramOLF", par):
        s.do("fit", {"x": 0}, ["e", x], "")
        s.do("transform", {"x": 0}, ["e", x], "z")
    return s.dump()


def counts(rng):
    """paid, incurred, reported and closed counts that move as such things do"""
    import pandas as pd
    import chainladder as cl
    from ops import mstr
    g = pick(rng, ["Y", "Y", "Q", "S", "M"])
    st, n = gen.GL[g], ri(rng, 3, 6)
    o0 = ri(rng, 1996, 2010) * 12
    nk = ri(rng, 1, 3)
    names = list(rng.permutation(gen.NAMES))[:nk]
    R = []
    for k in names:
        for o in range(n):
            clo, rep, paid, inc = float(ri(rng, 20, 80)), 0.0, float(ri(rng, 100, 900)), 0.0
            for d in range(n - o):
                clo += ri(rng, 3, 40)
                paid = round(paid * (1 + float(rng.gamma(1.5, 0.2))), 1) + (0 if rng.random() < 0.9 else -20)
                R.append(dict(k=k, o=mstr(o0 + o * st), v=mstr(o0 + (o + d + 1) * st - 1, True).normalize(),
                              paid=paid, inc=round(paid + ri(rng, 5, 600), 1), rep=clo + ri(rng, 2, 50), clo=clo, prem=1000.0 + o))
    df = pd.DataFrame(R)
    cols = ["paid", "inc", "rep", "clo"] + (["prem"] if rng.random() < 0.3 else [])
    if rng.random() < 0.3:
        cols = [cols[j] for j in rng.permutation(len(cols))]
    t = cl.Triangle(df, origin="o", development="v", columns=cols, index="k", cumulative=True)
    return t.set_backend("sparse") if rng.random() < 0.35 else t


def c25(rng):
    s = ops.Session("berquist")
    s.load("t0", counts(rng))
    x = "t0"
    par = {"paid": "paid", "inc": "inc", "rep": "rep", "clo": "clo", "tr": pick(rng, ["0", "0.05", "0.15", "-0.02"])}
    if rng.random() < 0.04:
        par["clo"] = "nothing"
    if new(s, "BerquistSherman", par):
        s.do("fit", {"x": 0}, ["e", x], "")
        s.do("transform", {"x": 0}, ["e", x], "z")
        if rng.random() < 0.3:
            s.do("numop", {"o": "*", "x": pick(rng, ["2", "0.5"])}, [x], "x2")
            s.do("fit", {"x": 0}, ["e", "x2"], "")
    return s.dump()
