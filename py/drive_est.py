"""Seeded drivers for estimator sessions: choose classes, parameters and operands; judge nothing."""
import numpy as np

import gen
import ops
from drive import P, pick, ri
from ops import NONE

ALL = ["all"]


def money(rng, **kw):
    """A well-behaved claims triangle (amounts mostly grow), sometimes with holes or negatives."""
    g = kw.pop("grains", (("Y", "Y"), ("Y", "Y"), ("Y", "Q"), ("Q", "Q"), ("S", "S"), ("Q", "M"), ("Y", "S"), ("M", "M")))
    og, dg = g[ri(rng, 0, len(g) - 1)]
    norg = kw.pop("norg", None) or ri(rng, 3, 6)
    if gen.GL[og] // gen.GL[dg] > 2:
        norg = min(norg, 4)
    kw.setdefault("nkeys", ri(rng, 1, 3))
    kw.setdefault("levels", ri(rng, 1, 2))
    kw.setdefault("cols", ("paid", "incurred")[: ri(rng, 1, 2)])
    kw.setdefault("missing", float(rng.choice([0, 0, 0, 0.08])))
    kw.setdefault("neg", float(rng.choice([0, 0, 0.05])))
    kw.setdefault("cum", bool(rng.random() < 0.8))
    kw["netting"] = 0
    if not kw["cum"]:
        kw["missing"] = 0       # an accumulated hole would be zero up to float noise
    kw.setdefault("dec", bool(rng.random() < 0.3))
    return gen.tri(rng, backend=kw.pop("backend", None) or ("sparse" if rng.random() < 0.35 else "numpy"), og=og, dg=dg, norg=norg, **kw)


def shape(rng, s, x, tag):
    """sometimes truncate ages or origins, roll back the valuation"""
    p = P(s, x)
    r = rng.random()
    if r < 0.2 and len(p["dev"]) > 3:
        s.do("iloc", {"i": ALL, "c": ALL, "o": ALL, "d": ["slice", NONE, ri(rng, 2, len(p["dev"]) - 1), NONE], "form": 4}, [x], tag)
    elif r < 0.3 and len(p["org"]) > 3:
        k = ri(rng, 1, 2)
        s.do("iloc", {"i": ALL, "c": ALL, "o": ["slice", k, NONE, NONE] if rng.random() < 0.5 else ["slice", NONE, -k, NONE], "d": ALL, "form": 4}, [x], tag)
    elif r < 0.4 and len(p["dev"]) > 3:
        s.do("mask_val", {"rel": "<", "m": p["vd"]}, [x], tag)
    return tag if tag in s.heap else x


def listy(rng, f, n):
    """one value, or one per age"""
    return [f()] if rng.random() < 0.7 else [f() for _ in range(n)]


def links(s, x):
    """link ratios of a triangle, to choose thresholds between them"""
    p = P(s, x)
    out = []
    for i in p["v"]:
        for c in i:
            for o in c:
                a = [float(y) for y in o]
                if p["cum"] == "F":
                    a = list(np.cumsum(a))
                out += [a[k + 1] / a[k] for k in range(len(a) - 1) if a[k] and a[k + 1]]
    return sorted(out)


def dev_par(rng, s, x, plain=False):
    p = P(s, x)
    n = len(p["dev"]) - 1
    no = len(p["org"])
    par = {"np": [-1], "avg": ["volume"], "sig": pick(rng, ["log-linear", "mack"]), "pres": 1, "drop": [], "dval": [],
           "dh": [0], "dl": [0], "above": ["inf"], "below": ["0"], "grp": [], "scalar": bool(rng.random() < 0.5), "og": p["og"]}
    if rng.random() < 0.6:
        par["avg"] = listy(rng, lambda: pick(rng, ["volume", "simple", "regression"]), n)
    if plain:
        return par
    if rng.random() < 0.5:
        par["np"] = listy(rng, lambda: pick(rng, [-1, 2, 3, ri(rng, 1, no)]), n)
    if rng.random() < 0.35:
        par["dh"] = listy(rng, lambda: ri(rng, 0, 2), n)
    if rng.random() < 0.35:
        par["dl"] = listy(rng, lambda: ri(rng, 0, 2), n)
    if rng.random() < 0.3:
        par["pres"] = ri(rng, 1, 3)
    if rng.random() < 0.3 and p["og"] != "S":
        par["drop"] = [[pick(rng, p["org"]), pick(rng, p["dev"][:-1])] for _ in range(ri(rng, 1, 3))]
    if rng.random() < 0.3 and p["dg"] != "S":
        vs = sorted({o + d - 1 for o in p["org"] for d in p["dev"] if o + d - 1 < p["vd"]})
        if vs:
            par["dval"] = [pick(rng, vs) for _ in range(ri(rng, 1, 2))]
    L = links(s, x)
    if len(L) > 4:
        if rng.random() < 0.25:
            par["above"] = [repr(round(float(np.quantile(L, rng.uniform(0.5, 0.95))), 3))]
        if rng.random() < 0.25:
            par["below"] = [repr(round(float(np.quantile(L, rng.uniform(0.05, 0.5))), 3))]
    if rng.random() < 0.25:
        k = len(p["klab"])
        par["grp"] = [pick(rng, p["klab"])] if k == 1 or rng.random() < 0.5 else list(p["klab"])
    return par


def generic(par):
    """parameters that make sense for any triangle"""
    return not par["drop"] and not par["dval"] and not par["grp"] and all(len(v) == 1 for k, v in par.items() if k in ("np", "avg", "dh", "dl", "above", "below"))


def refit(rng, s, x, par):
    """Fit again on another triangle: the second fit must not remember the first."""
    r = rng.random()
    if r < 0.2 and generic(par):
        s.load("t1", money(rng, nkeys=1, levels=1, cols=("paid",)))
        s.do("fit", {"x": 0}, ["e", "t1"], "")
    elif r < 0.4:
        s.do("numop", {"o": "*", "x": pick(rng, ["2", "0.5", "3"])}, [x], "x2")
        s.do("fit", {"x": 0}, ["e", "x2"], "")


def c12(rng):
    s = ops.Session("development")
    s.load("t0", money(rng))
    x = shape(rng, s, "t0", "x0")
    if rng.random() < 0.1:
        s.do("dev_to_val", {"inplace": False}, [x], "xv")
        x = "xv" if "xv" in s.heap else x
    par = dev_par(rng, s, x)
    s.do("new", {"cls": "Development", "par": par}, [], "e")
    if "e" not in s.heap:
        return s.dump()
    s.do("fit", {"x": 0}, ["e", x], "")
    refit(rng, s, x, par)
    return s.dump()


# ------------------------------------------------------------------ patterns, tails and methods
def new(s, cls, par, slot="e"):
    s.do("new", {"cls": cls, "par": par}, [], slot)
    return slot if slot in s.heap else None


def developed(rng, s, x, tag="xd", plain=None):
    """x carrying development patterns"""
    if rng.random() < 0.15:
        p = P(s, x)
        n = len(p["dev"])
        f = sorted((round(float(1 + rng.gamma(1, 0.3)), 3) for _ in range(n + 1)), reverse=True)
        style = pick(rng, ["ldf", "cdf"])
        st = gen.GL[p["dg"]]
        ages = [p["dev"][0] + st * k for k in range(n + 1)]
        cls, par = "DevelopmentConstant", {"ages": ages, "pat": [repr(v) for v in f], "style": style}
    else:
        cls, par = "Development", dev_par(rng, s, x, plain=rng.random() < 0.5 if plain is None else plain)
    if not new(s, cls, par, "d"):
        return x
    s.do("fit", {"x": 0}, ["d", x], "")
    if s.ev[-1]["got"]["k"] == "err":
        return x
    s.do("transform", {"x": 0}, ["d", x], tag)
    return tag if tag in s.heap else x


def tail_par(rng, s, x, cls):
    p = P(s, x)
    dev = p["dev"]
    proj = pick(rng, [12, 12, 12, 24])
    att = 0 if rng.random() < 0.6 else pick(rng, dev)
    if cls == "TailConstant":
        return {"tail": pick(rng, ["1", "1.05", "1.01", "1.2", "0.98", repr(round(float(1 + rng.gamma(1, 0.05)), 4))]),
                "decay": pick(rng, ["0.5", "0.8", "0.25", "0.9"]), "att": att, "proj": proj}
    st = gen.GL[p["dg"]]
    fp = [0, 0]
    fl = []
    r = rng.random()
    if r < 0.3:
        fp = [pick(rng, [0, dev[0], dev[1]]), pick(rng, [0, dev[-1]])]
        fp = [v if v % st == 0 else 0 for v in fp]
    elif r < 0.45:
        fl = [int(rng.random() < 0.75) for _ in dev[:-1]]
    return {"curve": pick(rng, ["exponential", "inverse_power"]), "fp": fp, "fl": fl, "extrap": ri(rng, 8, 40) + 12 // st * proj // 12,
            "err": "raise" if rng.random() < 0.1 else "ignore", "att": att, "lo": pick(rng, ["1.00001", "1.00001", "1", "1.05"]),
            "hi": pick(rng, ["inf", "inf", "inf", "1.8", "3"]), "proj": proj}


def tailed(rng, s, x, tag="xt"):
    cls = pick(rng, ["TailConstant", "TailCurve"])
    if not new(s, cls, tail_par(rng, s, x, cls), "w"):
        return x
    s.do("fit", {"x": 0}, ["w", x], "")
    if s.ev[-1]["got"]["k"] == "err":
        return x
    s.do("transform", {"x": 0}, ["w", x], tag)
    return tag if tag in s.heap else x


def prepared(rng, s, **kw):
    if rng.random() < 0.12:     # enough rows for groups of several rows
        kw.update(nkeys=ri(rng, 4, 6), levels=2, cols=("paid",))
    s.load("t0", money(rng, **kw))
    x = shape(rng, s, "t0", "x0")
    r = rng.random()
    if r > 0.15:
        x = developed(rng, s, x)
    if r > 0.5:
        x = tailed(rng, s, x)
    return x


def c17(rng):
    s = ops.Session("tails")
    s.load("t0", money(rng, neg=float(rng.choice([0, 0, 0, 0.05])), missing=float(rng.choice([0, 0, 0.05])), norg=None if rng.random() < 0.5 else 6))
    x = shape(rng, s, "t0", "x0")
    if rng.random() < 0.75:
        x = developed(rng, s, x)
    tailed(rng, s, x)
    if rng.random() < 0.3:
        refit(rng, s, x, {"np": [1], "avg": [1], "dh": [0], "dl": [0], "above": [0], "below": [0], "drop": 0, "dval": 0, "grp": 0}) if "e" in s.heap else None
    return s.dump()


def weight(rng, s, x, tag="w0"):
    """an exposure vector: one amount per origin, for every row or per row"""
    p = P(s, x)
    one = rng.random() < 0.3
    keys = [p["keys"][0]] if one else list(p["keys"])
    if not one and len(keys) > 1 and rng.random() < 0.3:
        keys = [keys[k] for k in rng.permutation(len(keys))]
    cols = ["premium"] if len(p["cols"]) == 1 or rng.random() < 0.7 else list(p["cols"])
    s.load(tag, gen.vector(rng, s.heap[x], keys, cols, backend="sparse" if rng.random() < 0.3 else "numpy"))
    return tag


METHODS = ["Chainladder", "BornhuetterFerguson", "Benktander", "ExpectedLoss", "CapeCod"]


def method_par(rng, cls):
    ap = pick(rng, ["1", "0.6", "0.85", "1.1"])
    return {"Chainladder": lambda: {"x": 0}, "MackChainladder": lambda: {"x": 0}, "BornhuetterFerguson": lambda: {"ap": ap}, "ExpectedLoss": lambda: {"ap": ap},
            "Benktander": lambda: {"ap": ap, "n": ri(rng, 0, 4)},
            "CapeCod": lambda: {"trend": pick(rng, ["0", "0.02", "0.05", "-0.03"]), "decay": pick(rng, ["1", "0.75", "0.5", "0"]), "n": ri(rng, 1, 3)}}[cls]()


def method(rng, s, x, cls, tag="m"):
    if not new(s, cls, method_par(rng, cls), tag):
        return None
    ins = [tag, x]
    if cls not in ("Chainladder", "MackChainladder"):
        ins.append(weight(rng, s, x))
    s.do("fit", {"x": 0}, ins, "")
    return ins


def c14(rng):
    s = ops.Session("chainladder")
    x = prepared(rng, s)
    method(rng, s, x, "Chainladder")
    return s.dump()


def c21(rng):
    s = ops.Session("mack")
    x = prepared(rng, s, cum=bool(rng.random() < 0.92))
    method(rng, s, x, "MackChainladder")
    if "m" in s.heap and rng.random() < 0.4:
        ys = sorted(z for z in s.heap if z not in s.desc and all(P(s, z)[k] == P(s, x)[k] for k in ("keys", "cols", "org", "dev", "vd", "cum", "pat", "val")))
        y = pick(rng, ys)
        if rng.random() < 0.4:
            s.do("numop", {"o": "*", "x": pick(rng, ["2", "0.5"])}, [y], "y")
            y = "y" if "y" in s.heap else y
        s.do("predict", {"x": 0}, ["m", y], "p")
    return s.dump()


def c15(rng):
    s = ops.Session("expected")
    x = prepared(rng, s)
    method(rng, s, x, pick(rng, ["BornhuetterFerguson", "Benktander", "ExpectedLoss"]))
    return s.dump()


def c16(rng):
    s = ops.Session("capecod")
    x = prepared(rng, s)
    method(rng, s, x, "CapeCod")
    return s.dump()


# ------------------------------------------------------------------ pattern algebra
def c13(rng):
    s = ops.Session("patterns")
    s.load("t0", money(rng))
    x = shape(rng, s, "t0", "x0")
    s.do("link_ratio", {"x": 0}, [x], "lr")
    xd = developed(rng, s, x, plain=True)
    if rng.random() < 0.4:
        xd = tailed(rng, s, xd)
    if xd in ("t0", "x0"):
        return s.dump()
    src = pick(rng, ["d", xd] + (["w"] if "w" in s.heap else []))
    s.do("attr", {"name": "ldf_"}, [src], "L")
    s.do("attr", {"name": "cdf_"}, [src], "C")
    for k in range(ri(rng, 2, 5)):
        live = [z for z in ("L", "C", "L1", "C1", "lr", "S") if z in s.heap]
        z = pick(rng, live)
        op = pick(rng, ["incr_to_cum", "cum_to_incr", "incr_to_cum", "cum_to_incr", "iloc", "copy", "set_backend"])
        if op == "iloc":
            n = len(P(s, z)["dev"])
            a = {"i": ALL, "c": ALL, "o": ALL, "d": ["slice", ri(rng, 0, max(0, n - 2)), NONE, NONE], "form": 4}
        else:
            a = {"incr_to_cum": {"inplace": False}, "cum_to_incr": {"inplace": False}, "copy": {"how": "m"},
                 "set_backend": {"b": pick(rng, ["numpy", "sparse"]), "inplace": False}}[op]
        s.do(op, a, [z], pick(rng, ["L1", "C1", "S"]))
    return s.dump()


# ------------------------------------------------------------------ life cycle
LIFE = {"dev": ["Development", "TailConstant", "TailCurve", "DevelopmentConstant"], "method": METHODS}


def any_par(rng, s, x, cls):
    if cls == "Development":
        for _ in range(20):
            p = dev_par(rng, s, x)
            if generic(p):
                return p
        return dev_par(rng, s, x, plain=True) | {"avg": ["volume"]}
    if cls == "DevelopmentConstant":
        p = P(s, x)
        st = gen.GL[p["dg"]]
        n = len(p["dev"]) + 8
        f = sorted((round(float(1 + rng.gamma(1, 0.3)), 3) for _ in range(n)), reverse=True)
        return {"ages": [p["dev"][0] + st * k for k in range(n)], "pat": [repr(v) for v in f], "style": pick(rng, ["ldf", "cdf"])}
    if cls in ("TailConstant", "TailCurve"):
        p = tail_par(rng, s, x, cls)
        p["att"] = 0
        if "fl" in p:
            p["fl"] = []
        return p
    return method_par(rng, cls)


def other(rng, s, x, tag):
    """a second triangle to fit on or to predict"""
    p = P(s, x)
    r = rng.random()
    if r < 0.3 and len(p["dev"]) > 2 and len(p["org"]) > 2:       # as it stood one or more periods ago
        vs = sorted({o + d - 1 for o in p["org"] for d in p["dev"] if o + d - 1 < p["vd"]})
        vs = [v for v in vs if v >= p["org"][1] + p["dev"][0] - 1] or vs
        s.do("mask_val", {"rel": "<=", "m": vs[-ri(rng, 1, min(2, len(vs)))]}, [x], tag)
    elif r < 0.5:
        s.do("numop", {"o": "*", "x": pick(rng, ["2", "0.5", "3"])}, [x], tag)
    elif r < 0.65 and len(p["keys"]) > 1:
        s.do("iloc", {"i": ["slice", NONE, NONE, -1] if rng.random() < 0.5 else ["list", [len(p["keys"]) - 1]], "c": ALL, "o": ALL, "d": ALL, "form": 4}, [x], tag)
    elif r < 0.8 and len(p["org"]) > 3:
        s.do("iloc", {"i": ALL, "c": ALL, "o": ["slice", 1, NONE, NONE], "d": ALL, "form": 4}, [x], tag)
    else:
        og, dg = p["og"], p["dg"]
        s.load(tag, money(rng, grains=((og, dg),), norg=max(3, len(p["org"]) - ri(rng, 0, 1)), levels=len(p["klab"]), cols=tuple(p["cols"]), nkeys=len(p["keys"])))
    return tag if tag in s.heap else x


def life(rng, hist, kind):
    s = ops.Session("life")
    s.load("t0", money(rng, norg=ri(rng, 3, 4), nkeys=ri(rng, 1, 2), grains=(("Y", "Y"), ("Y", "Y"), ("Q", "Q"), ("Y", "S"))))
    x0 = "t0"
    x1 = other(rng, s, x0, "t1")
    if rng.random() < (0.4 if kind == "dev" else 0.7):
        a, b = developed(rng, s, x0, "d0"), x1
        if a != x0:
            if rng.random() < 0.5:
                s.do("fit", {"x": 0}, ["d", x1], "")
            if s.ev[-1]["got"]["k"] != "err":
                s.do("transform", {"x": 0}, ["d", x1], "d1")
                b = "d1" if "d1" in s.heap else x1
        x0, x1 = a, b
    cls = pick(rng, LIFE[kind])
    pars = [any_par(rng, s, x0, cls) for _ in range(2)]
    w = {}
    if kind == "method" and cls != "Chainladder":
        w = {x0: weight(rng, s, x0, "w0"), x1: weight(rng, s, x1, "w1")}
    if not new(s, cls, pars[0]):
        return s.dump()
    real = {"e": "e", "c": "c", "x0": x0, "x1": x1, "w0": w.get(x0, ""), "w1": w.get(x1, "")}
    for h in hist:
        ins = [y for y in (real.get(z, z) for z in h["in"]) if y]
        if any(y not in s.heap for y in ins):
            continue
        a = {"cls": cls, "par": pars[h["n"] - 1]} if h["op"] == "set" else {"x": 0}
        s.do(h["op"], a, ins, h["out"])
    return s.dump()
