"""Seeded drivers for composite estimators: pipelines, grid searches, voting; judge nothing."""
import itertools

import numpy as np

import ops
from drive import P, pick, ri
from drive_est import dev_par, method_par, money, new, shape, tail_par, weight


def steps_for(rng, s, x):
    """names, classes and parameters of a pipeline"""
    st = []
    if rng.random() < 0.8:
        st.append({"n": "dev", "cls": "Development", "par": dev_par(rng, s, x, plain=rng.random() < 0.6)})
    if rng.random() < 0.5:
        c = pick(rng, ["TailConstant", "TailCurve"])
        st.append({"n": "tail", "cls": c, "par": tail_par(rng, s, x, c)})
    if rng.random() < 0.8 or not st:
        c = pick(rng, ["Chainladder", "BornhuetterFerguson", "Benktander", "ExpectedLoss", "CapeCod", "MackChainladder"])
        st.append({"n": "model", "cls": c, "par": method_par(rng, c)})
    return st


EXPO = ("BornhuetterFerguson", "Benktander", "ExpectedLoss", "CapeCod")


def by_hand(s, st, x, w, tag):
    """the steps fitted one after another; the last estimator stays in `tag`, the triangle before it is returned"""
    for k, q in enumerate(st):
        e = "%s%d" % (tag, k)
        if not new(s, q["cls"], q["par"], e):
            return None
        last = k == len(st) - 1
        if s.do("fit", {"x": 0}, [e, x] + ([w] if last and w and q["cls"] in EXPO else []), "") is None:
            return None
        if not last:
            s.do("transform", {"x": 0}, [e, x], e + "t")
            if e + "t" not in s.heap:
                return None
            x = e + "t"
    return x, e


def c19(rng):
    s = ops.Session("flow")
    s.load("t0", money(rng))
    x = shape(rng, s, "t0", "x0")
    st = steps_for(rng, s, x)
    w = weight(rng, s, x) if st[-1]["cls"] in EXPO else None
    if rng.random() < 0.6:
        h = by_hand(s, st, x, w, "h")
        if h is None:
            return s.dump()
        before, m = h
        if not new(s, "Pipeline", {"steps": st}, "p"):
            return s.dump()
        ww = [w] if w else []
        transforms = st[-1]["cls"] not in EXPO + ("Chainladder", "MackChainladder")
        if transforms and rng.random() < 0.4:
            s.do("transform", {"x": 0}, [m, before], "yt")
            if "yt" in s.heap:
                s.do("pfit_transform", {"w": False}, ["p", x, "yt"], "zt")
            return s.dump()
        s.do("pfit", {"w": bool(w)}, ["p", x] + ww + [m], "")
        if rng.random() < 0.3:
            s.do("trip", {"how": "json", "spell": 0}, ["p"], "")
        if rng.random() < 0.6:
            x2 = x
            if rng.random() < 0.5:
                s.do("numop", {"o": "*", "x": pick(rng, ["2", "0.5"])}, [x], "x2")
                x2 = "x2"
            y = x2
            for k in range(len(st) - 1):
                s.do("transform", {"x": 0}, ["h%d" % k, y], "y%d" % k)
                y = "y%d" % k
                if y not in s.heap:
                    return s.dump()
            op = "transform" if transforms else "predict"
            if op == "transform":
                s.do("transform", {"x": 0}, [m, y], "yy")
            else:
                s.do("predict", {"x": 0}, [m, y] + ww, "yy")
            if "yy" in s.heap:
                s.do("p" + op, {"w": bool(w) and op == "predict"}, ["p", x2] + (ww if op == "predict" else []) + ["yy"], "zz")
        return s.dump()
    # a grid over a method, or over the steps of a pipeline
    if st[-1]["cls"] not in EXPO[:3]:
        st = [q for q in st if q["n"] != "model"] + [{"n": "model", "cls": "Benktander", "par": method_par(rng, "Benktander")}]
        w = w or weight(rng, s, x)
    grid = []
    pipe = len(st) > 1
    pre = "model__" if pipe else ""
    if st[-1]["cls"] == "Benktander" and rng.random() < 0.7:
        grid.append({"n": pre + "n_iters", "v": [str(v) for v in rng.permutation(4)[: ri(rng, 1, 3)]], "s": len(st) - 1, "k": "n"})
    if rng.random() < 0.6 or not grid:
        grid.append({"n": pre + "apriori", "v": [str(v) for v in rng.permutation(["0.5", "0.8", "1.2"])[: ri(rng, 1, 2)]], "s": len(st) - 1, "k": "ap"})
    if st[0]["n"] == "dev" and rng.random() < 0.7:
        grid.append({"n": "dev__average", "v": [str(v) for v in rng.permutation(["volume", "simple", "regression"])[: ri(rng, 1, 3)]], "s": 0, "k": "avg"})
    grid = [grid[k] for k in rng.permutation(len(grid))]
    combos = [list(c) for c in itertools.product(*[g["v"] for g in grid])]
    ms = []
    for j, cmb in enumerate(combos):
        st2 = [dict(q, par=dict(q["par"])) for q in st]
        for g, v in zip(grid, cmb):
            st2[g["s"]]["par"][g["k"]] = [v] if g["k"] == "avg" else int(v) if g["k"] == "n" else v
        h = by_hand(s, st2, x, w, "h%d_" % j)
        if h is None:
            return s.dump()
        ms.append(h[1])
    base = {"cls": "Pipeline", "par": {"steps": st}} if pipe else {"cls": st[0]["cls"], "par": st[0]["par"]}
    par = {"base": base, "grid": [{"n": g["n"], "v": g["v"]} for g in grid], "score": ["ult", "ibnr"][: ri(rng, 1, 2)], "aslist": bool(rng.random() < 0.3)}
    if new(s, "GridSearch", par, "g"):
        s.do("gfit", {"w": True, "n": 4, "combos": combos}, ["g", x, w] + ms, "")
    return s.dump()


def c20(rng):
    s = ops.Session("voting")
    s.load("t0", money(rng, cum=True, **({"nkeys": ri(rng, 2, 4)} if rng.random() < 0.4 else {})))
    x = shape(rng, s, "t0", "x0")
    from drive_est import developed, tailed
    if rng.random() < 0.6:
        x = developed(rng, s, x)
    if rng.random() < 0.3:
        x = tailed(rng, s, x)
    n = ri(rng, 2, 4)
    mem = []
    for k in range(n):
        c = pick(rng, ["Chainladder", "BornhuetterFerguson", "Benktander", "ExpectedLoss", "CapeCod"])
        mem.append({"n": "m%d" % k, "cls": c, "par": method_par(rng, c)})
    if rng.random() < 0.15:
        mem[ri(rng, 0, n - 1)] = {"n": "out", "cls": "drop", "par": {"x": 0}}
    p = P(s, x)
    wt = lambda: [pick(rng, ["0", "1", "2", "0.5", "0.25"]) for _ in range(n - 1)] + [pick(rng, ["1", "3", "0.5"])]
    I, C, O = len(p["keys"]), len(p["cols"]), len(p["org"])
    form = pick(rng, ["none", "origin", "origin", "dict", "column", "index"])
    if form == "dict" and p["og"] == "S":
        form = "origin"
    w = {"none": lambda: [], "origin": lambda: [wt() for _ in range(O)],
         "dict": lambda: [{"o": o, "w": wt()} for o in p["org"] if rng.random() < 0.5] or [{"o": p["org"][0], "w": wt()}],
         "column": lambda: [[wt() for _ in range(O)] for _ in range(C)],
         "index": lambda: [[[wt() for _ in range(O)] for _ in range(C)] for _ in range(I)]}[form]()
    par = {"members": mem, "form": form, "w": w, "def": wt() if rng.random() < 0.4 else [], "og": p["og"], "org": p["org"],
           "aslist": bool(rng.random() < 0.3), "call": bool(rng.random() < 0.3)}
    need = any(m["cls"] in EXPO for m in mem)
    ins = [weight(rng, s, x)] if need and rng.random() < 0.97 else []
    if new(s, "VotingChainladder", par):
        s.do("fit", {"x": 0}, ["e", x] + ins, "")
        if rng.random() < 0.3:
            s.do("numop", {"o": "*", "x": "2"}, [x], "x2")
            s.do("fit", {"x": 0}, ["e", "x2"] + ins, "")
    return s.dump()
