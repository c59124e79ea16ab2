"""Seeded random drivers over the triangle API.  Each chooser picks arguments for one call from
the abstract state of the operands; whether the outcome is right is decided by the specification."""
import json

import numpy as np

import gen
import ops
from ops import NONE


def P(s, slot):
    return json.loads(s.proj[slot])


def ri(rng, lo, hi):
    """integer in [lo, hi]"""
    return int(rng.integers(lo, hi + 1))


def pick(rng, seq):
    return seq[int(rng.integers(len(seq)))]


def c_incr_to_cum(rng, s, x):
    return {"inplace": bool(rng.random() < 0.15)}, [x]


c_cum_to_incr = c_incr_to_cum


def c_dev_to_val(rng, s, x):
    return {"inplace": bool(rng.random() < 0.15)}, [x]


c_val_to_dev = c_dev_to_val


def c_copy(rng, s, x):
    return {"how": pick(rng, ["m", "d"])}, [x]


def c_set_backend(rng, s, x):
    return {"b": pick(rng, ["numpy", "sparse"]), "inplace": bool(rng.random() < 0.3)}, [x]


def c_grain(rng, s, x):
    p = P(s, x)
    if p["pat"] or p["cum"] == "N":
        return None
    g = pick(rng, ["YY", "YS", "YQ", "YM", "SS", "SQ", "SM", "QQ", "QM", "MM"])
    t = s.heap[x]
    # close of the fiscal year the origin axis follows (months close nothing)
    cm = 12
    if p["og"] != "M":
        cm = 1 + ["JAN", "FEB", "MAR", "APR", "MAY", "JUN", "JUL", "AUG", "SEP", "OCT", "NOV", "DEC"].index(t.origin.freqstr[-3:])
    return {"og": g[0], "dg": g[1], "trailing": bool(rng.random() < 0.3), "inplace": bool(rng.random() < 0.1), "cm": cm}, [x]


def pyexpr(rng, n, contig=True, neg=True):
    """random python index expression on an axis of length n, never empty"""
    k = rng.random()
    if k < 0.25:
        return ["all"]
    if k < 0.5:
        i = ri(rng, 0, n - 1)
        return ["int", i - n if rng.random() < 0.4 else i]
    if k < 0.85 or contig:
        a = ri(rng, 0, n - 1)
        b = ri(rng, a + 1, n)
        st = 1 if rng.random() < 0.8 else ri(rng, 1, 3)
        lo = NONE if (a == 0 and rng.random() < 0.6) else (a - n if rng.random() < 0.3 else a)
        hi = NONE if (b == n) else (b - n if rng.random() < 0.3 else b)
        return ["slice", lo, hi, NONE if st == 1 else st]
    m = ri(rng, 1, n)
    return ["list", [int(q) for q in rng.permutation(n)[:m]]]


def c_iloc(rng, s, x):
    p = P(s, x)
    n = [len(p["keys"]), len(p["cols"]), len(p["org"]), len(p["dev"])]
    form = pick(rng, [1, 2, 3, 4, 4, 4, 5, 6])
    e = [pyexpr(rng, n[0], False), pyexpr(rng, n[1], False), pyexpr(rng, n[2]), pyexpr(rng, n[3])]
    on = {1: [0], 2: [0, 1], 3: [0, 1, 2], 4: [0, 1, 2, 3], 5: [2, 3], 6: [3]}[form]
    e = [e[k] if k in on else ["all"] for k in range(4)]
    return {"i": e[0], "c": e[1], "o": e[2], "d": e[3], "form": form}, [x]


def labexpr(rng, seq, lists=False):
    k = rng.random()
    if k < 0.3:
        return ["all"]
    if k < 0.55:
        return ["one", pick(rng, seq)]
    if lists and k < 0.7:
        m = ri(rng, 1, len(seq))
        a = ri(rng, 0, len(seq) - m)
        return ["list", seq[a:a + m]]
    a = ri(rng, 0, len(seq) - 1)
    b = ri(rng, a, len(seq) - 1)
    return ["range", seq[a] if rng.random() < 0.7 else NONE, seq[b] if rng.random() < 0.7 else NONE]


def c_loc(rng, s, x):
    p = P(s, x)
    if p["pat"] or p["org"] == [-1]:
        return None
    k = rng.random()
    keys = p["keys"]
    if k < 0.3:
        i = ["all"]
    elif k < 0.5:
        i = ["first", pick(rng, keys)[0]]
        if len(p["klab"]) == 1 and rng.random() < 0.5:
            i = ["one", pick(rng, keys)]
    elif k < 0.75:
        i = ["one", pick(rng, keys)]
        if len(p["klab"]) == 1:
            i = ["first", i[1][0]]
    else:
        m = ri(rng, 1, len(keys))
        i = ["list", [keys[q] for q in rng.permutation(len(keys))[:m]]]
    form = pick(rng, [1, 2, 3, 4, 4, 4, 5])
    c = labexpr(rng, p["cols"])
    if c[0] == "range":
        if rng.random() < 0.5:
            m = ri(rng, 1, len(p["cols"]))
            c = ["list", [p["cols"][q] for q in rng.permutation(len(p["cols"]))[:m]]]
        else:
            a = ri(rng, 0, len(p["cols"]) - 1)
            b = ri(rng, a, len(p["cols"]) - 1)
            c = ["range", p["cols"][a], p["cols"][b]]
    e = [i, c, labexpr(rng, p["org"]), labexpr(rng, p["dev"])]
    on = {1: [0], 2: [0, 1], 3: [0, 1, 2], 4: [0, 1, 2, 3], 5: [2, 3]}[form]
    e = [e[k] if k in on else ["all"] for k in range(4)]
    return {"i": e[0], "c": e[1], "o": e[2], "d": e[3], "form": form}, [x]


def c_col(rng, s, x):
    p = P(s, x)
    m = ri(rng, 1, len(p["cols"]))
    cs = [p["cols"][q] for q in rng.permutation(len(p["cols"]))[:m]]
    return {"cols": cs, "scalar": bool(rng.random() < 0.6)}, [x]


def c_drop(rng, s, x):
    p = P(s, x)
    if len(p["cols"]) < 2:
        return None
    m = ri(rng, 1, len(p["cols"]) - 1)
    return {"cols": [p["cols"][q] for q in rng.permutation(len(p["cols"]))[:m]]}, [x]


RELS = ["<", "<=", ">", ">=", "=="]


def c_mask_origin(rng, s, x):
    p = P(s, x)
    if p["pat"] or len(p["org"]) == len(p["keys"]) * 10**6:
        return None
    return {"rel": pick(rng, RELS), "m": pick(rng, p["org"])}, [x]


def c_mask_dev(rng, s, x):
    p = P(s, x)
    if p["pat"]:
        return None
    return {"rel": pick(rng, RELS), "m": pick(rng, p["dev"])}, [x]


def c_mask_val(rng, s, x):
    p = P(s, x)
    if p["pat"] or p["org"] == [-1] or len(p["dev"]) == 1:
        return None
    vals = sorted({d if p["val"] else (27143 if d == 9999 else o + d - 1) for o in p["org"] for d in p["dev"]})
    return {"rel": pick(rng, RELS + ["<", "<="]), "m": pick(rng, vals)}, [x]


def c_mask_index(rng, s, x):
    p = P(s, x)
    k = ri(rng, 0, len(p["klab"]) - 1)
    return {"lab": p["klab"][k], "x": pick(rng, p["keys"])[k], "rel": pick(rng, ["==", "!="])}, [x]


def c_head(rng, s, x):
    return {"n": ri(rng, 1, 4)}, [x]


c_tail = c_head


def c_iat(rng, s, x):
    p = P(s, x)
    z = []
    for ax in ("keys", "cols", "org", "dev"):
        n = len(p[ax])
        i = ri(rng, 0, n - 1)
        z.append(i - n if rng.random() < 0.3 else i)
    return {"i": z[0], "c": z[1], "o": z[2], "d": z[3]}, [x]


def c_at(rng, s, x):
    p = P(s, x)
    if p["org"] == [-1] or p["pat"]:
        return None
    return {"i": pick(rng, p["keys"]), "c": pick(rng, p["cols"]), "o": pick(rng, p["org"]), "d": pick(rng, p["dev"])}, [x]


def visible(p, o, d):
    v = p["dev"][d] if p["val"] else (27143 if p["dev"][d] == 9999 else p["org"][o] + p["dev"][d] - 1)
    return v <= p["vd"]


def c_iat_set(rng, s, x):
    r = c_iat(rng, s, x)
    p = P(s, x)
    if not visible(p, r[0]["o"], r[0]["d"]):
        return None
    r[0]["x"] = str(ri(rng, 1, 900))
    return r


def c_at_set(rng, s, x):
    r = c_at(rng, s, x)
    p = P(s, x)
    if not r or not visible(p, p["org"].index(r[0]["o"]), p["dev"].index(r[0]["d"])):
        return None
    r[0]["x"] = str(-ri(rng, 1, 900))
    return r


def c_none(rng, s, x):
    return {"x": 0}, [x]


c_latest_diagonal = c_dropna = c_sort_index = c_none


def c_link_ratio(rng, s, x):
    p = P(s, x)
    if p["pat"] or p["cum"] != "T" or len(p["dev"]) < 3 or p["val"]:
        return None
    return {"x": 0}, [x]


def c_agg(rng, s, x):
    fns = ["sum", "sum", "mean", "max", "min"]
    if s.heap[x].array_backend == "numpy":
        fns += ["median", "prod", "var", "std"]
    return {"fn": pick(rng, fns), "ax": ri(rng, 0, 3), "spell": ri(rng, 0, 2)}, [x]


def c_agg_default(rng, s, x):
    return {"fn": pick(rng, ["sum", "mean", "max"])}, [x]


def c_cumsum(rng, s, x):
    return {"ax": ri(rng, 0, 3), "spell": 1}, [x]


def c_groupby(rng, s, x):
    p = P(s, x)
    n = len(p["klab"])
    m = ri(rng, 1, n)
    lab = [p["klab"][q] for q in rng.permutation(n)[:m]]
    return {"lab": lab, "fn": pick(rng, ["sum", "sum", "mean", "max", "min"]), "scalar": bool(rng.random() < 0.5)}, [x]


def c_binop(rng, s, x):
    y = pick(rng, list(s.heap))
    p, q = P(s, x), P(s, y)
    if p["pat"] != q["pat"] or p["org"] == [-1] or q["org"] == [-1]:
        return None
    if p["val"] != q["val"] and min(len(p["dev"]), len(q["dev"])) > 1:
        return None
    return {"o": pick(rng, ["+", "-", "*", "/"])}, [x, y]


def c_numop(rng, s, x):
    o = pick(rng, ["+", "-", "*", "/", "r-", "r/"])
    v = pick(rng, ["2", "0.5", "3", "10", "1.25", "-1"])
    return {"o": o, "x": v}, [x]


def c_unop(rng, s, x):
    return {"o": pick(rng, ["neg", "abs"])}, [x]


def c_round(rng, s, x):
    return {"n": ri(rng, 0, 2)}, [x]


def c_ltnum(rng, s, x):
    p = P(s, x)
    vals = [w for i in p["v"] for c in i for o in c for w in o if w != "0"] or ["1"]
    return {"x": pick(rng, vals)}, [x]


c_lenum = c_minimum = c_maximum = c_ltnum


def c_pow(rng, s, x):
    return {"n": ri(rng, 1, 3)}, [x]


def c_eq(rng, s, x):
    y = pick(rng, list(s.heap))
    p, q = P(s, x), P(s, y)
    if [len(p[k]) for k in ("keys", "cols", "org", "dev")] != [len(q[k]) for k in ("keys", "cols", "org", "dev")]:
        return None
    return {"x": 0}, [x, y]


def c_concat(rng, s, x):
    ys = [pick(rng, list(s.heap)) for _ in range(1 if rng.random() < 0.6 else 2)]
    return {"ax": ri(rng, 0, 3), "spell": ri(rng, 0, 1)}, [x] + ys


def c_append(rng, s, x):
    return {"x": 0}, [x, pick(rng, list(s.heap))]


def c_rename(rng, s, x):
    p = P(s, x)
    return {"ax": 1, "lab": ["r%d_%d" % (ri(rng, 0, 99), k) for k in range(len(p["cols"]))], "spell": ri(rng, 0, 1)}, [x]


def c_setcol(rng, s, x):
    p = P(s, x)
    c = []
    for y in s.heap:
        q = P(s, y)
        if y != x and len(q["cols"]) == 1 and all(q[k] == p[k] for k in ("keys", "org", "dev", "val")):
            c.append(y)
    if not c:
        return None
    return {"name": pick(rng, p["cols"] + ["new", "new2"])}, [x, pick(rng, c)]


def c_shift(rng, s, x):
    p = P(s, x)
    ax = ri(rng, 2, 3)
    n = len(p["org"] if ax == 2 else p["dev"])
    if n < 3 or p["pat"]:
        return None
    return {"n": pick(rng, [k for k in (-2, -1, 1, 2) if abs(k) < n]), "ax": ax}, [x]


def x_split(rng, s, x, tag):
    """split along an axis and put the pieces back together (in either order)"""
    p = P(s, x)
    n = [len(p[k]) for k in ("keys", "cols", "org", "dev")]
    axs = [k for k in range(4) if n[k] > 1]
    if not axs or p["org"] == [-1]:
        return
    ax = pick(rng, axs)
    k = ri(rng, 1, n[ax] - 1)
    e = [["all"]] * 4
    names = ["i", "c", "o", "d"]
    if n[ax] > 2 and rng.random() < 0.4:         # three or more pieces, put together in any order
        cuts = sorted({0, n[ax]} | {ri(rng, 1, n[ax] - 1) for _ in range(3)})
        parts = []
        for q in range(len(cuts) - 1):
            f = list(e)
            f[ax] = ["slice", cuts[q], cuts[q + 1], NONE]
            s.do("iloc", dict(zip(names, f), form=4), [x], tag + "p%d" % q)
            if tag + "p%d" % q in s.heap:
                parts.append(tag + "p%d" % q)
        if len(parts) < 2:
            return
        if ax < 2 and rng.random() < 0.5:
            parts = [parts[q] for q in rng.permutation(len(parts))]
        s.do("concat", {"ax": ax, "spell": ri(rng, 0, 1)}, parts, tag + "d")
        return
    a, b = tag + "a", tag + "b"
    for slot, ix in ((a, ["slice", NONE, k, NONE]), (b, ["slice", k, NONE, NONE])):
        f = list(e)
        f[ax] = ix
        s.do("iloc", dict(zip(names, f), form=4), [x], slot)
    if a not in s.heap or b not in s.heap:
        return
    if ax == 0 and rng.random() < 0.5 and len(p["cols"]) > 1:
        cs = [p["cols"][q] for q in rng.permutation(len(p["cols"]))[: ri(rng, 1, len(p["cols"]))]]
        s.do("col", {"cols": cs, "scalar": False}, [b], tag + "c")
        b = tag + "c"
    if ax == 0 and rng.random() < 0.5:
        s.do("append", {"x": 0}, [a, b], tag + "d")
    elif ax != 1 or rng.random() < 0.5:
        s.do("concat", {"ax": ax, "spell": ri(rng, 0, 2)}, [a, b], tag + "d")
    else:
        s.do("concat", {"ax": ax, "spell": 0}, [b, a], tag + "d")


def x_asof(rng, s, x, tag):
    """one block of known cells seen at several valuation dates: pieces put together in any order"""
    og, dg = [("Y", "Y"), ("Q", "Q"), ("S", "S")][ri(rng, 0, 2)]
    n, m = ri(rng, 2, 3), ri(rng, 3, 4)
    t = gen.tri(rng, backend="sparse" if rng.random() < 0.4 else "numpy", og=og, dg=dg, norg=2 * n - 1, nkeys=m,
                cols=("paid", "incurred")[: ri(rng, 1, 2)], cum=bool(rng.random() < 0.7), missing=0)
    s.load(tag + "t", t)
    p = P(s, tag + "t")
    parts = []
    for k in range(m):
        s.do("iloc", {"i": ["slice", k, k + 1, NONE], "c": ["all"], "o": ["slice", NONE, n, NONE], "d": ["slice", NONE, n, NONE], "form": 4}, [tag + "t"], tag + "b%d" % k)
        v = p["org"][0] + (n + ri(rng, 0, n - 1)) * gen.GL[og] - 1
        if tag + "b%d" % k in s.heap:
            s.do("mask_val", {"rel": "<=", "m": v}, [tag + "b%d" % k], tag + "p%d" % k)
        if tag + "p%d" % k in s.heap:
            parts.append(tag + "p%d" % k)
    if len(parts) > 1:
        s.do("concat", {"ax": 0, "spell": ri(rng, 0, 1)}, parts, tag + "d")
        s.do("binop", {"o": pick(rng, ["+", "-", "*"])}, parts[:2], tag + "f")
    if tag + "d" in s.heap:
        s.do("latest_diagonal", {"x": 0}, [tag + "d"], tag + "e")


def x_roundtrip(rng, s, x, tag):
    """a there-and-back pair of calls"""
    p = P(s, x)
    if p["pat"] or p["cum"] == "N":
        return
    pair = pick(rng, [("cum_to_incr", "incr_to_cum"), ("incr_to_cum", "cum_to_incr"), ("dev_to_val", "val_to_dev"),
                      ("copy", "copy")])
    s.do(pair[0], {"inplace": False} if pair[0] != "copy" else {"how": "m"}, [x], tag + "a")
    if tag + "a" in s.heap:
        s.do(pair[1], {"inplace": False} if pair[0] != "copy" else {"how": "m"}, [tag + "a"], tag + "b")
        if tag + "b" in s.heap:
            q = P(s, tag + "b")
            if [len(q[k]) for k in ("keys", "cols", "org", "dev")] == [len(p[k]) for k in ("keys", "cols", "org", "dev")]:
                s.do("eq", {"x": 0}, [x, tag + "b"], "")


# results that hold booleans or explicit zeros (the projection identifies zero and missing,
# the library mostly but not always does) are judged but not operated on further
NOSTORE = {"ltnum", "lenum", "pow", "round", "minimum", "maximum", "shift"}


def run(rng, weights, nops=6, loads=1, label="", keep=7, base=None, pre=None):
    """One behaviour: `loads` random triangles, then nops weighted random calls."""
    s = ops.Session(label)
    if loads == "pair":
        for k, t in enumerate(gen.rand_pair(rng)):
            s.load("t%d" % k, t)
    else:
        for k in range(loads):
            s.load("t%d" % k, (base or gen.rand_tri)(rng))
    if pre:
        pre(rng, s)
    names = list(weights)
    w = np.array([weights[n] for n in names], float)
    w /= w.sum()
    n = 0
    tries = 0
    while n < nops and tries < nops * 8:
        tries += 1
        op = names[int(rng.choice(len(names), p=w))]
        x = pick(rng, list(s.heap))
        if op.startswith("x_"):
            globals()[op](rng, s, x, "s%d" % n)
            n += 1
            continue
        r = globals()["c_" + op](rng, s, x)
        if r is None:
            continue
        a, ins = r
        out = "" if op in NOSTORE else "x%d" % n
        s.do(op, a, ins, out)
        n += 1
    return s.dump()
