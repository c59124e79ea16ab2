"""Executes an abstract call (operation name + abstract arguments) on real triangles and
records what came back.  This file translates; it never judges."""
import copy as _copy
import json
import warnings

import numpy as np
import pandas as pd

import chainladder as cl
import obs

warnings.filterwarnings("ignore")
np.seterr(all="ignore")
NONE = 99999
TT = cl.Triangle


def mstr(m, end=False):
    """Month number -> timestamp (start or end of month)."""
    p = pd.Period(year=m // 12, month=m % 12 + 1, freq="M")
    return p.to_timestamp(how="e" if end else "s")


def pyix(e):
    k = e[0]
    if k == "all":
        return slice(None)
    if k == "int":
        return e[1]
    if k == "slice":
        f = lambda x: None if x == NONE else x
        return slice(f(e[1]), f(e[2]), f(e[3]))
    return list(e[1])


REL = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b,
       ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


def origin_period(t, m):
    for p in t.origin:
        if obs.month(p.start_time) == m:
            return p
    raise KeyError(m)


def dev_label(t, m):
    """The label of the development Series at abstract position value m."""
    return t.development.iloc[obs.dev_axis(t).index(m)]


def native(t, tup):
    """Index labels in their native type, from the strings of the projection."""
    for row in t.index.values.tolist():
        if [str(x) for x in row] == list(tup):
            return tuple(str(x) if isinstance(x, str) else x for x in row)
    raise KeyError(tup)


def ncol(t, c):
    for x in t.columns:
        if str(x) == c:
            return x
    return c


def do_loc(t, a, acc):
    def idx(e):
        if e[0] == "all":
            return slice(None)
        if e[0] == "first":
            for row in t.index.values.tolist():
                if str(row[0]) == e[1]:
                    return row[0]
            raise KeyError(e[1])
        if e[0] == "one":
            r = native(t, e[1])
            return r if len(r) > 1 else r[0]
        r = [native(t, x) for x in e[1]]
        return r if len(r[0]) > 1 else [x[0] for x in r]

    def col(e):
        if e[0] == "all":
            return slice(None)
        if e[0] == "one":
            return ncol(t, e[1])
        if e[0] == "range":
            return slice(ncol(t, e[1]), ncol(t, e[2]))
        return [ncol(t, x) for x in e[1]]

    def org(e):
        if e[0] == "all":
            return slice(None)
        if e[0] == "one":
            return origin_period(t, e[1])
        if e[0] == "list":
            return [origin_period(t, x) for x in e[1]]
        f = lambda x: None if x == NONE else origin_period(t, x)
        return slice(f(e[1]), f(e[2]))

    def dev(e):
        if e[0] == "all":
            return slice(None)
        if e[0] == "one":
            return dev_label(t, e[1])
        if e[0] == "list":
            return [dev_label(t, x) for x in e[1]]
        f = lambda x: None if x == NONE else dev_label(t, x)
        return slice(f(e[1]), f(e[2]))

    form = a.get("form", 4)
    key = (idx(a["i"]), col(a["c"]), org(a["o"]), dev(a["d"]))
    if form == 1:
        return acc[key[0]]
    if form == 5:                      # trailing axes through an ellipsis
        return acc[..., key[2], key[3]]
    return acc[key[:form]]


AX = {0: ["index", 0, -4], 1: ["columns", 1, -3], 2: ["origin", 2, -2], 3: ["development", 3, -1]}


def call(op, a, ins):
    t = ins[0] if ins else None
    if op == "copy":
        return {"m": lambda: t.copy(), "c": lambda: _copy.copy(t), "d": lambda: _copy.deepcopy(t)}[a.get("how", "m")]()
    if op == "set_backend":
        return t.set_backend(a["b"], inplace=a["inplace"])
    if op in ("incr_to_cum", "cum_to_incr", "dev_to_val", "val_to_dev"):
        return getattr(t, op)(inplace=True) if a["inplace"] else getattr(t, op)()
    if op == "grain":
        return t.grain("O%sD%s" % (a["og"], a["dg"]), trailing=a["trailing"], inplace=a["inplace"])
    if op == "iloc":
        key = (pyix(a["i"]), pyix(a["c"]), pyix(a["o"]), pyix(a["d"]))
        form = a.get("form", 4)
        if form == 1:
            return t.iloc[key[0]]
        if form == 5:
            return t.iloc[..., key[2], key[3]]
        if form == 6:
            return t.iloc[..., key[3]]
        return t.iloc[key[:form]]
    if op == "loc":
        return do_loc(t, a, t.loc)
    if op == "col":
        cs = [ncol(t, c) for c in a["cols"]]
        return t[cs[0]] if len(cs) == 1 and a.get("scalar") else t[cs]
    if op == "drop":
        cs = [ncol(t, c) for c in a["cols"]]
        return t.drop(cs[0]) if len(cs) == 1 and type(cs[0]) is str else t.drop(cs)
    if op == "mask_origin":
        p = mstr(a["m"])
        rhs = pd.Period(p, freq=t.origin.freq)
        return t[REL[a["rel"]](t.origin, rhs)]
    if op == "mask_dev":
        return t[REL[a["rel"]](t.development, dev_label(t, a["m"]))]
    if op == "mask_val":
        return t[REL[a["rel"]](t.valuation, mstr(a["m"], True))]
    if op == "mask_index":
        s = t.index[a["lab"]].astype(str)
        return t[REL[a["rel"]](s, a["x"])]
    if op == "head":
        return t.head(a["n"])
    if op == "tail":
        return t.tail(a["n"])
    if op == "iat":
        return t.iat[a["i"], a["c"], a["o"], a["d"]]
    if op == "iat_set":
        t.iat[a["i"], a["c"], a["o"], a["d"]] = float(a["x"])
        return t
    if op in ("at", "at_set"):
        r = native(t, a["i"])
        key = (r if len(r) > 1 else r[0], ncol(t, a["c"]), origin_period(t, a["o"]), dev_label(t, a["d"]))
        if op == "at":
            return t.at[key]
        t.at[key] = float(a["x"])
        return t
    if op == "latest_diagonal":
        return t.latest_diagonal
    if op == "dropna":
        return t.dropna()
    if op in ("agg", "agg_default", "cumsum"):
        fn = a.get("fn", "cumsum")
        if op == "agg_default":
            return getattr(t, fn)()
        return getattr(t, fn)(axis=AX[a["ax"]][a.get("spell", 1)])
    if op == "groupby":
        by = a["lab"][0] if len(a["lab"]) == 1 and a.get("scalar") else list(a["lab"])
        return getattr(t.groupby(by), a["fn"])()
    if op == "binop":
        x, y = ins
        return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[a["o"]]()
    if op == "numop":
        x = float(a["x"])
        x = int(x) if x == int(x) else x
        return {"+": lambda: t + x, "-": lambda: t - x, "*": lambda: t * x, "/": lambda: t / x,
                "r-": lambda: x - t, "r/": lambda: x / t}[a["o"]]()
    if op == "unop":
        return {"neg": lambda: -t, "abs": lambda: abs(t)}[a["o"]]()
    if op == "round":
        return t.round(a["n"])
    if op == "ltnum":
        return t < float(a["x"])
    if op == "lenum":
        return t <= float(a["x"])
    if op == "pow":
        return t ** a["n"]
    if op == "eq":
        return t == ins[1]
    if op == "minimum":
        return t.minimum(float(a["x"]))
    if op == "maximum":
        return t.maximum(float(a["x"]))
    if op == "concat":
        return cl.concat(tuple(ins) if a.get("spell", 1) else list(ins), axis=AX[a["ax"]][a.get("spell", 1)])
    if op == "append":
        return t.append(ins[1])
    if op == "rename":
        lab = a["lab"]
        if a["ax"] == 2:
            lab = [pd.Period(mstr(m), freq=t.origin.freq) for m in lab]
        return t.rename(AX[a["ax"]][a.get("spell", 1)], lab)
    if op == "setcol":
        t[ncol(t, a["name"])] = ins[1]
        return t
    if op == "sort_index":
        return t.sort_index()
    if op == "shift":
        return t.shift(a["n"], axis=a["ax"])
    if op == "trend":
        import est
        kw = {k: est.when(a[k], a.get("spell", 0)) for k in ("start", "end") if a[k] != NONE}
        return t.trend(float(a["r"]), axis=a["axis"] if a.get("spell", 0) % 2 == 0 or a["axis"] != "origin" else 2, **kw)
    if op == "link_ratio":
        return t.link_ratio
    if op == "new":
        import est
        return est.build(a["cls"], a["par"])
    if op == "set":
        import est
        return t.set_params(**est.build(a["cls"], a["par"]).get_params(deep=False))
    if op == "clone":
        from sklearn.base import clone
        return clone(t)
    if op == "fit":
        return t.fit(ins[1], sample_weight=ins[2]) if len(ins) > 2 else t.fit(ins[1])
    if op in ("transform", "fit_transform"):
        return getattr(t, op)(ins[1])
    if op in ("predict", "fit_predict"):
        return getattr(t, op)(ins[1], sample_weight=ins[2]) if len(ins) > 2 else getattr(t, op)(ins[1])
    if op in ("pfit", "ppredict", "pfit_transform", "ptransform", "gfit"):
        w = {"sample_weight": ins[2]} if a["w"] else {}
        name = op[1:]
        if op == "gfit" and a["w"]:
            return t.fit(ins[1], sample_weight=ins[2])
        return getattr(t, name)(ins[1], **w)
    if op == "attr":
        return getattr(t, a["name"])
    if op == "construct":
        import frames
        return frames.construct(a)
    if op == "to_frame":
        import frames
        return frames.to_frame(t, a)
    if op == "trip":
        import frames
        return frames.trip(t, a)
    raise KeyError(op)


def is_est(x):
    return hasattr(x, "get_params") and hasattr(x, "fit")


def project(x, desc=None):
    """The abstract value of a heap object: a triangle, with whatever it carries, or an estimator."""
    import est
    if is_est(x):
        return est.project(x, *desc)
    p = obs.tri(x)
    p["at"] = est.read(x, [n for n in est.EXTRA if n in vars(x)] + (["ibnr_", "full_triangle_", "full_expectation_"] if "ultimate_" in vars(x) else []))
    return p


def observe(r):
    if isinstance(r, dict) and "k" in r:        # already projected
        return r
    if isinstance(r, TT):
        return {"k": "tri", "t": obs.tri(r)}
    if isinstance(r, (bool, np.bool_)):
        return {"k": "bool", "b": bool(r)}
    if isinstance(r, (int, float, np.integer, np.floating)):
        return {"k": "num", "x": obs.num(r)}
    if hasattr(r, "shape") and getattr(r, "shape", None) == ():
        v = r.todense() if hasattr(r, "todense") else r
        v = np.asarray(v)
        return {"k": "bool", "b": bool(v)} if v.dtype == bool else {"k": "num", "x": obs.num(v)}
    return {"k": "none", "ty": type(r).__name__}


class Session:
    """Records one behaviour: a heap of named real triangles and the calls made on them."""

    def __init__(self, label=""):
        self.heap = {}
        self.proj = {}
        self.ev = []
        self.label = label
        self.desc = {}          # estimators: class and abstract parameters

    def load(self, slot, tri):
        self.heap[slot] = tri
        p = project(tri)
        self.proj[slot] = json.dumps(p)
        self.ev.append({"op": "load", "a": {"x": 0}, "in": [], "out": slot,
                        "got": {"k": "tri", "t": p}, "chg": []})

    def do(self, op, a, ins, out, fn=None):
        """Run op on the named operands; returns the real result (or None on exception)."""
        objs = [self.heap[s] for s in ins]
        r = None
        try:
            r = (fn or call)(op, a, objs)
            if op == "set":
                self.desc[ins[0]] = (a["cls"], a["par"])
            if is_est(r):
                d = [self.desc[s] for s, x in self.heap.items() if x is r]
                d = d[0] if d else (a["cls"], a["par"]) if op == "new" else self.desc[ins[0]]
                got = {"k": "est", "e": project(r, d)}
            else:
                got = {"k": "tri", "t": project(r)} if isinstance(r, TT) else observe(r)
        except Exception as e:          # noqa: the verdict belongs to the specification
            got = {"k": "err", "e": type(e).__name__, "msg": str(e)[:200]}
        chg = []
        for s, x in list(self.heap.items()):
            try:
                p = project(x, self.desc.get(s))
                j = json.dumps(p)
            except Exception as e:      # an object broken beyond projection
                p, j = {"keys": [], "klab": [], "cols": [], "org": [], "dev": [], "val": False, "cum": "N",
                        "pat": False, "vd": 0, "og": "?", "dg": "?", "v": [["broken"]]}, "broken"
            if j != self.proj[s]:
                self.proj[s] = j
                chg.append({"s": s, "t": p})
        if got["k"] in ("tri", "est") and out:
            alias = any(r is x for x in self.heap.values())
            if not alias:
                self.heap[out] = r
                self.proj[out] = json.dumps(got["t" if got["k"] == "tri" else "e"])
                if got["k"] == "est":
                    self.desc[out] = d
            else:
                out = ""
        else:
            out = ""
        self.ev.append({"op": op, "a": a or {"x": 0}, "in": list(ins), "out": out, "got": got, "chg": chg})
        return r

    def dump(self):
        return {"label": self.label, "ev": self.ev}
