"""Seeded random triangles, built through the public constructor."""
import numpy as np
import pandas as pd
import chainladder as cl
from ops import mstr

GL = {"Y": 12, "S": 6, "Q": 3, "M": 1}
NAMES = ["alpha", "beta", "gamma", "delta", "eps", "zeta"]


def frame(rng, og="Y", dg="Y", norg=4, ndev=None, nkeys=1, levels=1, cols=("paid",), start=None,
          missing=0.1, neg=0.05, cum=True, big=False, dec=False, keylist=None, ragged=0.0, mono=False, zero=0.0, cap=None, netting=0.05):
    """A long table on a month grid: origin start month, valuation month, keys, amounts.
    ndev: number of development periods of the oldest origin; cap: highest age observed."""
    ol, dl = GL[og], GL[dg]
    if start is None:
        start = int(rng.integers(1995, 2012)) * 12
    origins = [start + i * ol for i in range(norg)]
    if ndev is None:
        ndev = norg * ol // dl
    first = start + dl - 1
    vals = [first + i * dl for i in range(ndev)]
    if keylist is None:
        keylist = []
        if levels == 1:
            ks = list(rng.permutation(NAMES))[:nkeys]
            keylist = [(k,) for k in ks]
        else:
            pool = [(a, b) for a in NAMES[:4] for b in NAMES[2:6]]
            if levels == 3:
                pool = [(a, b, c) for a in NAMES[:3] for b in NAMES[2:5] for c in ("x", "y")]
            ix = rng.permutation(len(pool))[:nkeys]
            keylist = [pool[i] for i in ix]
    rows = []
    for k in keylist:
        # an index row may start late or stop early (ragged)
        lo = int(rng.integers(0, 2)) if rng.random() < ragged and norg > 2 else 0
        for o in origins[lo:]:
            acc = {c: 0.0 for c in cols}
            net = rng.random() < netting
            for v in vals:
                if v < o + dl - 1 or (cap and v - o + 1 > cap):
                    continue
                r = {}
                for c in cols:
                    x = float(rng.integers(1, 10**6 if big else 1000))
                    if dec:
                        x = x + float(rng.integers(0, 100)) / 100
                    if rng.random() < neg:
                        x = -x
                    if rng.random() < zero:
                        x = 0.0
                    if not cum and net and v == vals[-1]:
                        x = -acc[c]                  # the origin's amounts cancel out
                    acc[c] += x
                    r[c] = round(acc[c], 2) if cum else x
                if rng.random() < missing and not mono:
                    continue
                rows.append((k, o, v, r))
    return rows, keylist, origins, vals


def to_df(rows, klab, cols):
    d = {kl: [r[0][i] for r in rows] for i, kl in enumerate(klab)}
    d["origin"] = [mstr(r[1]) for r in rows]
    d["valuation"] = [mstr(r[2], True).normalize() for r in rows]
    for c in cols:
        d[c] = [r[3][c] for r in rows]
    return pd.DataFrame(d)


def semi(ms):
    m = sorted({x % 12 for x in ms})
    return len(m) == 2 and m[1] - m[0] == 6


KLAB = ["Company", "Line", "State"]


def tri(rng, backend=None, levels=1, index=True, cols=("paid",), cum=True, og="Y", dg="Y", **kw):
    for k in range(20):
        if k == 9:
            kw.pop("cap", None)
        rows, keylist, origins, vals = frame(rng, levels=levels, cols=cols, cum=cum, og=og, dg=dg, **kw)
        if len(rows) < 3 or len({r[2] for r in rows}) < 2:
            continue
        if (semi({r[1] for r in rows}) and og != "S") or (semi({r[2] for r in rows}) and dg != "S"):
            continue                     # would be read as semi-annual
        if (og == "S" and not semi({r[1] for r in rows})) or (dg == "S" and not semi({r[2] for r in rows})):
            continue                     # would be read as annual
        klab = KLAB[:levels]
        df = to_df(rows, klab, cols)
        t = cl.Triangle(df, origin="origin", development="valuation", columns=list(cols),
                        index=klab if index else None, cumulative=cum)
        if backend:
            t = t.set_backend(backend)
        return t
    raise RuntimeError("no triangle")


def rand_tri(rng, grains=(("Y", "Y"), ("Y", "Q"), ("Q", "Q"), ("Q", "M"), ("M", "M"), ("Y", "M"), ("S", "S"), ("S", "Q"), ("Y", "S")), maxkeys=4,
             maxcols=3, backend=None, cum=None, maxorg=5, **kw):
    og, dg = grains[int(rng.integers(len(grains)))]
    norg = int(rng.integers(2, maxorg + 1))
    ol, dl = GL[og], GL[dg]
    if ol // dl > 4:
        norg = min(norg, 3)
    levels = int(rng.integers(1, 3))
    nkeys = int(rng.integers(1, maxkeys + 1))
    cols = tuple(["paid", "incurred", "count"][: int(rng.integers(1, maxcols + 1))])
    if cum is None:
        cum = bool(rng.random() < 0.6)
    b = backend or ("sparse" if rng.random() < 0.4 else "numpy")
    kw.setdefault("dec", bool(rng.random() < 0.3))
    if "cap" not in kw and norg > 1 and rng.random() < 0.2:        # a band of ages, possibly a full rectangle
        kw["cap"] = ol * int(rng.integers(1, norg + 1))
        kw["ndev"] = (norg + int(rng.integers(0, 3))) * ol // dl
    return tri(rng, backend=b, og=og, dg=dg, norg=norg, nkeys=nkeys, levels=levels, cols=cols, cum=cum, **kw)


def rand_pair(rng, maxorg=4, **kw):
    """Two triangles of one grain whose index rows, columns and origins overlap."""
    og, dg = [("Y", "Y"), ("Y", "Y"), ("Q", "Q"), ("Y", "Q"), ("M", "M")][int(rng.integers(5))]
    start = int(rng.integers(1995, 2012)) * 12
    levels = int(rng.integers(1, 3))
    pool = [(a,) for a in NAMES[:4]] if levels == 1 else [(a, b) for a in NAMES[:2] for b in NAMES[2:5]]
    cols = ["paid", "incurred", "count"]
    same = rng.random()
    out = []
    k0 = [pool[i] for i in rng.permutation(len(pool))[: int(rng.integers(1, 4))]]
    n0 = int(rng.integers(2, maxorg + 1))
    c0 = [cols[i] for i in rng.permutation(3)[: int(rng.integers(1, 4))]]
    for k in range(2):
        keys = list(k0) if k == 0 or same < 0.5 else [pool[i] for i in rng.permutation(len(pool))[: int(rng.integers(1, 4))]]
        if k == 1 and rng.random() < 0.5:
            keys = [keys[i] for i in rng.permutation(len(keys))]
        c = list(c0) if k == 0 or rng.random() < 0.5 else [cols[i] for i in rng.permutation(3)[: int(rng.integers(1, 4))]]
        n = n0 if k == 0 or rng.random() < 0.5 else int(rng.integers(2, maxorg + 1))
        sh = 0 if k == 0 or rng.random() < 0.5 else int(rng.integers(-1, 2))
        if k == 0:
            asof = rng.random() < 0.25
        if asof:                         # one set of axes, two valuation dates
            n, sh = n0, 0
            kw = dict(kw, cap=n0 * GL[og], ndev=(n0 + (0 if k == 0 else int(rng.integers(1, 3)))) * GL[og] // GL[dg])
        out.append(tri(rng, backend="sparse" if rng.random() < 0.4 else "numpy", og=og, dg=dg, norg=n,
                       levels=levels, keylist=keys, cols=tuple(c), start=start + sh * GL[og], cum=True, **kw))
    return out


def vector(rng, t, keys, cols, backend="numpy"):
    """An exposure vector on the origins of t: rows keys (labels of t), columns cols."""
    rows = [[str(x) for x in r] for r in t.index.values.tolist()]
    own = [str(c) for c in t.columns]
    base = t.set_backend("numpy").iloc[[rows.index(list(k)) for k in keys]]
    base = base.iloc[:, [own.index(c) for c in cols]] if cols[0] in own else base.iloc[:, 0]
    w = base.iloc[..., :1].copy() if base.shape[2] == 1 else base.sum("development")
    w.values = rng.integers(500, 6000, size=w.shape).astype(float)
    if cols[0] not in own:
        w.columns = list(cols)
    return w.set_backend(backend)
