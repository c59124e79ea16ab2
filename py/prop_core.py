"""What each structural property explores: exhaustive generated sessions (TLC on Gen.tla, replayed
on the library) and seeded recorded sessions.  TLC judges every event against Session.tla."""
import numpy as np

import drive
import gen
from harness import prop


def bases(rng, kind="yy", cum=True, **kw):
    if kind == "yy":
        return gen.tri(rng, og="Y", dg="Y", norg=3, nkeys=2, levels=2, cols=("paid", "incurred"), cum=cum, **kw)
    if kind == "yq":
        return gen.tri(rng, og="Y", dg="Q", norg=2, nkeys=1, levels=1, cols=("paid",), cum=cum, **kw)
    if kind == "qq":
        return gen.tri(rng, og="Q", dg="Q", norg=5, nkeys=1, levels=1, cols=("paid",), cum=cum, **kw)
    if kind == "ss":
        return gen.tri(rng, og="S", dg="S", norg=4, nkeys=1, levels=1, cols=("paid",), cum=cum, **kw)
    if kind == "qm":
        return gen.tri(rng, og="Q", dg="M", norg=2, nkeys=1, levels=1, cols=("paid",), cum=cum, **kw)
    if kind == "y3":
        return gen.tri(rng, og="Y", dg="Y", norg=3, nkeys=3, levels=2, cols=("paid",), cum=cum, **kw)
    raise KeyError(kind)


def two(rng, *kinds):
    return [bases(rng, k, cum=c) for k in kinds for c in (True, False)]


def sessions(rng, weights, nops=6, loads=1, **kw):
    return drive.run(rng, weights, nops=nops, loads=loads, **kw)


def W(s, **over):
    w = {}
    for x in s.split():
        n, _, k = x.partition("*")
        w[n] = float(k or 1)
    w.update(over)
    return w


ALLOPS = W("incr_to_cum cum_to_incr dev_to_val val_to_dev grain iloc*2 loc*2 col drop mask_origin mask_dev mask_val*2 "
           "mask_index head tail iat at latest_diagonal dropna agg*2 agg_default groupby numop unop round ltnum lenum pow "
           "eq minimum maximum concat append rename setcol sort_index shift link_ratio binop*2 copy set_backend")


@prop("C02")
def c02(c):
    c.gen([*two(c.rng, "yy", "yq")], ["incr_to_cum", "cum_to_incr", "iloc", "set_backend"], 2)
    c.drive("accum", c.n(500), lambda r: sessions(r, W("incr_to_cum*3 cum_to_incr*3 x_roundtrip*3 iloc latest_diagonal dev_to_val val_to_dev link_ratio binop numop copy")))


@prop("C03")
def c03(c):
    c.gen(two(c.rng, "yy", "qm"), ["dev_to_val", "val_to_dev", "mask_val", "incr_to_cum", "cum_to_incr"], 2)
    c.drive("relabel", c.n(500), lambda r: sessions(r, W("dev_to_val*4 val_to_dev*4 x_roundtrip mask_val iloc cum_to_incr incr_to_cum dropna mask_origin")))


@prop("C04")
def c04(c):
    c.gen(two(c.rng, "yq", "qq", "qm", "ss"), ["grain", "cum_to_incr", "incr_to_cum", "dev_to_val"], 2)
    c.drive("grain", c.n(450), lambda r: sessions(r, W("grain*5 mask_val cum_to_incr incr_to_cum dev_to_val groupby latest_diagonal iloc"), nops=4))


@prop("C05")
def c05(c):
    c.gen([bases(c.rng, "yy"), bases(c.rng, "yq", cum=False)], ["iloc", "loc", "mask_val", "mask_origin", "mask_dev", "mask_index", "col", "head", "tail"], 1)
    c.gen([bases(c.rng, "yy", missing=0.2)], ["iloc", "mask_val", "latest_diagonal", "dropna"], 2, sample=0.5)
    c.drive("slice", c.n(500), lambda r: sessions(r, W("iloc*3 loc*3 col drop mask_origin*2 mask_dev*2 mask_val*3 mask_index head tail iat at latest_diagonal dropna iat_set at_set dev_to_val")))


@prop("C06")
def c06(c):
    c.gen([bases(c.rng, "yy"), bases(c.rng, "y3")], ["binop", "rbinop", "iloc", "numop", "unop", "groupby"], 2, sample=0.4)
    c.drive("pairs", c.n(350), lambda r: sessions(r, W("binop*6 x_asof iloc groupby agg col mask_origin mask_val sort_index numop"), loads="pair", nops=5))
    c.drive("scalar", c.n(150), lambda r: sessions(r, W("numop*3 unop pow round ltnum lenum minimum maximum binop*3 iloc latest_diagonal")))


@prop("C07")
def c07(c):
    c.gen([bases(c.rng, "y3"), bases(c.rng, "yq", cum=False)], ["agg", "agg_default", "groupby", "dev_to_val", "iloc"], 2, sample=0.6)
    c.drive("agg", c.n(500), lambda r: sessions(r, W("agg*4 agg_default*2 groupby*4 iloc mask_val cum_to_incr dev_to_val latest_diagonal")))


@prop("C09")
def c09(c):
    """every call of the API; the clause that matters here is that no other object changes"""
    w = dict(ALLOPS)
    w.update({"iat_set": 2, "at_set": 2, "copy": 3, "setcol": 3, "rename": 2})
    c.gen([bases(c.rng, "yy"), bases(c.rng, "yq", cum=False)], ["copy", "set_backend", "cum_to_incr", "incr_to_cum", "dev_to_val", "binop", "concat",
                                           "append", "groupby", "iloc", "mask_val", "latest_diagonal"], 1)
    c.drive("alias", c.n(300), lambda r: sessions(r, w, nops=8))
    c.drive("aliaspair", c.n(150), lambda r: sessions(r, w, nops=7, loads="pair"))


@prop("C11")
def c11(c):
    c.gen([bases(c.rng, "yy"), bases(c.rng, "y3")], ["iloc", "concat", "append", "mask_origin", "mask_dev"], 2, sample=0.5)
    c.drive("split", c.n(300), lambda r: sessions(r, W("x_split*5 x_asof rename sort_index shift setcol append concat col drop dropna"), nops=4))
    c.drive("pairs", c.n(200), lambda r: sessions(r, W("x_split*2 append*2 concat*2 setcol*3 rename sort_index binop"), loads="pair", nops=5))
