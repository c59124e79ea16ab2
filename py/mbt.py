"""Both directions of conformance: sessions driven by a seeded driver, and sessions generated by
TLC from the specification (Gen.tla), recorded on the real code and judged by TLC (Trace.tla)."""
import json
import multiprocessing as mp
import os
import tempfile

import numpy as np

import vlib

NPROC = int(os.environ.get("VERIF_PROCS", "8"))
_work = {}


def warm():
    """Load and JIT everything once before forking."""
    import gen
    import ops  # noqa
    rng = np.random.default_rng(0)
    for b in ("numpy", "sparse"):
        t = gen.tri(rng, backend=b, og="Y", dg="Y", norg=4, nkeys=2, cols=("paid", "incurred"))
        t + t
        t.sum("origin")
        t.groupby("Company").sum()
        t.cum_to_incr().dev_to_val().val_to_dev().incr_to_cum()
        t.iloc[0, 0]
        t.latest_diagonal


def _child():
    """A forked worker must not inherit a thread pool whose threads did not survive the fork."""
    try:
        import dask.threaded as dt
        dt.default_pool = None
        dt.pools.clear()
    except Exception:
        pass


def _chunk(args):
    name, items, path = args
    fn = _work[name]
    n = 0
    err = None
    with open(path, "w") as f:
        for it in items:
            try:
                r = fn(it)
            except Exception as e:  # a driver must not fail on its own
                import traceback
                err = "%s on %r: %s" % (name, str(it)[:200], traceback.format_exc()[-1500:])
                break
            for beh in (r if isinstance(r, list) else [r]):
                f.write(json.dumps(beh) + "\n")
                n += 1
    return n, err


def record(name, fn, items, outpath):
    """Run fn(item) -> behaviour(s) over items in forked workers; write ndjson in item order."""
    _work[name] = fn
    items = list(items)
    k = max(1, min(NPROC * 4, len(items)))
    d = tempfile.mkdtemp(prefix="vrec")
    jobs = [(name, items[i::k], os.path.join(d, "p%d" % i)) for i in range(k)]
    with mp.get_context("fork").Pool(min(NPROC, k), initializer=_child) as pool:
        res = pool.map(_chunk, jobs, chunksize=1)
    for _, e in res:
        if e:
            raise vlib.Machinery("driver failed: " + e)
    n = 0
    with open(outpath, "w") as out:
        for j in jobs:
            with open(j[2]) as f:
                for line in f:
                    out.write(line)
                    n += 1
            os.unlink(j[2])
    os.rmdir(d)
    return n


# ---------------------------------------------------------------------- generated sessions
def generate(bases, menu, depth, timeout=600, module="Gen", cfg="Gen.cfg", workers=1):
    """TLC enumerates every call sequence over the menu; returns {(base, prefix): [call]} and stats."""
    import obs
    d = tempfile.mkdtemp(prefix="vgen")
    pb, pm, pd_ = (os.path.join(d, x) for x in ("base", "menu", "depth"))
    with open(pb, "w") as f:
        for t in bases:
            f.write(json.dumps(obs.tri(t)) + "\n")
    with open(pm, "w") as f:
        f.write(json.dumps(list(menu)) + "\n")
    with open(pd_, "w") as f:
        f.write(json.dumps(depth) + "\n")
    out, rc = vlib.tlc(module, cfg, {"GEN_BASE": pb, "GEN_MENU": pm, "GEN_DEPTH": pd_}, workers=workers, timeout=timeout)
    for p in (pb, pm, pd_):
        os.unlink(p)
    os.rmdir(d)
    if "No error has been found" not in out:
        raise vlib.Machinery("Gen failed\n" + vlib.tail(out, 60))
    paths = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"@@T|'):
            b, j = line[5:-1].split("|", 1)
            paths.append((int(b) - 1, json.loads(json.loads('"' + j + '"'))))
    groups = {}
    for b, h in paths:
        groups.setdefault((b, json.dumps(h[:-1])), []).append(h[-1])
    return groups, vlib.stats(out), len(paths)


def replay_group(base, prefix, leaves):
    """Execute a generated prefix, then every generated next call on its result."""
    import ops
    s = ops.Session("gen")
    s.load("base", base)
    s.do("copy", {"how": "m"}, ["base"], "cur")
    for c in prefix:
        s.do(c["op"], c["a"], c["in"], "cur")
        if s.ev[-1]["got"]["k"] != "tri":
            return s.dump()
    for n, c in enumerate(leaves):
        inp = c["in"]
        if c["a"].get("inplace") and c["op"] != "copy":
            s.do("copy", {"how": "m"}, ["cur"], "tmp")
            inp = ["tmp" if x == "cur" else x for x in inp]
        s.do(c["op"], c["a"], inp, "")
    return s.dump()


def generated(bases, menu, depth, outpath, timeout=600, maxleaves=60, backends=("numpy", "sparse"), keep=None):
    groups, st, npaths = generate(bases, menu, depth, timeout)
    items = []
    for (b, pre), leaves in sorted(groups.items()):
        for be in backends:
            for k in range(0, len(leaves), maxleaves):
                items.append((b, be, json.loads(pre), leaves[k:k + maxleaves]))
    tris = {(b, be): bases[b].set_backend(be) for b in range(len(bases)) for be in backends}
    if keep is not None:
        items = keep(items)

    def one(it):
        b, be, pre, leaves = it
        return replay_group(tris[(b, be)].copy(), pre, leaves)
    n = record("generated", one, items, outpath)
    return n, st, npaths


def histories(cfg, timeout=300):
    """Every life-cycle history of Life.tla of the given depth."""
    d = tempfile.mkdtemp(prefix="vlife")
    p = os.path.join(d, "cfg")
    with open(p, "w") as f:
        f.write(json.dumps(cfg) + "\n")
    out, _ = vlib.tlc("Life", "Life.cfg", {"LIFE": p}, workers=1, timeout=timeout)
    os.unlink(p)
    os.rmdir(d)
    if "No error has been found" not in out:
        raise vlib.Machinery("Life failed\n" + vlib.tail(out, 60))
    hs = [json.loads(json.loads('"' + x.strip()[5:])) for x in out.splitlines() if x.strip().startswith('"@@T|')]
    return hs, vlib.stats(out)
