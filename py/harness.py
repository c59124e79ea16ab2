"""Runs one property: generation, recording, judgement by TLC, evidence, verdict."""
import collections
import hashlib
import json
import os
import random
import sys
import time

import numpy as np

import mbt
import vlib

PROPS = {}


def prop(pid, level="model_checking"):
    def deco(fn):
        PROPS[pid] = fn
        return fn
    return deco


def canon(t):
    return hashlib.md5(json.dumps(t, sort_keys=True).encode()).hexdigest()


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = np.random.default_rng([seed, sum(map(ord, pid))])
        self.dir = os.path.join(vlib.VERIF, "build", "run", pid)
        os.makedirs(self.dir, exist_ok=True)
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        self.replay = os.path.join(vlib.VERIF, "build", "replay")
        os.makedirs(self.replay, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
                    "spec_states_explored": 0, "spec_transitions_explored": 0, "runs": [], "samples": []}
        self.ops = collections.Counter()
        self.distinct = set()
        self.bad = []          # (run, behaviour, event index, op, clauses)
        self.mult = float(os.environ.get("VERIF_SCALE", "8" if tier == "thorough" else "1"))
        self.warmed = False

    def n(self, k):
        return max(4, int(k * self.mult))

    def warm(self):
        if not self.warmed:
            mbt.warm()
            self.warmed = True

    # -- seeded sessions
    def drive(self, name, n, fn, module="Trace", cfg="Trace.cfg"):
        self.warm()
        t0 = time.time()
        base = [self.seed, sum(map(ord, self.pid)) * 1000 + sum(map(ord, name))]

        def one(k):
            return fn(np.random.default_rng(base + [k]))
        path = os.path.join(self.dir, name + ".ndjson")
        nb = mbt.record(self.pid + name, one, range(n), path)
        t1 = time.time()
        self.judge(name, path, nb, module, cfg)
        self.cov["runs"].append({"run": name, "kind": "recorded sessions", "behaviours": nb,
                                 "record_s": round(t1 - t0, 1), "judge_s": round(time.time() - t1, 1)})

    # -- sessions generated by TLC
    def gen(self, bases, menu, depth, sample=1.0, name=None):
        self.warm()
        t0 = time.time()
        if self.tier == "thorough":
            sample = 1.0
        name = name or "gen%d" % len(self.cov["runs"])
        path = os.path.join(self.dir, name + ".ndjson")
        rnd = random.Random(self.seed * 7919 + 13)

        def keep(items):
            return items if sample >= 1 else [x for x in items if rnd.random() < sample]
        nb, st, npaths = mbt.generated(bases, menu, depth, path, keep=keep)
        self.cov["spec_transitions_explored"] += st[0]
        self.cov["spec_states_explored"] += st[1]
        t1 = time.time()
        self.judge(name, path, nb)
        self.cov["runs"].append({"run": name, "kind": "TLC-generated sessions", "menu": menu, "depth": depth,
                                 "spec_transitions": npaths, "behaviours": nb, "sampled": sample,
                                 "record_s": round(t1 - t0, 1), "judge_s": round(time.time() - t1, 1)})

    # -- estimator histories generated by TLC
    def life(self, name, n, kind, depth):
        import drive_est
        self.warm()
        t0 = time.time()
        ops_ = ["fit", "transform", "clone", "set"] + (["predict"] if kind == "method" else [])
        H, st = mbt.histories({"x": ["x0", "x1"], "w": ["w0", "w1"] if kind == "method" else ["", ""], "depth": depth, "ops": ops_})
        if kind == "method":
            H = [h for h in H if not any(e["op"] == "transform" for e in h)]
        self.cov["spec_transitions_explored"] += st[0]
        self.cov["spec_states_explored"] += st[1]
        rng = np.random.default_rng([self.seed, 77])
        sel = [H[i] for i in rng.permutation(len(H))[:n]]
        base = [self.seed, 1000 + sum(map(ord, name))]
        path = os.path.join(self.dir, name + ".ndjson")
        nb = mbt.record(self.pid + name, lambda k: drive_est.life(np.random.default_rng(base + [k]), sel[k], kind), range(len(sel)), path)
        t1 = time.time()
        self.judge(name, path, nb)
        self.cov["runs"].append({"run": name, "kind": "TLC-generated estimator histories", "depth": depth, "histories": len(H),
                                 "behaviours": nb, "record_s": round(t1 - t0, 1), "judge_s": round(time.time() - t1, 1)})

    def judge(self, name, path, nb, module="Trace", cfg="Trace.cfg"):
        bads, ended, st = vlib.validate(path, nb, module, cfg)
        self.cov["transitions"] += st[0] - nb if st[0] >= nb else st[0]
        self.cov["states"] += st[1]
        self.cov["traces_validated_against_impl"] += nb
        badset = {b[0]: b for b in bads}
        with open(path) as f:
            for k, line in enumerate(f, 1):
                beh = json.loads(line)
                self.cov["events_validated"] += len(beh["ev"])
                for e in beh["ev"]:
                    self.ops[e["op"] + ":" + e["got"]["k"]] += 1
                    if e["op"] != "load":
                        self.distinct.add(hashlib.md5((e["op"] + json.dumps(e["a"], sort_keys=True) + json.dumps(e["got"], sort_keys=True)).encode()).digest()[:8])
                if k in badset:
                    self.bad.append((name, beh, badset[k]))
                elif len(self.cov["samples"]) < 3 and len(beh["ev"]) > 2:
                    self.cov["samples"].append({"run": name, "label": beh.get("label", ""), "calls": [
                        {"op": e["op"], "a": e["a"], "in": e["in"], "result": e["got"]["k"]} for e in beh["ev"]][:8]})

    # -- verdict
    def finish(self, t0):
        viol = [(name, beh, l, op, cl) for name, beh, (b, l, op, cl) in self.bad]
        for line in load_known(self.pid):
            print(line)
        shown = 0
        for name, beh, l, op, cl in viol:
            h = canon([name, l, op, cl, beh["ev"][:l]])[:10]
            p = os.path.join(self.replay, "%s-%s.json" % (self.pid, h))
            with open(p, "w") as f:
                json.dump({"property": self.pid, "run": name, "seed": self.seed, "tier": self.tier,
                           "failing_event": l, "operation": op, "clauses": cl, "behaviour": {"label": beh.get("label"), "ev": beh["ev"][:l]}}, f)
            if shown < 8:
                print("VIOLATION property=%s replay=%s  (%s: %s)" % (self.pid, p, op, cl.replace("\\", "")[:160]))
            shown += 1
        self.cov["distinct_results"] = len(self.distinct)
        self.cov["operations"] = dict(sorted(self.ops.items()))
        self.cov["calls_left_open_by_the_specification"] = dict(sorted(vlib.OPEN.items()))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "wall_s": round(time.time() - t0, 1), "violations": len(viol),
              "assumptions": ["values compared at 1e-8 relative tolerance", "a missing cell and a zero cell are identified"]}
        os.makedirs(os.path.join(vlib.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(vlib.VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        print("%s: %d behaviours, %d events, %d distinct results, %d spec states; %d violations; %.1f s" % (
            self.pid, self.cov["traces_validated_against_impl"], self.cov["events_validated"], len(self.distinct),
            self.cov["states"] + self.cov["spec_states_explored"], len(viol), time.time() - t0))
        return 1 if viol else 0


def load_known(pid):
    """Known findings of this property that still fail on the code under test."""
    import probes
    out = []
    with open(os.path.join(vlib.VERIF, "known-findings.json")) as f:
        for k in json.load(f)["findings"]:
            if k["property"] != pid:
                continue
            try:
                still = probes.PROBES[k["probe"]]()
            except Exception:        # the code cannot even run the probe
                still = True
            if still:
                out.append("KNOWN-FINDING: property=%s %s [%s]" % (pid, k["what"], k["input"]))
    return out


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    c = Ctx(pid, tier, seed)
    try:
        PROPS[pid](c)
        rc = c.finish(t0)
    except vlib.Machinery as e:
        print("MACHINERY: " + str(e)[-3000:])
        return 3
    return rc
