"""What the specification expected of one recorded behaviour, beside what was observed.
usage: explain.py TRACE.ndjson BEHAVIOUR [ATTRIBUTE]"""
import json
import os
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "py"))
import vlib  # noqa: E402

path, b = sys.argv[1], int(sys.argv[2])
only = sys.argv[3] if len(sys.argv) > 3 else None
line = open(path).read().splitlines()[b - 1]
f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False)
f.write(line + "\n")
f.close()
beh = json.loads(line)
out, _ = vlib.tlc("Trace", "Trace.cfg", {"TRACE": f.name, "EXPLAIN": "1"}, workers=1)
os.unlink(f.name)


def fl(x):
    if isinstance(x, list):
        return [fl(y) for y in x]
    try:
        n, _, d = x.partition("/")
        return float("%.7g" % (int(n) / int(d) if d else float(n)))
    except Exception:
        return x


def far(a, b):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return any(far(x, y) for x, y in zip(a, b))
    try:
        if a == "any":
            return False
        a, b = (0 if x == "nan" else x for x in (a, b))
        return abs(a - b) > 1e-6 * max(1, abs(a), abs(b)) if not isinstance(a, str) else a != b
    except Exception:
        return a != b


def show(name, e, g):
    if not isinstance(e, dict) or not isinstance(g, dict):
        if fl(e) != fl(g):
            print(name, "EXP", fl(e), "GOT", fl(g))
        return
    for k in e:
        if k == "v" and k in g:
            E, G = fl(e["v"]), fl(g["v"])
            if not far(E, G):
                continue
            if not isinstance(E, list) or not E or not isinstance(E[0], list) or not E[0] or not isinstance(E[0][0], list):
                print(name, "EXP", E, "\n     GOT", G)
                continue
            for i in range(len(E)):
                for c in range(len(E[i])):
                    for o in range(len(E[i][c])):
                        try:
                            if far(E[i][c][o], G[i][c][o]):
                                print(name, (i, c, o), "EXP", E[i][c][o], "\n            GOT", G[i][c][o])
                        except IndexError:
                            print(name, "shape", i, c, o)
        elif k in ("t", "e", "at") or isinstance(e[k], dict):
            show(name + "." + k, e[k], g.get(k, {}))
        elif k not in ("tol", "mut", "free", "k", "hp", "par") and e[k] != g.get(k):
            print(name + "." + k, "EXP", str(e[k])[:300], "GOT", str(g.get(k))[:300])


for x in out.splitlines():
    x = x.strip()
    if x.startswith('"'):
        x = json.loads(x)
    if x.startswith("@@BAD"):
        print(x)
    elif x.startswith("@@EXP"):
        _, _, l, j = x.split("|", 3)
        ev = beh["ev"][int(l) - 1]
        print(ev["op"], json.dumps(ev["a"])[:600])
        e, g = json.loads(j), ev["got"]
        if g["k"] == "err":
            print("GOT", g)
        if e["k"] == "est" and g["k"] == "est":
            for n in e["at"]:
                if only is None or n == only:
                    show(n, e["at"][n], g["e"]["at"].get(n, {}))
        else:
            show("result", e, g)
    elif "Error" in x:
        print(x[:400])
