#!/usr/bin/env python3
"""show.py <replay.json>: print a recorded counterexample."""
import json
import sys
W = 600
for p in sys.argv[1:]:
    d = json.load(open(p))
    ev = d["behaviour"]["ev"]
    l = d["failing_event"]
    e = ev[l - 1]
    print("==", p.split("/")[-1], d["run"], d["operation"], d["clauses"].replace("\\", ""), "label", d["behaviour"].get("label"))
    heap = {}
    for q in ev[:l - 1]:
        if q["out"]:
            heap[q["out"]] = q["got"].get("t", q["got"])
        for c in q["chg"]:
            heap[c["s"]] = c["t"]
        if q["out"] or q["chg"]:
            print("  ", q["op"], json.dumps(q["a"])[:200], q["in"], "->", q["out"], q["got"]["k"])
    for i in e["in"]:
        h = heap.get(i, {})
        print("  IN", i, {k: v for k, v in h.items() if k != "v"} if "v" in h else str(h)[:W])
        print("     ", json.dumps(h.get("v"))[:W])
    g = e["got"]
    print("  ", e["op"], e["a"])
    if "t" in g:
        print("  GOT", {k: v for k, v in g["t"].items() if k != "v"})
        print("     ", json.dumps(g["t"]["v"])[:W])
    else:
        print("  GOT", str(g)[:W])
    for c in e["chg"]:
        print("  CHG", c["s"], str(c["t"])[:W])
