#!/usr/bin/env python3
"""Writes verus/shapes.json: the loops of every function with loops and the closures under contract, as they are in the tree
the invariants and contracts were written for. Run it by hand whenever the invariants are adapted to other loops; no check runs it."""
import json, os, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import deductive as d
if len(sys.argv) > 1:
    d.SRC = sys.argv[1]
out = {}
with tempfile.TemporaryDirectory() as w:
    for u in d.UNITS:
        x = d.Unit(u, w, "quick")
        rc, o, e = x.extract()
        assert rc == 0, (u, o, e)
        for f in json.load(open(x.rs[:-3] + ".json")):
            for r in f["rewrites"]:
                if r.startswith("loops: "):
                    out[f["fn"]] = r[7:]
                if r.startswith("closure bodies: "):
                    out["closures of " + f["fn"]] = r[16:]
json.dump(out, open(os.path.join(d.OV, "shapes.json"), "w"), indent=1, sort_keys=True)
