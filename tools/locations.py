#!/usr/bin/env python3
"""Writes engine/locations.json: the XML locations and collections that both the writer and the reader of the base tree know.

Run once on the reviewed tree (not by any check): the list is the part of the oracle that says *which* model data is
documented to survive a save/load, so that dropping one side, or both, is visible."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "engine"))
import core
import p_rt
import roundtrip
from roundtrip import Check

s = core.Session()
out = {}
for prop in sorted(p_rt.SPECIAL):
    c = Check(s, core.Report(prop, "quick"), p_rt.sel(prop), {}, p_rt.SPECIAL[prop])
    rt = c.rt
    locs = sorted([k[0], k[1]] for k in rt.W if c.sel(k[0]) and (rt.R.get(k) or rt.Rctl.get(k)) and not str(k[0]).startswith("?") and not str(k[1]).startswith("?"))
    w, r = roundtrip.collections(rt)
    colls = sorted([el, f] for el in w if c.sel(el) and not el.startswith("?") for f in w[el] & r.get(el, set()))
    out[prop] = dict(locs=locs, colls=colls)
    print(prop, len(locs), len(colls))
with open(os.path.join(os.path.dirname(HERE), "engine", "locations.json"), "w") as f:
    json.dump(out, f, indent=0, sort_keys=True)
    f.write("\n")
