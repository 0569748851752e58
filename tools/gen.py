#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from catalog import CLAIMED, NOT_APPLICABLE

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in CLAIMED + NOT_APPLICABLE:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=[p["observe"]], hook_needed=None),
        )) + "\n")

m = dict(
    version=1,
    setup_cmd="python3 engine/facts.py",
    checks=[dict(property=p["id"], quick_cmd="python3 engine/check.py %s quick" % p["id"], thorough_cmd="python3 engine/check.py %s thorough" % p["id"],
                 evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="other", level_note=p["note"]) for p in CLAIMED],
    not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NOT_APPLICABLE],
    notes="All checks share one fact extraction: a rustc driver (driver/) dumps the type-checked MIR of /repo's library crate, cached by the "
          "hash of the source tree under .build/. No hooks are needed in /repo.",
)
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
