#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from meta.py (texts) and props.py (contract files)."""
import json, os
from meta import M, NA
from props import PROPS
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for i in sorted(M):
        m = M[i]
        assert len(m["title"]) <= 80, (i, len(m["title"]))
        d = dict(id=i, title=m["title"], statement=m["statement"], quantifier=dict(over=m["over"], text=m["text"]), why_tests_cant=m["why"],
                 anchors=dict(files=m["files"], mechanism=[dict(name=a, where=b) for a, b in m["mech"]]))
        if m["observe"]: d["anchors"]["observe_at"] = m["observe"]
        f.write(json.dumps(d) + "\n")
checks = []
for i in sorted(PROPS):
    P = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=P["technique"], level=P["level"], level_note=M[i]["note"] or P["note"]))
for i in M: assert (i in PROPS) != (i in NA), i
for i in PROPS: assert i in M, i
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[dict(property=i, reason=NA[i]) for i in sorted(NA)],
               notes="No hooks are needed: the checks read the sources of /repo as they are."), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
