#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def p(id, title, statement, over, quant, why, files, mech, tech, note, observe=None, level="exploration"):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None),
        _tech=tech, _note=note, _level=level))

exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
na = {x["property"] for x in NA}
m = dict(version=1, setup_cmd="bash setup.sh",
    checks=[dict(property=x["id"], quick_cmd="bash run.sh %s" % x["id"],
        thorough_cmd="VERIF_TIER=thorough bash run.sh %s thorough" % x["id"],
        technique=x["_tech"], level=x["_level"], level_note=x["_note"]) for x in P if x["id"] not in na],
    not_applicable=NA,
    notes="No hooks in /repo: all monitors work from outside, through exported API, loopback HTTP and processes. /repo carries only fix: commits, listed in known-findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
