#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; outputs are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None),
                  _t=technique, _n=note))


GVN = "MIR dataflow: gated value numbering (abstract interpretation of value terms) + entailment of obligations over path facts"
exec(open(os.path.join(HERE, "tools", "props.py")).read())

for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
na = {n for n, _ in NA}
m = dict(version=1, setup_cmd="bash setup.sh",
         checks=[dict(property=p["id"], quick_cmd="bash check.sh %s" % p["id"], thorough_cmd="VERIF_TIER=thorough bash check.sh %s" % p["id"],
                      technique=p["_t"] or GVN, level="other", level_note=p["_n"]) for p in sorted(P, key=lambda p: p["id"]) if p["id"] not in na],
         not_applicable=[dict(property=a, reason=b) for a, b in NA])
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
