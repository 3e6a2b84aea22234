#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements stay easy to edit)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=list(over), text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)
S = "src/"; I = "include/"
GENERIC = "The unit tests parse a handful of fixed byte strings recorded from one or two encoders, so most branches of the syntax (and nearly all combinations of flags, counts and truncation points) are never executed."

exec(open(os.path.join(os.path.dirname(__file__), "props_body.py")).read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
