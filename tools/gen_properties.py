#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code so that it is easy to review)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["include/utl/" + f if not f.startswith("src/") else f for f in files],
                     state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties_table.py")).read())
ids=[x["id"] for x in P]
assert len(set(ids))==len(ids)
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P),"properties")
