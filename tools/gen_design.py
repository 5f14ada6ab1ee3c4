#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (between the markers)."""
import json, os, sys, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "harness"))
from registry import PROPS
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
out = []
for p in props:
    i = p["id"]
    if i not in PROPS: continue
    q = PROPS[i]
    files = sorted({h["file"] for h in q["harnesses"]})
    env = sorted({e for h in q["harnesses"] for e in h.get("env", [])})
    kind = ["all thread schedules"] if any(h.get("threads") for h in q["harnesses"]) else []
    if any(h.get("io") for h in q["harnesses"]): kind.append("stream model")
    if any(h.get("coro") for h in q["harnesses"]): kind.append("coroutine lowering")
    if env: kind.append("environment replaced by a nondeterministic model: " + ", ".join(e if not e.startswith("_Z") else "steady_clock::now" for e in env))
    ev = os.path.join(R, "evidence", i + ".json")
    out.append(f"### {i} {p['title']}\n")
    out.append(f"- Code: {', '.join(p['anchors']['files'])}. Harness: {', '.join('harness/' + f for f in files)}" + (" (" + "; ".join(kind) + ")" if kind else "") + ".")
    out.append(f"- Quick: {q['bounds']['quick']}.")
    if q['bounds']['thorough'] not in ("the same",): out.append(f"- Thorough: {q['bounds']['thorough']}.")
    if q["outside"] not in ("-", ""): out.append(f"- Outside: {q['outside']}.")
    out.append(f"- Why tests cannot settle it: {p['why_tests_cant']}.")
    out.append("")
per = "\n".join(out)
rows = ["| planted bug | property | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |".replace("\n", " "))
f = os.path.join(R, "DESIGN.md")
s = open(f).read()
for tag, body in (("PROPERTIES", per), ("SEEDS", "\n".join(rows))):
    s = re.sub(rf"(<!-- {tag} -->\n).*?(<!-- /{tag} -->)", lambda m: m[1] + body + "\n" + m[2], s, flags=re.S)
open(f, "w").write(s)
