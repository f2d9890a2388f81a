#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (facets read
from the harness' sources), tools/design_tail.md, table of planted bugs."""
import json, os, re, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
os.chdir(root)
props = [json.loads(l) for l in open("properties.jsonl")]
body = json.load(open("tools/design_body.json"))
out = [open("tools/design_head.md").read().rstrip() + "\n"]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n")
    src = open(f"harness/src/props/{i.lower()}.rs").read()
    rows = re.findall(r'facet\(\s*"([^"]+)",\s*"((?:[^"\\]|\\.)*)",\s*Clock::(\w+),\s*([\d_]+),\s*([\d_]+)', src)
    for n, rule, clock, q, t in rows:
        f = lambda s: f"{int(s.replace('_','')):,}"
        out.append(f"* `{n}` ({clock} clock; {f(q)} cases quick, {f(t)} thorough): {rule}")
    try:
        e = json.load(open(f"evidence/{i}.json"))
        cost = f" Quick run: {max(1, round(e['wall_s']))} s." if e.get("tier") == "quick" else ""
    except OSError:
        cost = ""
    out.append("\n" + body[i] + cost + "\n")
out.append(open("tools/design_tail.md").read().rstrip() + "\n")
rows = []
for m in sorted(glob.glob("seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["needs"]))
out.append("| caught by | planted bug | needs |\n|---|---|---|")
for r in sorted(rows):
    out.append("| " + " | ".join(c.replace("|", "/").replace("\n", " ") for c in r) + " |")
open("DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(rows), "bugs")
