#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md + tables from props.py, the harness headers, the planted bugs and the findings file + design_tail.md."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
from props import P, NA
ent = {}
for f in sorted(glob.glob(V + "/harness/*.cc") + glob.glob(V + "/pyharness/*.py")):
    for l in open(f):
        m = re.match(r"(?://|#) ENTRY:\s*(.*)", l)
        if m:
            parts = [x.strip() for x in m.group(1).split("|")]
            d = dict(x.partition("=")[::2] for x in parts[1:])
            for p in d.get("props", "").split(","):
                ent.setdefault(p, []).append((os.path.relpath(f, V), parts[0], d.get("bounds", ""), d.get("tier", "")))
out = [open(V + "/tools/design_head.md").read().rstrip(), ""]
for p in P:
    out.append(f"### {p['id']} {p['title']}\n")
    out.append("Code: " + ", ".join(f"`{w}`" for _, w in p["mech"]) + f" ({', '.join(os.path.basename(f) for f in p['files'])}).  ")
    out.append(f"Tests cannot settle it: {p['tests']}.\n")
    for f, n, b, t in ent.get(p["id"], []):
        out.append(f"- `{n}` ({f}{', thorough only' if t == 'thorough' else ''}): {b}.")
    out.append("")
out.append("## Planted bugs\n\n| id | property | needs | result |\n|---|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    out.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m.get('result', 'caught by the quick check of ' + m['property'])} |")
out.append("\n## Defects found\n")
for l in open(V + "/known_findings.jsonl"):
    l = l.strip()
    if l.startswith("fixed:"):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        out.append(f"- {m.group(1)}, repaired in {m.group(2)}: {m.group(3)}.")
    elif l.startswith("{"):
        d = json.loads(l)
        out.append(f"- {d['property']}, known finding (not repaired): {d['what']}")
out += ["", open(V + "/tools/design_tail.md").read().rstrip(), ""]
open(V + "/DESIGN.md", "w").write("\n".join(out))
