#!/usr/bin/env python3
# Rebuilds the generated part of DESIGN.md (per-property bounds) from the harness sources, design_text.py and the evidence.
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V + "/tools/design_text.py").read())
ev = sys.argv[1] if len(sys.argv) > 1 else V + "/evidence"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {l.split()[0]: l.split()[1] for l in open(V + "/harness/MAP") if l.strip()}
out = []
for p in props:
    i = p["id"]; out.append(f"### {i} {p['title']}\n")
    if i not in have:
        out.append((NOCHECK.get(i) or "No check has been built yet; listed under `not_applicable` in MANIFEST.json.") + "\n"); continue
    out.append(TEXT[i].strip() + "\n")
    src = open(V + "/harness/" + have[i]).read()
    e = None
    for t in (ev + f"/{i}.json",):
        if os.path.exists(t): e = json.load(open(t))
    spaces = []
    if e: spaces = [(s.get("space"), s.get("what"), s.get("executions"), s.get("distinct_outcomes")) for s in e["coverage"].get("spaces", [])] if isinstance(e["coverage"].get("spaces"), list) else []
    if not spaces:
        spaces = [(a, b, 0, 0) for a, b in re.findall(r'\{ ?"([\w>.,+-]+)", \w+, "((?:[^"\\]|\\.)*)"', src)]
    out.append(f"Enumerated (`harness/{have[i]}`):\n")
    for a, b, n, o in spaces: out.append(f"- **{a}**: {b}" + (f" — {n:,} executions" if n else ""))
    m = re.search(r'\bas\[\] = \{((?:[^}"]|"(?:[^"\\]|\\.)*")*)\}', src)
    if m:
        a = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))
        if a: out.append("\nAssumed: " + "; ".join(a) + ".")
    out.append("")
s = open(V + "/DESIGN.md").read()
b, e2 = "<!-- generated: bounds -->", "<!-- end generated -->"
s = s[:s.index(b) + len(b)] + "\n\n" + "\n".join(out) + "\n" + s[s.index(e2):]
open(V + "/DESIGN.md", "w").write(s)
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"- **{d}** ({m['property']}): {m['what_it_breaks']}. Needs: {m['needs']}.")
b, e2 = "<!-- generated: seeded -->", "<!-- end seeded -->"
s = s[:s.index(b) + len(b)] + "\n\n" + "\n".join(rows) + "\n\n" + s[s.index(e2):]
open(V + "/DESIGN.md", "w").write(s)
