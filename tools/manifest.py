#!/usr/bin/env python3
# Regenerates MANIFEST.json from harness/MAP and properties.jsonl.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = {l.split()[0] for l in open(V + "/harness/MAP") if l.strip()}
D = "exhaustive stateless enumeration of programs/operation histories on the real code, each execution compared with a reference model"
TECH = {
 "P21": "explicit-state exploration of all alloc/free histories up to a depth on the real allocator, state-hashed, with a block-set model",
 "P30": "stateless model checking of all thread interleavings up to a preemption bound under a controlled scheduler (pthread functions replaced) on the real code, plus all operation histories up to a depth",
 "P22": "stateless model checking of all thread interleavings up to a preemption bound under a controlled scheduler on the real code",
}
NOTE = {}
DEFN = "Holds for every case of the enumerated bounded space (bounds in DESIGN.md and in the evidence); every model trace is replayed on the compiled library. Trusts the reference model, the C compiler and the host CPU; nothing is claimed beyond the bounds."
NA = {}
try:
    exec(open(V + "/tools/manifest_extra.py").read())
except FileNotFoundError:
    pass
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "technique": TECH.get(i, D), "level": "model_checking", "level_note": NOTE.get(i, DEFN)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "sh tools/setup.sh",
  "hooks": {"guard": "none", "enable": "no hooks are needed: every check builds /repo's sources unmodified and uses the public interface", "source_commits": []},
  "checks": checks, "not_applicable": na,
  "notes": "./check <ID> builds /repo's working tree and the property's harness in a private temporary directory and explores; see DESIGN.md."},
  open(V + "/MANIFEST.json", "w"), indent=1)
