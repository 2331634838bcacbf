#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design_*.md, KNOWN_FINDINGS, MANIFEST.json and the records of planted bugs."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda p: open(os.path.join(HERE, p)).read()
out = [rd("tools/design_head.md").rstrip(), "", rd("tools/design_props.md").rstrip(), ""]
out += ["## 4. Not applicable", ""]
for e in json.loads(rd("MANIFEST.json"))["not_applicable"]:
    out.append(f"- **{e['property']}**: {e['reason']}.")
out += ["", "## 5. Findings", "",
        "Genuine defects of the original tree shown by the checks (failing input replayed on the plain code). "
        "Repaired ones are `fix:` commits; recorded ones are listed in KNOWN_FINDINGS and printed as KNOWN-FINDING.", ""]
for l in rd("KNOWN_FINDINGS").splitlines():
    if l.startswith("fixed: "):
        p, c, t = l[7:].split(" ", 2)
        out.append(f"- {p[9:]} fixed in `{c}`: {t}")
    elif l.startswith("known: "):
        p = l[7:].split(" ", 1)[0]
        out.append(f"- **{p[9:]} known finding**: {l.split(' :: ', 1)[1]}")
out += ["", rd("tools/design_tail.md").rstrip(), "", "## 7. Planted bugs", "",
        "Each in `seeded/<id>`; every one builds and passes the stable tests. `check` is the property's quick check run on the "
        "planted tree.", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
res = json.loads(rd("tools/seeded_results.json"))
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.loads(rd(f"seeded/{d}/meta.json"))
    out.append(f"| {d} | {m['property']} | {m['needs']} | {res.get(d, 'not run')} |")
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
