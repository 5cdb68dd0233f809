#!/usr/bin/env python3
"""Writes the generated part of DESIGN.md (bounds, entries, planted bugs) from
checks.py and the planted bugs' meta.json."""
import json, os, re
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
MARK = "<!-- generated by mkdesign.py from here on -->"
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
o = [MARK, "", "## Bounds per property", ""]
for p in props:
    c = CHECKS[p["id"]]
    o.append("### %s %s" % (p["id"], p["title"]))
    o.append("")
    o.append("Entries: " + ", ".join("`%s`%s" % (e["name"], "" if e["default"] else " (without the logger)") for e in c["entries"]) + ".")
    o.append("")
    o += ["* " + b[0].upper() + b[1:] + "." for b in c["bounds"]]
    o.append("* Outside: %s." % (c.get("outside") or "anything beyond these bounds"))
    for a in c.get("assumptions", []):
        o.append("* Assumed: %s." % a)
    o.append("")
o += ["## Planted bugs and the entries that report them", "", "| bug | what it breaks | reported by |", "|---|---|---|"]
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
sd = V + "/seeded"
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open("%s/%s/meta.json" % (sd, s)))
    o.append("| %s | %s | %s |" % (s, re.sub(r"\s+", " ", m["what_it_breaks"]).replace("|", "\\|"), caught.get(s, "not run yet")))
t = open(V + "/DESIGN.md").read().split(MARK)[0].rstrip() + "\n\n"
open(V + "/DESIGN.md", "w").write(t + "\n".join(o) + "\n")
