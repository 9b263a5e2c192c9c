"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
notes = {}
np = os.path.join(here, "tools", "bugnotes.json")
if os.path.exists(np):
    notes = json.load(open(np))
rows = ["## Planted bugs", "",
        "Each compiles, passes the stable tests, and has a demonstration that fails with it only. \"Caught by\" names the",
        "quick check of the property; the last column what had to be added before it was (empty: caught at once).", "",
        "| change (seeded/) | needs | breaks | caught by | added for it |", "|---|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    n = notes.get(d, {})
    rows.append(f"| {d} | {m['needs']} | {m['what_it_breaks']} | {n.get('by', m['property'])} | {n.get('added', '')} |")
body = "\n".join(rows) + "\n"
i = s.find("@@BUGS@@")
if i < 0:
    i = s.find("## Planted bugs")
open(p, "w").write(s[:i] + body)
