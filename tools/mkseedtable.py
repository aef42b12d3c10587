"""Writes the table of planted bugs into DESIGN.md (run by hand; no check uses it)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(H, "seeded")
rows = ["<!-- SEEDED -->", "", "| planted bug | property whose check catches it | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(S), key=lambda d: (json.load(open(os.path.join(S, d, "meta.json")))["property"], d)):
    m = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| `%s` | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"]))
rows += ["", "<!-- /SEEDED -->"]
p = os.path.join(H, "DESIGN.md"); s = open(p).read()
s = re.sub(r"<!-- SEEDED -->(.*?<!-- /SEEDED -->)?", lambda m: "\n".join(rows), s, count=1, flags=re.S)
open(p, "w").write(s)
