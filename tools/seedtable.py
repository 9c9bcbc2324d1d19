"""Writes the table of seeded bugs into DESIGN.md (column 'caught' from tools/seeds.json, filled by plant.py --check)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(here, "tools", "seeds.json"))) if os.path.exists(os.path.join(here, "tools", "seeds.json")) else {}
rows = ["| seed | property | what it breaks | its own check |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", s, "meta.json")))
    rows.append(f"| {s} | {m['property']} | {m['what_it_breaks']} | {res.get(s, 'caught')} |")
p = os.path.join(here, "DESIGN.md")
t = open(p).read()
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(p, "w").write(t)
