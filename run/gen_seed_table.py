"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (development tool; no check runs it)"""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
d = V / "DESIGN.md"
head = d.read_text().split("## 8. Planted bugs")[0]
rows = ["## 8. Planted bugs", "",
        "Each was written from the property's text and the code, confirmed to pass the stable tests, with a demonstration. The check of the property named in the identifier",
        "was run against it; \"strengthened\" says what was added to the check first because it had missed the bug.", "",
        "| bug | needs | check | outcome |", "|---|---|---|---|"]
for m in sorted((V / "seeded").glob("*/meta.json")):
    j = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {j['needs']} | {j['property']} | {j.get('outcome', 'caught')} |")
d.write_text(head + "\n".join(rows) + "\n")
