"""Rewrites the table of planted bugs in DESIGN.md from the meta.json files of seeded/."""
import json
import pathlib
import re

HERE = pathlib.Path(__file__).resolve().parent.parent
rows = {}
for meta in sorted((HERE / "seeded").glob("*/meta.json")):
    data = json.loads(meta.read_text())
    rows.setdefault(data["property"], []).append(meta.parent.name)
table = "<!-- table -->\n| check | planted bugs it catches |\n|---|---|\n"
table += "".join(f"| {p} | {', '.join(n)} |\n" for p, n in sorted(rows.items()))
table += "<!-- end -->"
path = HERE / "DESIGN.md"
text = path.read_text().replace("CATCHTABLE", "<!-- table --><!-- end -->")
path.write_text(re.sub(r"<!-- table -->.*?<!-- end -->", lambda m: table, text, flags=re.S))
