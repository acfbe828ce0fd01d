"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json"""
import json, pathlib
R = pathlib.Path(__file__).resolve().parent.parent; caught = json.load(open(R / "tools/caught.json")) if (R / "tools/caught.json").exists() else {}
rows = ["| bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted((R / "seeded").iterdir()):
    m = json.load(open(d / "meta.json")); rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} ({m['needs']}) | {caught.get(d.name, m['property'])} |")
s = (R / "DESIGN.md").read_text().split("<!-- table -->")[0]
(R / "DESIGN.md").write_text(s + "<!-- table -->\n" + "\n".join(rows) + "\n")
