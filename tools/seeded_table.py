"""Rewrites the table of the planted bugs in DESIGN.md (from seeded/*/meta.json)."""
import json, pathlib, re
base = pathlib.Path(__file__).resolve().parent.parent
rows = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for meta in sorted((base / "seeded").glob("*/meta.json")):
  m = json.loads(meta.read_text())
  cell = lambda t: " ".join(str(t).split()).replace("|", "/")
  rows.append(f"| {meta.parent.name} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} | {m.get('caught_by', m['property'])} |")
design = base / "DESIGN.md"
text = design.read_text().replace("SEEDED_TABLE", "<!-- bugs -->\n<!-- /bugs -->")
table = "\n".join(rows)
text = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: f"<!-- bugs -->\n{table}\n<!-- /bugs -->", text, flags=re.S)
design.write_text(text)
