"""Writes MANIFEST.json from the checks that exist."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Runtime monitoring of the real code: oracles independent of the "
        "implementation judge every observed execution. Held means held on the "
        "executions counted in the evidence file; trusts jax, numpy and the "
        "reference models in /verif.")
TECH = {}
checks = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
  p = json.loads(line)
  name = p["id"].lower()
  path = os.path.join(ROOT, "checks", name + ".py")
  if not os.path.exists(path):
    continue
  tech = "runtime monitoring with a reference-model oracle"
  note = NOTE
  for node in ast.parse(open(path).read()).body:
    if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) in ("TECHNIQUE", "LEVEL_NOTE"):
      v = ast.literal_eval(node.value)
      if node.targets[0].id == "TECHNIQUE":
        tech = v
      else:
        note = v + " " + NOTE
  checks.append({"property": p["id"], "quick_cmd": f"bash run.sh {name}",
                 "thorough_cmd": f"VERIF_TIER=thorough bash run.sh {name}",
                 "technique": tech, "level": "exploration", "level_note": note})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": [], "notes":
           "No hooks in /repo: all monitors observe the public interfaces. "
           "Repairs of genuine defects are listed in known_findings.txt."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks))
