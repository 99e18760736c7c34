"""Writes MANIFEST.json from properties.jsonl and the check modules that exist."""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
NA = {}  # property -> reason


def meta(path):
    out = {}
    for node in ast.parse(path.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


TECH = {
    "model_checking": "explicit-state reference model, exhaustively enumerated within bounds, "
                      "every trace replayed on the real code",
    "exploration": "bounded exhaustive exploration of the real implementation",
    "fault_enumeration": "exhaustive enumeration of fault/crash points on the real code",
}
checks, na = [], []
for line in (V / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    f = V / "mc" / "checks" / f"{p['id'].lower()}.py"
    if not f.exists():
        na.append({"property": p["id"], "reason": NA.get(p["id"], "check not built yet")})
        continue
    m = meta(f)
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./run {p['id']} --tier quick",
        "thorough_cmd": f"./run {p['id']} --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": m.get("TECHNIQUE", TECH[m["LEVEL"]]),
        "level": m["LEVEL"],
        "level_note": "Exhaustive within the bounds of DESIGN.md: " + m["RULE"]
        + ". Assumes: " + "; ".join(m["ASSUMPTIONS"]),
    })
out = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: all checks drive public entry points and "
             "library boundaries. Known findings: known_findings.txt.",
}
(V / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "claimed;", [x["property"] for x in na])
