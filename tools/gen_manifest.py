"""Writes /verif/MANIFEST.json: every property with a module hv/props/pNN.py is claimed."""
import ast, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(V, "hv", "props", pid.lower() + ".py")
    if not os.path.exists(path):
        na.append({"property": pid, "reason": "its generated check is not built yet"})
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"./run.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough ./run.py {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": consts.get(
                "TECHNIQUE",
                "property-based testing (Hypothesis) against a reference model, generated schedules",
            ),
            "level": consts.get("LEVEL", "exploration"),
            "level_note": " ".join(
                ["Generated-input search over the real code with an explicit oracle; no proof. " + consts["RULE"]]
                + consts.get("ASSUMPTIONS", [])
            ),
        }
    )
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import hypothesis, pyroaring\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo are needed: faults, schedules and crashes are injected through the public pool, corpus and connection objects. Known and fixed findings: known_findings.jsonl. Replay a failure with ./run.py ID --replay FILE.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
