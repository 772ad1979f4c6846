#!/usr/bin/env python
"""Generates MANIFEST.json from the properties and the available check modules."""

import ast
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


def consts(path):
    """Module-level string/list constants without importing the module."""
    out = {}
    for node in ast.parse(path.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


checks, missing = [], []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    path = ROOT / "checks" / f"{pid.lower()}.py"
    if not path.exists():
        missing.append({"property": pid, "reason": "check not built yet"})
        continue
    c = consts(path)
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"./run.sh {pid} quick",
            "thorough_cmd": f"./run.sh {pid} thorough",
            "technique": c["TECHNIQUE"],
            "level": c["LEVEL"],
            "level_note": "Explored executions only, not a proof. "
            + "Assumes: "
            + "; ".join(c["ASSUMPTIONS"])
            + ".",
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": missing,
    "notes": "Pure Python code under test: monitors observe the real optimizer through "
    "its public interface, no hooks in /repo are needed. run.sh imports singd from /repo.",
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "checks,", len(missing), "missing")
