#!/usr/bin/env python
"""Generates DESIGN.md from its hand-written parts and the current checks."""

import ast
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


def consts(path):
    out = {"DOC": ast.get_docstring(ast.parse(path.read_text()))}
    for node in ast.parse(path.read_text()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


out = [(ROOT / "tools/design_head.md").read_text()]
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    c = consts(ROOT / "checks" / f"{p['id'].lower()}.py")
    notes = ROOT / "tools/design_notes" / f"{p['id']}.md"
    out += [
        f"### {p['id']} {p['title']}\n",
        f"*Decided by* {c['TECHNIQUE']} (`checks/{p['id'].lower()}.py`, level "
        f"`{c['LEVEL']}`).\n",
        f"*Workload.* {c['RULE']}\n",
        f"*Bounds and assumptions.* {'; '.join(c['ASSUMPTIONS'])}.\n",
        f"*A run is conclusive only with at least* "
        + ", ".join(f"{v} {k}" for k, v in c["MIN"].items()) + ".\n",
        f"*Why not by tests.* {p['why_tests_cant']}\n",
    ]
    if notes.exists():
        out.append(notes.read_text())
out.append("## 3. Defects of the pinned commit\n")
out.append("Repaired (one `fix:` commit each, all stable tests pass with them):\n")
kf = [json.loads(x) for x in (ROOT / "known_findings.jsonl").read_text().splitlines()]
out += [f"* {k['property']}, `{k['commit']}`: {k['what']}" for k in kf if k["status"] == "fixed"]
out.append("\nRecorded, not repaired (`known_findings.jsonl`; identified by fixed probes, so "
           "that any other violation is still reported). They need design decisions of the "
           "maintainers (what the statistics of a step are, which state a file contains):\n")
out += [f"* {k['property']} `{k['key']}`: {k['what']}" for k in kf if k["status"] == "known"]
out.append("")
out.append((ROOT / "tools/design_tail.md").read_text())
res = json.loads((ROOT / "tools/seed_results.json").read_text())
out.append("| bug | needs | breaks | caught by |\n| --- | --- | --- | --- |")
for d in sorted((ROOT / "seeded").iterdir()):
    m, r = json.loads((d / "meta.json").read_text()), res.get(d.name)
    by = "–" if r is None else (m["property"] if r["caught"] else "**missed** by " + m["property"])
    if r and r["caught"] and r["tier"] != "quick":
        by += f" ({r['tier']})"
    out.append(f"| `{d.name}` | {m['needs']} | {m['what_it_breaks']} | {by} |")
(ROOT / "DESIGN.md").write_text("\n".join(out) + "\n")
