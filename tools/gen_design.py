"""Writes DESIGN.md from tools/design.md.in, known_findings.jsonl and the planted bugs (documentation only; no check uses it)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
t = (V / "tools/design.md.in").read_text()
k = [json.loads(x) for x in (V / "known_findings.jsonl").read_text().splitlines() if x.strip()]
t = t.replace("@@FIX@@", str(len({x["text"].split()[2] for x in k if x["kind"] == "fixed"})))
rows = ["| bug | property | needs | caught |", "|---|---|---|---|"]
for m in sorted((V / "seeded").glob("*/meta.json")):
    d = json.loads(m.read_text())
    rows.append(f"| {m.parent.name} | {d['property']} | {d['needs']} | {d.get('caught_by', d['property'])} |")
t = t.replace("@@BUGS@@", "\n".join(rows)).replace("@@MORE@@\n", "")
(V / "DESIGN.md").write_text(t)
