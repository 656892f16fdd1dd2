"""Writes MANIFEST.json: every property with a module in vf/props is claimed, the others are listed as not built."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(here, "tools", "level_notes.json")))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if os.path.exists(os.path.join(here, "vf", "props", pid.lower() + ".py")):
        n = NOTES.get(pid, {})
        checks.append({
            "property": pid, "quick_cmd": f"./run.sh {pid} quick", "thorough_cmd": f"./run.sh {pid} thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": n.get("technique", "property-based testing (Hypothesis) against an independent reference model"),
            "level": "exploration",
            "level_note": n.get("note", "Generated-input search; holds on every generated case, no claim beyond them."),
        })
    else:
        na.append({"property": pid, "reason": NOTES.get(pid, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks import SPFlow from /repo's working tree; no hooks in /repo are needed. "
              "./run.sh <ID> --replay <file> reruns one recorded case."}
with open(os.path.join(here, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "claimed", len(na), "not built")
