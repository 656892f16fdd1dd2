"""add_known.py WHAT < json-line : append a finding to known_findings.jsonl (development aid, never run by a check)."""
import json, os, sys
d = json.loads(sys.stdin.readline()); d["what"] = sys.argv[1]
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.jsonl")
open(p, "a").write(json.dumps(d) + "\n")
