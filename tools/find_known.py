"""find_known.py PID FACET KEY [n]: smallest generated case excluded under KEY that really fails (development aid)."""
import json
import os
import sys

from hypothesis import HealthCheck, given, seed, settings

from vf import core
from vf.runner import load_prop

pid, fname, key = sys.argv[1:4]
n = int(sys.argv[4]) if len(sys.argv) > 4 else 3000
facet = next(f for f in load_prop(pid).facets if f.name == fname)
best = []


@seed(int(os.environ.get("VERIF_SEED", "1")))
@settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck))
@given(facet.strategy)
def go(case):
    if facet.known(case) != key:
        return
    _, msg = core.run_check(facet, case)
    if msg:
        best.append((len(json.dumps(case)), json.dumps(case), msg))


go()
best.sort()
for b in best[:1]:
    print(json.dumps({"kind": "known", "property": pid, "facet": fname, "key": key, "what": "", "case": json.loads(b[1])}))
    print(b[2], file=sys.stderr)
print(len(best), file=sys.stderr)
