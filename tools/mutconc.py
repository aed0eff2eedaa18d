"""Developer tool: evaluate every contract of a property concretely for a moment; exit 1 on a failure."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import worker
prop = sys.argv[1]
hs = worker.load("conc", prop)
per = max(0.1, min(1.0, 5.0 / max(1, len(hs))))
for n, h in hs.items():
    r = worker.run_conc(h, dict(seed=1, seconds=per))
    if r["fail"]:
        print(n, r["fail"]["label"])
        sys.exit(1)
