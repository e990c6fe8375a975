#!/bin/bash
# Warm the build caches; every check can also build from nothing.
cd "$(dirname "$0")" || exit 1
echo setup-ran > .setup-marker
python3 - <<'P' || true
import sys
sys.path.insert(0, ".")
import run
from checks import CHECKS
seen = set()
for p, c in CHECKS.items():
    for s in c["steps"]:
        k = (s["pkg"], s.get("flavor", "release"))
        if k in seen or k[1] == "miri" or (s.get("only") == "thorough"):
            continue
        seen.add(k)
        try:
            run.build(s)
        except Exception as e:
            print("setup:", k, e)
P
exit 0
