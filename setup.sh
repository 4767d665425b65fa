#!/bin/bash
# Builds the driver and extracts once, so that the dependencies of /repo are compiled for the checks.
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
import sys
sys.path.insert(0, "rules")
import mir
f = mir.extract()
print("setup: facts for", sum(len(x["fns"]) for x in f.values()), "functions")
PY
