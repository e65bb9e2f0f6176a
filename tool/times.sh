#!/bin/bash
# seconds and paths of every proof of a property
cd "$(dirname "$0")/.."
python3-vt - "$1" <<'P' | while IFS= read -r m; do /usr/bin/time -f "%e s" python3-vt tool/dbg.py "$1" "$m" 2>&1 | cut -c1-150 | tr '\n' ' '; echo; done
import sys, importlib
sys.path.insert(0, "/verif")
for n, f in importlib.import_module("specs." + sys.argv[1].lower()).PROOFS:
    print(n)
P
