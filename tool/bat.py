"""Runs the battery of a property: bat.py P01"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
m = importlib.import_module("specs." + sys.argv[1].lower())
r = m.BATTERY([], int(sys.argv[2]) if len(sys.argv) > 2 else 1, sys.argv[3] if len(sys.argv) > 3 else "quick")
for f in r["failed"][:12]:
    print("FAIL", f[:400])
print({k: v for k, v in r.items() if k != "failed"}, len(r["failed"]))
