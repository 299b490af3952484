"""Builds everything the quick checks need, so that the first run of each does not have to."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "engine"))
sys.path.insert(0, V)
import build
from checks import CHECKS
want = {}
for c in CHECKS.values():
    for s in c["stages"]:
        for flavour, target in s.get("needs", {}).values():
            want.setdefault(flavour, set()).add(target)
        if not s.get("python") and not s.get("libfuzzer"):
            want.setdefault(s["flavour"], set()).add(s["harness"])
for flavour, targets in sorted(want.items()):
    build.build(flavour, sorted(targets))
    print("built", flavour, " ".join(sorted(targets)))
