"""Checks that the tools are there and prebuilds the harnesses."""
import concurrent.futures as cf, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mbt, registry
used = []
for c in registry.CHECKS.values():
    for j in c:
        for n in [j.get("harness")] + j.get("also", []):
            if n and n not in used:
                used.append(n)
for n in used:
    try:
        print("built", mbt.build(registry.H[n]), flush=True)
    except mbt.CompileError as e:
        print("does not compile:", n, e.text[:300], flush=True)
