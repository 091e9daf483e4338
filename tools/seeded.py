#!/usr/bin/env python3
"""tools/seeded.py [ids...]: applies each planted change to /repo, runs the check of its property (or those
named with --checks C01,C02), undoes it and prints what was caught. A development tool: no check uses it."""
import json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("--")]
checks = next((a.split("=")[1].split(",") for a in sys.argv if a.startswith("--checks=")), None)
for i in sorted(os.listdir(f"{HERE}/seeded")):
    if ids and i not in ids:
        continue
    prop = json.load(open(f"{HERE}/seeded/{i}/meta.json"))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", f"{HERE}/seeded/{i}/patch.diff"])
    try:
        for c in checks or [prop]:
            t = time.time()
            p = subprocess.run([f"{HERE}/check", c, "quick"], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            hit = p.returncode == 1 and f"VIOLATION property={c}" in p.stdout
            print(i, c, "caught" if hit else f"MISSED rc={p.returncode}", f"{time.time() - t:.0f} s", flush=True)
            if not hit and p.returncode:
                print(p.stdout[-1500:])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
