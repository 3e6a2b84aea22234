#!/usr/bin/env python3
"""replay.py FILE: runs the recorded input against the real code of the current tree and shows the disagreement"""
import sys, json, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import bounded, driver
d = json.load(open(sys.argv[1]))
print(d["what"])
if "driver_line" in d:
    B = bounded.Bounded(); r = driver.run_cases(B.build(), [d["driver_line"]])[0]
    print("input:   ", d["driver_line"][-2000:]); print("result:  ", json.dumps(r.out)[:3000] if r.out is not None else r.crash)
    if r.ub: print("sanitizer:", r.ub)
else: print(json.dumps(d, indent=1)[:4000])
