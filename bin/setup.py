#!/usr/bin/env python3
"""builds the simulator, the library under simulation and all harnesses (a check builds what is missing or out of date itself)"""
import os, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import simbuild
from table import CHECKS

units = []
for c in CHECKS.values():
    for u in c["units"]:
        k = (u["harness"], tuple(u.get("defs", [])))
        if k not in units:
            units.append(k)
done = set()
first = []
for k in units:  # one unit per library variant first, so that the library is compiled once
    v = tuple(d for d in k[1] if d == "-DNDEBUG" or d.startswith("-DSTXXL_"))
    if v not in done:
        done.add(v)
        first.append(k)
for k in first:
    print(simbuild.build(*k))
with ThreadPoolExecutor(6) as ex:
    for r in ex.map(lambda k: simbuild.build(*k), [k for k in units if k not in first]):
        print(r)
