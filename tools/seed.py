#!/usr/bin/env python3
"""seed.py write [ID..] | validate [ID..] | check [ID..]   (all when no id is given)"""
import sys, os, json, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
from seeds import SEEDS
cmd, ids = sys.argv[1], sys.argv[2:]
byid = {s["id"]: s for s in SEEDS}
for i in ids or list(byid):
    if "w" in cmd.split("-")[0][:1]:
        seedlib.write(byid[i])
    if cmd in ("validate", "write-validate"):
        bad = seedlib.validate(i)
        print(i, "OK" if not bad else "BAD " + " / ".join(bad), flush=True)
    if cmd == "check":
        t = time.time()
        rc, out = seedlib.check(i)
        tail = [l for l in out.splitlines() if l.startswith(("VIOLATION", "history", "ERROR"))]
        print(i, "caught" if rc == 1 else f"MISSED rc={rc}", f"{time.time()-t:.0f}s", " | ".join(tail)[:200], flush=True)
