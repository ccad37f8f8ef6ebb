#!/usr/bin/env python3
"""replay.py <file>: rebuilds from /repo and runs the one case of a replay file.
Exit 0: it passes now; 1: it still fails; 2: no answer."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

r = json.load(open(sys.argv[1]))
b = common.build(r["property"])
if b is None:
    sys.exit(2)
extra = {}
if r["property"] == "C24":
    import wasm
    w = wasm.build()
    if w is None:
        sys.exit(2)
    extra = {"RCGAL_WASM": w, "RCGAL_WASM_DRIVER": os.path.join(common.VERIF, "tools", "wasm_driver.js")}
rc, lines = common.run(b, ["--sub", r["sub"], "--tape", ",".join(map(str, r["tape"]))], 120, extra)
for l in lines:
    k, _, rest = l.partition(" ")
    if k == "FAIL":
        d = json.loads(rest)
        print(d["message"])
        print("  case:", d["case"])
    else:
        print(l)
if rc == 0:
    print("passes")
    sys.exit(0)
print("fails" if rc != 2 else "no answer", rc)
sys.exit(2 if rc == 2 else 1)
