#!/usr/bin/env python3
"""Builds the harness once, to show that it builds offline from the committed files.
Checks do not depend on what this leaves behind."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, wasm
for p in ("C01", "C21"):
    if common.build(p) is None:
        sys.exit(1)
if wasm.build() is None:
    sys.exit(1)
print("harness builds")
