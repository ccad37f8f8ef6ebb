#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = {
 "C01": "property-based testing: algebraic relations and exact integer/rational values over generated vectors",
 "C02": "property-based testing: total-order laws and exact comparison over clustered points, sort metamorphic",
 "C03": "property-based testing against exact integer orientation, histories of reversals",
 "C04": "property-based testing against exact shoelace area and corner signs, rotation/reversal metamorphic",
 "C05": "property-based testing against exact integer location, plus points rounded along segments",
 "C06": "property-based testing against exact integer location over all corner orders",
 "C07": "property-based testing against an exact crossing-number oracle over generated simple polygons",
 "C08": "property-based testing against exact circle location and angular-interval oracle",
 "C09": "property-based testing: cover/chain invariants of the pieces, sampled membership",
 "C10": "property-based testing against exact integer line arithmetic",
 "C11": "property-based testing against exact integer ray oracle",
 "C12": "property-based testing against exact rational feet of perpendiculars",
 "C13": "property-based testing against exact rational segment intersection, swap/reverse metamorphic",
 "C14": "property-based testing against exact integer case analysis of segment/circle/arc pairs",
 "C15": "property-based testing against exact integer case analysis of circle/arc pairs",
 "C16": "property-based testing: agreement of query, points and argument orders over all nine kind pairs",
 "C17": "property-based testing: sweep against the union of exact pairwise intersections, permutation metamorphic",
 "C18": "property-based testing against exact pairwise edge tests, single-spot mutations of simple polygons",
 "C19": "property-based testing against exact gift wrapping; permutation, repetition, idempotence relations",
 "C20": "property-based testing: exact validation of every triangulation of generated simple polygons",
 "C21": "stateful model-based testing against a sorted vector, shape invariants after every operation",
 "C22": "stateful model-based testing against a vector of nodes",
 "C23": "stateful model-based testing against a sorted vector",
 "C24": "differential property-based testing: wasm32 module under node against the native library",
 "C25": "differential property-based testing across number types, with counted arithmetic budgets",
 "C26": "stateful model-based testing of vertex and edge records",
 "C27": "metamorphic property-based testing under shifts, quarter turns, mirrors and power-of-two scalings",
 "C28": "stateful differential testing: one sweep object against a fresh one",
 "C29": "randomised robustness testing on near-coincident inputs with an operation-counting number type: panic, finiteness, work bound and form-agreement oracles",
 "C30": "property-based testing: accessors and equality against the generated components, single-component variations",
 "C32": "stateful and concurrent property-based testing: repeated and interleaved questions compared bit for bit, on one thread and on several",
 "C31": "property-based testing: cross-checks between independent public functions over the same generated inputs",
}
PENDING = {}
NOTE = ("Random search with a choice-tape generator and shrinking against an explicit oracle; assurance is that of the cases generated "
        "(counts, classes and samples in the evidence file), not a proof. Trusted: the oracle in harness/src (exact integers where the "
        "property is exact), rustc 1.98.0 and the host's f64. Thorough adds larger counts and a coverage-guided libFuzzer stage over the same cases.")
checks = []
for p in props:
    i = p["id"]
    if i in PENDING:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 tools/check.py {i}",
        "thorough_cmd": f"python3 tools/check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH[i],
        "level": "exploration",
        "level_note": NOTE,
    })
m = {
 "version": 1,
 "setup_cmd": "python3 tools/setup.py",
 "hooks": {"guard": "cfg(rcgal_verif)", "enable": "RUSTFLAGS=\"--cfg rcgal_verif\" (tools/common.py, for C21, C22, C23)",
           "source_commits": ["87b72d9"]},
 "checks": checks,
 "not_applicable": [{"property": k, "reason": v} for k, v in PENDING.items()],
 "notes": "Every check rebuilds /verif/harness (path dependency on /repo) and, for C24, the wasm32 module. See DESIGN.md.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
