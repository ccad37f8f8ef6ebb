#!/usr/bin/env python3
"""check.py <property>: rebuild from /repo, search, write evidence, report.

Exit 0: held on everything generated.  Exit 1 with a VIOLATION line: a failing
case, written (shrunk) as a replay file.  Exit 2: no answer (build or harness error).
VERIF_SEED and VERIF_TIER (quick | thorough) are honoured.
"""
import json, os, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

# multiples of the case counts listed in the harness
SCALE = {"quick": 32.0, "thorough": 4.0}
PER_PROP = json.load(open(os.path.join(common.VERIF, "tools", "scale.json")))
LIMIT = {"quick": 800, "thorough": 6 * 3600}

ASSUME = [
    "rustc 1.98.0 release build with debug assertions and overflow checks; the host's f64 and libm",
    "cases closer to a decision boundary than the library's tolerance are outside the property and not judged",
]


def get(lines, key):
    for l in lines:
        k, _, rest = l.partition(" ")
        if k == key:
            return rest
    return None


def crash_case(binary, seed, tier, scale, extra):
    """The run ended by a signal: find the case, by journal, and its choices."""
    with tempfile.TemporaryDirectory(prefix="rcgal-journal-") as tmp:
        j = os.path.join(tmp, "j")
        common.run(binary, ["--seed", str(seed), "--tier", tier, "--scale", str(scale), "--journal", j], LIMIT[tier], extra)
        cands = []
        for f in sorted(os.listdir(tmp)):
            t = open(os.path.join(tmp, f)).read().split()
            if len(t) >= 2:
                cands.append((t[0], int(t[1])))
        for sub, idx in cands:
            r = one(binary, seed, sub, idx, extra)
            if r:
                return r
    return None


def one(binary, seed, sub, idx, extra, timeout=60):
    """Runs one case alone.  Returns a failure dict if it crashes or does not finish."""
    with tempfile.TemporaryDirectory(prefix="rcgal-one-") as tmp:
        tp = os.path.join(tmp, "tape")
        rc, lines = common.run(binary, ["--seed", str(seed), "--sub", sub, "--one", str(idx), "--dump-tape", tp], timeout, extra)
        if rc in (0, 2):
            return None
        if rc == 1 and get(lines, "FAIL"):
            return json.loads(get(lines, "FAIL"))
        tape = []
        if os.path.exists(tp):
            tape = [int(x) for x in open(tp).read().split(",") if x]
        hang = rc == "timeout"
        msg = f"does not finish within {timeout} s" if hang else f"the process is ended by signal {-rc if isinstance(rc, int) else rc}"
        if not hang:
            tape = shrink_crash(binary, sub, tape, extra)
        return {"property": None, "sub": sub, "tape": tape, "message": msg, "case": f"seed {seed} sub-check {sub} case {idx}"}


def shrink_crash(binary, sub, tape, extra):
    budget = time.time() + 40

    def dies(t):
        if time.time() > budget:
            return False
        rc, _ = common.run(binary, ["--sub", sub, "--tape", ",".join(map(str, t))], 20, extra)
        return isinstance(rc, int) and rc < 0

    if not dies(tape):
        return tape
    for size in (64, 16, 4, 1):
        i = 0
        while i + size <= len(tape):
            t = tape[:i] + tape[i + size:]
            if dies(t):
                tape = t
            else:
                i += size
    for i in range(len(tape)):
        if tape[i]:
            t = tape[:i] + [0] + tape[i + 1:]
            if dies(t):
                tape = t
    return tape


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in SCALE:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    evidence = os.path.join(common.VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)
    binary = common.build(prop)
    if binary is None:
        print(f"ERROR: cannot build the check of {prop} against /repo")
        return 2
    extra = {}
    if prop == "C24":
        import wasm
        w = wasm.build()
        if w is None:
            print("ERROR: cannot build the wasm module from /repo")
            return 2
        extra["RCGAL_WASM"] = w
        extra["RCGAL_WASM_DRIVER"] = os.path.join(common.VERIF, "tools", "wasm_driver.js")
    scale = SCALE[tier] * PER_PROP.get(prop, {}).get(tier, 1.0)
    build_s = time.time() - t0
    for attempt in (1, 2):
        rc, lines = common.run(binary, ["--seed", str(seed), "--tier", tier, "--scale", str(scale)], LIMIT[tier], extra)
        fail = None
        again = None
        if rc == 1 and get(lines, "FAIL"):
            fail = json.loads(get(lines, "FAIL"))
        elif rc == 3 and get(lines, "HANG"):
            sub, idx = get(lines, "HANG").split()
            fail = one(binary, seed, sub, int(idx), extra)
            again = f"case {idx} of {sub} was slow and is not when alone"
        elif isinstance(rc, int) and rc < 0:
            fail = crash_case(binary, seed, tier, scale, extra)
            again = f"the search ended by signal {-rc} and no single case does"
        if again is None or fail is not None:
            break
        # a starved or killed run: once more
        print(f"retrying: {again}")
    cov = get(lines, "EVIDENCE")
    cov = json.loads(cov) if cov else None
    if fail is None and again:
        print(f"ERROR: {again}")
        return 2
    if fail is None and (rc != 0 or cov is None):
        print(f"ERROR: search ended with {rc}: {get(lines, 'ERROR')}")
        return 2
    if fail is None and tier == "thorough":
        import fuzz
        fail = fuzz.run(prop, binary, seed, cov, extra)
    ok = fail is None
    if cov is None:
        cov = {"evaluations": 1, "distinct_nontrivial": 0, "rule": "search ended at a crashing or endless case", "samples": [fail["case"]]}
    cov.pop("violations", None)
    cov["search_s"] = cov.get("search_s", 0)
    cov["build_s"] = round(build_s, 2)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": 0 if ok else 1}
    with open(evidence, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if ok:
        print(f"{prop} held: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, {ev['wall_s']} s")
        return 0
    fail["property"] = prop
    fail["seed"] = seed
    fail["replay_with"] = "tools/replay.py <this file>"
    rdir = os.path.join(common.VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}-{fail['sub']}.json")
    with open(path, "w") as f:
        json.dump(fail, f, indent=1)
        f.write("\n")
    print(f"{prop} {fail['sub']}: {fail['message']}\n  case: {fail['case']}")
    print(f"VIOLATION property={prop} replay={path}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
