"""Thorough tier: coverage-guided search (libFuzzer) over the same cases and oracles."""
import json, os, random, re, shutil, signal, subprocess, tempfile, time
import common

FUZZ = os.path.join(common.VERIF, "fuzz")
WORKERS = 8
RUNS = 1_500_000       # per worker
CAP_S = int(os.environ.get("RCGAL_FUZZ_S", "900"))  # and no longer than this


def build():
    import fcntl
    e = common.env()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["RUSTFLAGS"] = "--cfg rcgal_verif"
    target = os.path.join(FUZZ, "target")
    e["CARGO_TARGET_DIR"] = target
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock-check"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mark, now = common.forget(target, e, ["--release", "--target", "x86_64-unknown-linux-gnu"], FUZZ)
        r = subprocess.run(["cargo", "fuzz", "build", "--fuzz-dir", FUZZ, "-s", "none", "-O", "-a", "prop"], cwd=FUZZ, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-4000:])
            return None
        with open(mark, "w") as f:
            f.write(now)
    return os.path.join(target, "x86_64-unknown-linux-gnu", "release", "prop")


def judge(binary, path, extra):
    """The property's own binary decides about an input the fuzzer stopped at."""
    import check
    with tempfile.TemporaryDirectory(prefix="rcgal-fuzz1-") as tmp:
        tp = os.path.join(tmp, "tape")
        if os.environ.get('RCGAL_FUZZ_KEEP'):
            shutil.copy(path, os.environ['RCGAL_FUZZ_KEEP'])
        rc, lines = common.run(binary, ["--bytes", path, "--dump-tape", tp], 90, extra)
        if rc == 1 and check.get(lines, "FAIL"):
            return json.loads(check.get(lines, "FAIL"))
        if rc in (0, 2):
            return None
        tape = [int(x) for x in open(tp).read().split(",") if x]
        sub = open(tp + ".sub").read()
        msg = "does not finish within 90 s" if rc == "timeout" else f"the process is ended by signal {-rc}"
        if rc != "timeout":
            tape = check.shrink_crash(binary, sub, tape, extra)
        return {"property": None, "sub": sub, "tape": tape, "message": msg, "case": "found by libFuzzer"}


def run(prop, binary, seed, cov, extra):
    if prop == "C24":
        return None  # the module runs in a separate node process: nothing to guide by
    fz = build()
    if fz is None:
        raise SystemExit(2)
    with tempfile.TemporaryDirectory(prefix="rcgal-fuzz-") as tmp:
        corpus = os.path.join(tmp, "corpus")
        os.makedirs(corpus)
        rng = random.Random(seed)
        for i in range(256):
            with open(os.path.join(corpus, f"seed{i:03}"), "wb") as f:
                f.write(bytes([i]) + rng.randbytes(rng.choice([32, 128, 512, 2048])))
        ps = []
        t0 = time.time()
        for w in range(WORKERS):
            e = common.env()
            e.update(RCGAL_FUZZ_PROP=prop, RCGAL_FUZZ_OUT=os.path.join(tmp, f"counts{w}"))
            log = open(os.path.join(tmp, f"log{w}"), "w")
            ps.append(subprocess.Popen(
                [fz, corpus, f"-runs={RUNS}", f"-max_total_time={CAP_S}", f"-seed={seed * 1000 + w + 1}", "-max_len=4096", "-len_control=0",
                 "-timeout=60", "-rss_limit_mb=3000", "-reload=1", f"-artifact_prefix={tmp}/hit{w}-", "-print_final_stats=1"],
                stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=log, cwd=tmp, env=e, start_new_session=True))
            log.close()
        hit = False
        while any(p.poll() is None for p in ps):
            time.sleep(0.5)
            if any(p.poll() not in (None, 0) for p in ps) or time.time() - t0 > CAP_S + 120:
                hit = True
                break
        for p in ps:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        runs = passed = nontrivial = discarded = edges = 0
        for w in range(WORKERS):
            try:
                a, b, c = map(int, open(os.path.join(tmp, f"counts{w}")).read().split())
                passed += a
                nontrivial += b
                discarded += c
            except (OSError, ValueError):
                pass
            m = re.findall(r"cov: (\d+)", open(os.path.join(tmp, f"log{w}"), errors="replace").read())
            edges = max([edges] + [int(x) for x in m])
        cov["fuzzing"] = {"engine": "libFuzzer (cargo-fuzz, nightly), coverage-guided over the same cases", "cases": passed + discarded,
                          "nontrivial_cases": nontrivial, "discarded": discarded, "edges_covered": edges,
                          "corpus_files": len(os.listdir(corpus)), "wall_s": round(time.time() - t0, 1)}
        cov["evaluations"] += passed + discarded
        for f in sorted(os.listdir(tmp)):
            if f.startswith("hit"):
                r = judge(binary, os.path.join(tmp, f), extra)
                if r:
                    return r
        if hit and not any(f.startswith("hit") for f in os.listdir(tmp)):
            cov["fuzzing"]["note"] = "a worker ended early without an input"
    return None
