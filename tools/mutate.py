#!/usr/bin/env python3
"""Development tool: measures what the checks miss.  Makes small textual changes to a scratch
copy of /repo's non-test code, drops those the library's own tests notice, runs every property
on the others and appends one JSON line per mutant to OUT.  Not used by any check.
usage: mutate.py OUT.jsonl [--workers 8] [--only path-substring] [--scale 1] [--list]"""
import json, os, random, re, shutil, subprocess, sys, threading
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/mut"
PROPS = [f"C{i:02d}" for i in range(1, 33) if i != 24]

SWAPS = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\.x\(\)", [".y()"]), (r"\.y\(\)", [".x()"]), (r"\bself\.x\b", ["self.y"]), (r"\bself\.y\b", ["self.x"]),
    (r"\bother\.x\b", ["other.y"]), (r"\bother\.y\b", ["other.x"]),
    (r"\bsource\b", ["target"]), (r"\btarget\b", ["source"]),
    (r"\.source\(\)", [".target()"]), (r"\.target\(\)", [".source()"]),
    (r"\bsource_radian\b", ["target_radian"]), (r"\btarget_radian\b", ["source_radian"]),
    (r"\bradius_a\b", ["radius_b"]), (r"\bradius_b\b", ["radius_a"]),
    (r"\bcenter_a\b", ["center_b"]), (r"\bcenter_b\b", ["center_a"]),
    (r"_segment_a\b", ["_segment_b"]), (r"_segment_b\b", ["_segment_a"]),
    (r"\bprev\b", ["next"]), (r"\bnext\b", ["prev"]), (r"\bleft\b", ["right"]), (r"\bright\b", ["left"]),
    (r"\bhead\b", ["tail"]), (r"\btail\b", ["head"]), (r"\bears\b", ["reflexes"]), (r"\breflexes\b", ["ears"]),
    (r"::Left\b", ["::Right", "::Collinear"]), (r"::Right\b", ["::Left"]), (r"::Collinear\b", ["::Left"]),
    (r"::Inside\b", ["::Outside"]), (r"::Outside\b", ["::Inside", "::On"]), (r"::On\b", ["::Outside"]), (r"::NotOn\b", ["::On"]),
    (r"::Clockwise\b", ["::CounterClockwise"]), (r"::CounterClockwise\b", ["::Clockwise"]),
    (r"::Less\b", ["::Greater", "::Equal"]), (r"::Greater\b", ["::Less"]), (r"::Equal\b", ["::Less"]),
    (r"::Ear\b", ["::Convex"]), (r"::Convex\b", ["::Ear"]), (r"::Reflex\b", ["::Convex"]),
    (r"\.sin\(\)", [".cos()"]), (r"\.cos\(\)", [".sin()"]), (r"\.cross\(", [".dot("]), (r"\.dot\(", [".cross("]),
    (r"\.normalize\(\)", [""]), (r"\.abs\(\)", [""]), (r"\.sqrt\(\)", [""]), (r"\.is_some\(\)", [".is_none()"]),
    (r"\.is_none\(\)", [".is_some()"]), (r"!([a-z])", [r"\1"]), (r"-T::default_eps\(\)", ["T::default_eps()"]),
    (r"T::zero\(\)", ["T::default_eps()", "-T::default_eps()"]), (r"T::default_eps\(\)", ["T::zero()", "T::from_f64(1e-3)"]),
    (r"(?<=[ (\[<])-([a-z(])", [r"\1"]), (r"T::pi\(\)", ["T::zero()"]), (r"\btwo_pi\b", ["pi"]), (r"(?<![_\w])pi(?!\()\b", ["two_pi"]),
    (r"from_f64\(2\.0\)", ["from_f64(1.0)", "from_f64(3.0)"]), (r"from_f64\(4\.0\)", ["from_f64(2.0)"]), (r"from_f64\(1\.0\)", ["from_f64(2.0)"]),
    (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]), (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"(?<![\w.])3(?![\w.])", ["2", "4"]),
    (r"\.skip\(1\)", [".skip(0)"]), (r"SameNodeInsertRight\)", ["DisableSameNode)"]), (r"::DisableSameNode\)", ["::SameNodeInsertRight)"]),
    (r"\bmax\b", ["min"]), (r"\.rev\(\)", [""]), (r"\bSome\((\w+)\)(?=;|$)", ["None"]),
    (r"\.is_top\(\)", [".is_top() == false"]),
]


def files():
    out = []
    for d, _, fs in os.walk("/repo/src"):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), "/repo")
            if "/wasm" not in p and f not in ("lib.rs",):
                out.append(p)
    return sorted(out)


def mutants():
    for p in files():
        lines = open("/repo/" + p).read().split("\n")
        seen = set()
        for n, line in enumerate(lines):
            s = line.strip()
            if "#[cfg(test)]" in s or "#[cfg(rcgal_verif)]" in s:
                break
            if s.startswith(("//", "use ", "#[", "pub mod", "*", "/*")) or "<T: " in s and "fn " in s or s.startswith("impl"):
                continue
            alts = []
            for rx, reps in SWAPS:
                for m in re.finditer(rx, line):
                    for r in reps:
                        alts.append(line[:m.start()] + m.expand(r) + line[m.end():])
            m = re.match(r"(\s*(?:\} else )?(?:if|while) )(.+)( \{)$", line)
            if m and " let " not in line:
                alts.append(m[1] + "!(" + m[2] + ")" + m[3])
            if re.match(r"^[a-z_.]+(\(.*\))?( [-+]?= .*)?;$", s) and not s.startswith(("let", "use", "return")):
                alts.append("")
            if s in ("continue;", "break;"):
                alts.append("")
            for a in alts:
                if a != line and (n, a) not in seen:
                    seen.add((n, a))
                    yield {"file": p, "line": n + 1, "old": line.strip(), "new": a.strip(), "text": a}


def sh(cmd, cwd, env, timeout):
    r = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         text=True, errors="replace", start_new_session=True,
                         preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (6 << 30, 6 << 30)))
    try:
        out, _ = r.communicate(timeout=timeout)
        return r.returncode, out
    except subprocess.TimeoutExpired:
        # the whole session, or a hung test program would go on running
        os.killpg(r.pid, 9)
        r.communicate()
        return "timeout", ""


def opt(name, default):
    return sys.argv[sys.argv.index(name) + 1] if name in sys.argv else default


def prepare(w):
    base, h = f"{SCR}/r{w}", f"{SCR}/h{w}"
    for p in (base, h):
        shutil.rmtree(p, ignore_errors=True)
    shutil.copytree("/repo", base, ignore=shutil.ignore_patterns("target", ".git"))
    shutil.copytree(VERIF + "/harness", h, ignore=shutil.ignore_patterns("target"))
    t = open(h + "/Cargo.toml").read().replace('"/repo"', f'"{base}"').replace("opt-level = 2", "opt-level = 1")
    open(h + "/Cargo.toml", "w").write(t)
    e = dict(os.environ, PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="1.98.0", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e["CARGO_TARGET_DIR"] = f"{SCR}/t{w}"
    return base, h, e


def try_one(base, h, e, scale, props, w):
    """'build' | 'tests' | {prop: message}"""
    rc, out = sh(["cargo", "test", "--lib", "--offline", "--locked", "-j1", "--", "--test-threads", "2"], base, e, 120)
    if rc != 0:
        return "build" if "could not compile" in out else "tests"
    rc, out = sh(["cargo", "build", "--release", "--offline", "--features", "hooks", "--bin", "all", "-j1"], h,
                 dict(e, RUSTFLAGS="--cfg rcgal_verif"), 400)
    if rc != 0:
        return "harness-build: " + out[-800:]
    killed = {}
    for p in props:
        res = f"{SCR}/res{w}"
        if os.path.exists(res):
            os.remove(res)
        rc, _ = sh([f"{SCR}/t{w}/release/all", "--prop", p, "--threads", "1", "--scale", scale, "--no-shrink", "--hang-limit", "20",
                    "--result", res], h, e, 240)
        if rc != 0:
            msg = ""
            if os.path.exists(res):
                for l in open(res):
                    if l.startswith(("FAIL", "HANG", "ERROR")):
                        msg = l[:4] + " " + (json.loads(l[5:]).get("sub", "") + ": " + json.loads(l[5:]).get("message", "")[:120] if l.startswith("FAIL ") else l[5:100])
            killed[p] = f"{rc} {msg}"
    return killed


def main():
    out = sys.argv[1]
    only = opt("--only", "")
    scale = opt("--scale", "1")
    props = opt("--props", ",".join(PROPS)).split(",")
    todo = [m for m in mutants() if only in m["file"]]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["new"]))
    todo = [m for m in todo if (m["file"], m["line"], m["new"]) not in done]
    random.Random(5).shuffle(todo)
    limit = int(opt("--limit", "0"))
    if limit:
        todo = todo[:limit]
    if "--list" in sys.argv:
        print(len(todo))
        for m in todo[:40]:
            print(m["file"], m["line"], m["old"], "=>", m["new"])
        return
    lock = threading.Lock()

    def work(w):
        base, h, e = prepare(w)
        while True:
            with lock:
                if not todo:
                    return
                m = todo.pop()
            p = os.path.join(base, m["file"])
            orig = open(p).read()
            ls = orig.split("\n")
            ls[m["line"] - 1] = m["text"]
            open(p, "w").write("\n".join(ls))
            try:
                m["result"] = try_one(base, h, e, scale, props, w)
            finally:
                open(p, "w").write(orig)
            with lock:
                with open(out, "a") as f:
                    f.write(json.dumps({k: v for k, v in m.items() if k != "text"}) + "\n")

    ts = [threading.Thread(target=work, args=(w,)) for w in range(int(opt("--workers", "8")))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
