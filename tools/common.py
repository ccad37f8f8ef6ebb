"""Shared by check.py and replay.py: building the harness and running its binaries."""
import fcntl, hashlib, json, os, resource, shutil, signal, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
HOOKED = {"C21", "C22", "C23"}


def env(cfg=False):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "1.98.0"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "hooks" if cfg else "plain")
    e.pop("RUSTC_WRAPPER", None)
    e["RUSTFLAGS"] = "--cfg rcgal_verif" if cfg else ""
    e["RUST_BACKTRACE"] = "0"
    return e


def source_hash():
    h = hashlib.sha256()
    for top in ("src", "Cargo.toml", "build.rs"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def forget(target, e, args, cwd):
    """cargo decides freshness by mtime; decide it by content."""
    mark = os.path.join(target, "rcgal.sha256")
    now = source_hash()
    old = open(mark).read() if os.path.exists(mark) else ""
    if old != now and os.path.isdir(target):
        subprocess.run(["cargo", "clean", "-p", "rcgal", "--offline"] + args, cwd=cwd, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return mark, now


def build(prop):
    """Builds the check's binary from /repo's working tree; returns its path or None."""
    cfg = prop in HOOKED
    e = env(cfg)
    target = e["CARGO_TARGET_DIR"]
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock-check"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mark, now = forget(target, e, ["--release"], HARNESS)
        cmd = ["cargo", "build", "--release", "--offline", "--locked", "--bin", prop.lower()]
        if cfg:
            cmd += ["--features", "hooks"]
        r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            return None
        with open(mark, "w") as f:
            f.write(now)
    return os.path.join(target, "release", prop.lower())


def limits():
    lim = 12 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(binary, args, timeout, extra_env=None):
    """Runs a binary; returns (returncode or 'timeout', result lines)."""
    with tempfile.TemporaryDirectory(prefix="rcgal-check-") as tmp:
        res = os.path.join(tmp, "result")
        e = env()
        e.update(extra_env or {})
        p = subprocess.Popen([binary, "--result", res] + args, stdin=subprocess.DEVNULL,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=tmp,
                             preexec_fn=limits, env=e, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = "timeout"
        finally:
            # the group is ours alone: the binary and, for C24, its node processes
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        lines = []
        if os.path.exists(res):
            with open(res) as f:
                lines = f.read().splitlines()
        return rc, lines
