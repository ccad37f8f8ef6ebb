"""Builds the WebAssembly module from /repo's working tree."""
import fcntl, os, subprocess
import common


def build():
    e = common.env()
    target = os.path.join(common.TARGET, "wasm")
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS"] = "true"
    e["CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS"] = "true"
    e["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = "2"
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock-check"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mark, now = common.forget(target, e, ["--release", "--target", "wasm32-unknown-unknown"], common.REPO)
        r = subprocess.run(["cargo", "build", "--release", "--lib", "--offline", "--locked", "--target", "wasm32-unknown-unknown"],
                           cwd=common.REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            return None
        with open(mark, "w") as f:
            f.write(now)
    return os.path.join(target, "wasm32-unknown-unknown", "release", "rcgal.wasm")
