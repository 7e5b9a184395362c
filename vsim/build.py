"""Builds what a check runs: the simulation run-time, the program under test and the harness.

The program under test is /repo's working tree, compiled by the stock compiler with LLVM's
thread-sanitizer pass reduced to atomic operations: every atomic operation becomes a call into
simrt, which is where the scheduler may switch threads.
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
SIM = os.path.join(TARGET, "sim")
TRIPLE = "x86_64-unknown-linux-gnu"
SO = os.path.join(TARGET, "libsimrt.so")
EXEC = os.path.join(TARGET, "simexec")
OXVG = os.path.join(SIM, TRIPLE, "debug", "oxvg")
HARNESS = os.path.join(SIM, TRIPLE, "debug", "vharness")

RUSTFLAGS = " ".join([
    "--cfg tracing_unstable",
    "-C passes=tsan",
    "-C llvm-args=-tsan-instrument-memory-accesses=0",
    "-C llvm-args=-tsan-instrument-func-entry-exit=0",
    "-C llvm-args=-tsan-instrument-memintrinsics=0",
    "-C link-arg=-Wl,--unresolved-symbols=ignore-in-object-files",
    "-C link-arg=-Wl,-z,nodelete",
])


class BuildError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo_env():
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
                         capture_output=True).stdout
    env = dict(e.split("=", 1) for e in out.decode().split("\0") if "=" in e)
    env.update(RUSTFLAGS=RUSTFLAGS, CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_DEBUG="0",
               CARGO_TERM_COLOR="never")
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    env.pop("CARGO_TARGET_DIR", None)
    return env


def tree_hash(path, exts=(".rs", ".toml", ".md", ".json")):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(path):
        dirs[:] = sorted(d for d in dirs if d not in ("target", "node_modules", ".git"))
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, path).encode() + b"\0")
                with open(p, "rb") as fd:
                    h.update(hashlib.sha256(fd.read()).digest())
    return h.hexdigest()


def drop_stale():
    """Cargo trusts modification times; make it trust contents.  A crate whose sources changed
    since the last build here loses its fingerprint, so that cargo compiles it again."""
    state = os.path.join(SIM, "vsim-hashes.json")
    try:
        old = json.load(open(state))
    except (OSError, ValueError):
        old = {}
    new = {"": hashlib.sha256((open(os.path.join(REPO, "Cargo.lock")).read() +
                               open(os.path.join(REPO, "Cargo.toml")).read()).encode()).hexdigest()}
    crates = {os.path.basename(p): p for p in glob.glob(os.path.join(REPO, "crates", "*"))
              if os.path.isdir(p)}
    crates["vharness"] = os.path.join(VERIF, "harness")
    for name, path in crates.items():
        new[name] = tree_hash(path) if os.path.isdir(path) else ""
    changed = [n for n in crates if old.get(n) != new[n]]
    for n in changed:
        for p in glob.glob(os.path.join(SIM, TRIPLE, "debug", ".fingerprint", n + "-*")):
            shutil.rmtree(p, ignore_errors=True)
    return state, new


def cc(out, src, *flags):
    src = os.path.join(VERIF, "simrt", src)
    key = hashlib.sha256(open(src, "rb").read() + repr(flags).encode()).hexdigest()
    stamp = out + ".hash"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return
    tmp = out + ".tmp%d" % os.getpid()
    p = subprocess.run(["gcc", "-O2", "-o", tmp, src, *flags], capture_output=True, text=True)
    if p.returncode:
        raise BuildError("gcc: " + p.stderr)
    os.replace(tmp, out)
    open(stamp, "w").write(key)


def build(harness=False, program=True):
    """Builds from /repo's working tree; returns the seconds it took."""
    t0 = time.time()
    os.makedirs(SIM, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        cc(SO, "simrt.c", "-fPIC", "-shared", "-mcx16", "-fvisibility=hidden",
           "-fno-delete-null-pointer-checks", "-ldl", "-lpthread")
        cc(EXEC, "simexec.c")
        state, hashes = drop_stale()
        env = cargo_env()
        common = ["--target", TRIPLE, "--target-dir", SIM, "--offline"]
        if program:
            cmd = ["cargo", "build", "-p", "oxvg", "--bin", "oxvg", "--locked",
                   "--manifest-path", os.path.join(REPO, "Cargo.toml"), *common]
            run_cargo(cmd, env)
        if harness:
            cmd = ["cargo", "build", "--locked",
                   "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"), *common]
            run_cargo(cmd, env)
        else:
            hashes.pop("vharness", None)
        json.dump(hashes, open(state + ".tmp", "w"))
        os.replace(state + ".tmp", state)
    return time.time() - t0


def run_cargo(cmd, env):
    p = subprocess.run(cmd, env=env, cwd=REPO, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stderr[-6000:])


if __name__ == "__main__":
    try:
        t = build(harness=os.path.isdir(os.path.join(VERIF, "harness")))
        print("built in %.1f s" % t)
    except BuildError as e:
        log(str(e))
        sys.exit(2)
