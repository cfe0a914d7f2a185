"""Builds what a check needs from /repo's current tree, in a directory the
check owns: the libc seam (gcc) and the real runtime in both profiles (cargo)."""
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AMASIM_REPO", "/repo")

DEPS = 'unicode-segmentation = "1.12.0"\nrustc-hash = "2.1"'

CARGO = """[package]
name = "vm"
version = "0.1.0"
edition = "2018"

[lib]
name = "amanda"
crate-type = ["cdylib"]
path = "%s/amanda/vm/src/lib.rs"

[dependencies]
%s
%s
[workspace]
"""


def cargo_toml():
    """own manifest: the crate versions the offline cache has; profiles are
    cargo's defaults for debug and release, as in the repository's manifest"""
    prof = ""
    try:
        text = open(os.path.join(REPO, "amanda/vm/Cargo.toml"), encoding="utf-8").read()
        i = text.find("[profile")
        if i >= 0:
            prof = text[i:]
    except OSError:
        pass
    return CARGO % (REPO, DEPS, prof)


class BuildError(Exception):
    pass


def build(work):
    """-> dict with paths of shim and libraries"""
    shim = os.path.join(work, "simio.so")
    vm = os.path.join(work, "vm")
    os.makedirs(vm)
    with open(os.path.join(vm, "Cargo.toml"), "w") as f:
        f.write(cargo_toml())
    lock = os.path.join(HERE, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(vm, "Cargo.lock"))
    jobs = []
    env = dict(os.environ)
    for k in ("LD_PRELOAD", "RUSTFLAGS", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    env["CARGO_INCREMENTAL"] = "0"
    jobs.append(("shim", subprocess.Popen(["gcc", "-O2", "-shared", "-fPIC", "-w", "-o", shim, os.path.join(HERE, "shim.c"), "-ldl"],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for prof in ("debug", "release"):
        cmd = ["cargo", "build", "--offline", "-q", "--manifest-path", os.path.join(vm, "Cargo.toml"),
               "--target-dir", os.path.join(work, "t-" + prof)]
        if prof == "release":
            cmd.append("--release")
        jobs.append((prof, subprocess.Popen(cmd, cwd=vm, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for name, p in jobs:
        out, _ = p.communicate()
        if p.returncode != 0:
            raise BuildError("%s build failed:\n%s" % (name, out.decode("utf-8", "replace")[-4000:]))
    libs = {}
    for prof in ("debug", "release"):
        src = os.path.join(work, "t-" + prof, prof, "libamanda.so")
        d = os.path.join(work, prof)
        os.makedirs(d)
        libs[prof] = os.path.join(d, "libamanda.so")
        shutil.move(src, libs[prof])
        shutil.rmtree(os.path.join(work, "t-" + prof))
    return {"shim": shim, "debug": libs["debug"], "release": libs["release"]}


if __name__ == "__main__":
    print(build(sys.argv[1]))
