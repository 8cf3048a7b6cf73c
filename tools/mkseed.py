#!/usr/bin/env python3
"""Writes and verifies the planted bugs of tools/seeds.py in a scratch copy of /repo.
Usage: mkseed.py [-j N] [id-prefix...]   (SEEDW: scratch directory)"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("SEEDW", "/tmp/seedw")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import seeds

HEAD = r'''#!/bin/bash
# Runs in /repo (or a copy of it): builds a small program against the crates in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR
w=$(mktemp -d /tmp/cubing-demo.XXXXXX) || exit 1
trap 'case "$w" in /tmp/cubing-demo.*) find "$w" -delete;; esac' EXIT
mkdir "$w/src"
[ -e "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
cubing_core = { path = "$repo/cubing_core" }
cubing = { path = "$repo/cubing" }
serde_json = "1"
[workspace]
END
export CARGO_TARGET_DIR="$w/target"
'''
RUN = r'''cp "$here/demo.rs" "$w/src/main.rs"
cd "$w" && timeout 280 cargo run -q --offline%s
'''


def sh(cmd, cwd, t=600, **kw):
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e)


def env():
    e = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    return e


def touches_original(d):
    """Whether a line that the change removes or replaces (or inserts after) is of the original repository."""
    for f in sh(["git", "-C", d, "diff", "--name-only"], d)[1].split():
        u = sh(["git", "-C", d, "diff", "-U0", "--", f], d)[1]
        blame = sh(["git", "-C", d, "blame", "-s", "-l", "HEAD", "--", f], d)[1].split("\n")
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", u, re.M):
            a, n = int(m[1]), int(m[2] or 1)
            if any(BASE in blame[i - 1][:45] for i in range(a, a + n)) or (n == 0 and BASE in blame[a - 1][:45]):
                return True
    return False


BASE = "3bcd63c"


def make(slot, s):
    d = os.path.join(W, "repo%d" % slot)
    if not os.path.isdir(d):
        os.makedirs(W, exist_ok=True)
        subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
        shutil.copy2("/repo/Cargo.lock", d)
    subprocess.run(["git", "-C", d, "fetch", "-q"], check=True)
    subprocess.run(["git", "-C", d, "reset", "-q", "--hard", "origin/HEAD"], check=True)
    out = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(out, exist_ok=True)
    for f in s.get("files", {"demo.rs": s.get("demo")}).items():
        if f[1] is not None:
            open(os.path.join(out, f[0]), "w").write(f[1])
    with open(os.path.join(out, "demo.sh"), "w") as fh:
        fh.write(HEAD + (s["script"] if "script" in s else RUN % (" --release" if s.get("release") else "")))
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    for f, old, new in s["edits"]:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) != 1:
            return "text occurs %d times: %s" % (t.count(old), old[:100])
        open(p, "w").write(t.replace(old, new, 1))
    rc, diff = sh(["git", "-C", d, "diff"], d)
    if not touches_original(d):
        return "changes only lines of fix commits"
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    e = env()
    rc, o = sh(["cargo", "test", "--workspace", "--no-fail-fast", "--offline"], d, env=e)
    if rc:
        return "tests fail with the patch:\n" + o[-3000:]
    rc, o = sh(["bash", os.path.join(out, "demo.sh")], d, 300, env=e)
    if rc == 0:
        return "demo passes with the patch\n" + o[-1500:]
    first = o
    subprocess.run(["git", "-C", d, "reset", "-q", "--hard", "origin/HEAD"], check=True)
    rc, o = sh(["bash", os.path.join(out, "demo.sh")], d, 300, env=e)
    if rc:
        return "demo fails on the unchanged tree:\n" + o[-3000:]
    return "ok: " + first.strip().replace("\n", " | ")[-250:]


def main():
    av = sys.argv[1:]
    j = 3
    if "-j" in av:
        i = av.index("-j")
        j = int(av[i + 1])
        del av[i:i + 2]
    todo = [s for s in seeds.SEEDS if not av or any(s["id"].startswith(a) for a in av)]
    slots = list(range(j))

    def work(s):
        k = slots.pop()
        try:
            return make(k, s)
        finally:
            slots.append(k)
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        for s, r in zip(todo, ex.map(work, todo)):
            print(s["id"], s["property"], r, flush=True)


if __name__ == "__main__":
    main()
