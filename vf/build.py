"""Builds the MIR exporter and runs it on /repo's current source.

Nothing of the repository is executed: `cargo check` type-checks the workspace with the exporter as
the compiler of the workspace crates, which writes their type-checked MIR as JSON.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(VERIF, ".build"))
EXPECTED = ["cubing_core-rlib.json", "cubing_macros-procmacro.json", "cubing-rlib.json", "alg-executable.json"]


class BuildError(Exception):
    pass


def _hash_files(files, root):
    h = hashlib.sha256()
    for f in files:
        h.update(os.path.relpath(f, root).encode() + b"\0")
        with open(f, "rb") as fh:
            data = fh.read()
        h.update(str(len(data)).encode() + b"\0" + data)
    return h.hexdigest()[:24]


def source_files(repo=None):
    repo = repo or REPO
    out = []
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                out.append(p)
    return out


def source_hash(repo=None):
    repo = repo or REPO
    return _hash_files(source_files(repo), repo)


def driver_files():
    out = []
    for d, ds, fs in os.walk(os.path.join(VERIF, "driver")):
        ds[:] = sorted(x for x in ds if x != "target")
        out += [os.path.join(d, f) for f in sorted(fs)]
    return out + [os.path.join(VERIF, "probe", f) for f in sorted(os.listdir(os.path.join(VERIF, "probe")))]


def run(cmd, cwd, env, what):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (what, p.stdout[-6000:]))
    return p.stdout


def base_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("RUSTC") or k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS"):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def build_driver():
    tag = _hash_files(driver_files(), VERIF)
    dst = os.path.join(BUILD, "mirdump-" + tag)
    if os.path.exists(dst):
        return dst
    env = base_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver-target")
    run(["cargo", "build", "--release", "--offline"], os.path.join(VERIF, "driver"), env, "building the MIR exporter")
    shutil.copy2(os.path.join(BUILD, "driver-target", "release", "mirdump"), dst + ".tmp")
    os.rename(dst + ".tmp", dst)
    return dst


def dump(repo=None, name="dump", plain=False):
    """Returns the directory with the exported program of /repo's (or the model's) current source.

    plain: as in a release build, without debug assertions (arithmetic is still checked)"""
    name += "plain" if plain else ""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        drv = build_driver()
        h = source_hash(repo)
        out = os.path.join(BUILD, name + "-%s-%s" % (os.path.basename(drv)[-8:], h))
        if all(os.path.exists(os.path.join(out, f)) for f in EXPECTED):
            return out
        for d in os.listdir(BUILD):
            if d.startswith(name + "-") and d != os.path.basename(out):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        env = base_env()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        env["LD_LIBRARY_PATH"] = os.path.join(sysroot, "lib")
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["MIRDUMP_OUT"] = tmp
        if plain:
            env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
            env["CARGO_PROFILE_DEV_OVERFLOW_CHECKS"] = "true"
        tgt = os.path.join(BUILD, "check-target-plain" if plain else "check-target")
        env["CARGO_TARGET_DIR"] = tgt
        # The workspace crates are analysed anew every time; only dependencies are kept.
        for fp in (os.path.join(tgt, "debug", ".fingerprint"), os.path.join(tgt, "debug", "build")):
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith(("cubing", "alg-", "vf_probe")):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        run(["cargo", "+nightly", "check", "--workspace", "--offline"], repo, env, "type-checking " + repo)
        missing = [f for f in EXPECTED if not os.path.exists(os.path.join(tmp, f))]
        if missing:
            raise BuildError("the exporter did not write %s" % ", ".join(missing))
        probe(repo, tmp, env)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        return out


def probe(repo, out, env):
    """Type-checks and exports a small user of the facade's JSON file macros, to see what they expand to"""
    d = os.path.join(BUILD, "probe")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "probe"), os.path.join(d, "src"))
    with open(os.path.join(d, "Cargo.toml"), "w") as fh:
        fh.write('[package]\nname = "vf_probe"\nversion = "0.0.0"\nedition = "2021"\n\n[dependencies]\ncubing = { path = "%s" }\n\n[workspace]\n' % os.path.join(os.path.abspath(repo), "cubing"))
    shutil.copy2(os.path.join(repo, "Cargo.lock"), os.path.join(d, "Cargo.lock"))
    try:
        run(["cargo", "+nightly", "check", "--offline"], d, env, "type-checking a user of the JSON file macros of " + repo)
    except BuildError as e:
        with open(os.path.join(out, "probe.err"), "w") as fh:
            fh.write(str(e))
    shutil.rmtree(d, ignore_errors=True)


def dump_model(plain=False):
    return dump(os.path.join(VERIF, "model"), "model", plain)


if __name__ == "__main__":
    print(dump())
