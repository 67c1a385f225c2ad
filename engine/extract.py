"""Build the MIR driver and extract the MIR of every crate of /repo's current tree.

Fails closed: raises ExtractError if the driver or the crate does not build, or if not
every expected crate was written by this run."""
import glob
import hashlib
import os
import shutil
import subprocess
import fcntl

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EXPECT = ["qcd_sme-lib", "tc_long_prop-lib", "physical_tc-bin", "one_mass_overall-bin", "two_masses_overall-bin"]


class ExtractError(Exception):
    pass


def _hash(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\1")
    return h.hexdigest()


def sources():
    out = []
    for d, dn, fs in os.walk(REPO):
        dn[:] = [x for x in dn if x not in ("target", ".git")]
        for f in fs:
            if f.endswith((".rs", ".toml", ".pyx", ".lock", ".py", ".yml")):
                out.append(os.path.join(d, f))
    return out


def run(cmd, env=None, cwd=None, log=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ExtractError("%s failed:\n%s" % (" ".join(cmd[:4]), p.stdout[-3000:]))
    return p.stdout


def extract():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "RUSTC", "RUSTUP_TOOLCHAIN",
              "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    drv = os.path.join(VERIF, "driver")
    e1 = dict(env, CARGO_TARGET_DIR=os.path.join(BUILD, "driver"))
    run(["cargo", "+nightly", "build", "--offline", "--quiet", "--manifest-path", os.path.join(drv, "Cargo.toml")], e1, drv)
    exe = os.path.join(BUILD, "driver", "debug", "mirdump")
    src = sources()
    key = _hash(src + [os.path.join(drv, "src", "main.rs")])
    stamp = os.path.join(BUILD, "stamp")
    out = os.path.join(BUILD, "mir")
    want = [os.path.join(out, e + ".json") for e in EXPECT]
    if os.path.exists(stamp) and open(stamp).read() == key and all(os.path.exists(w) for w in want):
        return want, key
    if not os.path.exists(os.path.join(REPO, "Cargo.lock")):
        shutil.copy(os.path.join(VERIF, "spec", "Cargo.lock"), os.path.join(REPO, "Cargo.lock"))
    os.makedirs(os.path.join(REPO, "target"), exist_ok=True)
    os.makedirs(out, exist_ok=True)
    for w in glob.glob(os.path.join(out, "*.json")):
        os.remove(w)
    tgt = os.path.join(BUILD, "target")
    # force the workspace crates through the wrapper again (either cargo build-dir layout)
    for d in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "*")) + glob.glob(os.path.join(tgt, "debug", "build", "*")):
        b = os.path.basename(d)
        if b.startswith(("qcd-sme", "qcd_sme", "tc_long_prop", "tc-long-prop")):
            shutil.rmtree(d)
    sysroot = run(["rustc", "+nightly", "--print", "sysroot"], env).strip()
    e2 = dict(env, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0", LD_LIBRARY_PATH=sysroot + "/lib", MIRDUMP_OUT=out,
              RUSTC_WORKSPACE_WRAPPER=exe, PYO3_PYTHON="/usr/bin/python3")
    run(["cargo", "+nightly", "check", "--offline", "--workspace", "--lib", "--bins"], e2, REPO)
    miss = [w for w in want if not os.path.exists(w)]
    if miss:
        raise ExtractError("no MIR extracted for %s" % ", ".join(os.path.basename(m) for m in miss))
    if _hash(src + [os.path.join(drv, "src", "main.rs")]) != key:
        raise ExtractError("sources changed during extraction")
    open(stamp, "w").write(key)
    return want, key


if __name__ == "__main__":
    print(extract())
