"""Builds the MIR dump of /repo's working tree and loads it."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def file_hash(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()[:16]


def ensure_driver():
    src = os.path.join(VERIF, "driver", "mirdump.rs")
    exe = os.path.join(BUILD, "mirdump-" + file_hash(src))
    if not os.path.exists(exe):
        tmp = exe + ".tmp%d" % os.getpid()
        run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp])
        os.rename(tmp, exe)
    return exe


def sources():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            out.append(os.path.join(base, f))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def tree_hash():
    h = hashlib.sha256()
    for p in sources():
        h.update(p.encode())
        h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def dump():
    """Directory with the dump of the current working tree (built if needed)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = ensure_driver()
        key = tree_hash() + "-" + file_hash(exe)
        out = os.path.join(BUILD, "dump-" + key)
        if os.path.exists(os.path.join(out, "done")):
            return out
        for old in glob.glob(os.path.join(BUILD, "dump-*")):
            if os.path.isdir(old):
                shutil.rmtree(old)
        tgt = os.path.join(BUILD, "target")
        # cargo would reuse a fresh check and never run the driver
        for d in glob.glob(os.path.join(tgt, "debug", ".fingerprint", "kdbx-rs-*")) + glob.glob(os.path.join(tgt, "debug", "build", "kdbx-rs")):
            shutil.rmtree(d)
        tmp = out + ".tmp%d" % os.getpid()
        os.makedirs(tmp)
        sysroot = run(["rustc", "+nightly", "--print", "sysroot"]).strip()
        env = dict(os.environ)
        env["LD_LIBRARY_PATH"] = sysroot + "/lib"
        env["MIRDUMP_OUT"] = tmp
        env["RUSTC_WORKSPACE_WRAPPER"] = exe
        env["CARGO_TARGET_DIR"] = tgt
        env.pop("RUSTFLAGS", None)
        log = run(["cargo", "+nightly", "check", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
                   "--lib", "--bins"], env=env)
        if not os.path.exists(os.path.join(tmp, "kdbx_rs.json")):
            raise BuildError("no dump was produced\n" + log[-4000:])
        with open(os.path.join(tmp, "done"), "w") as f:
            f.write("ok\n")
        os.rename(tmp, out)
        return out


def load(name="kdbx_rs.json"):
    d = dump()
    with open(os.path.join(d, name)) as f:
        return json.load(f)


if __name__ == "__main__":
    try:
        print(dump())
    except BuildError as e:
        print(e)
        sys.exit(4)
