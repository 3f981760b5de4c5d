"""Builds the MIR driver and dumps the MIR of /repo's current tree (cached by content).

Nothing of /repo is executed: the dump is a `cargo check` with our driver as the
workspace rustc wrapper.  `protox` itself embeds .proto files of an (empty) git
submodule; they are replaced by one-line stubs *in a scratch overlay* so that the
crate type-checks; the stub's text is its own path, which lets the well-known-file
table be read off the dumped constants.
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PROTOX_REPO", "/repo")
CACHE = os.environ.get("PROTOX_VERIF_CACHE", os.path.join(VERIF, ".cache"))


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    for k in ("RUSTC_WORKSPACE_WRAPPER", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET",
              "RUSTUP_TOOLCHAIN", "RUSTC", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def _hash_files(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:20]


def _tree(root, keep):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ("target", ".git", "snapshots", "proptest-regressions", ".github")]
        for f in fs:
            p = os.path.join(d, f)
            if keep(p) and not os.path.islink(p):
                out.append(p)
    return out


def build_driver():
    src = os.path.join(VERIF, "driver")
    files = _tree(src, lambda p: p.endswith((".rs", ".toml")))
    key = _hash_files(files)
    tgt = os.path.join(CACHE, "driver")
    exe = os.path.join(tgt, "debug", "mirdump")
    stamp = os.path.join(tgt, "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
        return exe, key
    os.makedirs(tgt, exist_ok=True)
    e = _env()
    e["CARGO_TARGET_DIR"] = tgt
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "-q"], cwd=src, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("driver build failed:\n" + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(key)
    return exe, key


def source_key():
    files = _tree(REPO, lambda p: p.endswith((".rs", ".toml", ".lock", ".md", ".proto")))
    return _hash_files(files)


def _overlay(dst):
    if os.path.isdir(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    for p in _tree(REPO, lambda p: True):
        rel = os.path.relpath(p, REPO)
        q = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        shutil.copyfile(p, q)


def _stub_missing(dst, output):
    """Creates stubs for include_str!'d files the compiler could not read."""
    n = 0
    for q in set(re.findall(r"couldn't read `([^`]+)`", output)):
        q = os.path.normpath(q if os.path.isabs(q) else os.path.join(dst, q))
        if not q.startswith(dst + os.sep) or os.path.exists(q) or not q.endswith(".proto"):
            continue
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "w") as f:
            f.write("// stub:" + os.path.relpath(q, dst) + "\n")
        n += 1
    return n


def ensure(need=("protox_parse",)):
    """Returns the directory holding up-to-date dumps, building whatever is missing."""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _ensure(need)


def _ensure(need):
    exe, dkey = build_driver()
    key = hashlib.sha256((dkey + source_key()).encode()).hexdigest()[:20]
    out = os.path.join(CACHE, "dump", key)
    done = lambda c: os.path.exists(os.path.join(out, c + ".json"))
    if all(done(c) for c in need):
        return out
    # keep only a few old dumps
    root = os.path.join(CACHE, "dump")
    os.makedirs(root, exist_ok=True)
    old = sorted((os.path.join(root, d) for d in os.listdir(root)), key=os.path.getmtime)
    for d in old[:-14]:
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    ov = os.path.join(CACHE, "overlay")
    _overlay(ov)
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=_env(), stdout=subprocess.PIPE,
                             text=True, check=True).stdout.strip()
    e = _env()
    tgt = os.path.join(CACHE, "target")
    e.update(CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_OUT=out,
             LD_LIBRARY_PATH=os.path.join(sysroot, "lib"), CARGO_INCREMENTAL="0")
    # the wrapper is skipped for fresh units: drop the fingerprints of the workspace crates
    fp = os.path.join(tgt, "debug", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("protox"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    if set(need) <= {"protox_parse"}:
        cmd = ["cargo", "+nightly", "check", "--offline", "-q", "-p", "protox-parse", "--lib"]
    else:
        cmd = ["cargo", "+nightly", "check", "--offline", "-q", "-p", "protox", "--lib", "--bins", "--features", "bin"]
    for _ in range(4):
        r = subprocess.run(cmd, cwd=ov, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0 or not _stub_missing(ov, r.stdout):
            break
    if r.returncode != 0 or not all(done(c) for c in need):
        raise BuildError("cargo check of /repo failed:\n" + r.stdout[-6000:])
    return out


if __name__ == "__main__":
    t = time.time()
    print(ensure(tuple(sys.argv[1:]) or ("protox_parse", "protox", "protox-bin")), round(time.time() - t, 1))
