#!/usr/bin/env python3
"""mkseed.py: helper used to write seeded bugs. usage: from mkseed import seed"""
import json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# builds a small program against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
[ -f Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
protox-parse = { path = "$repo/protox-parse" }
[workspace]
EOT
cd "$d"
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q
'''


def seed(id, prop, file, edits, main, needs, breaks):
    """edits: [(old, new)] or {file: [(old,new)]}"""
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run("git -C /repo archive HEAD | tar -x -C %s; cd %s; git init -q .; git add -A; git -c user.email=a@b -c user.name=a commit -qm x" % (w, w), shell=True)
    files = edits if isinstance(edits, dict) else {file: edits}
    for f, es in files.items():
        p = os.path.join(w, f)
        s = open(p).read()
        for o, n in es:
            assert s.count(o) == 1, (id, s.count(o), o)
            s = s.replace(o, n)
        open(p, "w").write(s)
    diff = subprocess.run("git diff", shell=True, cwd=w, stdout=subprocess.PIPE, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "main.rs"), "w").write(main)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(w)
