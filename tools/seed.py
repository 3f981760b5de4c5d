#!/usr/bin/env python3
"""seed.py verify <id>...   verifies seeded bugs in scratch copies of /repo (patch applies, builds, tests pass, demo discriminates)
   seed.py check <id>...    applies each patch to /repo, runs the checks of its property (or --all), and undoes it"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def base():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b


def verify(i):
    d = os.path.join(S, i)
    w = "/tmp/seedwork"
    if not os.path.isdir(w):
        sh("cp -a /repo %s" % w)
    sh("git checkout -q -- . && git clean -fdq && git reset -q --hard $(git -C /repo rev-parse HEAD) || git fetch -q /repo && git reset -q --hard FETCH_HEAD", cwd=w)
    demo = tempfile.mkdtemp(prefix="demo")
    for f in os.listdir(d):
        if not f.endswith((".diff", ".patch")) and f != "meta.json":
            shutil.copy(os.path.join(d, f), demo)
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    ok = []
    r = sh(["bash", os.path.join(demo, "demo.sh")], cwd=w, env=env)
    ok.append(("demo clean", r.returncode == 0, r.stdout[-600:]))
    r = sh("git apply %s/patch.diff" % d, cwd=w)
    ok.append(("apply", r.returncode == 0, r.stdout[-400:]))
    r = sh("timeout 120 cargo test -p protox-parse --offline -- --test-threads 8 2>&1 | grep -E '^(error|test result|test .*FAILED|warning: unused)'", cwd=w)
    ok.append(("tests", "FAILED" not in r.stdout and r.stdout.count("test result: ok") == 2 and "error" not in r.stdout, r.stdout[-600:]))
    r = sh(["bash", os.path.join(demo, "demo.sh")], cwd=w, env=env)
    ok.append(("demo bug", r.returncode != 0, r.stdout[-300:]))
    if "could not compile" in r.stdout:
        ok.append(("demo compiles", False, r.stdout[-2000:]))
    sh("git checkout -q -- .", cwd=w)
    shutil.rmtree(demo)
    bad = [x for x in ok if not x[1]]
    print(i, "OK" if not bad else "BAD %s" % bad, flush=True)
    return not bad


def check(i, allp=False):
    d = os.path.join(S, i)
    m = json.load(open(os.path.join(d, "meta.json")))
    # /repo is never touched: a copy is analysed through PROTOX_REPO
    w = tempfile.mkdtemp(prefix="seedchk")
    sh("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git apply %s/patch.diff" % (w, w, d))
    env = dict(os.environ, PROTOX_REPO=w)
    man = json.load(open(os.path.join(V, "MANIFEST.json")))
    hits = []
    for c in man["checks"]:
        if not allp and c["property"] != m["property"]:
            continue
        r = sh(c["quick_cmd"], cwd=V, env=env)
        if r.returncode == 1 and "VIOLATION property=%s" % c["property"] in r.stdout:
            hits.append(c["property"])
            if c["property"] == m["property"]:
                print(r.stdout[:500])
        elif r.returncode:
            print("!!", c["property"], r.stdout[-500:])
    print(i, m["property"], "caught by", hits or "NOTHING", flush=True)
    shutil.rmtree(w)


if __name__ == "__main__":
    ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(S))
    for i in ids:
        verify(i) if sys.argv[1] == "verify" else check(i, "--all" in sys.argv)
