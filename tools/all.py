#!/usr/bin/env python3
"""all.py: runs every registered check on one tree in one process (PROTOX_REPO selects the tree); prints a line per property"""
import os, sys, time, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analyzer"))
sys.setrecursionlimit(20000)
import build, mir, registry


def main():
    names = []
    for p in registry.PROPS.values():
        for a in p["analyses"]:
            if a not in names:
                names.append(a)
    if os.environ.get("ONLY"):
        names = os.environ["ONLY"].split(",")
    crates = tuple(sorted({c for p in registry.PROPS.values() for c in p["crates"]}))
    try:
        prog = mir.Program(build.ensure(crates))
    except build.BuildError as x:
        print("BUILD", str(x)[-800:])
        return
    bad = {}
    for n in names:
        t = time.time()
        import ai
        ai.START = t
        try:
            r = registry.run(n, prog, crates, False)
        except Exception:
            print("INTERNAL", n, traceback.format_exc()[-800:])
            for p in registry.PROPS:
                if n in registry.PROPS[p]["analyses"]:
                    bad.setdefault(p, []).append(("internal", ""))
            continue
        for v in r["viol"]:
            for p in v["props"]:
                if p in registry.PROPS and n in registry.PROPS[p]["analyses"] or os.environ.get("ALLV"):
                    bad.setdefault(p, []).append((v["key"], v.get("detail") or v.get("what")))
        if "-v" in sys.argv:
            print("%s %.1fs viol %d und %d %s" % (n, time.time() - t, len(r["viol"]), len(r["undecided"]), r["stats"]))
            for u in r["undecided"][:8]:
                print("   UND", str(u)[:200])
    seen = set()
    for p in sorted(bad):
        print("%s: %d" % (p, len(bad[p])))
        for k, d in bad[p]:
            if k not in seen and len([x for x in seen]) < 12:
                seen.add(k)
                print("     %s | %s" % (str(k)[:150], str(d)[:260]))


main()
