#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property on /repo's current source tree by static analysis."""
import json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(HERE)
sys.setrecursionlimit(20000)

import build, mir
import registry


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def main():
    pid = sys.argv[1]
    thorough = "--thorough" in sys.argv
    tier = "thorough" if thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    p = registry.PROPS[pid]
    viol, und, stats, samples = [], [], {}, []
    try:
        crates = tuple(p["crates"])
        prog = mir.Program(build.ensure(crates))
        for name in p["analyses"]:
            r = registry.run(name, prog, crates, thorough)
            viol += [v for v in r["viol"] if pid in v["props"]]
            und += ["%s: %s" % (name, u) for u in r["undecided"] if r.get("undecided_props") is None or pid in r["undecided_props"](u)]
            for k, v in r["stats"].items():
                stats[name + "." + k] = v
            samples += r.get("samples", [])[:12]
    except build.BuildError as x:
        viol.append(dict(props=[pid], key="build", what="the crate does not compile", detail=str(x)[-1500:], where=""))
    except Exception as x:
        # fail closed: an analysis that cannot follow the code reports what it could not follow
        viol.append(dict(props=[pid], key="internal", what="the analysis does not understand the code", detail=traceback.format_exc()[-1500:], where=""))
    kn = known()
    fresh, hit = [], set()
    for v in viol:
        k = [f for f in kn["findings"] if f["property"] == pid and f["key"] == v["key"] and f.get("detail", "") in v.get("detail", "")]
        if k:
            hit.add((k[0]["key"], k[0]["what"]))
        else:
            fresh.append(v)
    seen, uniq = set(), []
    for v in fresh:
        if v["key"] not in seen:
            seen.add(v["key"])
            uniq.append(v)
    checked = sum(v for k, v in stats.items() if k.endswith((".obligations", ".items", ".checked")))
    cov = dict(stats)
    cov.update(explanation=p["rule"], rule=p["rule"], analysed=stats, samples=samples[:20] or [p["rule"]], undecided=und[:40],
               undecided_count=len(und), obligations=checked, discharged=max(0, checked - len(viol) - len(und)),
               checker_cmd="python3 analyzer/check.py %s%s" % (pid, " --thorough" if thorough else ""),
               trusted_base=["rustc's MIR construction and type checker", "the library models in analyzer/models.py",
                             "the specification tables in analyzer/"], evaluations=checked, distinct_nontrivial=checked)
    ev = dict(property=pid, tier=tier, seed=seed, level=p["level"], coverage=cov, assumptions=p.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(uniq))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for k, w in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    for i, v in enumerate(uniq[:10]):
        rp = os.path.join(VERIF, "evidence", "%s.violation-%d.json" % (pid, i))
        json.dump(v, open(rp, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  %s: %s" % (v["key"], (v.get("detail") or "")[:600]))
        if v.get("where"):
            print("  at %s" % v["where"])
        if v.get("cond"):
            print("  when %s" % v["cond"][:600])
    print("%s: %s; %d obligations, %d undecided, %.1f s" % (pid, "VIOLATED" if uniq else "holds", checked, len(und), time.time() - t0))
    sys.exit(1 if uniq else 0)


if __name__ == "__main__":
    main()
