#!/usr/bin/env python3
"""check.py PROPERTY: decides one property from /repo's current sources.  Exit 0 or 1 (with VIOLATION lines)."""
import sys, os, time, json, re, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))


def known():
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", line.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from dump import Dump, DumpError, WORK
    import registry
    spec = registry.CHECKS[prop]
    violations = []
    res = None
    try:
        dump = Dump()
        res = spec["run"](dump, tier)
        violations = res["violations"]
    except DumpError as e:
        # a tree that does not compile is outside the scope of the property: no answer
        print(str(e)[-3000:])
        sys.exit(2)
    except Exception as e:
        traceback.print_exc()
        kind = type(e).__name__
        # the code has left the shape for which the argument was made: no violation is known, and none is reported
        res = {"undecided": ["everything: %s: %s" % (kind, str(e)[:300])],
               "coverage": {"obligations": 1, "discharged": 0, "checker_cmd": "python3 check.py " + prop, "trusted_base": [], "explanation": "undecided"}}
    kf = known().get(prop, {})
    new = []
    seen = set()
    for v in violations:
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        if v["key"] in kf:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf[v["key"]]))
        else:
            new.append(v)
    cov = dict(res["coverage"])
    und = res.get("undecided") or []
    if und:
        cov["undecided"] = und
        for u in und:
            print("UNDECIDED property=%s %s" % (prop, u))
    level = spec["level"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 2),
          "violations": len(new), "assumptions": spec.get("assumptions", []) + registry.COMMON_ASSUMPTIONS}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    if new:
        os.makedirs(WORK, exist_ok=True)
        rp = os.path.join(WORK, "report-%s.txt" % prop)
        with open(rp, "w") as f:
            for v in new:
                loc = v.get("loc")
                f.write("%s\n  key: %s\n  at: %s\n\n" % (v["what"], v["key"], " ".join(map(str, loc)) if loc else "-"))
        for v in new[:20]:
            loc = v.get("loc")
            print("%s: %s [%s]" % (" ".join(map(str, loc)) if loc else "-", v["what"], v["key"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    print("OK property=%s %s (%.1f s)" % (prop, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, float))}), time.time() - t0))
    sys.exit(0)


main()
