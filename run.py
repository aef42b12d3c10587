#!/usr/bin/env python3
"""run.py check <property> [--tier quick|thorough]     run.py replay <file>     run.py setup"""
import importlib, json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vf


def main(a):
    if a[0] == "check":
        prop = a[1]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        seed = int(os.environ.get("VERIF_SEED", "1"))
        registry = importlib.import_module("registry")
        c = vf.Check(prop, tier, seed)
        try:
            try:
                registry.CHECKS[prop](c)
            except vf.Violation as v:
                c.evidence(violations=1)
                print("property %s does not hold:\n%s" % (prop, v.what[:3000]))
                print("VIOLATION property=%s replay=%s" % (prop, v.replay))
                return 1
            except vf.MachineryError as e:
                sys.stderr.write("check of %s could not be carried out: %s\n" % (prop, e))
                return 2
            c.evidence()
            for t in sorted(set(c.known_hit)):
                print("KNOWN-FINDING: property=%s %s" % (prop, t))
            print("property %s held: %d histories, %d events, %d states, %.1f s" % (prop, c.cov["traces_validated_against_impl"],
                  c.cov["events_validated"], c.cov["states"], __import__("time").time() - c.t0))
            return 0
        finally:
            c.close()
    if a[0] == "replay":
        d = json.load(open(a[1]))
        c = vf.Check(d["property"], "quick", 1)
        sc = vf.Scenario(d["scenario"], d["script"])
        b = vf.build(d["harness"], d["variant"])
        o = vf.run_harness(b, [sc], d["variant"], jobs=1, env=d.get("env"), omp=d.get("omp"), stall=d.get("stall", 60))
        _, bad = c._validate(d["spec"], [sc], o, d.get("cfg"), 1, d.get("tlc_env"))
        for e in o[0].events[-20:]:
            print(e[:300])
        print("crash:", o[0].crash)
        print("rejected:", bad.get(0))
        c.close()
        return 1 if o[0].crash or bad else 0
    if a[0] == "setup":
        os.makedirs(os.path.join(vf.VERIF, "evidence"), exist_ok=True)
        rc, out = vf._run(["java", "-version"])
        return rc
    sys.stderr.write(__doc__ + "\n")
    return 2


sys.exit(main(sys.argv[1:] or ["help"]))
