#!/usr/bin/env python3
"""tools/trybug.py [--no-test] [--all-checks] <id>...: applies seeded/<id>/patch.diff to /repo, builds, runs tests and demo and the property's check, reverts."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
def run(cmd, **k):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode("utf8", "replace")
args = [a for a in sys.argv[1:] if not a.startswith("--")]
notest = "--no-test" in sys.argv
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
assert run("git -C %s status --porcelain" % R)[1] == "", "repo not clean"
for i in args:
    d = os.path.join(V, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    res = []
    if not notest:
        run("bash /opt/vp/build.sh", cwd=R)
        rc, o = run("bash %s/demo.sh" % d, cwd=R, timeout=300)
        res.append("demo-clean=%d" % rc)
        if rc: print(o[-1500:])
    rc, o = run("git -C %s apply %s/patch.diff" % (R, d))
    if rc: print(i, "patch does not apply", o); continue
    try:
        if not notest:
            rc, o = run("bash /opt/vp/build.sh", cwd=R)
            res.append("build=%d" % rc)
            if rc: print(o[-1500:])
            run("bash /opt/vp/test.sh /tmp/trybug.json", cwd=R)
            passed = set(json.load(open("/tmp/trybug.json"))["passed"])
            res.append("tests=%s" % ("ok" if stable <= passed else "FAIL " + ",".join(stable - passed)))
            rc, o = run("bash %s/demo.sh" % d, cwd=R, timeout=300)
            res.append("demo-bug=%d" % rc)
        e = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
        t = time.time()
        rc, o = run("python3 run.py check %s --tier quick" % prop, cwd=V, env=e)
        hit = rc == 1 and "VIOLATION property=%s " % prop in o
        res.append("check %s=%s (%.0fs)" % (prop, "CAUGHT" if hit else "MISSED rc=%d" % rc, time.time() - t))
        if not hit: print(o[-1500:])
    finally:
        run("git -C %s checkout -- ." % R)
    print(i, " ".join(res), flush=True)
if not notest: run("bash /opt/vp/build.sh", cwd=R)
