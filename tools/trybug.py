#!/usr/bin/env python3
"""trybug.py [--nocheck] ID...: applies a planted bug to /repo, builds, runs stable tests, demo and its check, reverts."""
import sys, os, subprocess, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
nocheck = "--nocheck" in a
extra = [x[2:] for x in a if x.startswith("--C")]
ids = [x for x in a if not x.startswith("--")]
def run(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not run(["git", "-C", "/repo", "status", "--porcelain"]).stdout.strip(), "repo dirty"
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
for b in ids:
    d = os.path.join(V, "seeded", b)
    m = json.load(open(d + "/meta.json"))
    r = run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if r.returncode: print(b, "DOES NOT APPLY", r.stdout); continue
    try:
        run(["bash", "/opt/vp/test.sh", "/tmp/trybug.json"])
        o = json.load(open("/tmp/trybug.json"))
        bad = [x for x in stable if x not in o["passed"]]
        demo = run(["bash", d + "/demo.sh"], cwd="/repo")
        line = "%s tests:%s demo:%d" % (b, "ok" if not bad else "FAIL " + str(bad[:4]), demo.returncode)
        print(line, demo.stdout.strip()[-300:], flush=True)
        if not nocheck:
            for c in [m["property"]] + extra:
                t = time.time()
                k = run(["python3", V + "/check.py", c])
                print("   %s rc=%d %.0fs %s" % (c, k.returncode, time.time() - t, "\n      ".join(k.stdout.strip().splitlines()[:4])[:700]), flush=True)
                rp = V + "/tools/bugs/results.json"
                res = json.load(open(rp)) if os.path.exists(rp) else {}
                res.setdefault(b, {})[c] = k.returncode
                json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
run(["bash", "/opt/vp/build.sh"])
for b in ids:
    r = run(["bash", os.path.join(V, "seeded", b, "demo.sh")], cwd="/repo")
    print(b, "clean demo", r.returncode, r.stdout[-300:] if r.returncode else "")
