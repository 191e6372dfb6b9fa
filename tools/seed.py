#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/bugs/<id>.py (edits + demo), diffing against /repo's HEAD in a scratch tree.
usage: seed.py ID...   (development tool; no check uses it)"""
import sys, os, subprocess, tempfile, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CPP = '''#!/bin/bash
# exit 0: behaves as promised; non-zero: broken
set -e
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -I/repo/include -isystem /usr/include/eigen3 "$d/demo.cpp" -o "$t/demo" -L/repo/_build -lgsplines -Wl,-rpath,/repo/_build
"$t/demo" > "$t/out" 2> "$t/err" || { rc=$?; tail -n 5 "$t/err"; exit $rc; }
'''
PY = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
MPLBACKEND=Agg MPLCONFIGDIR=/repo/_build/mpl PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/python:/repo/_build /usr/bin/python3 "$d/demo.py"
'''
for bid in sys.argv[1:]:
    ns = {}
    exec(open(os.path.join(V, "tools/bugs", bid + ".py")).read(), ns)
    t = tempfile.mkdtemp(prefix="seed")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w", "HEAD"])
    try:
        for f, old, new in ns["edits"]:
            p = os.path.join(t, "w", f)
            s = open(p).read()
            assert s.count(old) == 1, (bid, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/w", "diff"], text=True)
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
        shutil.rmtree(t)
    d = os.path.join(V, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(d + "/meta.json", "w"), indent=1)
    if "cpp" in ns:
        open(d + "/demo.cpp", "w").write(ns["cpp"])
        open(d + "/demo.sh", "w").write(ns.get("sh", CPP))
    elif "py" in ns:
        open(d + "/demo.py", "w").write(ns["py"])
        open(d + "/demo.sh", "w").write(PY)
    for x in ns.get("extra", []):
        shutil.copytree(os.path.join(V, x), os.path.join(d, x), dirs_exist_ok=True)
    os.chmod(d + "/demo.sh", 0o755)
    print("wrote", d)
