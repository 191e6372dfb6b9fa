#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md, the registry and the results of tools/trybug.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS
ORACLE = {
 "C01": "long-double jet of the same tree; domain and codomain rules of the mathematics",
 "C02": "n-th Taylor coefficient of the jet of the same tree",
 "C03": "shadow heap of models: after every step all live registers are compared (value, domain, codomain, derivative)",
 "C04": "typing rules as a decision table; operands re-observed after a refusal",
 "C05": "piecewise definition in long double (basis functions from their definitions)",
 "C06": "derivatives of the piecewise definition",
 "C07": "coefficient-free pointwise sums of the models; refusal/equality decision table",
 "C08": "definitions: Legendre recurrence, products over nodes, complex exponentials; Gauss-Legendre integrals for Gram matrices",
 "C09": "dense long-double solution of the interpolation conditions",
 "C10": "a freshly created object asked the same request (differential oracle)",
 "C11": "implicit differentiation of the reference system in long double",
 "C12": "integrals of the squared derivatives of the reference interpolant; analytic gradient",
 "C13": "derivatives/jumps of the piecewise definition; zero structure of the matrices",
 "C14": "exact integrals of Legendre polynomials/monomials, reference nodes by bisection",
 "C15": "closed-form and Gauss-Legendre reference integrals",
 "C16": "node-by-node model of the grid values",
 "C17": "reparametrised model; dense sampling of speeds/accelerations",
 "C18": "Python jets / piecewise definitions evaluated in Python, independent of the extension module",
 "C19": "polynomial interpolation from the definition in long double",
 "C20": "sequential results of each thread; absence of conflicting accesses makes every interleaving equivalent to the explored one, conflicting ones are enumerated with a preemption bound",
 "C21": "reference Sobolev cost, decision table of solver answers",
 "C22": "definitions of the operators on the reference grid",
}
t = open(V + "/tools/DESIGN.in.md").read()
rows = []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    c = CHECKS.get(p["id"])
    rows.append("| %s %s | %s | %s |" % (p["id"], p["title"], (c["bounds"] if c else "*no check yet*").replace("|", "/"), ORACLE[p["id"]]))
res = {}
rp = V + "/tools/bugs/results.json"
if os.path.exists(rp):
    res = json.load(open(rp))
bugs = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % b))
    r = res.get(b, {})
    bugs.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], ", ".join(k for k in sorted(r) if r[k] == 1) or "not caught" if r else "not tried"))
open(V + "/DESIGN.md", "w").write(t.replace("%TABLE%", "\n".join(rows)).replace("%BUGS%", "\n".join(bugs)))
