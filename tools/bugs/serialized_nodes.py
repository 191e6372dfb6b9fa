prop="C18"
needs="a spline over a Lagrange basis whose nodes need more than six significant digits, through gspline_to_dict/dict_to_gspline"
breaks="the round trip rebuilds the spline over slightly different nodes: values and parameters are no longer those of the original"
edits=[("python/gsplines/serialization.py","""    result['parameters'] = list(_basis.get_parameters())
""","""    # keep the text form compact
    result['parameters'] = [float(f'{p:.6g}') for p in _basis.get_parameters()]
""")]
py=r'''
import sys
import numpy as np
import gsplines
from gsplines.serialization import gspline_to_dict, dict_to_gspline
nodes = np.array([-1.0, -1.0 / 3.0, 1.0 / 3.0, 1.0])
b = gsplines.basis.BasisLagrange(nodes)
g = gsplines.GSpline((0.0, 2.0), 1, 2, b, np.array([1e3, -2e3, 3e3, -4e3, 4e3, 1e3, -2e3, 5e3]), np.array([0.75, 1.25]), "gspline")
h = dict_to_gspline(gspline_to_dict(g))
t = np.linspace(0.0, 2.0, 41)
e = np.max(np.abs(g(t) - h(t)))
p = np.max(np.abs(h.get_basis().get_parameters() - nodes))
if not (e < 1e-9 and p < 1e-14):
    print("round trip changed the spline by", e, "and its parameters by", p)
    sys.exit(1)
'''
