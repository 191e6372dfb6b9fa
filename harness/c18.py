"""Python interface: trees of functions, splines, serialization, interpolation, costs; object lifetimes throughout.

Oracle: definitions evaluated here (Taylor arithmetic, piecewise polynomials, dense linear algebra); the extension
module is only ever the thing under test.
"""
import itertools, json, math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "mc"))
import pymc
import numpy as np
import gsplines
import gsplines.serialization as ser
from gsplines import basis as gb, functions as gf, functional_analysis as fa, collocation as gc

N = 3  # Taylor order carried along
FACT = [math.factorial(k) for k in range(N + 1)]


class Outside(Exception):
    """the point lies where derivatives of a held concatenation are not defined"""


# ------------------------------------------------------------------ Taylor arithmetic
def tmul(a, b):
    return [sum(a[i] * b[k - i] for i in range(k + 1)) for k in range(N + 1)]


def tadd(a, b, s=1.0):
    return [x + s * y for x, y in zip(a, b)]


def tcomp(f, g):
    """Taylor series of f (about g[0]) after g"""
    d = [0.0] + list(g[1:])
    r = [f[0]] + [0.0] * N
    p = [1.0] + [0.0] * N
    for k in range(1, N + 1):
        p = tmul(p, d)
        r = [x + f[k] * y for x, y in zip(r, p)]
    return r


# ------------------------------------------------------------------ bases
class RB:
    """reference basis"""

    def __init__(self, kind, par):
        self.kind, self.par = kind, par
        if kind == "legendre":
            self.dim = par
            self.p = [np.polynomial.Polynomial(np.polynomial.legendre.leg2poly([0] * i + [1])) for i in range(par)]
        elif kind == "lagrange":
            self.dim = len(par)
            self.p = []
            for i, x in enumerate(par):
                q = np.polynomial.Polynomial([1.0])
                for j, y in enumerate(par):
                    if j != i:
                        q = q * np.polynomial.Polynomial([-y, 1.0]) / (x - y)
                self.p.append(q)
        else:
            self.dim = 6
            self.k = math.sqrt(2) / 4 * par ** 0.25 / (1 - par) ** 0.25

    def __str__(self):
        return "%s(%s)" % (self.kind, self.par)

    def ev(self, s, tau, d=0):
        if self.kind != "0101":
            f = (2 / tau) ** d
            return np.array([(q.deriv(d) if d else q)(s) * f for q in self.p])
        p, kk = tau * self.k * s, (2 * self.k) ** d
        a, b = np.exp((1 + 1j) * p) * (1 + 1j) ** d, np.exp((-1 + 1j) * p) * (-1 + 1j) ** d
        return kk * np.array([a.real, a.imag, b.real, b.imag, p if d == 0 else 1.0 if d == 1 else 0.0, 1.0 if d == 0 else 0.0])

    def ev_dtau(self, s, tau, d):
        if self.kind != "0101":
            return -d / tau * self.ev(s, tau, d)
        return self.ev(s, tau, d + 1) * s / 2

    def scale(self, tau, d):
        if self.kind != "0101":
            sep = 2.0
            if self.kind == "lagrange":
                sep = min([abs(x - y) for x, y in itertools.combinations(self.par, 2)] + [2.0])
            return (max(self.dim ** 2 / 2, 4 / sep) * 2 / tau) ** d
        return (2 * math.sqrt(2) * self.k) ** d * math.exp(tau * self.k)

    def make(self, how=0):
        """how: 0 constructor, 1 static get, 2 factory"""
        if how == 2:
            if self.kind == "legendre":
                return gb.get_basis("legendre", self.dim, [])
            if self.kind == "lagrange":
                return gb.get_basis("lagrange", self.dim, list(self.par))
            return gb.get_basis("basis0101", 6, [self.par])
        c = {"legendre": gb.BasisLegendre, "lagrange": gb.BasisLagrange, "0101": gb.Basis0101}[self.kind]
        a = np.array(self.par, dtype=float) if self.kind == "lagrange" else self.par
        r = c.get(a) if how == 1 else c(a)
        if self.kind == "lagrange":
            a[:] = 77.0
        return r


BASES = [RB("legendre", n) for n in (1, 2, 3, 4, 6, 7)] + [
    RB("lagrange", p) for p in ((0.25,), (-1.0, 1.0), (-1.0, 0.0, 1.0), (-0.9, -0.2, 0.3, 0.8), (0.5, -1.0, 1.0, -0.3),
                                (-1.0, -0.6, -0.2, 0.2, 0.6, 1.0), (-1.0, -1 / 3, 1 / 3, 1.0))] + [RB("0101", a) for a in (0.3, 0.5, 0.9, 1 / 3)]
EVEN = [b for b in BASES if b.dim in (2, 4, 6)]


def bcheck(c, ob, b, key):
    """a Python basis object behaves as b"""
    c.check(ob.get_dim() == b.dim, key, lambda: "dimension %r of %s" % (ob.get_dim(), b))
    for s, tau, d in ((-1.0, 1.0, 0), (0.3, 0.7, 0), (0.3, 0.7, 1), (0.9, 2.0, 2)):
        v = np.full(b.dim, 5.0)
        if d == 0:
            ob.eval_on_window(s, tau, v)
        else:
            ob.eval_derivative_on_window(s, tau, d, v)
        w, sc = b.ev(s, tau, d), 1 + b.scale(tau, d)
        for i in range(b.dim):
            if not c.close(v[i], w[i], 1e-9, key, lambda: "%s function %d s=%g order %d" % (b, i, s, d), sc):
                return False
    v = np.full(b.dim, 5.0)
    ob.eval_derivative_wrt_tau_on_window(0.4, 1.3, 1, v)
    w = b.ev_dtau(0.4, 1.3, 1)
    return all(c.close(v[i], w[i], 1e-9, key, "tau derivative of function %d of %s" % (i, b), 1 + 4 * b.scale(1.3, 1)) for i in range(b.dim))


# ------------------------------------------------------------------ functions
class FR:
    """reference function; jet(t) -> per component Taylor coefficients"""

    def __init__(self, name, dom, codom, jet, mk=None, size=1, arith=True):
        self.name, self.dom, self.codom, self.raw, self.mk, self.size, self.arith = name, dom, codom, jet, mk, size, arith
        self.memo = {}

    def jet(self, t):
        r = self.memo.get(t)
        if r is None:
            if len(self.memo) > 3000:
                self.memo.clear()
            r = self.memo[t] = self.raw(t)
        return r


def scalar(f):
    return lambda t: [f(t)]


D0, D1, D2 = (0.0, 1.0), (1.0, 2.5), (-1.0, 0.0)


class RS:
    """reference spline"""

    def __init__(self, b, start, codom, tau, seed):
        self.b, self.codom, self.tau = b, codom, list(tau)
        self.dom = (start, start + sum(tau))
        k = len(tau) * codom * b.dim
        # exact in single precision and, for seed < 0, integers
        self.coef = [float((3 * i * i + 5 * i - 7 * seed) % 11 - 5) / (1 if seed < 0 else 4) for i in range(k)]

    def left(self, i):
        return self.dom[0] + sum(self.tau[:i])

    def interval(self, t):
        for i in range(len(self.tau)):
            if t <= self.left(i + 1):
                return i
        return len(self.tau) - 1

    def at(self, i, c, s, d):
        o = (i * self.codom + c) * self.b.dim
        v = self.b.ev(s, self.tau[i], d)
        k = np.array(self.coef[o:o + self.b.dim])
        return float(k @ v), float(np.abs(k).sum() * (1 + self.b.scale(self.tau[i], d)))

    def val(self, t, c, d=0):
        i = self.interval(t)
        return self.at(i, c, 2 * (t - self.left(i)) / self.tau[i] - 1, d)

    def jet(self, t):
        return [[self.val(t, c, k)[0] / FACT[k] for k in range(N + 1)] for c in range(self.codom)]

    def make(self, basis=None, form=lambda x: np.array(x)):
        return gsplines.GSpline(self.dom, self.codom, len(self.tau), basis or self.b.make(), form(self.coef), form(self.tau), "g")


def atoms():
    L = []

    def trig(shift):
        return lambda t: [math.sin(t + (shift + k) * math.pi / 2) / FACT[k] for k in range(N + 1)]

    def poly(co):
        def f(t):
            p = np.polynomial.Polynomial(co)
            return [float((p.deriv(k) if k else p)(t)) / FACT[k] for k in range(N + 1)]
        return f
    for d in (D0, D1):
        L.append(FR("sin", d, 1, scalar(trig(0)), lambda d=d: gf.Sin(d)))
        L.append(FR("cos", d, 1, scalar(trig(1)), lambda d=d: gf.Cos(d)))
        L.append(FR("exp", d, 1, scalar(lambda t: [math.exp(t) / FACT[k] for k in range(N + 1)]), lambda d=d: gf.Exponential(d)))
        L.append(FR("id", d, 1, scalar(lambda t: [t, 1.0, 0.0, 0.0]), lambda d=d: gf.Identity(d)))
        L.append(FR("dil", d, 1, scalar(lambda t: [-0.5 * t, -0.5, 0.0, 0.0]), lambda d=d: gf.DomainLinearDilation(d, -0.5)))
        L.append(FR("const", d, 1, scalar(lambda t: [1.75, 0.0, 0.0, 0.0]), lambda d=d: gf.ConstFunction(d, 1, 1.75)))
        L.append(FR("vconst", d, 3, lambda t: [[-2.5, 0.0, 0.0, 0.0]] * 3, lambda d=d: gf.ConstFunction(d, 3, -2.5)))

        def mkpoly(d=d):
            a = np.array([1.0, -2.0, 0.5, 3.0])
            r = gf.CanonicPolynomial(d, a)
            a[:] = 9e9
            return r
        L.append(FR("poly", d, 1, scalar(poly([1.0, -2.0, 0.5, 3.0])), mkpoly))

        def mkdot(d=d):
            a, b = gf.Sin(d) + gf.Cos(d), gf.Identity(d) * gf.ConstFunction(d, 1, 2.0)
            return gf.DotProduct(a, b)
        L.append(FR("dotc", d, 1, scalar(lambda t: tmul(tadd(trig(0)(t), trig(1)(t)), [2 * t, 2.0, 0.0, 0.0])), mkdot))
        for codom in (1, 3):
            s = RS(RB("legendre", 4), d[0], codom, (0.5, d[1] - d[0] - 0.5), 2)
            L.append(FR("spline%d" % codom, d, codom, s.jet, s.make, arith=False))
    return L


def node(op, a, b=None):
    """model of an operation, or None when the rules reject it"""
    near = lambda x, y: abs(x - y) < 1e-9
    same = b is not None and near(a.dom[0], b.dom[0]) and near(a.dom[1], b.dom[1])
    sz = a.size + (b.size if b else 0) + 1
    nm = "%s(%s%s)" % (op, a.name, "," + b.name if b else "")
    if op == "neg":
        return FR(nm, a.dom, a.codom, lambda t: [[-x for x in r] for r in a.jet(t)], size=sz)
    if op in "+-":
        if not same or a.codom != b.codom:
            return None
        s = 1.0 if op == "+" else -1.0
        return FR(nm, a.dom, a.codom, lambda t: [tadd(x, y, s) for x, y in zip(a.jet(t), b.jet(t))], size=sz)
    if op == "*":
        if not same or (a.codom > 1 and b.codom > 1):
            return None

        def f(t):
            x, y = a.jet(t), b.jet(t)
            n = max(len(x), len(y))
            return [tmul(x[i if len(x) > 1 else 0], y[i if len(y) > 1 else 0]) for i in range(n)]
        return FR(nm, a.dom, max(a.codom, b.codom), f, size=sz)
    if op == "dot":
        if not same or a.codom != b.codom:
            return None

        def f(t):
            r = [0.0] * (N + 1)
            for x, y in zip(a.jet(t), b.jet(t)):
                r = tadd(r, tmul(x, y))
            return [r]
        return FR(nm, a.dom, 1, f, size=sz)
    if op == "compose":
        if b.codom != 1:
            return None

        def f(t):
            g = b.jet(t)[0]
            return [tcomp(x, g) for x in a.jet(g[0])]
        return FR(nm, b.dom, a.codom, f, size=sz)
    if op == "concat":
        if a.codom != b.codom or not near(a.dom[1], b.dom[0]):
            return None

        def f(t):
            if t < a.dom[0] or t > b.dom[1] or abs(t - a.dom[1]) < 1e-9:
                raise Outside()
            return (a if t < a.dom[1] else b).jet(t)
        return FR(nm, (a.dom[0], b.dom[1]), a.codom, f, size=sz)


def apply(op, x, y=None):
    return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "dot": lambda: x.dot(y), "neg": lambda: -x,
            "compose": lambda: x.compose(y), "concat": lambda: x.concat(y)}[op]()


FR_POINTS = [0.0625, 0.3, 0.55, 0.8125, 0.98]


def points(dom):
    return [dom[0] + (dom[1] - dom[0]) * u for u in FR_POINTS]


def observe(c, ob, m, key, deriv=0, orders=(0,)):
    """values of the Python function ob against Taylor coefficient 'deriv' of the model"""
    if not c.check(ob.get_codom_dim() == m.codom, key, lambda: "codomain %r of %s" % (ob.get_codom_dim(), m.name)):
        return False
    d = ob.get_domain()
    if not c.check(abs(d[0] - m.dom[0]) < 1e-9 and abs(d[1] - m.dom[1]) < 1e-9, key, lambda: "domain %r of %s" % (d, m.name)):
        return False
    ts = points(m.dom)
    v = ob(np.array(ts))
    if not c.check(v.shape == (len(ts), m.codom), key, lambda: "shape %r" % (v.shape,)):
        return False
    for i, t in enumerate(ts):
        try:
            j = m.jet(t)
        except Outside:
            continue
        except OverflowError:
            continue
        for k in range(m.codom):
            w = j[k][deriv] * FACT[deriv]
            sc = 1.0 + max(abs(x) for x in j[k][:deriv + 1]) * FACT[deriv]
            if abs(w) > 1e10 or sc > 1e10:
                continue
            if not c.close(v[i, k], w, 1e-8, key, lambda: "%s order %d at %g component %d" % (m.name, deriv, t, k), sc):
                return False
    return True


OPS = ["+", "-", "*", "dot", "compose", "concat"]


def usable(op, a, b):
    if op in "+-*":
        return a.arith and b.arith
    if op in ("compose", "concat"):
        # Function and FunctionExpression take functions, splines take any
        return not a.arith or b.arith
    return True


def combine(c, op, ma, mka, mb, mkb, deep):
    """one operation: verdict, value, operands intact, result survives its operands, derivatives survive the result"""
    c.trans()
    m = node(op, ma, mb)
    c.note("%s %s %s on %s and %s" % (ma.name, op, mb.name, ma.dom, mb.dom))
    x = mka()
    y = x if mkb is mka else mkb()
    try:
        r = apply(op, x, y)
    except ValueError:
        if not c.check(m is None, "accepts", "a well typed combination was refused"):
            return None
        if deep:
            observe(c, x, ma, "operand-after-refusal")
            observe(c, y, mb, "operand-after-refusal")
        return None
    if not c.check(m is not None, "rejects", "an ill typed combination was accepted"):
        return None
    c.state(m.name + str(m.dom))
    if not observe(c, r, m, "value"):
        return None
    if deep and not (observe(c, x, ma, "operand") and observe(c, y, mb, "operand")):
        return None
    del x, y
    if not observe(c, r, m, "value-after-operands-died"):
        return None
    for k in (1, 2, 3) if deep else (1, 2):
        d = r.deriv(k)
        if not observe(c, d, m, "derivative", k):
            return None
    d = r.deriv()
    d = d.deriv(1)
    dd = r.deriv(0)
    n = -r
    del r
    if not (observe(c, d, m, "derivative-after-death", 2) and observe(c, dd, m, "derivative-after-death", 0) and
            observe(c, n, node("neg", m), "negation-after-death")):
        return None
    c.trace()
    return m


# ------------------------------------------------------------------ array forms
def strided(x):
    a = np.full(2 * len(x) + 1, 333.0)
    a[1::2] = x
    return a[1::2]


def fortran_row(x):
    a = np.full((3, len(x)), -4.0, order="F")
    a[1] = x
    return a[1]


def reverse(x):
    # (a one-element view with a negative stride is not accepted by pybind11 itself)
    return np.array(list(x)[::-1])[::-1] if len(x) > 1 else np.array(x)


def readonly(x):
    a = np.array(x)
    a.setflags(write=False)
    return a


FORMS = [("array", np.array), ("list", list), ("tuple", tuple), ("strided", strided), ("row of F matrix", fortran_row),
         ("reversed view", reverse), ("read-only", readonly), ("float32", lambda x: np.array(x, dtype=np.float32)),
         ("column", lambda x: np.array(x).reshape(-1, 1))]
INTFORMS = [("int64", lambda x: np.array(x, dtype=np.int64)), ("ints", lambda x: [int(v) for v in x])]


def spoil(a):
    try:
        a[:] = [0] * len(a) if isinstance(a, list) else 1e8
    except (TypeError, ValueError):
        pass


def spline_check(c, s, m, key, orders=3):
    if not c.check(s.get_codom_dim() == m.codom and s.get_number_of_intervals() == len(m.tau), key, "shape"):
        return False
    d = s.get_domain()
    if not c.check(abs(d[0] - m.dom[0]) < 1e-12 and abs(d[1] - m.dom[1]) < 1e-12 and abs(s.get_domain_length() - (m.dom[1] - m.dom[0])) < 1e-12, key, "domain"):
        return False
    if not c.check(np.array_equal(np.ravel(s.get_coefficients()), m.coef) and np.array_equal(np.ravel(s.get_interval_lengths()), m.tau), key, "coefficients or lengths"):
        return False
    bp = [m.left(i) for i in range(len(m.tau) + 1)]
    if not c.check(np.allclose(s.get_domain_breakpoints(), bp, atol=1e-12), key, "breakpoints"):
        return False
    w = s.get_waypoints()
    if not c.check(w.shape == (len(bp), m.codom), key, "waypoints shape"):
        return False
    for i, t in enumerate(bp):
        for k in range(m.codom):
            e, sc = m.at(min(i, len(m.tau) - 1) if i == 0 else i - 1, k, -1.0 if i == 0 else 1.0, 0)
            if not c.close(w[i, k], e, 1e-9, key, "waypoint", sc):
                return False
    ts = [m.left(i) + m.tau[i] * u for i in range(len(m.tau)) for u in (0.125, 0.625)]
    f = s
    for o in range(orders + 1):
        v = (s if o == 0 else s.deriv(o))(np.array(ts))
        for i, t in enumerate(ts):
            for k in range(m.codom):
                e, sc = m.val(t, k, o)
                if not c.close(v[i, k], e, 1e-9, key, lambda: "order %d at %g" % (o, t), 1 + sc):
                    return False
    return True


# ------------------------------------------------------------------ interpolation
def interp(b, tau, wp):
    """coefficients in the library's layout and the matrices for sensitivities"""
    n, dim = len(tau), b.dim
    rows = []

    def put(terms, rhs):
        rows.append((terms, rhs))
    for i in range(n):
        put([(i, -1, 0, 1)], wp[i])
        put([(i, 1, 0, 1)], wp[i + 1])
    z = np.zeros(wp.shape[1])
    for d in range(1, dim // 2):
        put([(0, -1, d, 1)], z)
        put([(n - 1, 1, d, 1)], z)
    for i in range(n - 1):
        for d in range(1, dim - 1):
            put([(i, 1, d, 1), (i + 1, -1, d, -1)], z)
    A = np.zeros((n * dim, n * dim))
    dA = [np.zeros_like(A) for _ in range(n)]
    R = np.zeros((n * dim, wp.shape[1]))
    for r, (terms, rhs) in enumerate(rows):
        R[r] = rhs
        for i, s, d, sg in terms:
            A[r, i * dim:(i + 1) * dim] += sg * b.ev(s, tau[i], d)
            dA[i][r, i * dim:(i + 1) * dim] += sg * b.ev_dtau(s, tau[i], d)
    sc = 1 / np.abs(A).max(axis=1)
    S = np.linalg.solve(sc[:, None] * A, sc[:, None] * R)

    def lay(X):
        o = []
        for i in range(n):
            for k in range(wp.shape[1]):
                o += list(X[i * dim:(i + 1) * dim, k])
        return o
    dS = [lay(np.linalg.solve(sc[:, None] * A, -sc[:, None] * (dA[i] @ S))) for i in range(n)]
    return lay(S), dS


def waypoints(n, cd, seed):
    return np.array([[math.sin(2.1 * i + 1.3 * j + 0.7 * seed) * (1 + (i + 2 * j + seed) % 3) for j in range(cd)] for i in range(n + 1)])


def taus(n, seed):
    return np.array([0.6 + 0.35 * ((i * 3 + seed * 2) % 4) for i in range(n)])


WFORMS = [("C", lambda w: np.array(w, order="C")), ("F", lambda w: np.array(w, order="F")), ("lists", lambda w: [list(r) for r in w]),
          ("strided", lambda w: np.repeat(np.repeat(w, 2, 0), 2, 1)[::2, ::2]), ("transposed view", lambda w: np.array(w.T).T),
          ("reversed", lambda w: np.array(w[::-1])[::-1])]


def near(c, got, want, key, msg, tol=1e-7):
    got = np.ravel(np.asarray(got, dtype=float))
    if not c.check(len(got) == len(want), key, "wrong length: " + msg):
        return False
    sc = 1 + max(abs(x) for x in want)
    return all(c.close(got[i], want[i], tol, key, lambda: "%s entry %d" % (msg, i), sc) for i in range(len(want)))


def quad(f, a, b, n=40):
    x, w = np.polynomial.legendre.leggauss(n)
    return sum(wi * f(a + (b - a) * (xi + 1) / 2) for xi, wi in zip(x, w)) * (b - a) / 2


# ------------------------------------------------------------------ sections
def setup(add, thorough):
    A = atoms()
    AA = A if thorough else [a for a in A if a.dom == D0 or a.name in ("sin", "poly", "vconst", "spline1", "spline3", "const")]

    def sec_atoms(c, i):
        a = A[i]
        c.note("elementary %s on %s" % (a.name, a.dom))
        c.state(a.name + str(a.dom))
        x = a.mk()
        observe(c, x, a, "value")
        for k in (0, 1, 2, 3):
            d = x.deriv(k)
            observe(c, d, a, "derivative", k)
        d = x.deriv()
        c.check(x.is_point_in_domain((a.dom[0] + a.dom[1]) / 2) and not x.is_point_in_domain(a.dom[1] + 1) and not x.is_point_in_domain(a.dom[0] - 1), "domain", "is_point_in_domain")
        del x
        observe(c, d, a, "derivative-after-death", 1)
        # list forms of the evaluation points
        x = a.mk()
        ts = [a.dom[0] + (a.dom[1] - a.dom[0]) * u for u in (0.25, 0.75, 0.5)]
        ref = x(np.array(ts))
        for nm, form in FORMS:
            c.note("elementary %s on %s at points given as %s" % (a.name, a.dom, nm))
            c.trans()
            c.check(np.array_equal(x(form(ts)), ref), "point-forms", "value depends on how the points are given")
        c.trace()
    add("elementary", len(A), sec_atoms)

    def sec_pairs(c, i):
        a = AA[i]
        for b in AA:
            for op in OPS:
                if usable(op, a, b):
                    combine(c, op, a, a.mk, b, b.mk, True)
                    if a is b:
                        combine(c, op, a, a.mk, a, a.mk, True)
        c.trace()
    add("operations", len(AA), sec_pairs)

    # depth two: pairs of expressions, every intermediate object unnamed
    E = []
    base = {(a.name, a.dom): a for a in A}

    def e(op, x, y=None):
        a = base[x] if isinstance(x, tuple) else x
        b = base[y] if isinstance(y, tuple) else y
        m = node(op, a, b) if b else node(op, a)
        m.mk = (lambda: apply(op, a.mk(), b.mk())) if b else (lambda: apply(op, a.mk()))
        return m
    s0, c0, x0, i0, k0, v0, p0, g0, w0 = [(n, D0) for n in ("sin", "cos", "exp", "id", "const", "vconst", "poly", "spline1", "spline3")]
    s1, p1, v1, g1, w1 = [(n, D1) for n in ("sin", "poly", "vconst", "spline1", "spline3")]
    E += [e("+", s0, x0), e("-", p0, c0), e("*", s0, p0), e("*", c0, v0), e("*", v0, i0), e("neg", x0), e("compose", x0, s0),
          e("compose", s0, p0), e("compose", w0, i0), e("concat", s0, s1), e("concat", p0, p1), e("concat", v0, v1), e("concat", g0, g1), e("concat", w0, w1),
          e("dot", s0, c0), e("dot", w0, w0), e("dot", w0, v0), e("+", e("*", s0, k0), k0), e("*", e("+", s0, i0), e("-", x0, k0)),
          e("neg", e("*", p0, v0)), e("*", s1, p1), e("concat", e("+", s0, p0), s1), e("compose", e("concat", s0, s1), e("*", i0, i0)),
          e("+", e("concat", s0, s1), e("concat", p0, p1))]

    def sec_deep(c, i):
        a, b = E[i // len(E)], E[i % len(E)]
        for op in OPS:
            combine(c, op, a, a.mk, b, b.mk, thorough)
        if a is b:
            for op in OPS:
                combine(c, op, a, a.mk, a, a.mk, True)
    add("expressions", len(E) * len(E), sec_deep)

    # histories over three registers
    H = [[E[0], E[2], base[s0]], [E[9], E[21], E[23]], [E[3], E[4], E[1]], [E[6], base[i0], E[17]]]
    STEPS = [(op, i, j) for op in ("+", "*", "compose", "concat") for i, j in ((0, 1), (1, 0), (0, 0), (2, 1))] + [
        ("neg", 0, 0), ("neg", 1, 0), ("deriv", 0, 0), ("deriv", 2, 0), ("iadd", 0, 1), ("imul", 1, 0), ("bind", 0, 1), ("del", 1, 2)]
    depth = 3 if thorough else 2

    def step(c, regs, st):
        op, i, j = st
        (x, m), (y, n) = regs[i], regs[j]
        if op == "deriv":
            k = m.k + 1 if hasattr(m, "k") else 1
            if k > N:
                return False
            mm = FR("d" + m.name, m.dom, m.codom, lambda t, m=m: [[r[q + 1] * (q + 1) for q in range(N)] + [0.0] for r in m.jet(t)], size=m.size)
            mm.k = k
            regs[i] = (x.deriv(), mm)
            return True
        if op == "neg":
            mm = node("neg", m)
            mm.k = getattr(m, "k", 0)
            regs[i] = (-x, mm)
            return True
        if op == "bind":
            regs[i] = (y, n)
            return True
        if op == "del":
            regs[i] = regs[j]
            return True
        o = {"iadd": "+", "imul": "*"}.get(op, op)
        mm = node(o, m, n)
        try:
            if op == "iadd":
                z = x
                z += y
            elif op == "imul":
                z = x
                z *= y
            else:
                z = apply(o, x, y)
        except ValueError:
            c.check(mm is None, "accepts", "a well typed step was refused")
            return False
        if not c.check(mm is not None, "rejects", "an ill typed step was accepted"):
            return False
        mm.k = max(getattr(m, "k", 0), getattr(n, "k", 0))
        regs[i] = (z, mm)
        return True

    def sec_hist(c, idx):
        init, first = H[idx // len(STEPS)], STEPS[idx % len(STEPS)]
        for rest in itertools.product(STEPS, repeat=depth - 1):
            seq = (first,) + rest
            c.note("history %s from %s" % (" ; ".join("%s %d %d" % s for s in seq), [m.name for m in init]))
            regs = [(m.mk(), m) for m in init]
            for s in seq:
                c.trans()
                if not step(c, regs, s):
                    break
                if max(m.size for _, m in regs) > 40:
                    break
                c.state(tuple(m.name for _, m in regs))
                for x, m in regs:
                    if not observe(c, x, m, "register"):
                        return
            if c.failed:
                return
            for x, m in regs:
                if getattr(m, "k", 0) < N and m.size < 12:
                    d = x.deriv()
                    observe(c, d, m, "register-derivative", 1)
            c.trace()
    add("histories", len(H) * len(STEPS), sec_hist)

    # ---- splines: bases x shapes x array forms
    SH = [(b, how, n, cd, st) for b in range(len(BASES)) for how in range(3) for n in (1, 2, 3) for cd in (1, 2, 3) for st in (0.0, -3.5)
          if thorough or (b + how + n + cd + (st < 0)) % 3 == 0]

    def sec_splines(c, i):
        b, how, n, cd, st = SH[i]
        b = BASES[b]
        tau = [0.5, 1.25, 2.0][:n]
        for fi, (nm, form) in enumerate(FORMS + INTFORMS):
            ints = fi >= len(FORMS)
            m = RS(b, st, cd, [1.0, 2.0, 4.0][:n] if ints else tau, -3 if ints else 3)
            c.note("%s (made %d) intervals %d codomain %d start %g, data as %s" % (b, how, n, cd, st, nm))
            c.trans()
            c.state(("spline", str(b), how, n, cd, st, nm))
            ob = b.make(how)
            if fi == 0 and not bcheck(c, ob, b, "basis"):
                return
            co, ta = form(m.coef), form(m.tau)
            s = gsplines.GSpline(m.dom, cd, n, ob, co, ta, "g")
            spoil(co)
            spoil(ta)
            if not c.check(s.get_basis() == ob and s.get_basis_name() == ob.get_name(), "basis", "get_basis differs from the basis given"):
                return
            del co, ta, ob
            full = fi < 2
            if not spline_check(c, s, m, "spline", min(b.dim + 1, 4) if full else 1):
                return
            kc, kl, kw, kb = s.get_coefficients(), s.get_interval_lengths(), s.get_waypoints(), s.get_domain_breakpoints()
            keep = [np.array(z) for z in (kc, kl, kw, kb)]
            gb_, d1, sc = s.get_basis(), s.deriv(1), s.linear_scaling_new_execution_time((m.dom[1] - m.dom[0]) * 2)
            # arrays handed out are independent of the spline
            for z in (kc, kl, kw, kb):
                try:
                    z[...] = 5e7
                except ValueError:
                    pass
            if not spline_check(c, s, m, "spline-after-writing-to-returned-arrays", 1):
                return
            kc, kl, kw, kb = s.get_coefficients(), s.get_interval_lengths(), s.get_waypoints(), s.get_domain_breakpoints()
            del s
            if not c.check(all(np.array_equal(u, v) for u, v in zip(keep, (kc, kl, kw, kb))), "arrays", "arrays handed out changed when the spline died"):
                return
            if not bcheck(c, gb_, b, "basis-after-death"):
                return
            ts = [m.left(q) + m.tau[q] * 0.375 for q in range(n)]
            v, sv = d1(np.array(ts)), sc(np.array([m.dom[0] + 2 * (t - m.dom[0]) for t in ts]))
            for q, t in enumerate(ts):
                for k in range(cd):
                    e1, sc1 = m.val(t, k, 1)
                    e0, sc0 = m.val(t, k, 0)
                    if not c.close(v[q, k], e1, 1e-9, "derivative-after-death", "derivative", 1 + sc1):
                        return
                    if not c.close(sv[q, k], e0, 1e-9, "scaled", "rescaled spline", 1 + sc0):
                        return
            c.trace()
        if i % 40 == 0:
            c.sample("%s intervals %d codomain %d start %g: %d array forms" % (b, n, cd, st, fi + 1))
    add("splines", len(SH), sec_splines)

    # ---- equality and serialization
    def sec_serial(c, i):
        b, how, n, cd, st = SH[i]
        b = BASES[b]
        m = RS(b, st, cd, [0.5, 1.25, 2.0][:n], 3)
        # values that need all digits
        m.coef = [(x + 1 / 3 + 1e-9 * k) * (1.0 if k % 5 else 1e-7) for k, x in enumerate(m.coef)]
        m.tau = [x + 0.1 for x in m.tau]
        m.dom = (st, st + sum(m.tau))
        c.note("serialization of %s (made %d) intervals %d codomain %d start %g" % (b, how, n, cd, st))
        c.state(("ser", str(b), how, n, cd, st))
        s = m.make(b.make(how))
        for form in range(4):
            c.trans()
            d = ser.gspline_to_dict(s)
            if form == 1:
                d = json.loads(json.dumps(d))
            if form == 2:
                d = json.loads(json.dumps(json.loads(json.dumps(d)), sort_keys=True, indent=2))
            if form == 3:
                d2 = ser.gspline_to_dict(ser.dict_to_gspline(d))
                if not c.check(d2 == d, "serial-fixpoint", "serializing the rebuilt spline gives another dictionary"):
                    return
                d = dict(d2)
            r = ser.dict_to_gspline(d)
            if not c.check(r == s and s == r and not (r != s), "serial-equal", "the rebuilt spline is not equal to the original"):
                return
            for nm, u, v in (("coefficients", r.get_coefficients(), s.get_coefficients()), ("interval lengths", r.get_interval_lengths(), s.get_interval_lengths()),
                             ("basis parameters", r.get_basis().get_parameters(), s.get_basis().get_parameters()), ("domain", r.get_domain(), s.get_domain())):
                u, v = np.array(u, dtype=float), np.array(v, dtype=float)
                if not c.check(u.shape == v.shape and bool(np.all(np.abs(u - v) <= 1e-14 * (np.abs(v) + (1 if nm == "domain" else 0)))), "serial-digits", nm + " lose digits"):
                    return
            bd = ser.dict_to_basis(ser.basis_to_dict(s.get_basis()))
            if not c.check(bd == s.get_basis() and r.get_basis() == bd, "serial-basis", "the rebuilt basis is not equal"):
                return
            if not bcheck(c, bd, b, "serial-basis-value"):
                return
            d["coefficients"][0] += 1.0
            d["interval_lengths"][0] += 1.0
            d["basis"]["parameters"].append(1.0)
            del d
            if not spline_check(c, r, m, "serial-value", 2):
                return
            for o in (1, 2):
                dr = ser.dict_to_gspline(json.loads(json.dumps(ser.gspline_to_dict(s.deriv(o)))))
                if not c.check(dr == s.deriv(o), "serial-derivative", "derivative does not survive serialization"):
                    return
            c.trace()
        # dictionaries that lack a field or hold another kind of thing there
        d = ser.gspline_to_dict(s)
        for k in list(d) + ["basis.name", "basis.dim", "basis.parameters"]:
            for bad in ("missing", None, "text", {"a": 1}):
                q = json.loads(json.dumps(d))
                tgt, kk = (q["basis"], k.split(".")[1]) if "." in k else (q, k)
                if bad == "missing":
                    del tgt[kk]
                else:
                    if kk == "name" and bad == "text" or kk == "basis" and isinstance(bad, dict):
                        continue
                    tgt[kk] = bad
                c.trans()
                c.note("malformed dictionary: %s = %r" % (k, bad))
                try:
                    ser.dict_to_gspline(q)
                    c.fail("malformed", "a malformed dictionary was accepted")
                except TypeError:
                    c.check(True, "", "")
        # one attribute changed: no longer equal
        for k in ("coefficients", "interval_lengths", "start", "codom", "basis"):
            c.trans()
            c.note("%s intervals %d codomain %d start %g with other %s" % (b, n, cd, st, k))
            q = json.loads(json.dumps(d))
            if k == "coefficients":
                q[k][-1] += 0.5
            elif k == "interval_lengths":
                if n < 2:
                    continue
                q[k][0] += 0.2
                q[k][1] -= 0.2
            elif k == "start":
                q["domain_left_boundary"] += 1.0
                q["domain_right_boundary"] += 1.0
            elif k == "codom":
                if cd != 1 or n != 2:
                    continue
                q.update(codom_dim=2, number_of_intervals=1, interval_lengths=[m.dom[1] - m.dom[0]])
            else:
                o = [x for x in BASES if x.dim == b.dim and str(x) != str(b)]
                if not o:
                    continue
                q["basis"] = ser.basis_to_dict(o[0].make())
            r = ser.dict_to_gspline(q)
            c.check(not (r == s) and not (s == r) and r != s, "different", "splines that differ compare equal")
        c.trace()
    add("serialization", len(SH), sec_serial)

    # ---- every ordered pair of basis requests through every way, kept or dropped
    BB = BASES + [RB("lagrange", p) for p in ((-1.0, 0.001, 1.0), (-0.9, -0.2, 0.3001, 0.8), (-1.0, 1.001))] + [RB("0101", a) for a in (0.501, 0.5001)]

    def sec_bases(c, i):
        a, b = BB[i // len(BB)], BB[i % len(BB)]
        for h1, h2, keep in itertools.product(range(3), range(3), (0, 1)):
            c.note("%s (way %d) then %s (way %d), first one %s" % (a, h1, b, h2, "kept" if keep else "dropped"))
            c.trans()
            c.state(("bases", str(a), h1, str(b), h2, keep))
            x = a.make(h1)
            if keep:
                y = b.make(h2)
                if not (bcheck(c, x, a, "first") and bcheck(c, y, b, "second")):
                    return
                if not c.check((x == y) == (str(a) == str(b)) and (x != y) == (str(a) != str(b)), "basis-equality", "wrong verdict"):
                    return
                z = ser.dict_to_basis(ser.basis_to_dict(x))
                del x
                if not (bcheck(c, y, b, "second-after-death") and bcheck(c, z, a, "rebuilt")):
                    return
            else:
                bcheck(c, x, a, "first")
                x = b.make(h2)
                if not bcheck(c, x, b, "second"):
                    return
            c.trace()
    add("bases", len(BB) ** 2, sec_bases)

    # ---- interpolation
    IP = [(b, n, cd) for b in range(len(EVEN)) for n in (1, 2, 3, 4) for cd in (1, 2, 3) if EVEN[b].dim * n * cd <= (72 if thorough else 40)]

    def sec_interp(c, i):
        b, n, cd = IP[i]
        b = EVEN[b]
        T = [taus(n, s) for s in (0, 1)]
        W = [waypoints(n, cd, s) for s in (0, 1)]
        REF = {(t, w): interp(b, T[t], W[w]) for t in (0, 1) for w in (0, 1)}
        for wn, wf in WFORMS:
            for tn, tf in FORMS:
                if tn == "float32":
                    continue
                c.trans()
                c.note("interpolate on %s intervals %d codomain %d, waypoints as %s, lengths as %s" % (b, n, cd, wn, tn))
                c.state(("interp", str(b), n, cd, wn, tn))
                w, t, ob = wf(W[0]), tf(T[0]), b.make()
                s = gsplines.interpolate(t, w, ob)
                spoil(t)
                if isinstance(w, np.ndarray):
                    w[...] = 1e9
                del w, t, ob
                if not near(c, s.get_coefficients(), REF[0, 0][0], "interpolate", "coefficients"):
                    return
                if not c.check(np.allclose(s.get_waypoints(), W[0], atol=1e-8) and np.allclose(s.get_interval_lengths(), T[0]), "interpolate", "waypoints or lengths"):
                    return
        if b.kind == "legendre":
            s = gsplines.pw_polynomial_interpolation(T[1], W[1], b.dim)
            if not near(c, s.get_coefficients(), REF[1, 1][0], "pw_polynomial", "coefficients"):
                return
        # every sequence of requests on one Interpolator; everything handed out is re-read at the end
        REQ = [(k, t, w) for k in ("interpolate", "solve", "deriv", "bad") for t in (0, 1) for w in (0, 1)]
        REQ = [r for r in REQ if r[0] != "bad" or r[1] == r[2]]
        for seq in itertools.product(REQ, repeat=2):
            c.note("Interpolator on %s intervals %d codomain %d: %s" % (b, n, cd, seq))
            ob = b.make()
            I = gsplines.Interpolator(cd, n, ob)
            del ob
            out = []
            for k, t, w in seq:
                c.trans()
                if k == "interpolate":
                    out.append((I.interpolate(T[t], W[w]), REF[t, w][0]))
                elif k == "solve":
                    out.append((I.solve_interpolation(T[t], W[w]), REF[t, w][0]))
                elif k == "deriv":
                    co = I.solve_interpolation(T[t], W[w])
                    q = (t + 2 * w) % n
                    out.append((I.get_coeff_derivative_wrt_tau(co, T[t], q), REF[t, w][1][q]))
                    out.append((co, REF[t, w][0]))
                else:
                    for args in ((taus(n + 1, 0), W[w]), (T[t], waypoints(n + 1, cd, 0)), (T[t], waypoints(n, cd + 1, 0))):
                        try:
                            I.interpolate(*args)
                            c.fail("shapes", "data of the wrong shape was accepted")
                        except (ValueError, RuntimeError):
                            pass
            for r, want in out:
                if not near(c, r.get_coefficients() if hasattr(r, "get_coefficients") else r, want, "handed-out", "result"):
                    return
            del I
            junk = [np.full(k, 3e7) for k in range(1, 60)]
            for r, want in out:
                if not near(c, r.get_coefficients() if hasattr(r, "get_coefficients") else r, want, "handed-out-after-death", "result"):
                    return
            c.trace()
    add("interpolation", len(IP), sec_interp)

    # ---- Sobolev cost
    WL = [[(0, 1.0)], [(1, 1.0)], [(2, 0.5)], [(1, 0.3), (3, 0.7)], [(3, 1.0), (1, 2.0), (3, 0.25)], [(2, 0.0), (1, 1.5)]]

    def sec_sobolev(c, i):
        b, n, cd = IP[i]
        b = EVEN[b]
        if b.dim < 4 and not thorough and cd > 1:
            raise pymc.Skip()
        for wl in WL:
            if b.kind == "0101" and any(k not in (1, 3) for k, _ in wl):
                continue
            if max(k for k, _ in wl) > b.dim:
                continue
            wp = waypoints(n, cd, 1)
            buf, ob = np.array(wp, order="F" if (n + cd) % 2 else "C"), b.make()
            f = fa.SobolevNorm(buf, ob, list(wl))
            buf[...] = 1e9
            del buf, ob
            for t in (0, 1, 0):
                tau = taus(n, t)
                c.note("Sobolev cost %s on %s intervals %d codomain %d lengths %d" % (wl, b, n, cd, t))
                c.trans()
                c.state(("sob", str(b), n, cd, t, str(wl)))

                def cost(tt):
                    co = np.array(interp(b, tt, wp)[0]).reshape(n, cd, b.dim)
                    x, gw = np.polynomial.legendre.leggauss(10 if b.kind != "0101" else 40)
                    r = 0.0
                    for k, w in wl:
                        for q in range(n):
                            M = np.array([b.ev(u, tt[q], k) for u in x])
                            r += w * tt[q] / 2 * sum(float(gw @ (M @ co[q, p]) ** 2) for p in range(cd))
                    return r
                want = cost(tau)
                if not c.close(f(tau), want, 1e-7, "cost", "cost", abs(want)):
                    return
                g = np.full(n, 4.0)
                f.deriv_wrt_interval_len(tau, g)
                if thorough or (n <= 2 and cd == 1):
                    for q in range(n):
                        h = 1e-4 * tau[q]
                        e = np.zeros(n)
                        e[q] = h
                        num = (8 * (cost(tau + e) - cost(tau - e)) - (cost(tau + 2 * e) - cost(tau - 2 * e))) / (12 * h)
                        if not c.close(g[q], num, 1e-5, "gradient", "gradient entry %d" % q, 1 + abs(want)):
                            return
            c.trace()
    add("cost", len(IP), sec_sobolev)

    # ---- inner products and norms
    FP = [a for a in A if a.dom == D0 and a.name in ("id", "dil", "const", "vconst", "poly")] + [E[0], E[18], E[9]]
    for codom in (1, 3):  # splines with continuous derivatives up to order two
        s = RS(RB("legendre", 4), 0.0, codom, (0.5, 0.5), 2)
        s.coef = interp(s.b, s.tau, waypoints(2, codom, 4))[0]
        FP.append(FR("smooth spline%d" % codom, D0, codom, s.jet, s.make))

    def deriv_at(f, k, t):
        return [r[k] * FACT[k] for r in f.jet(t)]

    def inner(f, g, terms):
        br = sorted(set([f.dom[0], f.dom[1]] + [x for x in (0.5, 1.0, 1.5, 2.0) if f.dom[0] < x < f.dom[1]]))
        return sum(quad(lambda t: sum(w * sum(x * y for x, y in zip(deriv_at(f, k, t), deriv_at(g, k, t))) for k, w in terms), p, q)
                   for p, q in zip(br, br[1:]))

    def sec_inner(c, i):
        f, g = FP[i // len(FP)], FP[i % len(FP)]
        if f.dom != g.dom or f.codom != g.codom:
            raise pymc.Skip()
        x, y = f.mk(), g.mk()
        # intervals of the composite rule end where the pieces of the functions do
        ni = 2 if f.dom == D0 else 5
        for terms in ([(0, 1.0)], [(1, 1.0)], [(0, 2.0), (1, -0.5), (2, 0.25)], [(1, 1.0), (1, 1.0)]):
            c.note("inner products of %s and %s, terms %s" % (f.name, g.name, terms))
            c.trans()
            c.state(("inner", f.name, g.name, str(terms)))
            w = inner(f, g, terms)
            sc = 1 + abs(inner(f, f, terms)) + abs(inner(g, g, terms))
            ok = c.close(fa.sobolev_semi_inner_product(x, y, terms, 12, ni), w, 1e-7, "semi-inner", "value", sc)
            ok = ok and c.close(fa.sobolev_semi_inner_product(_lhs=x, _rhs=y, _weights=terms, _n_int=ni, _n_glp=12), w, 1e-7, "semi-inner", "keyword form", sc)
            if f is g:
                ok = ok and c.close(fa.sobolev_semi_norm(x, terms, 12, ni), w, 1e-7, "semi-norm", "value", sc)
            if not ok:
                return
        for k in (0, 1, 2):
            t = [(j, 1.0) for j in range(k + 1)]
            w = inner(f, g, t)
            sc = 1 + abs(inner(f, f, t)) + abs(inner(g, g, t))
            c.trans()
            if not c.close(fa.sobolev_inner_product(x, y, k, 12, ni), w, 1e-7, "sobolev-inner", "order %d" % k, sc):
                return
            if f is g and not c.close(fa.sobolev_norm(x, k, 12, ni), w, 1e-7, "sobolev-norm", "order %d" % k, sc):
                return
        w = inner(f, g, [(0, 1.0)])
        sc = 1 + abs(inner(f, f, [(0, 1.0)])) + abs(inner(g, g, [(0, 1.0)]))
        c.close(fa.l2_inner_product(x, y, 12, ni), w, 1e-7, "l2", "inner product", sc)
        if f is g:
            c.close(fa.l2_norm(x, 12, ni), w, 1e-7, "l2", "norm", sc)
        observe(c, x, f, "operand")
        observe(c, y, g, "operand")
        c.trace()
    add("inner-products", len(FP) ** 2, sec_inner)

    # ---- Gauss-Lobatto rules
    top = 60 if thorough else 30

    def sec_gl(c, i):
        n = i + 2
        c.note("Gauss-Lobatto rule of %d points" % n)
        c.state(("gl", n))
        x, w = gc.legendre_gauss_lobatto_points_weights(n)
        if not c.check(len(x) == n and len(w) == n and abs(x[0] + 1) < 1e-14 and abs(x[-1] - 1) < 1e-14 and np.all(np.diff(x) > 0) and np.all(w > 0), "gl", "shape"):
            return
        for k in range(0, 2 * n - 2):
            c.trans()
            v = float(np.sum(w * np.polynomial.legendre.legval(x, [0] * k + [1])))
            if not c.close(v, 2.0 if k == 0 else 0.0, 1e-10, "gl", "degree %d" % k):
                return
        L = lambda k, t: np.polynomial.legendre.legval(t, [0] * k + [1])
        dL = lambda k, t: np.polynomial.legendre.legval(t, np.polynomial.legendre.legder([0] * k + [1]))
        for t in (-0.9, -0.3, 0.0, 0.45, 1.0):
            q, qp, l = gc.q_and_evaluation(t, n)
            c.trans()
            if not (c.close(q, L(n + 1, t) - L(n - 1, t), 1e-10, "q", "q at %g" % t) and c.close(l, L(n, t), 1e-10, "q", "L at %g" % t) and
                    c.close(qp, dL(n + 1, t) - dL(n - 1, t), 1e-9, "q", "q' at %g" % t, n * n)):
                return
        kx, kw = np.array(x), np.array(w)
        x2, w2 = gc.legendre_gauss_lobatto_points_weights(n + 1)
        c.check(np.array_equal(kx, x) and np.array_equal(kw, w), "gl", "arrays changed with the next call")
        c.trace()
    add("gauss-lobatto", top - 1, sec_gl)


if __name__ == "__main__":
    sys.exit(pymc.main(setup))
