"""A stand-in for the cvxpy package (not installed here): quadratic programmes whose answer a check chooses.

Only affine and quadratic expressions of one vector variable. ANSWER(program) decides what the solver does: it
returns the vector x, or None (the constraints cannot be met), or raises DCPError.
"""
import itertools
import sys
import types

import numpy as np

PROGRAMS = []       # what was given to the solver, in order
ANSWER = [None]


class DCPError(Exception):
    pass


class Expr(object):
    """Rows A x + c."""
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, var, A, c, scalar=False):
        self.var, self.A, self.c, self.scalar = var, np.atleast_2d(np.asarray(A, dtype=float)), np.atleast_1d(np.asarray(c, dtype=float)), scalar

    shape = property(lambda s: () if s.scalar else (len(s.c),))
    T = property(lambda s: s)

    def __len__(self):
        return len(self.c)

    def __getitem__(self, i):
        if isinstance(i, (int, np.integer)):
            if not -len(self.c) <= i < len(self.c):
                raise IndexError(i)
            return Expr(self.var, self.A[i], self.c[i], True)
        return Expr(self.var, self.A[i], self.c[i])

    def __iter__(self):
        return (self[i] for i in range(len(self.c)))

    def __add__(self, o):
        if isinstance(o, Quad):
            return o + self
        if isinstance(o, Expr):
            return Expr(self.var or o.var, self.A + o.A, self.c + o.c, self.scalar and o.scalar)
        o = np.asarray(o, dtype=float)
        return Expr(self.var, self.A + np.zeros((o.size, 1)), self.c + o.ravel(), self.scalar and o.ndim == 0)
    __radd__ = __add__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (o * -1 if isinstance(o, (Expr, Quad)) else -np.asarray(o, dtype=float))

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, k):
        k = np.asarray(k, dtype=float)
        if k.ndim == 0:
            return Expr(self.var, self.A * k, self.c * k, self.scalar)
        return Expr(self.var, self.A * k.reshape(-1, 1), self.c * k.ravel())
    __rmul__ = __mul__

    def __truediv__(self, k):
        return self * (1. / np.asarray(k, dtype=float))

    def __rmatmul__(self, M):
        M = np.asarray(M, dtype=float)
        return Expr(self.var, M.dot(self.A), M.dot(self.c), M.ndim == 1)

    def __matmul__(self, M):
        M = np.asarray(M, dtype=float)
        return Expr(self.var, M.T.dot(self.A), M.T.dot(self.c), M.ndim == 1)

    def __le__(self, o):
        return Constraint(o - self, False)

    def __ge__(self, o):
        return Constraint(self - o, False)

    def __eq__(self, o):
        return Constraint(self - o, True)

    __hash__ = object.__hash__

    @property
    def value(self):
        return None if self.var.value is None else self.A.dot(np.ravel(self.var.value)) + self.c


class Variable(Expr):
    def __init__(self, shape=1, **kw):
        n = int(np.prod(shape))
        Expr.__init__(self, None, np.eye(n), np.zeros(n))
        self.var, self._value = self, None
        self.nonneg = bool(kw.get("nonneg"))

    value = property(lambda s: s._value, lambda s, v: setattr(s, "_value", v))


class Quad(object):
    __array_ufunc__ = None
    scalar = True

    def __init__(self, var, H, q, c):
        self.var, self.H, self.q, self.c = var, H, q, c

    def __add__(self, o):
        if isinstance(o, Quad):
            return Quad(self.var, self.H + o.H, self.q + o.q, self.c + o.c)
        if isinstance(o, Expr):
            return Quad(self.var, self.H, self.q + o.A.sum(axis=0), self.c + o.c.sum())
        return Quad(self.var, self.H, self.q, self.c + float(o))
    __radd__ = __add__

    def __mul__(self, k):
        return Quad(self.var, self.H * k, self.q * k, self.c * k)
    __rmul__ = __mul__

    def __truediv__(self, k):
        return self * (1. / k)

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (o * -1)


def quad_form(x, P, assume_PSD=False):
    """x' P x = var' H var / 2 + q' var + c"""
    P = np.asarray(P, dtype=float)
    P = (P + P.T) / 2
    return Quad(x.var, 2 * x.A.T.dot(P).dot(x.A), 2 * x.A.T.dot(P).dot(x.c), x.c.dot(P).dot(x.c))


def sum_squares(x):
    return quad_form(x, np.eye(len(x.c)))


def total(x, axis=None):
    return Expr(x.var, x.A.sum(axis=0), x.c.sum(), True)


def multiply(a, b):
    return b * a if isinstance(b, Expr) else a * b


class Constraint(object):
    def __init__(self, expr, equal):
        self.expr, self.equal = expr, equal


class Minimize(object):
    sign = 1

    def __init__(self, expr):
        e = expr * self.sign
        self.expr = e if isinstance(e, Quad) else Quad(e.var, np.zeros((e.A.shape[1],) * 2), e.A.sum(axis=0), e.c.sum())


class Maximize(Minimize):
    sign = -1


class Problem(object):
    def __init__(self, objective, constraints=()):
        self.objective, self.constraints = objective, list(constraints)
        self.status, self.value = None, None

    def is_qp(self):
        return True

    def is_dcp(self):
        return True

    def solve(self, solver=None, **kw):
        e = self.objective.expr
        n = len(e.q)
        ge = [np.hstack((r, c)) for k in self.constraints if not k.equal for r, c in zip(k.expr.A, k.expr.c)]
        if e.var.nonneg:
            ge += [np.hstack((r, 0.)) for r in np.eye(n)]
        eq = [np.hstack((r, c)) for k in self.constraints if k.equal for r, c in zip(k.expr.A, k.expr.c)]
        prog = {"H": e.H, "q": e.q, "ge": np.array(ge).reshape(-1, n + 1), "eq": np.array(eq).reshape(-1, n + 1), "solver": solver, "kw": kw}
        PROGRAMS.append(prog)
        x = ANSWER[0](prog)
        prog["x"] = None if x is None else np.ravel(x)
        e.var.value = x
        if x is None:
            self.status, self.value = "infeasible", float("inf")
        else:
            v = np.ravel(x)
            self.status, self.value = "optimal", float(.5 * v.dot(e.H).dot(v) + e.q.dot(v) + e.c)
        return self.value


def minimum(prog):
    """Exact minimiser over the box and the equations, by enumerating which bounds are active; None if there is no feasible point."""
    H, q, eq = prog["H"], prog["q"], prog["eq"]
    n = len(q)
    lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
    for r in prog["ge"]:
        i, = np.nonzero(r[:n])[0]
        if r[i] > 0:
            lo[i] = max(lo[i], -r[n] / r[i])
        else:
            hi[i] = min(hi[i], -r[n] / r[i])
    best, arg = np.inf, None
    for act in itertools.product((0, 1, 2), repeat=n):
        x = np.where(np.array(act) == 1, lo, hi)
        free = [i for i in range(n) if act[i] == 0]
        x[free] = 0
        m, p = len(free), len(eq)
        K = np.zeros((m + p, m + p))
        K[:m, :m] = H[np.ix_(free, free)]
        rhs = np.zeros(m + p)
        rhs[:m] = -(q[free] + H[free].dot(x))
        if p:
            K[m:, :m] = eq[:, free]
            K[:m, m:] = eq[:, free].T
            rhs[m:] = -(eq[:, n] + eq[:, :n].dot(x))
        if m + p:
            x[free] = np.linalg.lstsq(K, rhs, rcond=None)[0][:m]
        if (x < lo - 1e-9).any() or (x > hi + 1e-9).any() or (p and np.abs(eq[:, :n].dot(x) + eq[:, n]).max() > 1e-7):
            continue
        v = .5 * x.dot(H).dot(x) + q.dot(x)
        if v < best - 1e-12 * max(1., abs(v)):
            best, arg = v, np.clip(x, lo, hi)
    return arg


def install():
    m = types.ModuleType("cvxpy")
    err = types.ModuleType("cvxpy.error")
    err.DCPError = DCPError
    err.SolverError = type("SolverError", (Exception,), {})
    m.error = err
    for k in ("DCPError", "Variable", "quad_form", "sum_squares", "multiply", "Minimize", "Maximize", "Problem"):
        setattr(m, k, globals()[k])
    m.sum = total
    m.SolverError = err.SolverError
    m.OPTIMAL, m.INFEASIBLE = "optimal", "infeasible"
    for k in ("ECOS", "OSQP", "SCS"):
        setattr(m, k, k)
    sys.modules["cvxpy"], sys.modules["cvxpy.error"] = m, err
    return m
