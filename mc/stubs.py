"""Deterministic models with the scikit-learn interface, whose answers are tables or simple closed formulas."""
import sys
import types

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin


class Table(object):
    """predict_proba / predict / decision_function of row x is row int(x[0]) of the table."""

    def __init__(self, proba=None, decision=None, classes=None):
        self.proba = None if proba is None else np.asarray(proba)
        self.decision = None if decision is None else np.asarray(decision)
        if self.proba is not None:
            self.classes_ = np.arange(self.proba.shape[1]) if classes is None else np.asarray(classes)

    def fit(self, X, y, **kw):
        return self

    def predict_proba(self, X):
        return self.proba[np.asarray(X)[:, 0].astype(int)]

    def predict(self, X):
        return self.classes_[np.argmax(self.predict_proba(X), axis=1)]

    def decision_function(self, X):
        return self.decision[np.asarray(X)[:, 0].astype(int)]


class Parzen(BaseEstimator, ClassifierMixin):
    """P(c|x) proportional to prior + sum over training points of class c of 2^-|x - x_i|_1."""

    def __init__(self, prior=0.25):
        self.prior = prior

    def fit(self, X, y, sample_weight=None):
        self.X_ = np.array(X, dtype=float)
        self.y_ = np.array(y)
        self.classes_ = np.unique(self.y_)
        return self

    def predict_proba(self, X):
        X = np.asarray(X, dtype=float)
        out = []
        for x in X:
            w = [2.0 ** -float(np.abs(x - t).sum()) for t in self.X_]
            row = [self.prior + sum(wi for wi, yi in zip(w, self.y_) if yi == c) for c in self.classes_]
            out.append([r / sum(row) for r in row])
        return np.array(out).reshape(len(X), len(self.classes_))

    def predict(self, X):
        return self.classes_[np.argmax(self.predict_proba(X), axis=1)]


class Nearest(Parzen):
    """1-nearest-neighbour with probabilities 0 and 1 (first neighbour wins ties)."""

    def predict_proba(self, X):
        X = np.asarray(X, dtype=float)
        out = np.zeros((len(X), len(self.classes_)))
        for i, x in enumerate(X):
            j = min(range(len(self.X_)), key=lambda t: float(np.abs(x - self.X_[t]).sum()))
            out[i, list(self.classes_).index(self.y_[j])] = 1
        return out


# ---- a convex solver whose answers are chosen by the check -------------------------------

class Expr(object):
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, n=1, value=None):
        self.n = n
        self.value = value
        self.T = self

    def _e(self, *a, **k):
        return Expr(self.n)
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __matmul__ = __rmatmul__ = _e
    __le__ = __ge__ = __lt__ = __gt__ = __eq__ = __neg__ = __getattr__ = _e
    __hash__ = object.__hash__

    def __iter__(self):
        return iter([Expr() for _ in range(self.n)])

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return Expr()


class Solver(types.ModuleType):
    """Stand-in for cvxpy: the k-th Problem.solve assigns the k-th chosen weight vector (the last one from then on)."""

    def __init__(self, answers, results=()):
        types.ModuleType.__init__(self, "cvxpy")
        self.answers = list(answers)
        self.results = list(results)
        self.calls = 0
        me = self

        class Variable(Expr):
            def __init__(self, n=1, **kw):
                Expr.__init__(self, n)
                me.last = self

        class DCPError(Exception):
            pass

        class Problem(object):
            def __init__(self, *a):
                self.var = me.last

            def solve(self, **kw):
                k = me.calls
                me.calls += 1
                a = me.answers[min(k, len(me.answers) - 1)]
                self.var.value = np.array([a[i % len(a)] for i in range(self.var.n)], dtype=float)
                r = me.results[k] if k < len(me.results) else 1.0
                if r == "dcp":
                    raise DCPError()
                return float(r)
        self.Variable = Variable
        self.Problem = Problem
        self.error = types.SimpleNamespace(DCPError=DCPError, SolverError=DCPError)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name.isupper():
            return name
        return lambda *a, **k: Expr()

    def __enter__(self):
        self.old = sys.modules.get("cvxpy")
        sys.modules["cvxpy"] = self
        return self

    def __exit__(self, *a):
        if self.old is None:
            sys.modules.pop("cvxpy", None)
        else:
            sys.modules["cvxpy"] = self.old
