"""C25: BMDR and SPAL, with a quadratic programming solver whose answers are enumerated."""
import copy
import itertools
import pickle

import numpy as np

from . import fakecvx
fakecvx.install()

from alipy.index import IndexCollection
from alipy.query_strategy import query_labels as ql

from .c18 import quiet
from .core import require, subsets

LEVEL = "model_checking"
RULE = ("every labelled set, pool and batch size of 5-7 instances with every label vector of the labelled ones, several kernels, spellings and containers; "
        "the solver behind cvxpy is replaced by one which answers with the exact optimum, or with every vector over a few values for the first two programmes "
        "(optimal or infeasible or rejected). Every programme handed over is compared with the published formula, recomputed independently")
ASSUMPTIONS = ["cvxpy itself is not installed; its interface is modelled by a stand-in with affine and quadratic expressions",
               "the model between two programmes is compared with the exact optimum up to the loose stopping tolerance of ADMM"]

LAYOUT = {"a": [[0., 1.], [1., 3.], [2., .5], [4., 2.], [3., 3.], [1., 1.], [2.5, 1.5]],
          "b": [[0., 0.], [1., .2], [2.1, .1], [.3, 1.2], [1.4, 1.1], [.9, 2.], [2., 2.2]]}
CODES = {"pm": (1, -1, float), "01": (0, 1, int), "12": (1, 2, int), "u8": (0, 1, np.uint8), "bool": (False, True, bool), "str": ("a", "b", str),
         "list": (-1, 1, list), "f": (0., 1., float)}


def cloud(n):
    return [[(i * 1.4142135) % 3.3, (i * i * 1.7320508) % 4.1] for i in range(n)]


def kernel(name, X):
    X = np.asarray(X)
    if name in ("rbf", "call"):
        g = 1. if name == "rbf" else .25
        return np.exp(-g * ((X[:, None, :] - X[None, :, :]) ** 2).sum(axis=2))
    if name == "linear":
        return X.dot(X.T)
    return (.5 * X.dot(X.T) + 1) ** 2


def call_kernel(X, Y):
    return np.exp(-.25 * ((X[:, None, :] - Y[None, :, :]) ** 2).sum(axis=2))


def make(kind, X, y, ker, prm):
    kw = {"rbf": {}, "linear": {"kernel": "linear"}, "poly": {"kernel": "poly", "degree": 2, "gamma_ker": .5, "coef0": 1}, "call": {"kernel": call_kernel}}[ker]
    cls = ql.QueryInstanceBMDR if kind == "bmdr" else ql.QueryInstanceSPAL
    return cls(X, y, **dict(prm, **kw))


def wrap(idx, how):
    return np.array(idx) if how == "arr" else list(idx) if how == "list" else IndexCollection(list(idx))


def mmd(K, L, U, b):
    """Quadratic and linear term of n/2 times the squared distance of the means: labelled + batch against the rest of the pool."""
    n = len(L) + len(U)
    one = (len(U) - b) / n * K[np.ix_(L, U)].sum(axis=0) - (len(L) + b) / n * K[np.ix_(U, U)].sum(axis=0)
    return K[np.ix_(U, U)], one


def refit(K, L, Q, w, y, gamma):
    """argmin_t |y - K_LL t|^2 + gamma t' K_LL t + sum_Q w (f^2 + 2|f|), f = t' K_LQ, by enumerating the signs of f. Returns t and the objective."""
    KLL, KLQ = K[np.ix_(L, L)], K[np.ix_(L, Q)]
    best, arg = np.inf, None

    def obj(t):
        f = t.dot(KLQ)
        return ((y - KLL.dot(t)) ** 2).sum() + gamma * t.dot(KLL).dot(t) + (w * (f ** 2 + 2 * np.abs(f))).sum()
    A = KLL.dot(KLL) + gamma * KLL + (KLQ * w).dot(KLQ.T)
    for s in itertools.product((-1, 0, 1), repeat=len(Q)):
        z = [i for i in range(len(Q)) if s[i] == 0]
        m = len(L)
        M = np.zeros((m + len(z),) * 2)
        M[:m, :m] = A
        M[:m, m:] = KLQ[:, z]
        M[m:, :m] = KLQ[:, z].T
        r = np.hstack((KLL.dot(y) - KLQ.dot(w * np.array(s)), np.zeros(len(z))))
        t = np.linalg.lstsq(M, r, rcond=None)[0][:m]
        v = obj(t)
        if v < best:
            best, arg = v, t
    return arg, obj


def near(a, b, tol=1e-7):
    return np.allclose(a, b, rtol=tol, atol=tol * max(1., np.abs(b).max()))


def query(kind, layout, L, U, b, signs, code, ker, how, prm, answers, solver):
    """answers: what the solver says to the first programmes ('inf', 'dcp' or a vector); afterwards it finds the optimum."""
    X = np.array(LAYOUT[layout] if not isinstance(layout, int) else cloud(layout))
    lo, hi, dt = CODES[code]
    full = [hi if i % 2 else lo for i in range(len(X))]
    for i, s in zip(L, signs):
        full[i] = hi if s else lo
    y = full if dt is list else np.array(full, dtype=None if dt is str else dt)
    y0, X0 = copy.deepcopy(y), X.copy()
    # the first class in order is the positive one, unless the labels are 1 and -1
    pos = hi if code == "list" else 1 if code == "pm" else lo
    s = make(kind, X, y, ker, prm)
    if how == "list":
        s = pickle.loads(pickle.dumps(s)) if ker != "call" else copy.deepcopy(s)
    require(np.array_equal(y, y0) and type(y) is type(y0), "arguments:" + kind, "the labels became %r" % (y,))
    del fakecvx.PROGRAMS[:]
    left = list(answers)

    def answer(prog):
        if left:
            a = left.pop(0)
            if a == "dcp":
                raise fakecvx.DCPError("the problem does not follow DCP rules")
            if a == "inf":
                return None
            v = np.array(a, dtype=float)
            return v.reshape(-1, 1) if sum(a) % 1 else v
        if isinstance(layout, int):
            return np.array(answers[-1], dtype=float)      # too many variables for the exact optimum
        return fakecvx.minimum(prog)
    fakecvx.ANSWER[0] = answer
    kw = {} if solver is None else {"qp_solver": solver}
    cL, cU = wrap(L, how), wrap(U, how)
    L, U = [int(v) for v in cL], [int(v) for v in cU]
    yl = np.array([1. if full[i] == pos else -1. for i in L])
    got = quiet(lambda: s.select(cL, cU, batch_size=b, **kw))
    require(np.array_equal(y, y0) and np.array_equal(X, X0), "arguments:" + kind, "the data changed")
    require([int(v) for v in cL] == list(L) and [int(v) for v in cU] == list(U), "arguments:" + kind, "the index containers changed")
    got = [int(v) for v in got]
    require(len(set(got)) == len(got) == min(b, len(U)) and set(got) <= set(U), "batch:" + kind, "pool %r, batch %d: %r was queried" % (U, b, got))
    if len(U) <= b:
        require(not fakecvx.PROGRAMS, "programs:" + kind, "a programme was solved although the whole pool is queried")
        return sorted(got)
    progs = [p for p in fakecvx.PROGRAMS if p.get("x") is not None]
    require(progs, "programs:" + kind, "no programme was solved")
    want_solver = solver or "ECOS"
    require(all(p["solver"] == want_solver for p in fakecvx.PROGRAMS), "solver:" + kind, "solver %r instead of %r" % ([p["solver"] for p in fakecvx.PROGRAMS], want_solver))
    K = kernel(ker, X)
    gamma = prm.get("gamma", .1)
    beta = prm.get("beta", 1000) if kind == "bmdr" else prm.get("mu", .1)
    lam = prm.get("lambda_init", .1)
    H, lin = mmd(K, L, U, b)
    pred = np.linalg.solve(K[np.ix_(L, L)] + gamma * np.eye(len(L)), yl).dot(K[np.ix_(L, U)])
    n = len(U)
    ease = np.ones(n)
    last = None
    done = None
    for r, p in enumerate(progs):
        require(done is None, "rounds:" + kind, "programmes are solved after two equal batches")
        # constraints
        box = sorted(tuple(np.round(v, 9)) for v in p["ge"])
        want = sorted(tuple(np.round(v, 9)) for v in np.vstack((np.hstack((np.eye(n), np.zeros((n, 1)))), np.hstack((-np.eye(n), np.ones((n, 1)))))))
        require(box == want, "constraints:" + kind, "round %d: bounds %r" % (r, box))
        if len(p["eq"]):
            e = np.hstack((ease, -b))
            require(near(p["eq"][0], e) or near(p["eq"][0], -e), "constraints:" + kind, "round %d: equation %r, expected %r" % (r, p["eq"].tolist(), e.tolist()))
        require(near(p["H"], beta * H), "quadratic:" + kind, lambda: "round %d: quadratic term %r, expected %r" % (r, p["H"].tolist(), (beta * H).tolist()))
        a = p["q"] - beta * lin
        loss = pred * pred + 2 * np.abs(pred)
        if r == 0:
            require(near(a, ease * loss, 1e-6), "linear:" + kind, lambda: "linear term %r, expected %r" % (p["q"].tolist(), (beta * lin + ease * loss).tolist()))
        else:
            scale = max(np.abs(loss).max(), 1e-2 if not gamma else 0, .02)
            require(np.abs(a - ease * loss).max() <= .15 * scale + 1e-9 * np.abs(beta * lin).max(), "model:" + kind,
                    lambda: "round %d: losses of the pool %r, expected %r" % (r, a.tolist(), (ease * loss).tolist()))
        x = p["x"]
        if kind == "spal":
            # easiness from the losses which were handed over (ease > 0), they carry the tolerance of ADMM
            if r:
                loss = np.where(ease > 1e-3, a / np.where(ease > 1e-3, ease, 1), loss)
            worst = x * loss
            ease = np.where(worst < lam, 1 - worst / lam, 0.)
            w = x * ease
        else:
            w = x
        order = sorted(w, reverse=True)
        sure = {U[i] for i in range(n) if w[i] > order[b] + 1e-2 * (kind == "spal") + 1e-9}
        may = {U[i] for i in range(n) if w[i] >= order[b - 1] - 1e-2 * (kind == "spal") - 1e-9}
        if r == len(progs) - 1:
            require(sure <= set(got) <= may, "choice:" + kind, lambda: "weights %r of %r: %r was queried" % (w.tolist(), U, got))
        if len(may) > b:
            return sorted(got), r      # a tie: the continuation depends on which instance was taken
        if last == may:
            done = True
        last = may
        if kind == "spal":
            w = np.maximum(w, 0)
            Q = [i for i in range(n) if w[i] > .001]
            if not Q:
                return sorted(got)
            if any(abs(v - .001) < 5e-4 for v in w):
                return sorted(got)
            t, _ = refit(K, L, [U[i] for i in Q], w[Q], yl, gamma)
        else:
            t, _ = refit(K, L, sorted(may), np.ones(b), yl, gamma)
        pred = t.dot(K[np.ix_(L, U)])
    require(done or len(progs) >= 16, "stopped:" + kind, "the search ended after %d programmes without two equal batches" % len(progs))
    return sorted(got), len(progs)


def pace(lam, step, times):
    """lambda grows by lambda_pace with every query."""
    X = np.array(LAYOUT["a"])
    y = np.array([1, -1, 1, -1, -1, 1, 1])
    s = ql.QueryInstanceSPAL(X, y, lambda_init=lam, lambda_pace=step)
    del fakecvx.PROGRAMS[:]
    fakecvx.ANSWER[0] = fakecvx.minimum
    L, U = [0, 1], [2, 3, 4, 5, 6]
    out = []
    for t in range(times):
        got = [int(v) for v in quiet(lambda: s.select(L, U, batch_size=2 if t % 2 else 1))]
        ref = ql.QueryInstanceSPAL(X, y, lambda_init=lam + t * step, lambda_pace=0.)
        want = [int(v) for v in quiet(lambda: ref.select(L, U, batch_size=2 if t % 2 else 1))]
        require(set(got) == set(want), "pace:spal", "query %d with lambda %r + %d x %r: %r, a strategy which starts there queries %r" % (t, lam, t, step, got, want))
        if t == 1:
            s = pickle.loads(pickle.dumps(s))
        L, U = L + got, [i for i in U if i not in got]
        out.append(got)
        if len(U) < 2:
            break
    return out


def explore(ctx):
    q = ctx.quick
    HOW = ("arr", "list", "ind")
    cases = []
    c = 0
    PRM = {"bmdr": ({}, {"beta": 1.}, {"beta": .1, "gamma": 1.}, {"beta": 10., "rho": 2.}, {"beta": .5, "gamma": .02}),
           "spal": ({}, {"mu": 1., "lambda_init": 1.}, {"mu": .1, "lambda_init": 5., "gamma": 1.}, {"mu": .01, "lambda_init": .5, "rho": 2.}, {"mu": 10.})}
    for kind in ("bmdr", "spal"):
        for l in (1, 2, 3):
            for L in itertools.combinations(range(5), l):
                pool = [i for i in range(6) if i not in L]
                for u in (2, 3, 4):
                    for U in itertools.combinations(pool, u) if not q else [tuple(pool[k:k + u]) for k in range(0, len(pool) - u + 1)]:
                        for signs in itertools.product((0, 1), repeat=l):
                            c += 1
                            if q and c % 2:
                                continue
                            b = 1 + c // 2 % min(u, 3)
                            U2 = U if c % 4 < 2 else U[::-1]
                            code = list(sorted(CODES))[c // 2 % len(CODES)]
                            ker = ("rbf", "rbf", "call", "linear", "poly")[c // 3 % 5] if l == 1 else ("rbf", "call")[c // 3 % 2]
                            cases.append((kind, "ab"[c // 2 % 2], list(L), list(U2), b, list(signs), code, ker, HOW[c // 2 % 3], PRM[kind][c // 5 % 5], [],
                                          (None, "OSQP", "ECOS")[c // 7 % 3]))
    # every answer of the solver
    vals = (0., .5, 1.) if q else (-1e-9, 0., .5, 1., 1 + 1e-9)
    for kind in ("bmdr", "spal"):
        for v in itertools.product(vals, repeat=3):
            for pre in ([], ["inf"], ["dcp"]) if q else ([], ["inf"], ["dcp"], ["dcp", "inf"] if kind == "bmdr" else ["inf"]):
                for b in (1, 2):
                    c += 1
                    if pre == ["dcp"] and kind == "spal":
                        continue    # there the same programme is handed over again
                    more = [] if c % 3 else [list(v[::-1])]
                    cases.append((kind, "b", [0, 3], [1, 4, 2], b, [0, 1], "01", "rbf", HOW[c % 3], PRM[kind][c % 3], pre + [list(v)] + more, None))
    # large pools and batches; the batch changes by one instance, or for ever
    for kind in ("bmdr", "spal"):
        for n, l in ((12, 3), (20, 5), (40, 8)):
            L = [(i * 7 + 3) % n for i in range(l)]
            U = [i for i in ((t * 5 + 1) % (n + 1) for t in range(n + 1)) if i < n and i not in L]
            for b in (1, 2, 4, 6):
                def top(first):
                    return [.9 - .05 * ((i - first) % len(U)) if (i - first) % len(U) < b else (.2 - .001 * ((i - first) % len(U))) * (kind == "bmdr") for i in range(len(U))]
                for script in ([top(0), top(0)], [top(0), top(1), top(1)], [top(1), top(0), top(2), top(2)], [top(t % 2) for t in range(18 if b < 5 else 4)],
                               [top(0), top(len(U) // 2), top(len(U) // 2)]):
                    c += 1
                    for prm in ({}, {"mu": .1, "lambda_init": 5.} if kind == "spal" else {"beta": 1., "gamma": 1.}):
                        cases.append((kind, n, L, U, b, [(i + i // 2) % 2 for i in range(l)], list(sorted(CODES))[c % len(CODES)], ("rbf", "call")[c % 2], HOW[c // 2 % 3],
                                      prm, script, (None, "OSQP", "ECOS")[c // 3 % 3]))
    ctx.parallel(query, cases)
    ctx.parallel(pace, [(lam, st, 4) for lam in (.01, .1, .5, 1., 2.) for st in (0., .01, .25, 1., 10.)])
    ctx.stats.states = len(ctx.stats.outcomes)
    ctx.stats.transitions = ctx.stats.evaluations
    ctx.stats.traces = ctx.stats.evaluations
