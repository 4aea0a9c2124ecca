"""C16: every partition, batch size, container form and call history: the answer is a valid batch."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile
import warnings

import numpy as np
from sklearn.base import clone

from mc.core import require, Skip, subsets
from mc import rng, stubs
from alipy.index import IndexCollection
from alipy.query_strategy import query_labels as ql

LEVEL = "model_checking"
RULE = ("every instance strategy (14 classes, all measures and kernels) x every partition of the training indexes into labelled and "
        "unlabelled x every batch size from 1 to pool+1 x container forms (list, array, IndexCollection) x two presentation orders x "
        "feature layouts (distinct, duplicated, constant), single calls and all histories of calls of length 2 (thorough: 3) on one "
        "strategy object; every shuffle outcome for the random strategies, every enumerated solver answer for BMDR and SPAL")
ASSUMPTIONS = ("labelled and unlabelled sets partition the given training indexes",
               "cvxpy is not installed: the solver is a stand-in that answers any weight vector of the grid")

TRAIN = [4, 1, 5, 0, 2]
N = 6
LAYOUT = {
    "line": [[0., 0.5], [1., 0.25], [2., 3.], [3., 1.], [4., 2.], [5., 0.]],
    "dup": [[0., 1.], [1., 1.], [1., 1.], [3., 0.], [0., 1.], [1., 1.]],
    "const": [[1., 1.]] * 6,
}
LABELS = {"01": [0, 1, 1, 0, 1, 0], "pm": [1, -1, 1, 1, -1, -1], "123": [1, 2, 3, 2, 1, 3]}
PROBA = {"grid": [[.5, .5], [.25, .75], [1., 0.], [0., 1.], [.5, .5], [.875, .125]],
         "flat": [[.5, .5]] * 6, "hard": [[1, 0], [0, 1], [1, 0], [0, 1], [0, 1], [1, 0]]}


def big_rows(n):
    return [[(i * 1.4142135) % 7.3, (i * i * 1.7320508) % 11.1] for i in range(n)]


def big_train(n):
    """All but some of the items, in another order."""
    return [i for i in ((t * 7 + 3) % n for t in range(n)) if i % 9 != 5] if n % 7 else [i for i in range(n)[::-1] if i % 9 != 5]


def form(ids, how):
    ids = list(ids)
    if how == "list":
        return ids
    if how == "arr":
        return np.array(ids, dtype=int)
    return IndexCollection(ids) if ids else IndexCollection()


class One(object):
    """One strategy object with the arguments its select needs."""

    def __init__(self, name, layout, labels, train_form="arr"):
        self.name = name
        big = isinstance(layout, int)
        self.X = np.array(LAYOUT[layout] if not big else big_rows(layout))
        self.n = n = len(self.X)
        self.proba = {k: (v * n)[:n] for k, v in PROBA.items()}
        self.labels = {k: (v * n)[:n] for k, v in LABELS.items()}
        self.y = np.array(self.labels[labels])
        self.X0, self.y0 = self.X.copy(), self.y.copy()
        self.batch = True
        kind, _, opt = name.partition(":")
        self.kind, self.opt = kind, opt
        train = big_train(layout) if big else TRAIN
        train = np.array(train) if train_form == "arr" else list(train)
        X, y = self.X, self.y
        self.args = {}
        p = np.array(self.proba["grid"])
        if kind == "unc":
            self.s = ql.QueryInstanceUncertainty(X, y, measure=opt)
            self.args = {"model": Ids(stubs.Table(self.proba["grid"], ([0., -1., 2., -2., 0., 1.] * n)[:n]), X)}
        elif kind == "uncmat":
            self.s = ql.QueryInstanceUncertainty(measure=opt)
        elif kind == "uncdef":
            self.s = ql.QueryInstanceUncertainty(X, y, measure=opt)
            self.args = {"model": None}
        elif kind == "random":
            self.s = (ql.QueryInstanceRandom if opt == "new" else ql.QueryRandom)(X, y)
        elif kind == "qbc":
            self.s = ql.QueryInstanceQBC(X, y, disagreement=opt)
            self.args = {"model": stubs.Parzen()}
        elif kind == "qbcmat":
            self.s = ql.QueryInstanceQBC(disagreement=opt)
        elif kind == "eer":
            self.s = ql.QueryExpectedErrorReduction(X, y)
            self.args = {"model": stubs.Parzen() if opt == "parzen" else stubs.Nearest()}
        elif kind == "quire":
            self.s = ql.QueryInstanceQUIRE(X, y, train, kernel=opt) if opt != "callable" else \
                ql.QueryInstanceQUIRE(X, y, train, kernel=lambda X, Y: np.exp(-np.abs(X[:, None, :] - Y[None]).sum(2)))
            self.batch = False
        elif kind == "graph":
            self.s = ql.QueryInstanceGraphDensity(X, y, train, metric=opt or "manhattan")
        elif kind == "coreset":
            self.s = ql.QueryInstanceCoresetGreedy(X, y, train, distance=opt)
        elif kind == "density":
            self.s = ql.QueryInstanceDensityWeighted(X, y, uncertainty_meansure=opt.split("-")[0],
                                                     distance=opt.split("-")[1], beta=2.0)
            if opt.endswith("-model"):
                self.args = {"model": Ids(stubs.Table(p), X)}
        elif kind in ("bmdr", "spal"):
            cls = ql.QueryInstanceBMDR if kind == "bmdr" else ql.QueryInstanceSPAL
            self.s = cls(X, y, kernel=opt)
        else:
            raise ValueError(name)

    def fittable(self, label):
        ys = set(self.y[list(label)]) if len(label) else set()
        if self.kind == "uncdef":
            return len(ys) > 1
        if self.kind in ("eer", "qbc"):
            return len(ys) > 1
        if self.kind in ("bmdr", "spal"):
            return len(label) > 0
        return True

    def select(self, label, unlabel, batch):
        """label, unlabel in the form to be passed."""
        kw = dict(self.args)
        extra = []
        if self.kind == "uncmat":
            P = np.array([[.5, -1.5, .25, 0., 2., .5][i % 6] for i in unlabel]) if self.opt == "distance_to_boundary" else \
                np.array([self.proba["hard" if i % 2 else "grid"][i] for i in unlabel], dtype=float).reshape(-1, 2)
            P0 = P.copy()
            r = self.s.select_by_prediction_mat(unlabel, P, batch_size=batch)
            require(np.array_equal(P, P0), "prediction-mutated:" + self.name, "prediction matrix changed")
            return r
        if self.kind == "qbcmat":
            P = [np.array([self.proba[k][i] for i in unlabel], dtype=float).reshape(-1, 2) for k in ("grid", "flat", "hard")] \
                if self.opt == "KL_divergence" else [np.array([self.labels[k][i] for i in unlabel]) for k in self.labels]
            P0 = [x.copy() for x in P]
            r = self.s.select_by_prediction_mat(unlabel, P, batch_size=batch)
            require(all(np.array_equal(a, b) for a, b in zip(P, P0)), "prediction-mutated:" + self.name, "changed")
            return r
        if self.kind == "density" and "model" not in kw:
            P = np.array([self.proba["grid"][i] for i in unlabel]).reshape(-1, 2)
            P0 = P.copy()
            r = self.s.select(label, unlabel, batch_size=batch, proba_prediction=P)
            require(np.array_equal(P, P0), "prediction-mutated:" + self.name, "prediction matrix changed")
            return r
        if self.kind == "eer":
            kw["model"] = clone(kw["model"]).fit(self.X[list(label)], self.y[list(label)])
        return self.s.select(label, unlabel, batch_size=batch, **kw)


class Ids(object):
    """A Table addressed by the position of the row in X (first exact match)."""

    def __init__(self, table, X):
        self.t, self.X = table, X

    def _rows(self, x):
        pos = [next(i for i in range(len(self.X)) if np.array_equal(self.X[i], r)) for r in np.asarray(x)]
        return np.array(pos, dtype=float).reshape(-1, 1)

    def fit(self, X, y, **k):
        return self

    def predict_proba(self, x):
        return self.t.predict_proba(self._rows(x))

    def decision_function(self, x):
        return self.t.decision_function(self._rows(x))


def judge(one, pick, label, unlabel, batch, L, U):
    name = one.name
    was = [int(i) for i in L], [int(i) for i in U], type(L), type(U)
    sel = pick()
    got = [int(i) for i in sel]
    require(len(np.shape(sel)) == 1, "shape:" + name, "returned %r" % (sel,))
    want = min(batch if one.batch else 1, len(unlabel))
    require(len(got) == want, "size:" + name, lambda: "labelled %r pool %r batch %d: got %r" % (label, unlabel, batch, got))
    require(len(set(got)) == len(got), "repeated:" + name, lambda: "pool %r batch %d: got %r" % (unlabel, batch, got))
    require(set(got) <= set(unlabel), "foreign:" + name,
            lambda: "labelled %r pool %r batch %d: got %r" % (label, unlabel, batch, got))
    now = [int(i) for i in L], [int(i) for i in U], type(L), type(U)
    require(now == was, "index-mutated:" + name, lambda: "index sets changed: %r -> %r" % (was, now))
    require(np.array_equal(one.X, one.X0) and np.array_equal(one.y, one.y0), "data-mutated:" + name, "X or y changed")
    return got


def calls(name, layout, labels, train_form, rounds):
    """rounds: [(labelled, unlabelled, batch, form)] on one strategy object."""
    one = One(name, layout, labels, train_form)
    out = []
    done = 0
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for label, unlabel, batch, how in rounds:
            if not one.fittable(label):
                continue
            done += 1
            L, U = form(label, how), form(unlabel, how)
            np.random.seed(7)
            out.append(judge(one, lambda: one.select(L, U, batch), label, unlabel, batch, L, U))
    if not done:
        raise Skip()
    return out


def forms(name, layout, labels, label, unlabel, batch):
    """The three container forms give the same answer."""
    res = {}
    label, unlabel = sorted(label), sorted(unlabel)     # the order an IndexCollection keeps
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for tf in ("arr", "list"):
            for how in ("list", "arr", "ind", "mixed"):
                one = One(name, layout, labels, tf)
                if not one.fittable(label):
                    raise Skip()
                L, U = form(label, "list" if how == "mixed" else how), form(unlabel, "ind" if how == "mixed" else how)
                np.random.seed(7)
                res[tf, how] = judge(one, lambda: one.select(L, U, batch), label, unlabel, batch, L, U)
    first = res["arr", "list"]
    bad = {k: v for k, v in res.items() if set(v) != set(first)}
    require(not bad, "form-dependent:" + name, lambda: "list gives %r, others %r" % (first, bad))
    return first


def shuffled(name, unlabel, batch, how, perm):
    """Random strategies under a chosen shuffle."""
    one = One(name, "line", "01")
    label = [i for i in TRAIN if i not in unlabel]
    L, U = form(label, how), form(unlabel, how)
    with rng.fixed_shuffle(perm), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return judge(one, lambda: one.select(L, U, batch), label, list(unlabel), batch, L, U)


def shuffled_big(name, n, m, batch, how):
    one = One(name, n, "01")
    ids = [(i * 11 + 2) % n for i in range(m)] if n % 11 else list(range(m))
    label = [i for i in range(n) if i not in ids]
    L, U = form(label, how), form(ids, how)
    with warnings.catch_warnings(), rng.chosen_shuffle(lambda k: [(i * 13 + 5) % k for i in range(k)] if k % 13 else list(range(k))[::-1]):
        warnings.simplefilter("ignore")
        return judge(one, lambda: one.select(L, U, batch), label, ids, batch, L, U)


def solver(name, label, unlabel, batch, how, answers, results):
    """BMDR / SPAL for chosen answers of the quadratic programming solver."""
    with stubs.Solver(answers, results), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        one = One(name, "line", "01")
        L, U = form(label, how), form(unlabel, how)
        return judge(one, lambda: one.select(L, U, batch), list(label), list(unlabel), batch, L, U)


def lal(rounds, trees):
    """LAL with a selector trained from a small file in a scratch directory."""
    d = tempfile.mkdtemp(prefix="c16")
    try:
        r = np.random.RandomState(0)
        f = os.path.join(d, "LAL-iterativetree-simulatedunbalanced-big.npz")
        np.savez(f, r.rand(12, 8), r.rand(12, 1))
        X, y = np.array(LAYOUT["line"]), np.array(LABELS["01"])
        X0, y0 = X.copy(), y.copy()
        out = []
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            s = ql.QueryInstanceLAL(X, y, data_path=d, cls_est=trees, train_slt=False)
            with contextlib.redirect_stdout(io.StringIO()):
                s.train_selector_from_file(f, reg_est=3, reg_depth=3)
            one = One("random:new", "line", "01")
            one.name = "lal"
            for label, unlabel, batch, how in rounds:
                L, U = form(label, how), form(unlabel, how)
                np.random.seed(3)
                out.append(judge(one, lambda: s.select(L, U, batch_size=batch), label, unlabel, batch, L, U))
        require(np.array_equal(X, X0) and np.array_equal(y, y0), "data-mutated:lal", "X or y changed")
        return out
    finally:
        shutil.rmtree(d)


CHEAP = ["unc:least_confident", "unc:margin", "unc:entropy", "unc:distance_to_boundary", "uncmat:least_confident", "uncmat:margin",
         "uncmat:entropy", "uncmat:distance_to_boundary", "random:new", "random:old", "qbcmat:vote_entropy", "qbcmat:KL_divergence",
         "quire:rbf", "quire:linear", "quire:poly", "quire:callable", "graph:manhattan", "graph:euclidean",
         "coreset:euclidean", "coreset:manhattan", "coreset:cosine", "density:entropy-euclidean", "density:margin-manhattan",
         "density:least_confident-cosine-model"]
DEAR = ["uncdef:entropy", "uncdef:distance_to_boundary", "qbc:vote_entropy", "qbc:KL_divergence", "eer:parzen", "eer:nearest"]


def partitions(empty=True):
    for lab in subsets(TRAIN):
        if lab or empty:
            yield list(lab), [i for i in TRAIN if i not in lab]


def explore(ctx):
    q = ctx.quick
    singles, formcases, hist = [], [], []
    for name in CHEAP + DEAR:
        dear = name in DEAR or name.startswith("graph")
        for layout in (("line", "dup", "const") if not dear else ("line", "const")):
            for labels in (("01",) if q else ("01", "pm", "123")):
                for lab, unl in partitions():
                    for b in range(1, len(unl) + 2):
                        if dear and q and b not in (1, 2, len(unl), len(unl) + 1):
                            continue
                        singles.append((name, layout, labels, "arr" if b % 2 else "list", [(lab, unl, b, "arr")]))
                        if len(unl) > 1 and not (q and name.startswith("qbc:")):
                            singles.append((name, layout, labels, "list", [(lab[::-1], unl[::-1], b, "list")]))
    for name in CHEAP + DEAR:
        for lab, unl in partitions():
            for b in ((1, 2) if q else range(1, 6)):
                if name in DEAR and q and len(lab) != 3:
                    continue
                formcases.append((name, "line", "01", lab, unl, b))
    parts = list(partitions())
    for name in ["graph:manhattan", "coreset:euclidean", "quire:rbf", "density:entropy-euclidean", "unc:entropy"] + ([] if q else DEAR[2:]):
        for p1 in parts:
            for p2 in (parts[::3] if q and name.startswith("graph") else parts):
                b1, b2 = 1 + len(p1[0]) % 3, 1 + len(p2[1]) % 2
                hist.append((name, "line", "01", "arr", [(p1[0], p1[1], b1, "list"), (p2[0], p2[1], b2, "arr")]))
        if not q:
            for p1, p2, p3 in itertools.product(parts[::2], parts[1::2], parts[::3]):
                hist.append((name, "dup", "pm", "list", [(p1[0], p1[1], 2, "arr"), (p2[0], p2[1], 2, "ind"), (p3[0], p3[1], 1, "list")]))
    # large pools: batches from one item to all of them, one object asked again as the pool shrinks
    for name in CHEAP + DEAR:
        for n in (30, 75) if name not in DEAR or name.startswith("uncdef") else (16, 30):
            tr = big_train(n)
            m = len(tr)
            for a in (1, 2, 3):
                lab = [i for t, i in enumerate(tr) if (t * (a + 2)) % 7 < a + (a == 3)]
                unl = [i for i in tr if i not in lab]
                for b in sorted({3, 11, len(unl) // 2, len(unl) - 1, len(unl) + 2}):
                    if name.startswith("eer") and b not in (3, len(unl) + 2) or name.startswith("qbc:") and a > 1 and q:
                        continue
                    nxt = sorted(unl)[:len(unl) // 3]
                    singles.append((name, n, "01" if name.startswith(("qbc", "eer", "uncdef")) else ("01", "pm", "123")[a - 1], "arr" if b % 2 else "list",
                                    [(lab, unl, b, ("arr", "list", "ind")[(a + b) % 3]), (lab + nxt, [i for i in unl if i not in nxt], min(b, 9), ("list", "arr")[a % 2])]))
                if not name.startswith(("eer", "qbc:")):
                    formcases.append((name, n, "01", lab, unl, 5))
    ctx.parallel(calls, singles + hist)
    ctx.parallel(forms, formcases)
    shuf = [(n, u, b, h, p) for n in ("random:new", "random:old") for u in subsets(TRAIN, 1) for b in range(1, len(u) + 1)
            for h in ("list", "arr", "ind") for p in itertools.permutations(range(len(u)))]
    if q:
        shuf = [c for c in shuf if len(c[1]) <= 4]
    ctx.parallel(shuffled, shuf)
    ctx.parallel(shuffled_big, [(nm, n, m, b, h) for nm in ("random:new", "random:old") for n in (30, 75, 300) for m in (12, n // 2, n - 9)
                                for b in sorted({1, 2, 33, m // 2, m - 1, m, m + 4}) for h in ("list", "arr", "ind")])
    grid = (0.0, 0.5, 1.0)
    sol = []
    for name in ("bmdr:rbf", "spal:rbf", "bmdr:linear", "spal:poly"):
        for lab, unl in (([4, 1], [5, 0, 2]), ([0], [5, 2, 1]), ([4, 1, 2], [0, 5]), ([4, 5, 0, 2, 1], []), ([0, 2, 5], [1, 4])):
            for b in range(1, len(unl) + 2):
                vec = list(itertools.product(grid, repeat=len(unl))) or [(1.0,)]
                for a in vec:
                    sol.append((name, lab, unl, b, "list", [a], []))
                    sol.append((name, lab, unl, b, "arr", [a, a[::-1]] * 9, [1.0]))
                    sol.append((name, lab, unl, b, "ind", [a], [float("inf"), 1.0] if sum(a) > 1 else ["dcp", 1.0]))
                if not q:
                    for a, c in itertools.product(vec, vec):
                        sol.append((name, lab, unl, b, "arr", [a, c], []))
    ctx.parallel(solver, sol)
    lalp = [p for p in parts if len({LABELS["01"][i] for i in p[0]}) == 2]
    if q:
        lalp = lalp[::4]
    ctx.parallel(lal, [([(p[0], p[1], b, h) for b in (1, 2, 3) for h in ("list", "arr", "ind")], 3) for p in lalp])
    ctx.stats.states = len(parts) * len(CHEAP + DEAR)
    ctx.stats.transitions = ctx.stats.evaluations
    ctx.stats.traces = ctx.stats.evaluations
