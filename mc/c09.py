"""C09: the packaged experiment, every sequence of query choices, against an independent account of it."""
import contextlib
import io
import itertools
import math
import random
import warnings
import os
import shutil
import tempfile
import time

import numpy as np
import scipy.sparse as sp
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.ensemble import RandomForestRegressor

from mc.core import Chooser, explore_choices, require, subsets
from mc.c10 import Clock, NOW, holds
from mc import fakecvx, rng
from alipy.experiment import AlExperiment, StateIO
from alipy.index import IndexCollection
from alipy.metrics import performance

fakecvx.install()
fakecvx.ANSWER[0] = fakecvx.minimum
LEVEL = "model_checking"
RULE = ("stateless search over the query choices: a user strategy asks the explorer which batch to query, so all query sequences of "
        "AlExperiment's loop are enumerated for every stopping rule, batch size, container spelling and initial set; at every "
        "select the sets are compared with the model, and at the end the whole recorded history, every performance value and the "
        "stopping point; built-in strategies are run on every initial labelled set")
ASSUMPTIONS = ("a small deterministic classifier", "the strategy returns what it is asked for (C16 checks the built-in ones)")

X = np.array([[0., 0.], [1., 0.2], [2., 0.1], [3., 1.], [4., 0.5], [5., 2.], [6., 0.3], [7., 3.], [8., 0.7]])
Y = np.array([0, 1, 0, 0, 1, 1, 0, 1, 1])
YM = np.array([[0, 1], [1, 0], [1, 1], [0, 1], [1, 0], [0, 1], [1, 1], [1, 0], [0, 1]])


def dense(x):
    return np.asarray(x.todense()) if sp.issparse(x) else np.asarray(x, dtype=float)


def scores(Xl, yl, Xt):
    d = ((Xt[:, None, :] - Xl[None, :, :]) ** 2).sum(axis=2)
    w = 1.0 / (1.0 + d)
    return w.dot(yl) / (w.sum(axis=1) if yl.ndim == 1 else w.sum(axis=1)[:, None])


class Model(BaseEstimator, ClassifierMixin):
    classes_ = np.array([0, 1])

    def fit(self, X, y, **k):
        self.X, self.y = dense(X), np.asarray(y)
        return self

    def predict(self, X):
        s = scores(self.X, self.y, dense(X))
        return (s > 0.5).astype(int) if self.y.ndim == 1 else s

    def predict_proba(self, X):
        s = scores(self.X, self.y, dense(X))
        return np.stack([1 - s, s], axis=1)


def ref_perf(metric, y, L, test, args={}):
    L = sorted(L)
    s = scores(X[L], y[L], X[test])
    p = (s > 0.5).astype(int) if y.ndim == 1 else s
    t = y[test]
    if metric == "accuracy_score":
        w = np.asarray(args.get("sample_weight", np.ones(len(t))), dtype=float)
        return float(np.sum(w * (t == p)) / np.sum(w))
    if metric == "zero_one_loss":
        return float(np.mean(t != p)) if args.get("normalize", True) else float(np.sum(t != p))
    if metric == "hamming_loss":
        return float(np.mean(t != p))
    return float(np.ravel(getattr(performance, metric)(t, p, **args))[0])


CUR = {}


class Chosen(object):
    """User strategy: the explorer picks the batch."""

    def __init__(self, X, y, **kw):
        self.kw = kw

    def select(self, label_index, unlabel_index, batch_size=1, **kw):
        c = CUR
        require(kw == self.kw, "strategy-arguments", "select got %r" % (kw,))
        L, U = set(label_index), set(unlabel_index)
        require(len(L) == len(label_index) and len(U) == len(unlabel_index), "duplicates", "")
        require(not L & U, "not-disjoint", "L=%s U=%s" % (L, U))
        require(L == c["L"] and U == c["U"], "working-sets", "select was given L=%s U=%s, expected %s %s" % (
            sorted(L), sorted(U), sorted(c["L"]), sorted(c["U"])))
        require(L | U == c["train"], "not-the-training-set", "")
        require(batch_size == c["batch"], "batch-size", "asked for %r" % (batch_size,))
        require(U, "query-on-empty-pool", "")
        combos = list(itertools.combinations(sorted(U), min(batch_size, len(U))))
        sel = list(combos[c["choose"](len(combos))])
        NOW[0] += c["dt"][len(c["asked"]) % len(c["dt"])]
        c["asked"].append(sel)
        c["L"] = L | set(sel)
        c["U"] = U - set(sel)
        k = c["form"]
        return sel if k == 0 else np.array(sel) if k == 1 else IndexCollection(sel)


def spelled(form, xs):
    return list(xs) if form == "list" else np.array(xs, dtype=int) if form == "array" else IndexCollection(list(xs)) if xs else IndexCollection([])


def judge(y, folds, res, asked, batch, rule, value, metric, dts, margs={}):
    require(len(res) == len(folds), "folds", "%d results for %d folds" % (len(res), len(folds)))
    for f, (tr, te, L0, U0) in enumerate(folds):
        s = res[f]
        L, U = set(L0), set(U0)
        require(s.round == f, "round", "")
        require(abs(s.initial_point - ref_perf(metric, y, L, te, margs)) < 1e-9, "initial-performance", "recorded %r, expected %r" % (
            s.initial_point, ref_perf(metric, y, L, te, margs)))
        n, el = 0, 0.0
        for k in range(len(s) + 1):
            ws = s.get_workspace(k)
            require(list(map(int, ws[0])) == list(tr) and list(map(int, ws[1])) == list(te), "split", "%r" % (ws[:2],))
            require(set(ws[2]) == L and set(ws[3]) == U, "reconstructed-sets", "iteration %d: %r, expected %s %s" % (k, ws[2:], L, U))
            stop = holds(rule, value, {"n": k, "cost": 0.0, "left": len(U), "frac": (len(U0) - len(U)) / len(U0) if U0 else 0.0}, el)
            if k == len(s):
                require(stop, "stopped-early:%s" % rule, "after %d queries, %s items left" % (k, len(U)))
                break
            require(not stop, "queries-after-stop:%s" % rule, "query %d" % (k + 1))
            st = s.get_state(k)
            sel = [int(i) for i in st.get_value("select_index")]
            require(len(sel) == len(set(sel)) == min(batch, len(U)), "batch", "query %d took %r of %d" % (k, sel, len(U)))
            require(set(sel) <= U, "queried-again", "%r is not in the unlabelled set %s" % (sel, U))
            if asked is not None:
                require(sel == asked[f][k], "recorded-query", "recorded %r, the strategy chose %r" % (sel, asked[f][k]))
            L |= set(sel)
            U -= set(sel)
            require(L | U == set(tr) and not L & U, "partition", "")
            want = ref_perf(metric, y, L, te, margs)
            got = float(np.ravel(st.get_value("performance"))[0])
            require(abs(got - want) < 1e-9, "performance", "query %d: recorded %r, expected %r" % (k, got, want))
            if dts is not None:
                el += dts[k % len(dts)]
        if asked is not None:
            require(len(asked[f]) == len(s), "unrecorded-query", "")


def run(ntrain, L0, batch, rule, value, opts, prefix):
    """One sequence of choices through two folds (the second one with another split)."""
    ch = Chooser(prefix)
    NOW[0] = 50.0
    metric = opts.get("metric", "accuracy_score")
    y = YM if opts.get("ml") else Y
    tr = list(range(ntrain))
    te = list(range(ntrain, 9))
    folds = [(tr, te, list(L0), [i for i in tr if i not in L0])]
    if opts.get("two"):
        tr2 = list(range(9 - ntrain, 9))
        folds.append((tr2, [i for i in range(9) if i not in tr2], tr2[:2], tr2[2:]))
    d = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH")) if opts.get("save") else None
    dts = opts.get("dt", (1.0,))
    asked = []
    form = opts.get("form", "list")
    split = [[spelled(form, f[j]) for f in folds] for j in range(4)]

    class Tracking(Chosen):
        def select(self, label_index, unlabel_index, **kw):
            # a new fold starts when the labelled set is the initial one of the next fold
            f = CUR["fold"]
            if f + 1 < len(folds) and not (set(label_index) == CUR["L"] and set(unlabel_index) == CUR["U"]):
                begin(f + 1)
            return Chosen.select(self, label_index, unlabel_index, **kw)

    def begin(f):
        asked.append([])
        CUR.update(L=set(folds[f][2]), U=set(folds[f][3]), train=set(folds[f][0]), batch=batch, asked=asked[-1], dt=dts,
                   choose=ch if f == 0 else (lambda n: 0), form=opts.get("ret", 0), fold=f)
    begin(0)
    try:
        with Clock(), contextlib.redirect_stdout(io.StringIO()):
            kw = dict(model=Model(), performance_metric=metric, stopping_criteria=rule, stopping_value=value, batch_size=batch)
            if opts.get("ctor", True):
                kw.update(train_idx=split[0], test_idx=split[1], label_idx=split[2], unlabel_idx=split[3])
            ex = AlExperiment(sp.csc_matrix(X) if opts.get("sparse") else X, y, **kw)
            if not opts.get("ctor", True):
                ex.set_data_split(*split)
                ex.set_performance_metric(metric, **opts.get("margs", {}))
            for other, okw in opts.get("before", ()):       # strategies which are replaced by the last one
                ex.set_query_strategy(other, **okw)
            ex.set_query_strategy(Tracking, **opts.get("args", {}))
            for _ in range(opts.get("again", 0)):           # the experiment is repeated
                ex.start_query(multi_thread=False, verbose=False)
                del asked[:]
                ch.trace = []
                begin(0)
            ex.start_query(multi_thread=False, **(dict(saving_path=d) if d else dict(verbose=opts.get("verbose", False))))
            res = ex.get_experiment_result()
        while len(asked) < len(folds):
            asked.append([])
        judge(y, folds, res, asked, batch, rule, value, metric, dts if rule == "time_limit" else None, opts.get("margs", {}))
        for j in range(4):
            for f in range(len(folds)):
                require(sorted(split[j][f]) == sorted(folds[f][j]), "split-changed", "")
        if len(res[0]):
            with contextlib.redirect_stdout(io.StringIO()):
                res[0].add_state(res[0].get_state(0))
        require(len(ex.get_experiment_result()[0]) == len(asked[0]), "result-not-private", "")
        if d:
            for f in range(len(folds)):
                p = os.path.join(d, "AL_round_%d.pkl" % f)
                if asked[f]:
                    s = StateIO.load(p)
                    require([list(s.get_state(k).get_value("select_index")) for k in range(len(s))] == asked[f], "saved-history", "")
        return (asked, ch.trace)
    finally:
        if d:
            shutil.rmtree(d)


def lal_file(d):
    r = np.random.RandomState(0)
    np.savez(os.path.join(d, "LAL-iterativetree-simulatedunbalanced-big.npz"), r.rand(12, 8), r.rand(12, 1))
    return d


@contextlib.contextmanager
def small_forests():
    """The 2000 trees of LAL's default selector are not what is checked here."""
    old = RandomForestRegressor.fit

    def fit(self, *a, **kw):
        self.n_estimators = min(self.n_estimators, 3)
        return old(self, *a, **kw)
    RandomForestRegressor.fit = fit
    try:
        yield
    finally:
        RandomForestRegressor.fit = old


def builtin(strategy, kw, ntrain, L0, batch, rule, value, seed, before=()):
    """A built-in strategy through one fold starting at L0."""
    tr, te = list(range(ntrain)), list(range(ntrain, 9))
    folds = [(tr, te, list(L0), [i for i in tr if i not in L0])]
    np.random.seed(seed)
    random.seed(seed)
    del fakecvx.PROGRAMS[:]
    d = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH")) if strategy == "QueryInstanceLAL" else None
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), small_forests():
            warnings.simplefilter("ignore")
            ex = AlExperiment(X, Y, model=Model(), stopping_criteria=rule, stopping_value=value, batch_size=batch,
                              train_idx=[tr], test_idx=[te], label_idx=[list(L0)], unlabel_idx=[folds[0][3]])
            for other, okw in before:
                ex.set_query_strategy(other, **okw)
            ex.set_query_strategy(strategy, **(dict(kw, data_path=lal_file(d)) if d else kw))
            ex.start_query(multi_thread=False, verbose=False)
            res = ex.get_experiment_result()
    finally:
        if d:
            shutil.rmtree(d)
    judge(Y, folds, res, None, batch, rule, value, "accuracy_score", None)
    got = [list(map(int, res[0].get_state(k).get_value("select_index"))) for k in range(len(res[0]))]
    if strategy in ("QueryInstanceBMDR", "QueryInstanceSPAL"):
        want = kw.get("qp_solver", "ECOS")
        require(all(p["solver"] == want for p in fakecvx.PROGRAMS), "strategy-arguments", "the solver %r was asked for, used was %r" % (
            want, sorted({p["solver"] for p in fakecvx.PROGRAMS})))
        require(bool(fakecvx.PROGRAMS) == any(len(folds[0][3]) - batch * k > batch for k in range(len(got))), "strategy-arguments",
                "%d programmes were solved" % len(fakecvx.PROGRAMS))
    return got


def replaced(seed, last, lastkw, before):
    """A strategy set in place of others chooses what it chooses when it is set alone."""
    a = builtin(last, lastkw, 6, [0, 1], 1, None, None, seed)
    b = builtin(last, lastkw, 6, [0, 1], 1, None, None, seed, before)
    require(a == b, "strategy-not-replaced", "after %r: %r queried %r, alone %r" % (before, last, b, a))
    return a


def auto(t, r, count, all_class, batch, space, prefix):
    """split_AL of the experiment, every outcome of the shuffle, then the run on the splits it returned."""
    ch = Chooser(prefix)
    sweep = [0]

    def pick(m):
        total = math.factorial(m)
        if len(ch.trace) < count:
            return rng.nth_permutation(m, ch(space) * (total // space))
        sweep[0] += 1                       # a rejected draw: further orders in turn
        require(sweep[0] < 2000, "never-ends", "no split accepted in 2000 further draws")
        return rng.nth_permutation(m, sweep[0] * 7919 % total)
    with contextlib.redirect_stdout(io.StringIO()):
        ex = AlExperiment(X, Y, model=Model(), batch_size=batch, stopping_criteria="num_of_queries", stopping_value=2)
        try:
            ex.start_query(multi_thread=False)
        except Exception:
            pass
        else:
            require(False, "no-split", "the experiment ran without a split")
        with rng.chosen_shuffle(pick):
            got = ex.split_AL(test_ratio=t, initial_label_rate=r, split_count=count, all_class=all_class)
        folds = [tuple([int(v) for v in got[j][f]] for j in range(4)) for f in range(count)]
        require(all(len(g) == count for g in got), "split-count", "")
        for tr, te, L0, U0 in folds:
            require(sorted(tr + te) == list(range(9)) and sorted(L0 + U0) == sorted(tr), "split-partition", "%r" % ((tr, te, L0, U0),))
            require(abs(len(te) - 9 * t) <= 1 and abs(len(L0) - len(tr) * r) <= 1.5, "split-sizes", "%r" % ((tr, te, L0, U0),))
            require(not all_class or set(Y[L0]) == {0, 1}, "split-classes", "%r" % (L0,))
        ex.set_query_strategy("QueryInstanceUncertainty", measure="margin")
        ex.start_query(multi_thread=False, verbose=False)
        res = ex.get_experiment_result()
    judge(Y, folds, res, None, batch, "num_of_queries", 2, "accuracy_score", None)
    return (folds, ch.trace)


def refuse():
    """What cannot be run is refused."""
    def bad(what, fn):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                fn()
        except Exception:
            return
        require(False, "accepted:" + what, "no exception")
    ok = ([[0, 1, 2, 3]], [[4, 5]], [[0, 1]], [[2, 3]])
    names = ("train_idx", "test_idx", "label_idx", "unlabel_idx")
    for j in range(4):
        cut = [list(p) for p in ok]
        cut[j] = cut[j] * 2
        bad("uneven-split", lambda: AlExperiment(X, Y).set_data_split(*cut))
        bad("uneven-split", lambda: AlExperiment(X, Y, **dict(zip(names, cut))))
    bad("unknown-strategy", lambda: AlExperiment(X, Y).set_query_strategy("QueryNothing"))
    bad("unknown-metric", lambda: AlExperiment(X, Y).set_performance_metric("nothing"))
    bad("unknown-metric", lambda: AlExperiment(X, Y, performance_metric="nothing"))
    bad("unknown-rule", lambda: AlExperiment(X, Y, stopping_criteria="nothing", stopping_value=1))
    bad("no-result", lambda: AlExperiment(X, Y).get_experiment_result())
    bad("no-result", lambda: AlExperiment(X, Y).plot_learning_curve())
    bad("no-training-set", lambda: AlExperiment(X, Y).set_query_strategy("QueryInstanceQUIRE"))
    return True


def tree(ctx, args):
    stack = [[]]
    while stack:
        pre = stack.pop()
        r = ctx.case(run, *(args + (pre,)))
        ctx.stats.extra["query_sequences"] += 1
        if r is None:
            return
        tr = r[1]
        ctx.stats.transitions += len(tr)
        for i in range(len(tr) - 1, len(pre) - 1, -1):
            for alt in range(tr[i][1] - 1, 0, -1):
                stack.append([c for c, _ in tr[:i]] + [alt])


class Fixed(object):
    """A user strategy without choices."""

    def __init__(self, X, y, a=None):
        self.a = a

    def select(self, label_index, unlabel_index, batch_size=1, a=None):
        require(a == self.a, "strategy-arguments", "select got %r" % (a,))
        return sorted(unlabel_index)[:batch_size]


def tree2(ctx, args):
    stack = [[]]
    while stack:
        pre = stack.pop()
        r = ctx.case(auto, *(args + (pre,)))
        ctx.stats.extra["splits"] += 1
        if r is None:
            return
        tr = r[1]
        for i in range(len(tr) - 1, len(pre) - 1, -1):
            for alt in range(tr[i][1] - 1, 0, -1):
                stack.append([c for c, _ in tr[:i]] + [alt])


def explore(ctx):
    q = ctx.quick
    jobs = []

    def add(*a):
        jobs.append((tree, (ctx, a)))
    n = 5 if q else 6
    rules = [(None, None), ("num_of_queries", 0), ("num_of_queries", 1), ("num_of_queries", 2), ("num_of_queries", 10),
             ("percent_of_unlabel", 0.5), ("percent_of_unlabel", 1.0), ("cost_limit", 2), ("time_limit", 2.0)]
    for rule, value in rules:
        for batch in (1, 2, 3):
            add(n, [0, 1], batch, rule, value, {"two": True, "dt": (1.0, 0.0, 2.0)})
    for form in ("array", "coll"):
        for ret in (0, 1, 2):
            add(n, [1, 2], 2, "num_of_queries", 2, {"form": form, "ret": ret, "two": True, "args": {"a": 1}})
    for metric in ("zero_one_loss", "hamming_loss", "roc_auc_score"):
        add(5, [0, 1], 1, "num_of_queries", 2, {"metric": metric})
    for metric in ("coverage_error", "label_ranking_loss", "label_ranking_average_precision_score"):
        add(5, [0, 1], 2, None, None, {"metric": metric, "ml": True})
    add(5, [0, 1], 1, None, None, {"save": True, "two": True})
    add(5, [0, 1], 1, "num_of_queries", 2, {"sparse": True, "ctor": False})
    add(5, [0, 1], 2, "num_of_queries", 2, {"verbose": True, "two": True})
    for m, ma in (("zero_one_loss", {"normalize": False}), ("roc_auc_score", {"pos_label": 0}),
                  ("accuracy_score", {"sample_weight": [1., 2., 3., 4.]})):
        add(5, [0, 1], 1, "num_of_queries", 2, {"metric": m, "margs": ma, "ctor": False})
    add(5, [0, 1], 1, "num_of_queries", 2, {"again": 1, "two": True})
    add(5, [0, 1], 1, "percent_of_unlabel", .5, {"again": 1, "args": {"a": 1}, "before": [("QueryInstanceQUIRE", {}), ("QueryRandom", {})]})
    for L0 in subsets(range(5), 1, 4):
        add(5, list(L0), 2, None, None, {})
        add(5, list(L0), 1, "percent_of_unlabel", 0.5, {})
    add(4, [0, 1, 2, 3], 1, "num_of_queries", 2, {"two": True})        # nothing to query
    add(4, [0, 1, 2, 3], 1, "percent_of_unlabel", 0.5, {"two": True})
    if not q:
        add(7, [0], 1, "num_of_queries", 4, {})
        add(7, [0, 1], 2, None, None, {"two": True})
        add(6, [0], 3, None, None, {"save": True})
    bi = [("QueryInstanceUncertainty", {"measure": m}) for m in ("entropy", "margin", "least_confident", "distance_to_boundary")[:3]] + [
        ("QueryInstanceRandom", {}), ("QueryRandom", {}), ("QueryExpectedErrorReduction", {}),
        ("QueryInstanceGraphDensity", {"metric": "euclidean"}), ("QueryInstanceGraphDensity", {}), ("QueryInstanceQUIRE", {}),
        ("QueryInstanceQBC", {}), ("QueryInstanceQBC", {"disagreement": "KL_divergence"})]
    for strat, kw in bi:
        full = [L0 for L0 in subsets(range(6), 1, 5) if len(set(Y[list(L0)])) == 2]
        if strat == "QueryInstanceQBC" and q:
            full = full[::12]
        for L0 in full:
            for batch, rule, value in ((1, None, None), (2, "num_of_queries", 2), (3, "percent_of_unlabel", 0.5)):
                if strat == "QueryInstanceQUIRE":
                    batch = 1           # documented not to be a batch mode strategy
                jobs.append((ctx.case, (builtin, strat, kw, 6, list(L0), batch, rule, value, ctx.seed)))
    for strat, kw in (("QueryInstanceBMDR", {}), ("QueryInstanceBMDR", {"qp_solver": "OSQP", "beta": 10.}), ("QueryInstanceSPAL", {}),
                      ("QueryInstanceSPAL", {"qp_solver": "OSQP", "mu": 1., "lambda_init": .5}), ("QueryInstanceLAL", {"cls_est": 3})):
        full = [L0 for L0 in subsets(range(6), 2, 5) if len(set(Y[list(L0)])) == 2]
        for L0 in full[::20] if strat == "QueryInstanceLAL" else full[::2] if q else full:
            for batch, rule, value in ((1, None, None), (2, "num_of_queries", 2)):
                jobs.append((ctx.case, (builtin, strat, kw, 6, list(L0), batch, rule, value, ctx.seed)))
    bi = [("QueryInstanceUncertainty", {"measure": "margin"}), ("QueryInstanceRandom", {}), ("QueryInstanceGraphDensity", {}),
          ("QueryInstanceQUIRE", {}), ("QueryInstanceBMDR", {}), ("QueryInstanceSPAL", {}), (Fixed, {"a": 1})]
    for last, other in itertools.product(bi[:-1], bi):
        jobs.append((ctx.case, (replaced, ctx.seed) + last + ([other],)))
        for third in bi if not q else [bi[-1], bi[2]]:
            jobs.append((ctx.case, (replaced, ctx.seed) + last + ([third, other],)))
    for t, r, allc in itertools.product((.3, .5), (.45, .7), (True, False)):
        for count, batch in ((1, 1), (2, 2)):
            jobs.append((tree2, (ctx, (t, r, count, allc, batch, (60 if q else 400) if count == 1 else (6 if q else 20)))))
    jobs.append((ctx.case, (refuse,)))
    ctx.jobs(jobs)
    ctx.stats.states = len(ctx.stats.outcomes)
    ctx.stats.traces = ctx.stats.evaluations
