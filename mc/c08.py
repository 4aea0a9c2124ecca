"""C08: AlExperiment with concurrent folds, every schedule, against its sequential and its single-fold runs."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np

from mc import crashfs, sched
from mc.core import Chooser, require
import alipy.experiment.al_experiment
from alipy.experiment import AlExperiment
from alipy.index import IndexCollection

LEVEL = "model_checking"
RULE = ("stateless search: AlExperiment.start_query(multi_thread=True) under a controlled scheduler, scheduling points inside the "
        "model's fit and predict, the strategy's select, file effects, thread start/end and liveness polls (one family: every line "
        "of al_experiment.py); every schedule up to the preemption bound is compared with the folds run one by one and alone")
ASSUMPTIONS = ("deterministic models and strategies", "switches only at the listed points, finest granularity a source line")

X = np.array([[0., 0.], [1., 0.2], [2., 0.1], [3., 1.], [4., 0.5], [5., 2.], [6., 0.3], [7., 3.], [8., 0.7], [9., 4.]])
Y = np.array([0, 1, 0, 0, 1, 1, 0, 1, 1, 0])


def point():
    s = sched.Sched.active
    if s is not None:
        s.point("user")


class Nearest(object):
    """Deterministic model whose intermediate state is visible to whoever shares it."""

    def __init__(self):
        self.X = self.y = None
        self.fits = 0

    def fit(self, X, y, **kw):
        self.X = np.asarray(X, dtype=float)
        point()
        self.y = np.asarray(y)
        self.fits += 1
        return self

    def predict(self, X):
        p = self.predict_proba(X)
        return np.argmax(p, axis=1)

    def predict_proba(self, X):
        point()
        d = ((np.asarray(X, dtype=float)[:, None, :] - self.X[None, :, :]) ** 2).sum(axis=2)
        w = 1.0 / (1.0 + d)
        one = (w * (self.y == 1)).sum(axis=1) / w.sum(axis=1)
        return np.stack([1 - one, one], axis=1)


class Scripted(object):
    """Deterministic user-defined strategy with internal state."""

    def __init__(self, X, y, step=2, **kw):
        self.count = 0
        self.pool = []
        self.step = step

    def select(self, label_index, unlabel_index, batch_size=1, **kw):
        self.pool = sorted(unlabel_index)
        self.count += self.step
        point()
        k = self.count % len(self.pool)
        r = (self.pool[k:] + self.pool[:k])[:batch_size]
        return r


def splits(k, shared=False):
    if shared in ("coll", "arr"):
        form = IndexCollection if shared == "coll" else np.array
        tr, te, l, u = splits(k)
        return [np.array(t) for t in tr], [np.array(t) for t in te], [form(t) for t in l], [form(t) for t in u]
    tr = [[(i + j) % 10 for j in range(7)] for i in range(k)]
    te = [[(i + j) % 10 for j in range(7, 10)] for i in range(k)]
    if shared:
        tr, te = [tr[0]] * k, [te[0]] * k
        l, u = tr[0][:2], tr[0][2:]
        return tr, te, [l] * k, [u] * k
    return tr, te, [t[:2 + i % 2] for i, t in enumerate(tr)], [t[2 + i % 2:] for i, t in enumerate(tr)]


def experiment(strategy, sp, batch, stop, value, metric="accuracy_score"):
    ex = AlExperiment(X, Y, model=Nearest(), performance_metric=metric, stopping_criteria=stop, stopping_value=value,
                      batch_size=batch, train_idx=sp[0], test_idx=sp[1], label_idx=sp[2], unlabel_idx=sp[3])
    if strategy == "scripted":
        ex.set_query_strategy(Scripted, step=3)
    elif strategy == "density":
        ex.set_query_strategy("QueryInstanceGraphDensity", metric="euclidean")
    elif strategy == "quire":
        ex.set_query_strategy("QueryInstanceQUIRE", **{"lambda": 1.0})
    elif strategy == "eer":
        ex.set_query_strategy("QueryExpectedErrorReduction")
    else:
        ex.set_query_strategy("QueryInstanceUncertainty", measure=strategy)
    return ex


def one(x):
    return x.item() if hasattr(x, "item") else x


def curve(s):
    return (s.round, [one(i) for i in s.train_idx], [one(i) for i in s.test_idx], sorted(map(one, s.init_L)),
            sorted(map(one, s.init_U)), round_(s.initial_point),
            [([one(i) for i in s.get_state(k).get_value("select_index")], round_(s.get_state(k).get_value("performance")))
             for k in range(len(s))])


def round_(v):
    return None if v is None else float(np.round(float(v), 10))


def plain(sp):
    return [[[one(i) for i in fold] for fold in part] for part in sp]


def run_quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def sequential(strategy, sp, batch, stop, value):
    ex = experiment(strategy, sp, batch, stop, value)
    frozen = plain(sp)
    run_quiet(lambda: ex.start_query(multi_thread=False, verbose=False))
    first = [curve(s) for s in ex.get_experiment_result()]
    run_quiet(lambda: ex.start_query(multi_thread=False, verbose=False))
    again = [curve(s) for s in ex.get_experiment_result()]
    require(plain(sp) == frozen, "splits-changed", "")
    require(first == again, "repeat", lambda: "a second sequential run gave %r, the first %r" % (again, first))
    return first


def alone(strategy, sp, batch, stop, value, seq):
    for f in range(len(sp[0])):
        ex = experiment(strategy, [[part[f]] for part in sp], batch, stop, value)
        run_quiet(lambda: ex.start_query(multi_thread=False, verbose=False))
        c = [curve(s) for s in ex.get_experiment_result()]
        require(len(c) == 1 and c[0][1:] == seq[f][1:], "fold-depends-on-others", lambda: "fold %d alone: %r\nwith the others: %r" % (
            f, c[0], seq[f]))


REF = {}


def reference(strategy, k, shared, batch, stop, value):
    key = (strategy, k, shared, batch, stop, value)
    if key not in REF:
        sp = splits(k, shared)
        seq = sequential(strategy, sp, batch, stop, value)
        require([s[0] for s in seq] == list(range(k)), "sequential-folds", "%r" % ([s[0] for s in seq],))
        alone(strategy, sp, batch, stop, value, seq)
        REF[key] = seq
    return REF[key]


def refcase(strategy, k, shared, batch, stop, value):
    REF.clear()
    return reference(strategy, k, shared, batch, stop, value)


def concurrent(strategy, k, shared, batch, stop, value, max_thread, opts, prefix):
    ch = Chooser(prefix)
    d = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))
    try:
        seq = reference(strategy, k, shared, batch, stop, value)
        sp = splits(k, shared)
        ex = experiment(strategy, sp, batch, stop, value)
        frozen = plain(sp)
        s = sched.Sched(ch, bound=opts.get("bound", 1),
                        lines=opts.get("line", False))
        if opts.get("line"):
            sched.statement_points(alipy.experiment.al_experiment)
        plan = crashfs.Plan(on_step=(lambda what: s.point("fs")) if opts.get("fs") else None)
        for again in range(2 if opts.get("again") else 1):
            with contextlib.redirect_stdout(io.StringIO()), crashfs.faulty(d, plan):
                try:
                    s.run(lambda: ex.start_query(multi_thread=True, max_thread=max_thread, saving_path=d))
                finally:
                    sched.remember(ch)
            require(s.deadlock is None, "hang", "%s" % s.deadlock)
            require(s.unfinished_at_return == [], "returns-early", "")
            excs = [repr(t.exc) for t in s.tasks if t.exc is not None]
            require(not excs, "fold-failed", "%s" % excs)
            got = [curve(x) for x in ex.get_experiment_result()]
            require(got == seq, "differs-from-sequential", lambda: "concurrent %r\nsequential %r" % (got, seq))
            if opts.get("again") and again == 0:
                s = sched.Sched(Chooser([]), bound=0)
        require(plain(sp) == frozen, "splits-changed", "")
        return [[len(c[6]) for c in got], len(ch.trace), s.points]
    finally:
        shutil.rmtree(d)


def cases(quick):
    out = []

    def add(strategy, k, shared, batch, stop, value, mt, **o):
        out.append((concurrent, (strategy, k, shared, batch, stop, value, mt, o)))
    add("scripted", 2, False, 1, "num_of_queries", 2, None, bound=1 if quick else 2)
    add("scripted", 2, True, 2, "num_of_queries", 1, None, bound=2)
    add("scripted", 2, False, 2, None, None, None, bound=1, again=True)
    add("entropy", 2, False, 1, "num_of_queries", 1, None, bound=2)
    add("margin", 2, True, 1, "percent_of_unlabel", 0.4, 1, bound=1)
    add("least_confident", 3, False, 1, "num_of_queries", 1, 2, bound=1)
    add("eer", 2, False, 1, "num_of_queries", 1, None, bound=1)
    add("density", 2, False, 1, "num_of_queries", 2, None, bound=1)
    add("entropy", 2, "coll", 1, "num_of_queries", 1, None, bound=1, again=True)
    add("scripted", 2, "arr", 1, "num_of_queries", 1, None, bound=1)
    add("quire", 2, True, 1, "num_of_queries", 1, None, bound=1)
    add("scripted", 2, False, 1, "num_of_queries", 1, None, bound=1, line=True)
    add("entropy", 2, False, 1, "num_of_queries", 1, None, bound=1, fs=True)
    if not quick:
        add("density", 2, False, 1, "num_of_queries", 1, None, bound=1, line=True)
        add("entropy", 2, False, 1, "num_of_queries", 1, None, bound=2, line=True)
        add("scripted", 3, False, 1, "num_of_queries", 2, None, bound=1)
        add("scripted", 3, True, 2, "num_of_queries", 2, 2, bound=2)
        add("margin", 3, False, 1, None, None, None, bound=1)
        add("entropy", 2, True, 2, "num_of_queries", 2, None, bound=3)
    return out


def explore(ctx):
    for strategy in ("scripted", "entropy", "margin", "least_confident", "eer", "density", "quire"):
        for shared in (False, True, "coll", "arr"):
            for batch, stop, value in ((1, None, None), (3, None, None), (2, "num_of_queries", 2), (1, "percent_of_unlabel", 0.5),
                                       (1, "cost_limit", 3)):
                ctx.case(refcase, strategy, 3, shared, batch, stop, value)
    cs = cases(ctx.quick)
    sched.explore_all(ctx, cs)
    ctx.stats.traces = ctx.stats.extra["schedules"]
    ctx.stats.states = len(ctx.stats.outcomes)
    ctx.notes["configurations"] = len(cs)
