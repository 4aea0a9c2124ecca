"""C06: every interleaving (preemption bounded) of the parallel fold runner's threads."""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np

from mc import crashfs, sched
from mc.core import Chooser, require
import alipy.experiment.state_io
import alipy.utils.multi_thread
from alipy.experiment import StateIO, State
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.toolbox import ToolBox
from alipy.utils.multi_thread import aceThreading

LEVEL = "model_checking"
RULE = ("stateless search: the real runner under a controlled scheduler; every schedule with at most the stated number of "
        "preemptions, scheduling points at thread start/end, liveness polls, file effects and the user function's steps, in one "
        "family at every source line of the runner and of the history; one execution per schedule, each judged in full")
ASSUMPTIONS = ("threads switch at the listed points only (line granularity at the finest)",
               "the user's function touches only what it is given")

X = np.arange(24.).reshape(12, 2)
Y = np.array([0, 1] * 6)
YM = np.array([[0, 1], [1, 0], [1, 1]] * 4)


class World(object):
    pass


W = World()


def new_world(k, lens, fail=()):
    W.calls = []          # (round, record)
    W.open = set()
    W.max_open = 0
    W.lens = lens
    W.fail = fail
    W.ended = []
    W.collections = []
    W.done_queries = []


def pick(U):
    return sorted(U)[0]


def body(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
    s = sched.Sched.active
    W.open.add(round)
    W.max_open = max(W.max_open, len(W.open))
    W.calls.append((round, list(train_id), list(test_id), sorted(Ucollection), sorted(Lcollection), saver.round,
                    examples is W.examples, labels is W.labels, dict(global_parameters or {}), len(saver)))
    W.collections.append((Ucollection, Lcollection))
    try:
        if W.touch:
            s.point("user")
        saver.set_initial_point(0.25 + round)
        for q in range(len(saver), W.lens[round]):
            if q == 1 and round in W.fail:
                raise RuntimeError("the user's function failed")
            i = pick(Ucollection)
            Ucollection.difference_update([i])
            Lcollection.update([i])
            if W.touch:
                s.point("user")
            saver.add_state(State(select_index=[i], performance=round + q / 8., cost=[round + 1]))
            W.done_queries.append((round, q))
            saver.save()
        if W.touch:
            s.point("user")
    finally:
        W.open.discard(round)
        W.ended.append(round)


def data(k, variant):
    """train, test, label, unlabel index lists, as given by the user"""
    if variant in ("ml", "mlraw"):
        L = [[(i, 0)] for i in range(k)]
        U = [[(j, l) for j in range(3) for l in range(2) if (j, l) != (i, 0)] for i in range(k)]
        tr, te = [[0, 1, 2]] * k, [[3 + i] for i in range(k)]
        if variant == "ml":
            L = [MultiLabelIndexCollection(x, 2) for x in L]
            U = [MultiLabelIndexCollection(x, 2) for x in U]
        return tr, te, L, U
    if variant == "shared":
        l, u = IndexCollection([0, 1]), IndexCollection([2, 3, 4, 5])
        return [[0, 1, 2, 3, 4, 5]] * k, [[6, 7]] * k, [l] * k, [u] * k
    tr = [[i, i + 1, i + 2, i + 3, i + 4] for i in range(k)]
    te = [[i + 5, i + 6] for i in range(k)]
    L = [[i] for i in range(k)]
    U = [[i + 1, i + 2, i + 3, i + 4] for i in range(k)]
    if variant == "coll":
        L, U = [IndexCollection(x) for x in L], [IndexCollection(x) for x in U]
    return tr, te, L, U


def freeze(x):
    return [sorted(e) if not isinstance(e, (int, float)) else e for e in x]


def expected(k, variant, lens, fail=()):
    tr, te, L, U = data(k, variant)
    out = []
    for r in range(k):
        sels = sorted(U[r])[:lens[r]]
        if r in fail:
            sels = sels[:1]
        out.append((r, list(tr[r]), list(te[r]), sorted(L[r]), sorted(U[r]), [([s], r + q / 8., [r + 1]) for q, s in
                                                                              enumerate(sels)]))
    return out


def history(s):
    return (s.round, list(s.train_idx), list(s.test_idx), sorted(s.init_L), sorted(s.init_U),
            [(list(st.get_value("select_index")), float(st.get_value("performance")), list(st.get_value("cost")))
             for st in (s.get_state(i) for i in range(len(s)))])


def scratch():
    return tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))


def schedule(k, max_thread, lens, variant, opts, prefix):
    """One execution: the runner on k rounds under the schedule given by prefix."""
    new_world(k, lens, opts.get("fail", ()))
    W.touch = not opts.get("coarse")
    W.examples, W.labels = X, (YM if variant.startswith("ml") else Y)
    gp = {"a": 1, "b": [2]} if opts.get("gp") else None
    d = scratch()
    ch = Chooser(prefix)
    try:
        tr, te, L, U = data(k, variant)
        before = (freeze(tr), freeze(te), freeze(L), freeze(U))
        s = sched.Sched(ch, bound=opts.get("bound", 2), ticking=opts.get("ticking", False),
                        bystanders=opts.get("bystanders", 0),
                        lines=opts.get("line", False))
        if opts.get("line"):
            sched.statement_points(alipy.utils.multi_thread, alipy.experiment.state_io)
        if opts.get("toolbox"):
            tb = ToolBox(y=W.labels, X=X, saving_path=None, train_idx=tr, test_idx=te, label_idx=L, unlabel_idx=U)
            run = tb.get_ace_threading(target_function=body, max_thread=max_thread, saving_path=d)
            W.examples, W.labels = run._examples, run._labels
            require(np.array_equal(W.examples, X) and np.array_equal(W.labels, Y), "data", "toolbox passes other data")
        else:
            run = aceThreading(X, W.labels, tr, te, L, U, target_func=body if not opts.get("late") else None,
                               max_thread=max_thread, saving_path=d, refresh_interval=1)
            if opts.get("late"):
                run.set_target_function(body)
        plan = crashfs.Plan(on_step=None if opts.get("nofs") else (lambda what: s.point("fs")))
        with contextlib.redirect_stdout(io.StringIO()), crashfs.faulty(d, plan):
            try:
                res = s.run(lambda: run.start_all_threads(global_parameters=gp))
            finally:
                sched.remember(ch)
        require(s.deadlock is None, "hang", "%s" % s.deadlock)
        want = expected(k, variant, lens, W.fail)
        require(s.unfinished_at_return == [], "returns-early", "rounds still running: %s" % s.unfinished_at_return)
        excs = [t.exc for t in s.tasks if t.exc is not None and not str(t.exc).startswith("the user's function failed")]
        require(not excs, "thread-exception", "%r" % (excs,))
        require(sorted(c[0] for c in W.calls) == list(range(k)), "rounds-run", "user function called for rounds %s" % (
            [c[0] for c in W.calls],))
        require(W.max_open <= (max_thread or k), "too-many-threads", "%d rounds in progress with max_thread=%s" % (
            W.max_open, max_thread))
        for c in W.calls:
            r = c[0]
            w = want[r]
            require(c[1:5] == (w[1], w[2], w[4], w[3]), "wrong-arguments", "round %d got %r, expected %r" % (r, c[1:5], w[1:5]))
            require(c[5] == r and c[9] == 0, "wrong-saver", "round %d got the history of round %d (%d queries)" % (r, c[5], c[9]))
            require(c[6] and c[7] and c[8] == (gp or {}), "wrong-data", "%r" % (c[6:],))
        ids = [id(x) for p in W.collections for x in p]
        require(len(set(ids)) == 2 * k, "shared-collections", "rounds share an index collection")
        require((freeze(tr), freeze(te), freeze(L), freeze(U)) == before, "inputs-changed", "the caller's splits were changed")
        res1 = run.get_results()
        require([history(x) for x in res1] == want, "results", lambda: "%r\nexpected %r" % ([history(x) for x in res1], want))
        res1[0].add_state(State(select_index=[99], performance=0))
        require([history(x) for x in run.get_results()] == want, "results-not-private", "")
        for r in range(k):
            p = os.path.join(d, "AL_result", "AL_round_%d.pkl" % r)
            if W.lens[r]:
                require(os.path.exists(p), "file-missing", p)
                require(history(StateIO.load(p)) == want[r], "file-content", lambda: "%r" % (history(StateIO.load(p)),))
        return [W.max_open, [c[0] for c in W.calls], W.ended, len(ch.trace)]
    finally:
        shutil.rmtree(d)


def cases(quick):
    out = []

    def add(k, mt, lens, variant, **o):
        out.append((schedule, (k, mt, lens, variant, o)))
    # all schedules with few preemptions of the usual shape
    add(2, None, (2, 1), "coll", bound=2, nofs=True)
    add(2, 1, (1, 1), "list", bound=2)
    add(2, 2, (1, 1), "shared", bound=2, nofs=True, ticking=True)
    add(3, 2, (1, 1, 1), "shared", bound=1 if quick else 2, nofs=True)
    add(3, 1, (1, 0, 2), "coll", bound=1, nofs=True)
    add(3, None, (1, 1, 1), "list", bound=1, nofs=quick)
    add(2, 1, (1, 1), "coll", bound=1, bystanders=2, nofs=True)
    add(3, 2, (1, 1, 1), "coll", bound=1, bystanders=3, nofs=True, coarse=True, ticking=True)
    add(2, None, (1, 1), "ml", bound=1, nofs=True)
    add(2, 2, (1, 2), "mlraw", bound=1, nofs=True)
    add(3, 2, (2, 2, 1), "coll", bound=1, nofs=True, fail=(0,))
    add(2, None, (1, 1), "list", bound=1, toolbox=True)
    add(2, None, (1, 1), "list", bound=1, gp=True, late=True)
    add(1, None, (2,), "coll", bound=2)
    add(4, 2, (1, 1, 1, 1), "coll", bound=0 if quick else 1, nofs=True)
    add(4, 3, (1, 0, 1, 1), "coll", bound=0 if quick else 1, nofs=True, coarse=True)
    add(2, None, (1, 1), "coll", bound=1, line=True, nofs=True, coarse=True)
    add(2, 1, (1, 1), "coll", bound=1, line=True, nofs=True, coarse=True, ticking=True)
    if not quick:
        add(2, None, (2, 2), "coll", bound=3, nofs=True)
        add(2, None, (1, 1), "coll", bound=2, line=True, nofs=True, coarse=True)
        add(2, 1, (2, 1), "coll", bound=2)
        add(2, None, (2, 2), "shared", bound=2)
        add(3, 2, (1, 1, 1), "coll", bound=2)
        add(3, 2, (2, 1, 1), "coll", bound=1, line=True, nofs=True, coarse=True)
        add(5, 2, (1,) * 5, "coll", bound=1, nofs=True, coarse=True)
        add(3, 2, (1, 1, 1), "coll", bound=2, nofs=True, ticking=True, bystanders=1)
    return out


def explore(ctx):
    cs = cases(ctx.quick)
    sched.explore_all(ctx, cs)
    ctx.stats.traces = ctx.stats.extra["schedules"]
    ctx.stats.states = len(ctx.stats.outcomes)
    ctx.notes["configurations"] = len(cs)
