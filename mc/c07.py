"""C07: a parallel run killed at every point of every schedule, then recovered (and killed again)."""
import contextlib
import io
import os
import shutil

from mc import crashfs, sched, c06, c08
from mc.core import Chooser, require
from mc.c06 import W, X, Y, YM, data, expected, freeze, history, new_world, scratch, pick
from alipy.experiment import StateIO, State
from alipy.index import IndexCollection
from alipy.utils.multi_thread import aceThreading

LEVEL = "model_checking"
RULE = ("stateless search: the real runner under a controlled scheduler where every scheduling point and every file effect may be "
        "the last one of the process; after the kill the real recovery runs (in one family it is killed again at every point) and "
        "the completed histories, the rounds re-run and the point they resumed from are judged")
ASSUMPTIONS = ("each file effect is all or nothing here (torn writes are in C05)", "the user's function saves after each query, as documented",
               "a round's completion counts as recorded once the runner's state file has been rewritten twice after the round ended")

MARK = 0.0


def body(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
    s = sched.Sched.active
    W.open.add(round)
    W.max_open = max(W.max_open, len(W.open))
    W.calls.append((round, list(train_id), list(test_id), sorted(Ucollection), sorted(Lcollection), saver.round, len(saver),
                    None if global_parameters is None else dict(global_parameters)))
    try:
        while len(saver) < W.lens[round]:
            q = len(saver)
            i = pick(Ucollection)
            Ucollection.difference_update([i])
            Lcollection.update([i])
            s.point("user")
            saver.add_state(State(select_index=[i], performance=W.mark + round + q / 8., cost=[round + 1]))
            saver.save()
        s.point("user")
    finally:
        W.open.discard(round)
        if not s.dead:
            W.ended.append(round)
            W.end_sig.setdefault(round, 0)


def signature(p):
    try:
        st = os.stat(p)
        return (st.st_ino, st.st_mtime_ns, st.st_size)
    except OSError:
        return None


def on_disk(d, r, mark):
    """number of queries of this run saved for round r"""
    p = os.path.join(d, "AL_result", "AL_round_%d.pkl" % r)
    if not os.path.exists(p) or os.path.getsize(p) == 0:
        return 0
    h = history(StateIO.load(p))
    if any(int(x[1]) // 50 != int(mark) // 50 for x in h[5]):
        return 0
    return len(h[5])


def phase(d, runner, chooser, bound, crash, gp, mark, k, ticking=False):
    """Run `runner` until it returns or is killed. Returns (killed, finished rounds recorded)."""
    state = os.path.join(d, "multi_thread_state.pkl")
    W.calls, W.ended, W.open, W.max_open, W.end_sig, W.mark = [], [], set(), 0, {}, mark
    s = sched.Sched(chooser, bound=bound, crash=crash, ticking=ticking)
    plan = crashfs.Plan(on_step=lambda what: s.point("fs"))

    def die():
        plan.dead = True
    s.on_crash.append(die)
    last = [signature(state)]

    def watch():
        W.max_open = max(W.max_open, sum(1 for t in s.tasks[1:] if not t.done))      # started, and not through
        for t in s.tasks[1:]:
            if t.done and t.tid not in seen:
                seen.add(t.tid)
        sg = signature(state)
        if sg != last[0]:
            last[0] = sg
            for t in s.tasks[1:]:
                if t.tid in seen:
                    saves[t.tid] = saves.get(t.tid, 0) + 1
    seen, saves = set(), {}
    s.on_point.append(watch)
    with contextlib.redirect_stdout(io.StringIO()), crashfs.faulty(d, plan):
        res = s.run((lambda: runner.start_all_threads(global_parameters=gp)) if gp is not None
                    else (lambda: runner.start_all_threads()))
    require(s.deadlock is None, "hang", "%s" % s.deadlock)
    if not s.killed:
        require(s.unfinished_at_return == [], "returns-early", "")
        excs = [t.exc for t in s.tasks if t.exc is not None]
        require(not excs, "thread-exception", "%r" % (excs,))
    recorded = set()
    for t in s.tasks[1:]:
        if saves.get(t.tid, 0) >= 2:
            recorded.add(int(t.thread.name))
    return s.killed, recorded


def fresh(d, k, max_thread, variant):
    tr, te, L, U = data(k, variant)
    return aceThreading(X, YM if variant.startswith("ml") else Y, tr, te, L, U, target_func=body, max_thread=max_thread,
                        saving_path=d, refresh_interval=1)


def killed(k, max_thread, lens, variant, opts, prefix):
    new_world(k, lens)
    d = scratch()
    ch = Chooser(prefix)
    zero = Chooser([])
    gp = opts.get("gp", {"g": 7})
    state = os.path.join(d, "multi_thread_state.pkl")
    want = expected(k, variant, lens)
    shift = 0.0
    try:
        left = opts.get("leftover")
        if left == "run":            # a complete earlier experiment of other performances in the same place
            W.lens = tuple(2 for _ in lens)
            phase(d, fresh(d, k, max_thread, variant), Chooser([]), 0, False, gp, 100.0, k)
            W.lens = lens
        elif left == "empty":
            os.makedirs(os.path.join(d, "AL_result"))
            for r in range(k):
                open(os.path.join(d, "AL_result", "AL_round_%d.pkl" % r), "w").close()
        out = []
        before = open(state, "rb").read() if os.path.exists(state) else None
        try:
            dead, recorded = phase(d, fresh(d, k, max_thread, variant), ch, opts.get("bound", 1), True, gp, 0.0, k,
                                   opts.get("ticking", False))
        finally:
            sched.remember(ch)
        finished = set(recorded)
        rounds = 0
        runner = None
        while True:
            out.append([dead, [c[0] for c in W.calls], sorted(finished)])
            now = open(state, "rb").read() if os.path.exists(state) else None
            saved = [on_disk(d, r, 0.0) for r in range(k)]
            if now is None or now == before:
                require(dead, "state-not-saved", "the run finished without saving its state")
                runner = fresh(d, k, max_thread, variant)        # the user starts again
                saved = [0] * k
                gp_now = gp
                finished = set()
            else:
                runner = aceThreading.recover(state)
                gp_now = None
            rounds += 1
            second = opts.get("second") and rounds == 1 and dead
            was_dead = dead
            try:
                dead, recorded = phase(d, runner, ch if second else zero, opts.get("bound2", 0) if second else 0, bool(second),
                                       gp_now, 0.0, k)
            finally:
                sched.remember(ch)
            for c in W.calls:
                r = c[0]
                require(r not in finished, "finished-round-rerun", "round %d was recorded as finished, and ran again" % r)
                require(c[6] == saved[r], "resume-point", "round %d: %d queries were saved, it resumed with %d" % (r, saved[r], c[6]))
                w = want[r]
                sel = [x[0][0] for x in w[5][:c[6]]]
                require(c[1:6] == (w[1], w[2], sorted(set(w[4]) - set(sel)), sorted(set(w[3]) | set(sel)), r), "resume-arguments",
                        "round %d resumed with %r" % (r, c[1:6]))
                require(c[7] == gp, "resume-parameters", "round %d resumed with global_parameters %r" % (r, c[7]))
            require(len(set(c[0] for c in W.calls)) == len(W.calls), "round-run-twice", "%r" % ([c[0] for c in W.calls],))
            require(W.max_open <= (max_thread or k), "too-many-threads", "")
            finished |= recorded
            if not dead:
                if not was_dead:
                    require(not W.calls, "finished-round-rerun", "recovering a finished run ran rounds %s" % (
                        [c[0] for c in W.calls],))
                got = [history(x) for x in runner.get_results()]
                require(got == want, "results", lambda: "after recovery: %r\nexpected %r" % (got, want))
                for r in range(k):
                    p = os.path.join(d, "AL_result", "AL_round_%d.pkl" % r)
                    if lens[r]:
                        require(os.path.exists(p) and history(StateIO.load(p)) == want[r], "file-content", p)
                if not was_dead:
                    return out
                finished = set(range(k))
            before = now if now is None else None
    finally:
        shutil.rmtree(d)


def experiment(strategy, k, batch, stop, value, max_thread, opts, prefix):
    """The packaged experiment killed at any point, continued from the state its runner saved."""
    ch = Chooser(prefix)
    d = scratch()
    try:
        want = c08.reference(strategy, k, False, batch, stop, value)
        sp = c08.splits(k)
        ex = c08.experiment(strategy, sp, batch, stop, value)
        s = sched.Sched(ch, bound=opts.get("bound", 0), crash=True)
        plan = crashfs.Plan(on_step=lambda what: s.point("fs"))
        s.on_crash.append(lambda: setattr(plan, "dead", True))
        with contextlib.redirect_stdout(io.StringIO()), crashfs.faulty(d, plan):
            try:
                s.run(lambda: ex.start_query(multi_thread=True, max_thread=max_thread, saving_path=d))
            finally:
                sched.remember(ch)
        require(s.deadlock is None, "hang", "%s" % s.deadlock)
        state = os.path.join(d, "multi_thread_state.pkl")
        if not os.path.exists(state):
            return ["nothing saved"]
        saved = []
        for r in range(k):
            p = os.path.join(d, "AL_result", "AL_round_%d.pkl" % r)
            saved.append([q[0] for q in c08.curve(StateIO.load(p))[6]] if os.path.exists(p) else [])
        run = aceThreading.recover(state)
        s2 = sched.Sched(Chooser([]), bound=0)
        with contextlib.redirect_stdout(io.StringIO()):
            s2.run(lambda: run.start_all_threads())
        excs = [repr(t.exc) for t in s2.tasks if t.exc is not None]
        require(not excs and s2.deadlock is None, "recovered-fold-failed", "%s %s" % (excs, s2.deadlock))
        got = [c08.curve(x) for x in run.get_results()]
        require(got == want, "experiment-results", lambda: "after recovery: %r\nuninterrupted: %r" % (got, want))
        for r in range(k):
            require([q[0] for q in got[r][6]][:len(saved[r])] == saved[r], "experiment-saved-queries", "")
        return [s.killed, [len(x) for x in saved]]
    finally:
        shutil.rmtree(d)


def cases(quick):
    out = []

    def exp(strategy, k, batch, stop, value, mt, **o):
        out.append((experiment, (strategy, k, batch, stop, value, mt, o)))
    exp("entropy", 2, 1, "num_of_queries", 2, None)
    exp("margin", 2, 2, None, None, 1)
    exp("eer", 2, 1, "percent_of_unlabel", 0.4, None)
    if not quick:
        exp("entropy", 2, 1, "num_of_queries", 1, None, bound=1)
        exp("least_confident", 3, 2, "percent_of_unlabel", 0.5, 2)
        exp("quire", 2, 1, "num_of_queries", 2, None)

    def add(k, mt, lens, variant, **o):
        out.append((killed, (k, mt, lens, variant, o)))
    add(2, None, (1, 1), "coll", bound=1)
    add(2, None, (2, 1), "coll", bound=0 if quick else 1)
    add(2, 1, (1, 1), "list", bound=1)
    add(3, 2, (1, 1, 1), "shared", bound=0)
    add(3, 1, (1, 0, 2), "coll", bound=0)
    add(2, 1, (1, 2), "coll", bound=0, leftover="run")
    add(2, None, (1, 1), "coll", bound=1 if not quick else 0, leftover="run")
    add(2, None, (1, 1), "coll", bound=0, leftover="empty")
    add(2, None, (1, 1), "ml", bound=0)
    add(2, 1, (1, 1), "coll", bound=0, second=True)
    add(3, 1, (1, 1, 1), "coll", bound=0, gp=None)
    if not quick:
        add(2, None, (2, 1), "list", bound=0, second=True)
        add(3, 1, (1, 1, 1), "coll", bound=0, second=True)
        add(3, 2, (1, 1, 1), "coll", bound=1)
        add(2, None, (2, 2), "coll", bound=2)
        add(3, 2, (2, 1, 1), "coll", bound=0, second=True)
        add(2, 1, (2, 1), "coll", bound=1, second=True, leftover="run")
        add(4, 2, (1, 1, 1, 1), "coll", bound=0)
        add(2, None, (1, 1), "coll", bound=1, ticking=True)
    return out


def explore(ctx):
    cs = cases(ctx.quick)
    sched.explore_all(ctx, cs)
    ctx.stats.traces = ctx.stats.extra["schedules"]
    ctx.stats.states = len(ctx.stats.outcomes)
    ctx.notes["configurations"] = len(cs)
