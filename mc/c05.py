"""C05: every crash point (and every torn write, and every I/O error) of every kind of save."""
import os
import shutil
import tempfile

import numpy as np

from mc import crashfs
from mc.core import require
from alipy.experiment import StateIO, State, StoppingCriteria
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.oracle import Oracle, OracleQueryInstance, OracleQueryMultiLabel, OracleQueryFeatures
from alipy.toolbox import ToolBox
from alipy.utils.multi_thread import aceThreading

LEVEL = "model_checking"
RULE = ("fault-injected file system under the real save code: for each kind of saved object, each file layout and each pair "
        "(old, new) of contents, the process is killed at every effect of the save (with every torn prefix of each write in the "
        "thorough tier, representative ones in quick) or the effect fails; each surviving file is loaded by the real loader")
ASSUMPTIONS = ("a killed process loses its unflushed buffers; the operating system survives (no power loss reordering)",
               "rename within one directory is atomic")


def target(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
    pass


# ---- the saved things: make(version, where) -> object, save(object), path, observe(loaded) --------

def mk_stateio(form, ver, d):
    path = d if form.startswith("dir") else os.path.join(d, "my_saver.pkl")
    if form.endswith("ml"):
        s = StateIO(3, [0, 1, 2], [3], MultiLabelIndexCollection([(0, 0)], 2),
                    MultiLabelIndexCollection([(0, 1), (1, 0), (1, 1)], 2), saving_path=path, verbose=False)
        sels = [[(0, 1)], [(1, 0)], [(1, 1)]]
    else:
        s = StateIO(3, list(range(6)), [6, 7], IndexCollection([0]), IndexCollection([1, 2, 3, 4, 5]), saving_path=path,
                    verbose=False)
        sels = [[1], [2, 3], [4]]
    for i in range(ver):
        s.add_state(State(select_index=sels[i], performance=0.5 + i / 10., cost=[1.5] * len(sels[i])))
    return s


def save_stateio(s, form, d):
    return lambda: s.save()


def path_stateio(form, d):
    return os.path.join(d, "AL_round_3.pkl" if form.startswith("dir") else "my_saver.pkl")


def obs_stateio(s):
    ws = s.get_workspace()
    return (s.round, len(s), list(s.train_idx), list(s.test_idx), sorted(map(str, ws[2])), sorted(map(str, ws[3])),
            [float(s.get_state(i).get_value("performance")) for i in range(len(s))],
            [str(s.get_state(i).get_value("select_index")) for i in range(len(s))], float(s.cost_inall))


def load_stateio(p):
    return obs_stateio(StateIO.load(p))


def mk_ace(form, ver, d):
    a = aceThreading(np.arange(12).reshape(6, 2), np.array([0, 1] * 3), [[0, 1, 2, 3]] * 2, [[4, 5]] * 2, [[0], [1]],
                     [[1, 2, 3], [0, 2, 3]], target_func=target, max_thread=2, saving_path=d)
    for i in range(ver):
        a._saver[0].add_state(State(select_index=[i + 1], performance=0.5))
    return a


def save_ace(a, form, d):
    return lambda: a.save()


def path_ace(form, d):
    return os.path.join(d, "multi_thread_state.pkl")


def load_ace(p):
    import pickle
    with open(p, "rb") as f:
        a = pickle.load(f)
    r = aceThreading.recover(p)
    return ([obs_stateio(s) for s in a._saver], r._round_num, np.asarray(r._examples).tolist(), [len(s) for s in r._saver],
            [list(x) for x in r._train_idx], [list(x) for x in r._unlabel_index])


def mk_toolbox(form, ver, d):
    path = d if form == "dir" else os.path.join(d, "settings.pkl")
    X, y = np.arange(12.).reshape(6, 2), np.array([0, 1, 0, 1, 0, 1])
    if ver == 0:                # never saved before: construction does not touch the disk
        t = ToolBox(y=y, X=X, saving_path=None)
        t._saving_path = path
        return t
    t = ToolBox(y=y, X=X, saving_path=None, train_idx=[[0, 1, 2, 3]] * ver, test_idx=[[4, 5]] * ver,
                label_idx=[[0, 1]] * ver, unlabel_idx=[[2, 3]] * ver)
    t._saving_path = path
    return t


def save_toolbox(t, form, d):
    return lambda: t.save()


def path_toolbox(form, d):
    return os.path.join(d, "al_settings.pkl" if form == "dir" else "settings.pkl")


def load_toolbox(p):
    t = ToolBox.load(p)
    r = [t._X.tolist(), t._y.tolist(), t.query_type, bool(t._split)]
    if t._split:
        r += [[list(map(int, f)) for f in part] for part in t.get_split()]
    return r


def mk_oracle(form, ver, d):
    kind = form.split("-")[1]
    if kind == "plain" or kind == "inst":
        o = (Oracle if kind == "plain" else OracleQueryInstance)(labels=[1, 0, 1], examples=[[1, 2], [3, 4], [5, 6]],
                                                                 indexes=[10, 11, 12], cost=[1, 2, 3])
        for i in range(ver):
            o.add_knowledge(labels=[7 + i], indexes=[20 + i], examples=[[9 + i, 9]], cost=[4])
    elif kind == "multi":
        o = OracleQueryMultiLabel(labels=[[1, 0], [0, 1]][:1 + min(ver, 1)] * max(ver, 1))
    else:
        o = OracleQueryFeatures(feature_mat=np.arange(4. * (ver + 1)).reshape(-1, 2))
    return o


def save_oracle(o, form, d):
    p = d if form.startswith("dir") else os.path.join(d, "orc.bin")
    return lambda: o.save_oracle(p)


def path_oracle(form, d):
    return os.path.join(d, "oracle.pkl" if form.startswith("dir") else "orc.bin")


def load_oracle(p):
    o = Oracle.load_oracle(p)
    keys = sorted(o.index_keys)
    if isinstance(o, OracleQueryMultiLabel):
        keys = [(k, l) for k in keys for l in range(2)]
    lab, cost = o.query_by_index(keys)
    return [type(o).__name__, [np.ravel(x).tolist() for x in lab], [np.ravel(x).tolist() for x in cost], [str(k) for k in keys]]


KINDS = {"stateio": (mk_stateio, save_stateio, path_stateio, load_stateio),
         "ace": (mk_ace, save_ace, path_ace, load_ace),
         "toolbox": (mk_toolbox, save_toolbox, path_toolbox, load_toolbox),
         "oracle": (mk_oracle, save_oracle, path_oracle, load_oracle)}
FORMS = {"stateio": ["dir", "file", "dir-ml", "file-ml"], "ace": ["dir"], "toolbox": ["dir", "file"],
         "oracle": ["dir-plain", "file-plain", "file-inst", "dir-multi", "file-multi", "file-feat"]}


class Refuses(object):
    """Cannot be pickled."""

    def __reduce__(self):
        raise ValueError("not picklable")

    def __deepcopy__(self, memo):
        return self


def scratch():
    return tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))


def setup(kind, form, old):
    d = scratch()
    mk, sv, pa, ld = KINDS[kind]
    if old is not None:
        o = mk(form, old, d)
        sv(o, form, d)()
        require(os.path.exists(pa(form, d)), "save-writes-nothing:%s" % kind, "no file at %s" % pa(form, d))
    return d


def content(kind, form, ver):
    d = scratch()
    try:
        mk, sv, pa, ld = KINDS[kind]
        sv(mk(form, ver, d), form, d)()
        return ld(pa(form, d))
    finally:
        shutil.rmtree(d)


def steps_of(kind, form, old, new):
    d = setup(kind, form, old)
    try:
        mk, sv, pa, ld = KINDS[kind]
        plan = crashfs.Plan()
        crashfs.run(d, plan, sv(mk(form, new, d), form, d))
        return plan.log
    finally:
        shutil.rmtree(d)


def fault(kind, form, old, new, mode, at, torn, at2=None, torn2=0):
    """Save `old`; save `new` with the fault; look; (optionally a second faulty save;) save again."""
    mk, sv, pa, ld = KINDS[kind]
    d = setup(kind, form, old)
    try:
        key = "%s:%s" % (kind, form)
        c_old = content(kind, form, old) if old is not None else None
        c_new = content(kind, form, new)
        faults = [(at, torn)] + ([(at2, torn2)] if at2 is not None else [])
        outs = []
        for a, t in faults:
            plan = crashfs.Plan(mode, a, t)
            res, val = crashfs.run(d, plan, sv(mk(form, new, d), form, d))
            path = pa(form, d)
            if not os.path.exists(path):
                require(old is None, "save-lost:" + key, "%s at step %d (%s): the previously saved file is gone" % (
                    mode, a, plan.log))
                outs.append("absent")
            else:
                try:
                    got = ld(path)
                except Exception as e:
                    got = "unloadable: %s: %s" % (type(e).__name__, e)
                if res == "ok":
                    require(got == c_new, "save-incomplete:" + key, lambda: "the save returned, the file holds %r, not %r" % (
                        got, c_new))
                else:
                    require(got == c_new or (old is not None and got == c_old), "save-torn:" + key,
                            lambda: "%s (kept %d bytes) at step %d of %s: file holds %r" % (mode, t, a, plan.log, got))
                outs.append("new" if got == c_new else "old")
            if res == "error" and mode == "crash":
                require(False, "save-error:" + key, repr(val))
        # the next process saves normally
        sv(mk(form, new, d), form, d)()
        got = ld(pa(form, d))
        require(got == c_new, "save-after-fault:" + key, lambda: "got %r" % (got,))
        return outs + [res]
    finally:
        shutil.rmtree(d)


def unpicklable(kind, form, old):
    """The save fails inside pickling: error or not, the earlier file must still load."""
    mk, sv, pa, ld = KINDS[kind]
    d = setup(kind, form, old)
    try:
        c_old = content(kind, form, old)
        o = mk(form, old, d)
        if kind == "stateio":
            st = State(select_index=[4] if not form.endswith("ml") else [(1, 1)], performance=0.1)
            st.add_element("big", list(range(3000)))
            st.add_element("extra", Refuses())
            o.add_state(st)
        elif kind == "ace":
            o._examples = [list(range(3000)), Refuses()]
        elif kind == "toolbox":
            o._X = [list(range(3000)), Refuses()]
        else:
            o._added = [list(range(3000)), Refuses()]
        failed = False
        try:
            sv(o, form, d)()
        except Exception:
            failed = True
        require(failed, "unpicklable-silent:%s" % kind, "saving an unpicklable object reported success")
        try:
            got = ld(pa(form, d))
        except Exception as e:
            got = "unloadable: %s: %s" % (type(e).__name__, e)
        require(got == c_old, "failed-save-destroys:%s:%s" % (kind, form), lambda: "file holds %r" % (got,))
        o2 = mk(form, old + 1, d)
        sv(o2, form, d)()
        require(ld(pa(form, d)) == content(kind, form, old + 1), "save-after-failure:%s:%s" % (kind, form), "")
        return "kept"
    finally:
        shutil.rmtree(d)


def ctor_crash(form, at, torn):
    """ToolBox construction saves its settings: a crash there must not prevent the next construction."""
    d = scratch()
    try:
        X, y = np.arange(12.).reshape(6, 2), np.array([0, 1, 0, 1, 0, 1])
        path = d if form == "dir" else os.path.join(d, "s.pkl")
        plan = crashfs.Plan("crash", at, torn)
        res, v = crashfs.run(d, plan, lambda: ToolBox(y=y, X=X, saving_path=path) and None)
        t = ToolBox(y=y, X=X, saving_path=path)
        got = load_toolbox(path_toolbox(form, d) if form == "dir" else path)
        require(got == [X.tolist(), y.tolist(), "AllLabels", False], "toolbox-after-ctor-crash", "%r" % (got,))
        require(t._X.tolist() == X.tolist(), "toolbox-after-ctor-crash", "object")
        return [res, plan.fired]
    finally:
        shutil.rmtree(d)


def tear(size, quick):
    if size <= 1:
        return [0]
    if quick:
        return sorted({0, 1, size // 2, size - 1, size})
    return list(range(0, size + 1))


def explore(ctx):
    q = ctx.quick
    jobs = []
    for kind in KINDS:
        for form in FORMS[kind]:
            pairs = [(None, 1), (1, 2), (2, 0)] if q else [(None, 0), (None, 1), (0, 1), (1, 2), (2, 0), (2, 1), (1, 1)]
            for old, new in pairs:
                if kind == "oracle" and form.endswith("feat") and (old, new) == (2, 0):
                    pass
                steps = steps_of(kind, form, old, new)
                ctx.stats.extra["effects_of_saves"] += len(steps)
                for k, (what, size) in enumerate(steps):
                    for t in (tear(size, q) if what == "write" else [0]):
                        for mode in ("crash", "error"):
                            jobs.append((kind, form, old, new, mode, k, t))
                            if not q and t in (0, size // 2):
                                # a second crash during the next save
                                for k2 in range(len(steps) + 1):
                                    jobs.append((kind, form, old, new, mode, k, t, k2, 1))
                # one past the end: nothing fails
                jobs.append((kind, form, old, new, "crash", len(steps) + 3, 0))
            for old in ((1,) if q else (0, 1, 2)):
                ctx.case(unpicklable, kind, form, old)
    ctx.parallel(fault, jobs)
    for form in ("dir", "file"):
        for k in range(6):
            for t in (0, 1, 40, 10 ** 6):
                ctx.case(ctor_crash, form, k, t)
    ctx.stats.states = len(ctx.stats.outcomes)
    ctx.notes["crash_and_error_points"] = len(jobs)
