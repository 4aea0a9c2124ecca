"""C04: StateIO against a list-of-queries model, every operation history up to a depth."""
import contextlib
import copy
import io
import os
import pickle
import tempfile
import warnings

import numpy as np

from mc.core import require, Violation
from mc.c02 import pl, expand
from alipy.experiment import StateIO, State, StoppingCriteria
from alipy.index import IndexCollection, MultiLabelIndexCollection

LEVEL = "model_checking"
RULE = ("breadth-first search over record / pop / go-back / inspect / save-load histories of a real StateIO next to a list "
        "model; every step compares every workspace, total and stop signal; states are distinct query lists with totals; likewise all sequences of operations on the entries of one state, alone and recorded")
ASSUMPTIONS = ("each query takes items still unlabelled, as an active-learning loop does",
               "batch-size uniformity is only constrained where all batches agree or two batches before the last differ")

TRAIN, TEST = [0, 1, 2, 3, 4, 5, 6], [7, 8]
L0, U0 = [0, 1], [2, 3, 4, 5, 6]
ML_L, ML_U = [(0, 0), (1, 0)], [(0, 1), (1, 1), (2, 0), (2, 1)]


def make(kind, **kw):
    if kind == "ic":
        a = (list(TRAIN), list(TEST), IndexCollection(L0), IndexCollection(U0))
    elif kind == "list":
        a = (np.array(TRAIN), np.array(TEST), list(L0), np.array(U0))
    elif kind == "ml":
        a = ([0, 1, 2], [3], MultiLabelIndexCollection(ML_L, 2), MultiLabelIndexCollection(ML_U, 2))
    else:
        a = ([0, 1, 2], [3], list(ML_L), list(ML_U))
    kw.setdefault("verbose", False)
    return a, StateIO(kw.pop("round", 0), a[0], a[1], a[2], a[3], **kw)


def sets(kind):
    if kind in ("ic", "list"):
        return TRAIN, TEST, set(L0), set(U0)
    return [0, 1, 2], [3], set(ML_L), set(ML_U)


def denote(kind, sel):
    if kind in ("ic", "list"):
        return set(sel)
    out = set()
    for s in sel:
        out |= expand(s, 2)
    return out


def as_sel(form, sel):
    if form == "array":
        return np.array(sel)
    if form == "coll":
        return IndexCollection(list(sel))
    if form == "mlcoll":
        return MultiLabelIndexCollection(list(sel), 2)
    if form == "one":
        return sel[0]
    return list(sel)


def ser(x):
    """comparable form of a stored value"""
    if isinstance(x, (IndexCollection,)):
        return sorted(pl(i) for i in x)
    if isinstance(x, np.ndarray):
        return [pl(i) for i in x.tolist()]
    if isinstance(x, list):
        return [pl(i) for i in x]
    return pl(x)


def observe(sv, kind, model, initial, where):
    train, test, L, U = sets(kind)
    n = len(model)
    require(len(sv) == n and sv.num_of_query() == n, "length:" + where, lambda: "%d / %d, model %d" % (len(sv), sv.num_of_query(), n))
    for k in list(range(n + 1)) + [None]:
        q = set()
        for m in model[:n if k is None else k]:
            q |= denote(kind, m["sel"])
        for rep in range(2):
            tr, te, lab, unl = sv.get_workspace(k) if k is not None else sv.get_workspace()
            require([pl(i) for i in tr] == train and [pl(i) for i in te] == test, "workspace-train-test:" + where, lambda: "%r %r" % (tr, te))
            gl, gu = [pl(i) for i in lab], [pl(i) for i in unl]
            require(len(gl) == len(set(gl)) and set(gl) == L | q, "workspace-labeled:" + where,
                    lambda: "after %r queries: %r, expected %r" % (k, gl, sorted(L | q)))
            require(len(gu) == len(set(gu)) and set(gu) == U - q, "workspace-unlabeled:" + where,
                    lambda: "after %r queries: %r, expected %r" % (k, gu, sorted(U - q)))
            # what is handed out is not the history's own
            if rep == 0:
                for i in list(lab):
                    lab.discard(i)
                for i in list(unl):
                    unl.discard(i)
                if isinstance(tr, np.ndarray):
                    tr[:] = -1
                    te[:] = -1
                else:
                    tr.append(99)
                    del te[:]
    for bad in (n + 1, -1):
        try:
            sv.get_workspace(bad)
        except Exception:
            pass
        else:
            raise Violation("workspace-out-of-range:" + where, str(bad))
    for i, m in enumerate(model):
        st = sv.get_state(i)
        for holder in (st, sv[i]):
            require(ser(holder.get_value("performance")) == ser(m["perf"]), "state-performance:" + where, lambda: repr(holder))
            require(denote(kind, ser(holder.get_value("select_index"))) == denote(kind, m["sel"]), "state-select:" + where, lambda: repr(holder))
            require(("cost" in holder.keys()) == (m["cost"] is not None), "state-cost:" + where)
            if m["cost"] is not None:
                require(ser(holder.get_value("cost")) == ser(m["cost"]), "state-cost:" + where, lambda: repr(holder))
            if m["info"] is not None:
                require(ser(holder.get_value("queried_label")) == m["info"], "state-label:" + where)
        # a copy from get_state is the caller's
        st.set_value("performance", -1)
        st.add_element("extra", 1)
        v = st.get_value("select_index")
        if isinstance(v, list):
            v.append(99)
        if "cost" in st.keys() and isinstance(st.get_value("cost"), list):
            st.get_value("cost").append(50)
        require("extra" not in sv[i].keys() and ser(sv[i].get_value("performance")) == ser(m["perf"]), "state-aliased:" + where)
    require([ser(s.get_value("performance")) for s in sv] == [ser(m["perf"]) for m in model], "iteration:" + where)
    cost = float(sum(np.sum(m["cost"]) for m in model if m["cost"] is not None))
    nq = sum(m["nsel"] for m in model)
    require(abs(float(sv.cost_inall) - cost) < 1e-9, "cost-total:" + where, lambda: "cost %r, recorded %r" % (sv.cost_inall, cost))
    for lim in (cost - 0.5, cost, cost + 0.5):
        sc = StoppingCriteria("cost_limit", lim).update_information(sv)
        left = len(sv.get_workspace()[3])
        require(sc.is_stop() == (left == 0 or cost >= lim), "cost-stop:" + where, lambda: "limit %r, recorded cost %r: stop %r" % (lim, cost, sc.is_stop()))
    snap = copy.deepcopy(sv)
    r = snap.refresh_info()
    require(int(r[0]) == nq and abs(float(r[1]) - cost) < 1e-9, "refresh-info:" + where, lambda: "%r, expected (%d, %r)" % (r, nq, cost))
    mean, std = sv.get_current_performance()
    perfs = [m["perf"] for m in model]
    if not perfs:
        require((mean, std) == (0, 0), "mean-performance:" + where)
    elif not any(isinstance(p, list) for p in perfs):
        require(abs(mean - np.mean(perfs)) < 1e-9 and abs(std - np.std(perfs)) < 1e-9, "mean-performance:" + where, lambda: repr((mean, std)))
    bs = [m["nsel"] for m in model]
    res = snap.check_batch_size()
    if len(bs) >= 1 and len(set(bs)) == 1:
        require(res is True and int(snap.batch_size) == bs[0], "batch-size:" + where, lambda: "%r -> %r" % (bs, res))
    elif len(set(bs[:-1])) > 1:
        require(not res, "batch-size:" + where, lambda: "%r -> %r" % (bs, res))
    require(sv.initial_point == initial, "initial-point:" + where)
    lines = repr(sv)
    require(str(n) in lines and ("%r" % cost in lines or "%g" % cost in lines), "printed-progress:" + where, lambda: lines)


def history(hist):
    _, kind, opts = hist[0]
    d = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))
    path = os.path.join(d, "st.pkl")
    kw = dict(opts)
    kw["saving_path"] = path
    args, sv = make(kind, **kw)
    model, initial, frozen = [], None, []
    mutate_args(args)
    observe(sv, kind, model, initial, "init")
    step = 0
    try:
        for op in hist[1:]:
            step += 1
            name = op[0]
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                if name == "add":
                    _, form, sel, cost, perf, asdict = op
                    s = as_sel(form, sel)
                    c = copy.deepcopy(cost)
                    p = copy.deepcopy(perf)
                    info = [1] * len(sel) if asdict != "dict" else None
                    if asdict == "dict":
                        st = {"select_index": s, "queried_info": [1], "performance": p}
                        if c is not None:
                            st["cost"] = c
                    else:
                        st = State(select_index=s, performance=p, queried_label=info, cost=c)
                    sv.add_state(st)
                    # the caller goes on using (and changing) its objects
                    if asdict != "dict":
                        st.set_value("performance", 77)
                        st.add_element("cost", [1000])
                        st.add_element("select_index", [99])
                    else:
                        st["performance"] = 77
                        st["cost"] = [1000]
                    if isinstance(s, list):
                        s.append(98)
                    elif isinstance(s, np.ndarray):
                        s[:] = 97
                    elif isinstance(s, IndexCollection):
                        s.discard(list(s)[0])
                    if isinstance(c, list):
                        c.append(500)
                    if isinstance(p, list):
                        p.append(500)
                    model.append({"sel": list(sel), "cost": cost, "perf": perf, "info": info,
                                  "nsel": len(denote(kind, sel)) if form == "mlcoll" else len(sel)})
                elif name == "pop":
                    if not model:
                        try:
                            sv.pop()
                        except Exception:
                            pass
                        else:
                            raise Violation("pop-empty")
                    else:
                        i = op[1] if op[1] is None or op[1] < len(model) else len(model) - 1
                        st = sv.pop() if i is None else sv.pop(i)
                        m = model.pop() if i is None else model.pop(i)
                        require(ser(st.get_value("performance")) == ser(m["perf"]), "pop-returns", repr(st))
                elif name == "recover":
                    k = op[1] if op[1] is None else min(op[1], len(model))
                    a = sv.get_workspace(k) if k is not None else sv.get_workspace()
                    b = sv.recover_workspace(k) if k is not None else sv.recover_workspace()
                    for x, y in zip(a, b):
                        require(sorted(pl(i) for i in x) == sorted(pl(i) for i in y), "recover-returns", lambda: "%r vs %r" % (x, y))
                    if k is not None:
                        model = model[:k]
                    for x in b[2:]:
                        for i in list(x):
                            x.discard(i)
                elif name == "recover-bad":
                    try:
                        sv.recover_workspace(len(model) + 1)
                    except Exception:
                        pass
                    else:
                        raise Violation("recover-out-of-range")
                elif name == "refresh":
                    sv.refresh_info()
                elif name == "batch":
                    sv.check_batch_size()
                elif name == "initial":
                    sv.set_initial_point(op[1])
                    initial = op[1]
                elif name == "save":
                    sv.save()
                elif name == "saveload":
                    sv.save()
                    sv = StateIO.load(path)
                elif name == "fork":
                    frozen.append((sv, list(model), initial))
                    sv = copy.deepcopy(sv) if op[1] == "deepcopy" else pickle.loads(pickle.dumps(sv))
            observe(sv, kind, model, initial, name)
            for f, m, ini in frozen:
                observe(f, kind, m, ini, name + "(fork)")
    finally:
        for fn in os.listdir(d):
            os.unlink(os.path.join(d, fn))
        os.rmdir(d)
    nlist = sum(1 for m in model)
    return (kind, tuple(opts), tuple((repr(m["sel"]), repr(m["cost"]), repr(m["perf"]), m["nsel"], m["info"] is None) for m in model),
            initial, len(frozen), float(sv.cost_inall), getattr(sv, "_numqdata", None), repr(sv.batch_size))


def mutate_args(args):
    """the caller changes the objects it created the history from"""
    tr, te, lab, unl = args
    for x in (tr, te):
        if isinstance(x, np.ndarray):
            x[:] = 55
        else:
            x.append(55)
    for x in (lab, unl):
        if isinstance(x, np.ndarray):
            x[:] = 55
        elif isinstance(x, list):
            x.append((0, 0) if isinstance(x[0], tuple) else 55)
        else:
            for i in list(x)[:1]:
                x.discard(i)


def enabled(kind, rich):
    if kind in ("ic", "list"):
        B = [("list", (2,), None, 0.5, ""), ("array", (3, 4), [3, 0.5], 0.75, ""), ("one", (5,), [2], 0.25, ""),
             ("coll", (6,), 4, 0.5, ""), ("list", (4,), None, 0.125, "dict"), ("list", (3, 5), [1, 1], 0.6, "")]
        if rich:
            B += [("array", (2, 6), [0, 0], 0.5, "dict"), ("list", (2, 3, 4, 5, 6), [1] * 5, 1.0, "")]
    else:
        B = [("list", ((0, 1),), None, 0.5, ""), ("one", ((2,),), [3], 0.75, ""), ("list", ((1, 1), (2, 1)), [1, 2], 0.25, ""),
             ("mlcoll", ((1, 1),), [0.5], 0.5, ""), ("list", ((2, (0, 1)),), None, 0.125, "dict")]

    def f(hist):
        used = set()
        # conservative: follow the model to know what is still unlabelled
        live = []
        for op in hist[1:]:
            if op[0] == "add":
                live.append(op)
            elif op[0] == "pop" and live:
                live.pop() if op[1] is None else live.pop(min(op[1], len(live) - 1))
            elif op[0] == "recover" and op[1] is not None:
                live = live[:op[1]]
        for op in live:
            used |= denote(kind, op[2])
        ops = []
        for form, sel, cost, perf, asd in B:
            if not denote(kind, sel) & used:
                ops.append(("add", form, sel, cost, perf, asd))
        ops += [("pop", None), ("pop", 0), ("pop", 1), ("recover", None)]
        ops += [("recover", k) for k in range(len(live) + 1)]
        ops += [("recover-bad",), ("refresh",), ("batch",), ("initial", 0.3), ("save",), ("saveload",), ("fork", "deepcopy"), ("fork", "pickle")]
        return ops
    return f


def list_perf(ps):
    """performances that are vectors: mean and deviation are not a number, everything else as usual"""
    args, sv = make("ic")
    model = []
    for i, p in enumerate(ps):
        arg = list(p)
        sel = [2 + i]
        st = State(sel, arg)
        arg.append(5)
        sel.append(5)
        require(st["performance"] == list(p) and st["select_index"] == [2 + i], "state-aliased:list", lambda: "the caller changed his lists: %r" % st)
        sv.add_state(st)
        model.append({"sel": [2 + i], "cost": None, "perf": list(p), "info": None, "nsel": 1})
        for k, st in enumerate(sv):
            require(st.get_value("performance") == model[k]["perf"], "state-performance:list", repr(st))
        m, s = sv.get_current_performance()
        require(m != m and s != s, "mean-performance:list", repr((m, s)))
    return len(model)


def long(kind, n, cut, batch, back):
    """A record of n queries (large pools, uneven batches, large costs), taken back to `cut`, continued and saved: compared at every stage."""
    L = 3
    size = n * 3 + 10
    if kind == "ic":
        lab, unl = [0, 1], list(range(2, size))
        sv = StateIO(1, list(range(size)), [9999], IndexCollection(lab), IndexCollection(unl), verbose=False)
    else:
        lab, unl = [(0, 0)], [(i, j) for i in range(size // L + 2) for j in range(L) if (i, j) != (0, 0)]
        sv = StateIO(1, list(range(size)), [9999], MultiLabelIndexCollection(lab, L), MultiLabelIndexCollection(unl, L), verbose=False)
    model, left = [], list(unl)

    def record(k):
        b = 1 + k % 3 if batch == "uneven" else 1
        sel = [left.pop((5 * k + t) % len(left)) for t in range(b)]
        cost = None if k % 4 == 3 else [2.0 ** (k % 12) + 0.5] * b
        perf = ((7 * k) % 16) / 16.0
        sv.add_state(State(sel, perf, cost=cost))
        model.append((sel, perf, cost))

    def check(where):
        require(len(sv) == len(model) == sv.num_of_query(), "length:long", where)
        total = sum(sum(m[2]) for m in model if m[2])
        require(float(sv.cost_inall) == total, "cost-total:long", lambda: "%s: %r, recorded %r" % (where, sv.cost_inall, total))
        mean, std = sv.get_current_performance()
        if model:
            require(abs(mean - np.mean([m[1] for m in model])) < 1e-9 and abs(std - np.std([m[1] for m in model])) < 1e-9, "mean-performance:long", where)
        require(str(len(model)) in repr(sv), "printed-progress:long", lambda: repr(sv))
        for k in {0, len(model) // 2, len(model)}:
            q = [x for m in model[:k] for x in m[0]]
            _, _, gl, gu = sv.get_workspace(k)
            require(sorted(pl(i) for i in gl) == sorted(lab + q) and sorted(pl(i) for i in gu) == sorted(set(unl) - set(q)), "workspace:long",
                    lambda: "%s: after %d of %d queries" % (where, k, len(model)))
        for st, m in zip(sv, model):
            require([pl(i) for i in st["select_index"]] == m[0] and st["performance"] == m[1] and st._save_seq.get("cost") == m[2], "state:long",
                    lambda: "%s: %r instead of %r" % (where, st, m))

    for k in range(n):
        record(k)
    check("recording")
    if back == "recover":
        _, _, gl, gu = sv.recover_workspace(cut)
        gone, model[:] = model[cut:], model[:cut]
        q = [x for m in model for x in m[0]]
        require(sorted(pl(i) for i in gl) == sorted(lab + q) and sorted(pl(i) for i in gu) == sorted(set(unl) - set(q)), "recover:long")
    else:
        st = sv.pop(cut)
        gone = [model.pop(cut)]
        require(st["performance"] == gone[0][1] and [pl(i) for i in st["select_index"]] == gone[0][0], "pop:long")
    left += [x for m in gone for x in m[0]]
    check(back)
    for k in range(n, n + 6):
        record(k)
    check("going on")
    sv = pickle.loads(pickle.dumps(sv))
    check("loading")
    n2, c2 = sv.refresh_info()
    require(n2 == sum(len(m[0]) for m in model) and c2 == sv.cost_inall == sum(sum(m[2]) for m in model if m[2]), "refresh-info:long")
    return kind, n, cut, batch


def empty_sets(L, U):
    """initial sets given as (possibly empty) lists"""
    sv = StateIO(0, [0, 1, 2], [3], list(L), list(U), verbose=False)
    if U:
        sv.add_state(State([U[0]], 0.5))
        tr, te, lab, unl = sv.get_workspace()
        require([pl(i) for i in lab] == sorted(L) + [U[0]] or {pl(i) for i in lab} == set(L) | {U[0]}, "workspace-labeled:empty", repr(lab))
        require({pl(i) for i in unl} == set(U[1:]), "workspace-unlabeled:empty", repr(unl))
    tr, te, lab, unl = sv.get_workspace(0)
    require({pl(i) for i in lab} == set(L) and {pl(i) for i in unl} == set(U), "workspace:empty")
    return repr((L, U))


def dir_saving(rnd, where):
    """saving_path as directory, new file, relative; None saves nothing"""
    d = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))
    cwd = os.getcwd()
    os.chdir(d)
    try:
        sp = {"dir": d, "file": os.path.join(d, "my.pkl"), "rel": "rel.pkl", "none": None}[where]
        _, sv = make("ic", round=rnd, saving_path=sp)
        sv.add_state(State([2], 0.5))
        sv.save()
        files = sorted(os.listdir(d))
        want = {"dir": ["AL_round_%d.pkl" % rnd], "file": ["my.pkl"], "rel": ["rel.pkl"], "none": []}[where]
        require(files == want, "saved-file-name", lambda: "%r" % (files,))
        if files:
            s2 = StateIO.load(os.path.join(d, files[0]))
            require(len(s2) == 1 and s2.round == rnd, "loaded", repr(s2))
            s2.add_state(State([3], 0.5))
            s2.save()
            require(sorted(os.listdir(d)) == want and len(StateIO.load(os.path.join(d, files[0]))) == 2, "resaved")
        return tuple(files)
    finally:
        os.chdir(cwd)
        for fn in os.listdir(d):
            os.unlink(os.path.join(d, fn))
        os.rmdir(d)


CRITICAL = ("select_index", "performance", "cost", "queried_info")


def elements(hist):
    """operations on the entries of one state, held alone and within a history"""
    where = hist[0][1]
    own = {"select_index": [2], "performance": 0.5}
    if hist[0][2]:
        own.update(cost=[1.5], queried_label=[1])
    st = State(copy.deepcopy(own["select_index"]), own["performance"], queried_label=copy.deepcopy(own.get("queried_label")), cost=copy.deepcopy(own.get("cost")))
    sv = None
    if where == "history":
        sv = make("ic")[1]
        sv.add_state(State([3], 0.25, cost=[4.0]))
        sv.add_state(st)
        before = (sorted(st.keys()), repr(st.get_value("select_index")))
        st.add_element("later", 1)          # the caller's state is not the recorded one
        require("later" not in sv[1].keys() and before[0] == sorted(sv[1].keys()), "state-aliased:elements", repr(sv[1]))
        st = sv[1]
        require(st in sv and sv[0] in sv and State([2], 0.5) not in sv, "membership:elements")
    for op in hist[1:]:
        name, key = op[0], op[1]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            if name in ("add", "item", "set"):
                v = copy.deepcopy(op[2])
                call = {"add": lambda: st.add_element(key, v), "item": lambda: st.__setitem__(key, v), "set": lambda: st.set_value(key, v)}[name]
                if name == "set" and key not in own:
                    try:
                        call()
                    except KeyError:
                        pass
                    else:
                        raise Violation("set-absent:elements", "%r of a state with %r" % (key, sorted(own)))
                else:
                    call()
                    own[key] = copy.deepcopy(v)
                    if isinstance(v, list):
                        v.append(77)
                require(not w, "warning:elements", lambda: str([str(x.message) for x in w]))
            elif name == "del":
                st.del_element(key)
                kept = key in CRITICAL or key not in own
                require(bool(w) == kept, "warning:elements", lambda: "deleting %r of %r: %d warnings" % (key, sorted(own), len(w)))
                if not kept:
                    own.pop(key)
            elif name == "load":
                if sv is None:
                    st = pickle.loads(pickle.dumps(st))
                else:
                    sv = pickle.loads(pickle.dumps(sv))
                    st = sv[1]
        require(set(st.keys()) == set(own), "keys:elements", lambda: "keys %r, expected %r" % (sorted(map(str, st.keys())), sorted(map(str, own))))
        for k in own:
            require(ser(st[k]) == ser(own[k]) and ser(st.get_value(k)) == ser(own[k]), "value:elements", lambda: "%r is %r, expected %r" % (k, st[k], own[k]))
        for k in ("x", 7, "queried_label", "cost"):
            if k not in own:
                for get in (st.get_value, st.__getitem__):
                    try:
                        get(k)
                    except KeyError:
                        pass
                    else:
                        raise Violation("absent:elements", "value of %r" % (k,))
        if sv is not None:
            n, c = sv.refresh_info()
            require(n == 1 + len(own["select_index"]), "refresh-info:elements", lambda: "%r queries" % (n,))
            require(abs(c - 4.0 - float(np.sum(own.get("cost", 0)))) < 1e-9 and abs(float(sv.cost_inall) - c) < 1e-9, "refresh-info:elements",
                    lambda: "cost %r / %r, states have %r" % (c, sv.cost_inall, own.get("cost")))
            tr, te, lab, unl = sv.get_workspace()
            q = {3} | set(own["select_index"])
            require({pl(i) for i in lab} == sets("ic")[2] | q and {pl(i) for i in unl} == sets("ic")[3] - q, "workspace:elements", repr((lab, unl)))
            m, d = sv.get_current_performance()
            require(abs(m - (.25 + own["performance"]) / 2) < 1e-9, "mean-performance:elements", repr(m))
    return repr(sorted(map(repr, own.items())))


def element_ops(hist):
    ops = [("load", None)]
    for key, vals in (("x", ([1], "s")), (7, (None,)), ("performance", (0.75,)), ("cost", ([0.5, 1.0],)), ("queried_label", ([0],)), ("select_index", ([4], [2, 4]))):
        for v in vals:
            ops += [(n, key, v) for n in ("add", "item", "set")]
    ops += [("del", k) for k in CRITICAL + ("queried_label", "x", 7, "none")]
    return ops


def explore(ctx):
    q = ctx.quick
    jobs = []
    for kind in ("ic", "list", "ml", "mllist"):
        for opts in ((), (("verbose", True), ("print_interval", 2)), (("check_flag", False),)):
            if kind != "ic" and opts:
                continue
            deep = (3 if q else 4) if not opts else (2 if q else 3)
            en = enabled(kind, not q)
            p = ("init", kind, opts)
            if deep <= 2:
                jobs.append((lambda p=p, en=en, deep=deep: ctx.bfs(history, en, deep, prefix=[p]), ()))
            else:
                # one job per first operation (states seen under different first operations are explored separately)
                for op in en([p]):
                    jobs.append((lambda p=p, op=op, en=en, deep=deep: ctx.bfs(history, en, deep - 1, prefix=[p, op]), ()))
    # deeper histories over the operations that change the record
    core = lambda hist: [o for o in enabled("ic", False)(hist) if o[0] in ("add", "pop", "recover", "saveload") and not (o[0] == "add" and o[1] in ("coll", "one"))]
    for op in core([("init", "ic", ())]):
        jobs.append((lambda op=op: ctx.bfs(history, core, 3 if q else 5, prefix=[("init", "ic", ()), op]), ()))
    jobs.append((lambda: ctx.each(list_perf, [([(0.1, 0.2)],), ([(0.1,), (0.3,), (0.5,)],), ([(1, 2, 3)] * 4,)]), ()))
    jobs.append((lambda: ctx.each(empty_sets, [((), ()), ((), (1, 2)), ((1, 2), ()), ((), ((0, 0), (1, 1))), (((0, 1),), ()), (((0, 0),), ((0, 2), (1, 1)))]), ()))
    lens = (5, 11, 17, 33, 65) if q else (5, 9, 10, 11, 12, 16, 17, 20, 32, 33, 50, 64, 65, 100, 101, 129)
    for n in lens:
        for cut in (sorted({0, 1, n // 2, n - 1}) if q or n > 40 else range(n)):
            for kind in ("ic", "ml"):
                for batch in ("one", "uneven"):
                    for back in ("recover", "pop"):
                        jobs.append((lambda a=(kind, n, cut, batch, back): ctx.case(long, *a), ()))
    for r in (0, 3):
        for w in ("dir", "file", "rel", "none"):
            jobs.append((lambda r=r, w=w: ctx.case(dir_saving, r, w), ()))
    for where in ("alone", "history"):
        for full in (False, True):
            for op in element_ops(None):
                jobs.append((lambda where=where, full=full, op=op: ctx.bfs(elements, element_ops, 2 if q else 3, prefix=[("init", where, full), op]), ()))
    ctx.jobs(jobs)
