"""C15: splits on disk and toolboxes, restored and mutated, still serve what they were created with."""
import contextlib
import copy
import io
import itertools
import os
import pickle
import shutil
import tempfile
import warnings

import numpy as np

from mc.core import require, Violation
from alipy import ToolBox
from alipy.data_manipulate.al_split import split, split_multi_label, split_features, split_load, split_save
from alipy.experiment import StateIO
from alipy.experiment.stopping_criteria import StoppingCriteria
from alipy.index import IndexCollection, MultiLabelIndexCollection, FeatureIndexCollection
from alipy.metrics import performance
from alipy.oracle import Oracle, OracleQueryMultiLabel, OracleQueryFeatures, ElementRepository, MatrixRepository

LEVEL = "model_checking"
RULE = ("all sequences of writing two splits of any kind and shape (1-3 folds, set sizes 0-3, scalars, names, 1-tuples, pairs, as "
        "returned by the split functions and as given by a caller) to one directory and loading them; all histories (depth 2, thorough "
        "3) of splitting, getting, modifying everything handed out, saving, loading and re-creating, on one toolbox of every target "
        "kind x query type x index naming x split source x saving path, after each of which everything the toolbox serves is compared "
        "with the data it was created with")
ASSUMPTIONS = ("all folds of a split have the same sizes, as the split functions produce",
               "the indexes of multi-label and feature splits are positions (instance names only apply to single-label splits)")

N = 6
X = [[0.0, 1.5, 2.0], [1.0, 0.5, -1.0], [2.0, 2.5, 4.0], [3.0, 1.0, 0.25], [4.0, -3.0, 7.0], [5.0, 6.0, 8.0]]
Y = {"int": [0, 1, 1, 0, 2, 1], "pm": [1, -1, -1, 1, 1, -1], "str": ["a", "b", "b", "a", "a", "b"], "col": [[0], [1], [1], [0], [1], [0]],
     "reg": [0.5, 1.25, -3.0, 2.0, 7.5, 0.25],
     "multi": [[0, 1, 1], [1, 0, 0], [1, 1, 0], [0, 0, 1], [1, 1, 1], [0, 1, 0]],
     "multipm": [[-1, 1], [1, -1], [1, 1], [-1, -1], [1, 1], [-1, 1]]}
NAMES = {None: list(range(N)), "names": ["f.png", "e.png", "d.png", "c.png", "b.png", "a.png"], "gap": [10, 31, 7, 12, 40, 2]}
COST = [1, 2, 3, 4, 5, 6]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c15", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def item(v):
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, (tuple, list, np.ndarray)):
        return tuple(item(x) for x in v)
    return v


def folds(idx):
    return [[item(v) for v in fold] for fold in idx]


# ---- saved splits ---------------------------------------------------------------------------

def make_split(spec):
    """train, test, label, unlabel of the given kind, folds and sizes; forms list / array."""
    kind, count, ntest, nlab, nunl, form = spec
    out = ([], [], [], [])
    for k in range(count):
        n = ntest + nlab + nunl
        if kind == "names":
            ids = ["s%d" % ((i * 5 + k) % 11) + "x" * i for i in range(n)]
        elif kind == "float":
            ids = [i * 0.5 + k for i in range(n)]
        else:
            ids = [(i * 3 + k + 1) % 17 if kind != "big" else 10 ** 9 + 7 * i + k for i in range(n)]
        lab, unl = ids[:nlab], ids[nlab:nlab + nunl]
        if kind == "one":
            lab, unl = [(i,) for i in lab], [(i,) for i in unl]
        if kind == "pair":
            ent = [(i, f) for i in lab + unl for f in range(2)]
            ent = ent[::-1] if k % 2 else ent
            cut = min(2 * nlab + 1, len(ent)) if nlab else 0
            lab, unl = ent[:cut], ent[cut:]
        tr = ids[:nlab + nunl]
        te = ids[nlab + nunl:]
        for o, v in zip(out, (tr, te, lab, unl)):
            if form == "arr":
                v = np.array(v) if len(v) else np.array(v, dtype=int)
            o.append(v)
    return out


def load_case(first, second):
    """Write first (may be None), then second into one directory: loading gives second."""
    with scratch() as d:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for spec in (first, second):
                if spec is None:
                    continue
                sp = make_split(spec)
                keep = [folds(s) for s in sp]
                split_save(sp[0], sp[1], sp[2], sp[3], path=d)
                require([folds(s) for s in sp] == keep, "save-arguments", "%r changed" % (spec,))
                got = split_load(d)
                require(len(got) == 4 and all(g is not None for g in got), "load", "%r: a part is missing" % (spec,))
                for name, g, w in zip(("train", "test", "label", "unlabel"), got, keep):
                    require(folds(g) == w, "load", lambda: "%r: %s %r loaded as %r" % (spec, name, w, folds(g)))
                if spec[0] in ("one", "pair") and spec[3] and spec[4]:
                    L = MultiLabelIndexCollection(got[2][0], 2)
                    W = MultiLabelIndexCollection(keep[2][0], 2)
                    require(sorted(L.index) == sorted(W.index), "load-usable", "loaded entries %r give %r" % (got[2][0], L.index))
    return True


def produce_case(kind, count, seed, kw):
    """A split function that saves: what it returns is what is loaded."""
    with scratch() as d:
        np.random.seed(seed)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if kind == "multi":
                out = split_multi_label(y=np.array(Y["multi"]), split_count=count, saving_path=d, **kw)
            elif kind == "feat":
                out = split_features(feature_matrix=np.array(X), split_count=count, saving_path=d, **kw)
            else:
                out = split(X=np.array(X), y=np.array(Y["int"]), instance_indexes=NAMES[kind] if kind else None, split_count=count,
                            saving_path=d, **kw)
            got = split_load(d)
        for name, g, w in zip(("train", "test", "label", "unlabel"), got, out):
            require(g is not None and folds(g) == folds(w), "saved-split", lambda: "%s: %r saved, %r loaded" % (name, folds(w), g))
        with_none = sorted(os.listdir(d))
    return len(with_none)


# ---- toolbox --------------------------------------------------------------------------------

def user_split(cfg):
    """A fixed three-fold split in the form its setting requires."""
    target, qtype, names, source, save = cfg
    ids = NAMES[names]
    out = ([], [], [], [])
    for k in range(3 if source != "one" else 1):
        p = [(i + 2 * k) % N for i in range(N)]
        tr, te = p[:4], p[4:]
        if qtype == "Features":
            ent = [(i, f) for i in tr for f in range(3)]
            lab, unl = ent[::2], ent[1::2]
        elif target.startswith("multi"):
            if qtype == "PartLabels":
                L = len(Y[target][0])
                ent = [(i, f) for i in tr for f in range(L)]
                lab, unl = ent[1::2], ent[::2]
            else:
                lab, unl = [(i,) for i in tr[:2]], [(i,) for i in tr[2:]]
        else:
            tr, te = [ids[i] for i in tr], [ids[i] for i in te]
            lab, unl = tr[:2], tr[2:]
        for o, v in zip(out, (tr, te, lab, unl)):
            o.append(v)
    if source == "arr":
        out = tuple(np.array(o) if not (len(o[0]) and isinstance(o[0][0], tuple)) else o for o in out)
    return out


def flat(entries, width):
    out = set()
    for e in entries:
        e = item(e)
        if not isinstance(e, tuple):
            return set(item(v) for v in entries)
        if len(e) == 1:
            out |= set((e[0], j) for j in range(width))
        else:
            out.add(e)
    return out


SEEN = []


def ace_target(round, train_id, test_id, Ucollection, Lcollection, saver, examples, labels, global_parameters):
    SEEN.append((round, [item(v) for v in train_id], [item(v) for v in test_id], set(item(v) for v in Lcollection.index),
                 set(item(v) for v in Ucollection.index), np.array(examples).tolist(), np.array(labels).tolist()))
    for c in (Ucollection, Lcollection):
        for v in list(c.index):
            c.discard(v)
    if isinstance(train_id, list):
        del train_id[:]
    else:
        train_id[...] = train_id[::-1]


class World(object):
    def __init__(self, cfg, d):
        self.cfg = cfg
        self.target, self.qtype, self.names, self.source, self.save = cfg
        self.d = d
        self.multi = self.target.startswith("multi")
        self.ids = NAMES[self.names]
        self.y = [v[0] for v in Y["col"]] if self.target == "col" else Y[self.target]
        self.path = None if self.save is None else d if self.save == "dir" else os.path.join(d, "box.pkl")
        kw = {}
        if self.source not in ("split", "split1"):
            s = user_split(cfg)
            kw = dict(train_idx=s[0], test_idx=s[1], label_idx=s[2], unlabel_idx=s[3])
            self.want = [folds(v) for v in s]
        else:
            self.want = None
        self.kw = kw
        self.tb = self.build(**kw)
        self.given = kw

    def build(self, **kw):
        a = dict(kw)
        if self.names:
            a["instance_indexes"] = list(self.ids) if self.save else np.array(self.ids)
        tb = ToolBox(y=np.array(Y[self.target]), X=np.array(X), query_type=self.qtype, saving_path=self.path, **a)
        if self.names:
            # the caller goes on using his own list
            a["instance_indexes"][:] = list(a["instance_indexes"])[::-1]
        return tb

    @property
    def width(self):
        return 3 if self.qtype == "Features" else len(self.y[0]) if self.multi else None

    def ensure(self):
        if self.want is None:
            np.random.seed(7)
            out = self.tb.split_AL(test_ratio=0.3, initial_label_rate=0.75 if not self.multi else 0.8,
                                   split_count=2 if self.source == "split" else 1,
                                   all_class=self.target in ("int", "multi", "multipm") and self.qtype != "Features")
            self.want = [folds(v) for v in out]
            for k in range(len(self.want[0])):
                tr, te, la, un = [w[k] for w in self.want]
                require(sorted(tr + te) == sorted(self.ids), "split_AL", "%r: not a partition: %r %r" % (self.cfg, tr, te))
                a, b = flat(la, self.width or 0), flat(un, self.width or 0)
                full = set((i, j) for i in tr for j in range(self.width)) if self.width else set(tr)
                require(a | b == full and not a & b, "split_AL", lambda: "%r: label %r unlabel %r of training %r" % (self.cfg, la, un, tr))
                require(isinstance(la[0], tuple) == (self.width is not None), "split_AL", "%r: entries %r" % (self.cfg, la))
                rate = 0.75 if not self.multi else 0.8
                size, of = (len(a), len(full)) if self.qtype == "Features" else (len({i[0] for i in a}) if self.width else len(a), len(tr))
                require(abs(size - rate * of) < 1, "split_AL", lambda: "%r: %d of %d are labelled, rate %r" % (self.cfg, size, of, rate))
            if self.path is not None:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = split_load(self.d)
                require(all(g is not None for g in got) and [folds(g) for g in got] == self.want, "split-saved",
                        lambda: "%r: %r split, %r on disk" % (self.cfg, self.want, got))

    # ---- what is served -------------------------------------------------------------
    def observe(self):
        tb, cfg = self.tb, self.cfg
        self.ensure()
        y = self.y
        require(tb.query_type == self.qtype, "query_type", "%r" % (tb.query_type,))
        got = tb.get_split()
        require([folds(g) for g in got] == self.want, "get_split", lambda: "%r: %r expected %r" % (cfg, got, self.want))
        n = len(self.want[0])
        cls = FeatureIndexCollection if self.qtype == "Features" else MultiLabelIndexCollection if self.multi else IndexCollection
        for k in range(n):
            tr, te, L, U = tb.get_split(k)
            require([item(v) for v in tr] == self.want[0][k] and [item(v) for v in te] == self.want[1][k], "get_split-round",
                    lambda: "%r: fold %d: %r %r" % (cfg, k, tr, te))
            for c, w in ((L, self.want[2][k]), (U, self.want[3][k])):
                require(type(c) is cls, "get_split-type", "%r: %r" % (cfg, type(c)))
                e = flat(w, self.width or 0)
                require(set(item(v) for v in c.index) == e and len(c) == len(e), "get_split-entries",
                        lambda: "%r: fold %d: %r expected %r" % (cfg, k, c.index, sorted(e)))
                if self.width:
                    require(c._label_size == self.width, "get_split-width", "%r: %r" % (cfg, c._label_size))
        for bad in (-1, n):
            try:
                tb.get_split(bad)
            except Exception:
                continue
            raise Violation("get_split-range", "%r: fold %d of %d served" % (cfg, bad, n))
        self.observe_oracle()
        for k in range(n):
            self.observe_repository(k)
            self.observe_stateio(k)

    def observe_oracle(self):
        tb, y, cfg = self.tb, self.y, self.cfg
        if self.qtype == "Features" or self.multi:
            table = X if self.qtype == "Features" else y
            W = self.width
            ent = [(i, j) for i in range(N) for j in range(W)]
            for byex in ((False,) if self.qtype == "Features" else (False, True)):
                for cost in (None, [5, 7, 9][:W], [[i * 10 + j for j in range(W)] for i in range(N)]):
                    if self.qtype == "Features" and cost is not None and not isinstance(cost[0], list):
                        continue
                    o = tb.get_clean_oracle(query_by_example=byex, cost_mat=None if cost is None else np.array(cost))
                    want = OracleQueryFeatures if self.qtype == "Features" else OracleQueryMultiLabel
                    require(type(o) is want, "oracle-type", "%r: %r" % (cfg, type(o)))
                    l, c = o.query_by_index(ent)
                    require(len(l) == len(ent) and [np.ravel(v).tolist() for v in l] == [[table[i][j]] for i, j in ent], "oracle-labels", lambda: "%r: %r" % (cfg, l))
                    wc = [1] * len(ent) if cost is None else [cost[i][j] if isinstance(cost[0], list) else cost[j] for i, j in ent]
                    require(np.ravel(c).tolist() == wc, "oracle-cost", lambda: "%r cost %r: %r expected %r" % (cfg, cost, c, wc))
                    if byex:
                        l, c = o.query_by_example([(X[2],)])
                        require([item(v) for v in l] == [tuple(y[2])], "oracle-example", lambda: "%r: %r" % (cfg, l))
            return
        for byex in (False, True):
            for cost in (None, COST):
                o = tb.get_clean_oracle(query_by_example=byex, cost_mat=cost)
                require(type(o) is Oracle, "oracle-type", "%r: %r" % (cfg, type(o)))
                l, c = o.query_by_index(list(self.ids))
                require([item(v) for v in l] == y, "oracle-labels", lambda: "%r: %r expected %r" % (cfg, l, y))
                require([item(v) for v in c] == (cost or [1] * N), "oracle-cost", lambda: "%r: %r expected %r" % (cfg, c, cost))
                if byex:
                    l, c = o.query_by_example(X)
                    require([item(v) for v in l] == y and [item(v) for v in c] == (cost or [1] * N), "oracle-example",
                            lambda: "%r: %r %r" % (cfg, l, c))

    def observe_repository(self, k):
        tb, y, cfg = self.tb, self.y, self.cfg
        lab = flat(self.want[2][k], self.width or 0)
        for ex in (False, True):
            r = tb.get_repository(k, instance_flag=ex)
            if self.qtype == "AllLabels":
                require(type(r) is MatrixRepository, "repository-type", "%r: %r" % (cfg, type(r)))
                keys = sorted(set(i for i, _ in lab)) if self.multi else sorted(lab)
                val = {key: (tuple(y[key]) if self.multi else y[self.ids.index(key)]) for key in keys}
                row = {key: key if self.multi else self.ids.index(key) for key in keys}
            else:
                require(type(r) is ElementRepository, "repository-type", "%r: %r" % (cfg, type(r)))
                keys = sorted(lab)
                val = {key: (X if self.qtype == "Features" else y)[key[0]][key[1]] for key in keys}
                row = {key: key[0] for key in keys}
            e, l, ind = r.get_training_data()
            require(sorted(item(i) for i in ind) == keys, "repository-items", lambda: "%r: %r expected %r" % (cfg, ind, keys))
            for p, i in enumerate(ind):
                require(item(l[p]) == val[item(i)], "repository-label", lambda: "%r: item %r has %r expected %r" % (cfg, i, l[p], val))
                if ex:
                    require(list(item(e[p])) == X[row[item(i)]], "repository-example", lambda: "%r: item %r has %r" % (cfg, i, e[p]))

    def observe_stateio(self, k):
        s = self.tb.get_stateio(k, saving_path=self.d, verbose=False)
        tr, te, L, U = s.get_workspace(0)
        require(s.round == k and [item(v) for v in tr] == self.want[0][k] and [item(v) for v in te] == self.want[1][k], "stateio",
                lambda: "%r: fold %d: round %r train %r test %r" % (self.cfg, k, s.round, tr, te))
        for c, w in ((L, self.want[2][k]), (U, self.want[3][k])):
            e = flat(w, self.width or 0)
            require(set(item(v) for v in c.index) == e, "stateio-sets", lambda: "%r: fold %d: %r expected %r" % (self.cfg, k, c.index, e))
        require(len(s) == 0 and s.initial_point is None, "stateio", "not empty")

    # ---- operations -----------------------------------------------------------------
    def do(self, op):
        tb = self.tb
        if op not in ("save", "again", "loadcopy", "recreate", "box-args"):
            self.ensure()
        if op == "split":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                np.random.seed(99)
                out = tb.split_AL(test_ratio=0.5, initial_label_rate=1, split_count=5, all_class=False)
            require([folds(o) for o in out] == self.want, "split-again", "%r: a second split_AL gave another split" % (self.cfg,))
            self.spoil(out)
        elif op == "all":
            self.spoil(tb.get_split())
        elif op == "round":
            for k in range(len(self.want[0])):
                tr, te, L, U = tb.get_split(k)
                self.spoil(([tr], [te]))
                for c in (L, U):
                    for v in list(c.index)[:2]:
                        c.discard(v)
                    if self.width:
                        c.add((0, 0))
                        c.add((5, 1))
                    else:
                        c.add(self.ids[0])
                        c.add(self.ids[5])
        elif op == "oracle":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                o = tb.get_clean_oracle()
                keys = [(0, 0), (1,)] if self.width else self.ids
                l, c = o.query_by_index(keys)
                self.spoil((l, c))
                if self.width:
                    o.add_knowledge([1] * self.width, 77)
                else:
                    o.add_knowledge(self.y[0], 77 if self.names != "names" else "zz")
                for i in (1, 2):
                    ans = o.query_by_index([(i,)] if self.width else [self.ids[i]])
                    self.spoil(ans)
        elif op == "repo":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for ex in (False, True):
                    r = tb.get_repository(0, instance_flag=ex)
                    e, l, ind = r.get_training_data()
                    self.spoil((l, [ind]))
                    if ex:
                        self.spoil(e)
                    ind = r.get_training_data()[2]
                    i = item(ind[0])
                    r.discard(index=i)
                    lab = [1] * len(self.y[0]) if self.multi and self.qtype == "AllLabels" else self.y[0] if not self.width else 1
                    r.add(select_index=i, label=lab, example=[9.0, 9.0, 9.0] if ex else None)
                    r.clear()
        elif op == "stateio":
            s = tb.get_stateio(0, saving_path=self.d, verbose=False)
            s.set_initial_point(0.5)
            u = s.get_workspace(0)[3].index[0]
            s.add_state(tb.State([u], 0.75))
            w = s.get_workspace()
            for c in w[2:]:
                for v in list(c.index):
                    c.discard(v)
            self.spoil(([w[0]], [w[1]]))
            s.save()
        elif op == "ace":
            seen = SEEN
            del seen[:]
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                a = tb.get_ace_threading(target_function=ace_target, max_thread=1, refresh_interval=0.0, saving_path=self.d)
                a.start_all_threads(global_parameters=None)
            require(sorted(s[0] for s in seen) == list(range(len(self.want[0]))), "ace-rounds", "%r" % (seen,))
            for s in seen:
                k = s[0]
                require(s[1] == self.want[0][k] and s[2] == self.want[1][k], "ace-split", lambda: "%r: round %d got %r" % (self.cfg, k, s[1:3]))
                require(s[3] == flat(self.want[2][k], self.width or 0) and s[4] == flat(self.want[3][k], self.width or 0), "ace-sets",
                        lambda: "%r: round %d got %r" % (self.cfg, k, s[3:5]))
                require(s[5] == X and s[6] == self.y, "ace-data", lambda: "%r: %r" % (self.cfg, s[5:]))
            shutil.rmtree(os.path.join(self.d, "AL_result"), ignore_errors=True)
        elif op == "save":
            tb.save()
            if self.path is not None:
                self.tb = ToolBox.load(self.path if self.save == "file" else os.path.join(self.d, "al_settings.pkl"))
        elif op == "recreate":
            if self.path is not None:
                # other arguments, but the settings at that path win (documented)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    self.tb = ToolBox(y=[0, 1, 0], X=[[1.0], [2.0], [3.0]], saving_path=self.path)
        elif op == "pickle":
            self.tb = pickle.loads(pickle.dumps(tb))
        return True

    def spoil(self, out):
        """What a caller may do to a returned value."""
        for o in out:
            if isinstance(o, np.ndarray):
                if o.size and o.flags.writeable:
                    o[...] = o.flat[0]
            elif isinstance(o, (list, tuple)):
                self.spoil([v for v in o if isinstance(v, (list, np.ndarray))])
                if isinstance(o, list) and o:
                    o.reverse()
                    o.pop()


def history(cfg, ops):
    with scratch() as d:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore", DeprecationWarning)
            warnings.simplefilter("ignore", FutureWarning)
            w = World(cfg, d)
            for op in ops:
                w.do(op)
            w.observe()
    return (cfg, tuple(ops))


# ---- the rest of what is handed out -----------------------------------------------------------

STRATS = [("QueryInstanceRandom", {}), ("QueryInstanceUncertainty", {"measure": "margin"}), ("QueryInstanceUncertainty", {}),
          ("QueryInstanceQBC", {"disagreement": "KL_divergence"}), ("QueryExpectedErrorReduction", {}), ("QueryInstanceGraphDensity", {"train_idx": [0, 1, 2]}),
          ("QueryInstanceQUIRE", {"train_idx": [0, 1, 2, 3]}), ("QueryInstanceCoresetGreedy", {"train_idx": [0, 1, 2]}),
          ("QueryInstanceDensityWeighted", {})]
MSTRATS = [("QueryMultiLabelRandom", {"select_type": "ins"}), ("QueryMultiLabelQUIRE", {}), ("QueryMultiLabelAUDI", {}), ("QueryMultiLabelMMC", {}),
           ("QueryMultiLabelAdaptive", {}), ("QueryTypeAURO", {})]
FSTRATS = [("QueryFeatureRandom", {}), ("QueryFeatureAFASMC", {"train_idx": [0, 1, 2, 3]}), ("QueryFeatureStability", {"train_idx": [0, 1, 2, 3]})]


def strategies(kind, with_x):
    """get_query_strategy gives an object of the named class with the toolbox's data."""
    import alipy.query_strategy as qs
    y = np.array(Y["multi" if kind == "multi" else "int01"] if kind == "multi" else [0, 1, 1, 0, 0, 1])
    tb = ToolBox(y=y, X=np.array(X) if with_x else None, query_type="PartLabels" if kind == "multi" else "Features" if kind == "feat" else "AllLabels")
    done = []
    for name, kw in {"inst": STRATS, "multi": MSTRATS, "feat": FSTRATS}[kind]:
        cls = getattr(qs, name)
        if not with_x and name not in ("QueryInstanceRandom", "QueryInstanceUncertainty"):
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = tb.get_query_strategy(name, **kw)
            ref = cls(X=np.array(X) if with_x else None, y=y.copy(), **kw)
        require(type(s) is cls, "strategy-type", "%r: %r" % (name, type(s)))
        for attr in ("X", "y"):
            a, b = getattr(s, attr, None), getattr(ref, attr, None)
            require(np.array_equal(np.asarray(a, dtype=object), np.asarray(b, dtype=object)), "strategy-data", "%r.%s %r" % (name, attr, a))
        for k, v in vars(ref).items():
            if isinstance(v, (int, float, str, bool)) or v is None:
                require(getattr(s, k, "missing") == v, "strategy-options", "%s.%s is %r, expected %r" % (name, k, getattr(s, k, None), v))
        done.append(name)
    for bad in ("NoSuchStrategy", "QueryInstance"):
        try:
            tb.get_query_strategy(bad)
        except KeyError:
            continue
        raise Violation("strategy-unknown", bad)
    return tuple(done)


def metrics(which):
    """calc_performance_metric is the named metric applied to the same arguments."""
    tb = ToolBox(y=[0, 1, 1], X=[[1.0], [2.0], [3.0]])
    yt = [0, 1, 1, 0, 1]
    n = 0
    if which == "pred":
        for yp in itertools.product((0, 1), repeat=5):
            for name in ("accuracy_score", "f1_score", "hamming_loss"):
                a = tb.calc_performance_metric(list(yt), list(yp), name)
                b = getattr(performance, name)(list(yt), list(yp))
                require(a == b or (a != a and b != b), "metric", "%s %r: %r expected %r" % (name, yp, a, b))
                n += 1
            require(tb.calc_performance_metric(yt, list(yp)) == performance.accuracy_score(yt, list(yp)), "metric-default", "")
            a = tb.calc_performance_metric(np.array(yt), np.array(yp), "accuracy_score", sample_weight=np.array([1, 2, 3, 4, 5]))
            b = performance.accuracy_score(np.array(yt), np.array(yp), sample_weight=np.array([1, 2, 3, 4, 5]))
            require(a == b, "metric-kwargs", "%r %r" % (a, b))
    elif which == "score":
        for sc in itertools.product((0.25, 0.5, 0.75), repeat=4):
            y4 = np.array([0, 1, 1, 0])
            p = np.array(sc)
            want = performance.roc_auc_score(y4, p)
            two = np.column_stack([1 - p, p])
            for form in (p, list(sc), p.reshape(-1, 1), two):
                a = tb.calc_performance_metric(y4, form, "roc_auc_score")
                require(a == want, "metric-score", "roc_auc_score of %r: %r expected %r" % (form, a, want))
                n += 1
            a = tb.calc_performance_metric(y4, two, "get_fps_tps_thresholds")
            b = performance.get_fps_tps_thresholds(y4, p)
            require(all(np.array_equal(u, v) for u, v in zip(a, b)), "metric-score", "fps %r expected %r" % (a, b))
    else:
        yt = np.array([[0, 1, 1], [1, 0, 0]])
        for sc in itertools.product((0.25, 0.5, 0.75), repeat=6):
            p = np.array(sc).reshape(2, 3)
            for name in ("coverage_error", "label_ranking_loss", "label_ranking_average_precision_score", "one_error"):
                a = tb.calc_performance_metric(yt, p, name)
                b = getattr(performance, name)(yt, p)
                require(np.array_equal(a, b), "metric-ranking", "%s of %r: %r expected %r" % (name, sc, a, b))
                n += 1
    for bad in ("nothing", "_auc", "type_of_target"):
        try:
            tb.calc_performance_metric([1], [1], bad)
        except NotImplementedError:
            continue
        raise Violation("metric-unknown", bad)
    return n


def helpers():
    """Index containers, states, stopping criteria, analysers."""
    y = np.array(Y["multi"])
    tb = ToolBox(y=y, X=np.array(X), query_type="PartLabels")
    n = 0
    for sub in itertools.combinations([0, 1, 2, 3, 4, 5], 3):
        require(sorted(tb.IndexCollection(list(sub)).index) == list(sub), "helper-index", "%r" % (sub,))
        n += 1
    require(len(tb.IndexCollection()) == 0, "helper-index", "empty")
    for shape in (None, (6, 3), (3, 6), (9, 2)):
        rows, cols = shape or y.shape
        for order in ("F", "C"):
            for sub in itertools.combinations(range(18), 2):
                c = tb.MultiLabelIndexCollection(np.array(sub), label_mat_shape=shape, order=order)
                want = set((f // cols, f % cols) if order == "C" else (f % rows, f // rows) for f in sub)
                require(set(map(item, c.index)) == want and c._label_size == cols, "helper-multi", "%r %r %r: %r" % (shape, order, sub, c.index))
                n += 1
        c = tb.MultiLabelIndexCollection([(0, 1), (1, 0), (2,)], label_mat_shape=shape)
        want = set([(0, 1), (1, 0)] + [(2, j) for j in range(cols)])
        require(set(map(item, c.index)) == want and c._label_size == cols, "helper-multi", "%r: %r" % (shape, c.index))
    s = tb.State([1, 2], 0.5, queried_label=[0, 1], cost=[3, 4])
    require([list(s.get_value("select_index")), s.get_value("performance"), list(s.get_value("queried_label")), list(s.get_value("cost"))] ==
            [[1, 2], 0.5, [0, 1], [3, 4]], "helper-state", "%r" % (s,))
    for crit, v in (("num_of_queries", 3), ("cost_limit", 2.5), ("percent_of_unlabel", 0.5), ("time_limit", 100), (None, None)):
        a = tb.get_stopping_criterion(crit, v)
        require(type(a) is StoppingCriteria and not a.is_stop() and a.value == v and a._stopping_criteria == crit, "helper-stop", "%r" % crit)
    require(type(tb.get_experiment_analyser("cost")) is not type(tb.get_experiment_analyser()), "helper-analyser", "")
    m = tb.get_default_model()
    m.fit([[0.0], [1.0]], [0, 1])
    require(list(m.predict([[-5.0], [6.0]])) == [0, 1], "helper-model", "")
    for kw, err in ((dict(y=[0, 1], X=[[1.0]]), ValueError), (dict(y=[0, 1], instance_indexes=[1]), ValueError),
                    (dict(y=[0, 1], query_type="Features"), Exception), (dict(y=[0, 1], query_type="All"), NotImplementedError),
                    (dict(y=[0, 1], train_idx=[[0]], test_idx=[[1]], label_idx=[[0], [1]], unlabel_idx=[[]]), ValueError)):
        try:
            ToolBox(**kw)
        except err:
            n += 1
            continue
        raise Violation("constructor", "%r accepted" % (kw,))
    tb = ToolBox(y=[0, 1, 1], X=[[1.0], [2.0], [3.0]])
    for f in (tb.get_split, lambda: tb.get_split(0), lambda: tb.get_ace_threading()):
        try:
            f()
        except Exception:
            continue
        raise Violation("unsplit", "a split is served before split_AL")
    return n


CFGS = ([(t, "AllLabels", None, s, p) for t in ("int", "pm", "str", "col", "reg", "multi", "multipm") for s, p in
         (("user", None), ("one", "dir"), ("split", "dir"), ("split1", "file"), ("arr", "file"))] +
        [("int", "AllLabels", nm, s, p) for nm in ("names", "gap") for s, p in (("user", None), ("split", "dir"), ("split1", "file"), ("arr", None))] +
        [("multi", "PartLabels", None, s, p) for s, p in (("user", None), ("one", "dir"), ("split", "file"), ("split1", "dir"))] +
        [("multipm", "PartLabels", None, "user", "file")] +
        [(t, "Features", None, s, p) for t in ("int", "reg", "multi") for s, p in (("user", "dir"), ("split", None), ("split1", "file"), ("split", "dir"))])
OPS = ["split", "all", "round", "oracle", "repo", "stateio", "save", "recreate", "pickle", "ace"]


def explore(ctx):
    q = ctx.quick
    specs = []
    for kind in ("int", "big", "names", "one", "pair"):
        for count in (1, 2, 3):
            for sizes in ((1, 1, 1), (2, 1, 3), (1, 2, 2), (3, 3, 1), (0, 1, 2), (1, 0, 2), (1, 2, 0), (2, 3, 0)):
                for form in ("list", "arr"):
                    if form == "arr" and (kind in ("one", "pair") and 0 in sizes):
                        continue
                    specs.append((kind, count) + sizes + (form,))
    ctx.parallel(load_case, [(None, s) for s in specs])
    few = [s for s in specs if s[2:5] in ((1, 1, 1), (2, 1, 3), (1, 0, 2)) and s[1] in (1, 2)]
    ctx.parallel(load_case, [(a, b) for a in few for b in few] if not q else [(a, b) for a in few for b in few if a[5] == "list" and (a[1] + b[1]) == 3])
    prod = []
    for kind in (None, "names", "gap", "multi", "feat"):
        for count in (1, 2, 3):
            for seed in range(3 if q else 20):
                for tr in (0, 0.3, 0.5):
                    kw = {"test_ratio": tr}
                    kw.update({"missing_rate": 0.5, "all_features": False} if kind == "feat" else {"initial_label_rate": 0.5, "all_class": False})
                    prod.append((kind, count, seed, kw))
    ctx.parallel(produce_case, prod)
    for kind in ("inst", "multi", "feat"):
        ctx.case(strategies, kind, True)
    ctx.case(strategies, "inst", False)
    for which in ("pred", "score", "rank"):
        ctx.case(metrics, which)
    ctx.case(helpers)
    hist = []
    for cfg in CFGS:
        hist.append((cfg, []))
        for a in OPS:
            hist.append((cfg, [a]))
            for b in OPS:
                if "ace" in (a, b) and q and (a != "ace" or b not in ("all", "save")):
                    continue
                hist.append((cfg, [a, b]))
                if not q:
                    for c in OPS:
                        if "ace" not in (a, b, c):
                            hist.append((cfg, [a, b, c]))
    ctx.parallel(history, hist)
    ctx.stats.transitions += sum(len(h[1]) for h in hist)
    ctx.stats.traces += len(hist)
    ctx.notes["toolbox_configurations"] = len(CFGS)
