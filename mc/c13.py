"""C13: knowledge repositories against a dictionary, every history of operations up to a depth."""
import copy
import itertools
import pickle
import warnings

import numpy as np

from mc.core import require
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.oracle import ElementRepository, MatrixRepository

LEVEL = "model_checking"
RULE = ("breadth-first search over histories of add, re-add, batch update (every spelling), rejected operations, discard by index and "
        "by example (present, absent), clear, reading results that the caller then modifies, and pickling, for both repositories and "
        "every label / index / example kind; after every operation every item is looked up in every way and compared with a dictionary")
ASSUMPTIONS = ("re-adding to ElementRepository replaces, to MatrixRepository is skipped with a warning (documented)",
               "items of MatrixRepository are scalars (documented: query-all-labels setting)")

KEYS = {"int": [7, 0, 12, 3, 5], "str": ["k", "a", "zz", "b", "c"], "tuple": [(0, 1), (1, 0), (2, 2), (0, 0), (3, 1)]}
EXA = {"plain": [[0., 1.], [2., 3.], [2., 3.000001], [6., 7.], [9., 9.]], "dup": [[0., 1.], [2., 3.], [0., 1.], [2., 3.], [9., 9.]]}
ALT = [[10., 1.], [12., 3.], [14., 5.5], [16., 7.], [19., 9.]]


def label(kind, i, v):
    if kind == "scalar":
        return [3, 1, 4, 1, 5][i] + 10 * v
    if kind == "str":
        return ["p", "q", "rrrr", "q", "s"][i] + "xy" * v
    if kind == "float":
        return [3.5, 1.0, 4.25, 1.0, 5.0][i] + v
    return [[0, 1, 1], [1, 0, 0], [1, 1, 0], [0, 0, 1], [1, 1, 1]][i] if not v else [[2, 1, 1], [2, 0, 0], [2, 1, 0], [2, 0, 1], [2, 1, 1]][i]


def eq(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))


class World(object):
    def __init__(self, cfg):
        cls, lab, ind, exa, form = cfg
        self.cfg = cfg
        self.cls, self.lab, self.exa = cls, lab, exa
        self.key = KEYS[ind]
        self.ind = ind
        items = [0, 1]
        labels = [label(lab, i, 0) for i in items]
        ks = [self.key[i] for i in items]
        ex = [EXA[exa][i] for i in items] if exa else None
        if form == "arr":
            labels = np.array(labels)
            ex = np.array(ex) if exa else None
            if ind == "int":
                ks = np.array(ks)
        elif form == "ind":
            ks = IndexCollection(ks) if ind != "tuple" else MultiLabelIndexCollection(ks, 3)
            order = [self.key.index(k) for k in ks]
            labels = [label(lab, i, 0) for i in order]
            ex = [EXA[exa][i] for i in order] if exa else None
        self.r = (ElementRepository if cls == "E" else MatrixRepository)(labels, ks, ex)
        self.m = {i: (label(lab, i, 0), EXA[exa][i] if exa else None) for i in items}
        self.cost = 0
        self.n = 0

    # ---- operations -----------------------------------------------------------------
    def values(self, i, v):
        return label(self.lab, i, v), (ALT[i] if v else EXA[self.exa][i]) if self.exa else None, (i + 1) * 2 + v

    def store(self, i, v, cost):
        l, e, c = self.values(i, v)
        if self.cls == "M" and i in self.m:
            return
        self.m[i] = (l, e)
        if cost:
            self.cost += c

    def add(self, i, v, cost, kind):
        l, e, c = self.values(i, v)
        kw = {}
        if self.exa:
            kw["example"] = np.array(e) if kind == "arr" else list(e)
        if cost:
            kw["cost"] = c
        if kind == "arr" and isinstance(l, list):
            l = np.array(l)
        self.r.add(label=l, select_index=np.int64(self.key[i]) if kind == "arr" and self.ind == "int" else self.key[i], **kw)
        self.store(i, v, cost)

    def update(self, items, v, cost, how):
        vals = [self.values(i, v) for i in items]
        ls, ks, es, cs = [x[0] for x in vals], [self.key[i] for i in items], [x[1] for x in vals], [x[2] for x in vals]
        if how == "one":
            a = ([ls[0]] if self.lab == "vec" else ls[0], ks[0], cs[0], es[:1])
        elif how == "arr":
            a = (np.array(ls), np.array(ks) if self.ind == "int" else ks, np.array(cs), np.array(es))
        elif how == "ind":
            if len(set(items)) < len(items) or self.ind == "tuple":
                return False
            kc = IndexCollection(ks)
            order = [self.key.index(k) for k in kc]
            vals = [self.values(i, v) for i in order]
            items = order
            a = ([x[0] for x in vals], kc, [x[2] for x in vals], [x[1] for x in vals])
        else:
            a = (ls, ks, cs, es)
        kw = {}
        if cost:
            kw["cost"] = a[2]
        if self.exa:
            kw["examples"] = a[3]
        self.r.update_query(labels=a[0], indexes=a[1], **kw)
        for i in items:
            self.store(i, v, cost)
        self.n += 1
        # what the caller does with his lists afterwards is not the repository's business
        for x in (a[0], a[2], a[3]):
            if isinstance(x, list):
                x.clear()
        return True

    def bad(self, how):
        new = [i for i in range(4) if i not in self.m][:2]
        if not new:
            return False
        i = new[0]
        l, e, c = self.values(i, 0)
        kw = {"examples": [e]} if self.exa else {}
        if how == "noexa":
            if not self.exa:
                return False
            call = lambda: self.r.update_query(labels=[l], indexes=[self.key[i]], cost=[c])
        elif how == "noexa-add":
            if not self.exa:
                return False
            call = lambda: self.r.add(label=l, select_index=self.key[i], cost=c)
        elif how == "length":
            call = lambda: self.r.update_query(labels=[l, l], indexes=[self.key[i]], **kw)
        elif how == "cost-length":
            call = lambda: self.r.update_query(labels=[l], indexes=[self.key[i]], cost=[1, 2], **kw)
        elif how == "shape":
            if self.cls != "M" or self.lab != "vec":
                return False
            call = lambda: self.r.update_query(labels=[[1, 0]], indexes=[self.key[i]], **kw)
        elif how == "scalar-shape":
            if self.cls != "M" or self.lab == "vec":
                return False
            call = lambda: self.r.add([l, l], self.key[i], cost=c, **({"example": e} if self.exa else {}))
        elif how == "exa-dim":
            if self.cls != "M" or not self.exa:
                return False
            call = lambda: self.r.add(l, self.key[i], cost=c, example=[1.0, 2.0, 3.0])
        elif how == "batch":          # the second of two is wrong
            if len(new) < 2:
                return False
            j = new[1]
            if self.exa:
                call = lambda: self.r.update_query(labels=[l, label(self.lab, j, 0)], indexes=[self.key[i], self.key[j]], cost=[c, c],
                                                   examples=[e, 5 if self.cls == "E" else [1.0]])
            elif self.cls == "M" and self.lab == "vec":
                call = lambda: self.r.update_query(labels=[l, [1]], indexes=[self.key[i], self.key[j]], cost=[c, c])
            else:
                return False
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                call()
        except Exception:
            return True
        require(False, "bad-operation-accepted", "%r: %s accepted" % (self.cfg, how))

    def discard(self, i, how):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            if how == "index":
                self.r.discard(index=self.key[i])
                if i not in self.m:
                    require(w, "silent-absent-discard", repr(self.cfg))
                self.m.pop(i, None)
                return True
            if not self.exa:
                return False
            e = EXA[self.exa][i]
            owners = [j for j in self.m if self.m[j][1] == e]
            self.r.discard(example=np.array(e) if how == "arr" else e)
            if not owners:
                require(w, "silent-absent-discard", repr(self.cfg))
                return True
            gone = [j for j in owners if self.key[j] not in self.r]
            require(len(gone) == 1, "discard-by-example", lambda: "%r: owners %r removed %r" % (self.cfg, owners, gone))
            self.m.pop(gone[0])
        return True

    # ---- oracle -----------------------------------------------------------------------
    def rows(self, X, y, items, what):
        """X, y are exactly the examples / labels of items in order."""
        y = np.asarray(y)
        require(len(y) == len(items), "rows:" + what, lambda: "%r: %s of %r gave %r" % (self.cfg, what, items, y))
        if len(items):
            require(all(eq(y[t], self.m[i][0]) for t, i in enumerate(items)), "label:" + what,
                    lambda: "%r: %s of %r gave %r, stored %r" % (self.cfg, what, items, y, self.m))
        if self.exa:
            require(len(X) == len(items) and all(eq(X[t], self.m[i][1]) for t, i in enumerate(items)), "example:" + what,
                    lambda: "%r: %s of %r gave %r, stored %r" % (self.cfg, what, items, X, self.m))

    def lookup(self, call, items, what):
        """items: the positions of everything asked for; absent ones must be reported and left out."""
        here = [i for i in items if i in self.m]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                res = call()
            except Exception as e:
                require(len(here) < len(items), "lookup-raises:" + what, lambda: "%r: %r for %r" % (self.cfg, e, items))
                return
        if len(here) < len(items):
            require(w, "absent-unreported:" + what, lambda: "%r: %s of %r gave %r without a warning" % (self.cfg, what, items, res))
            if res is None or all(x is None for x in res):
                require(not here, "lost:" + what, lambda: "%r: %r" % (items, res))
                return
        self.rows(res[0], res[1], here, what)

    def check(self):
        r = self.r
        for i in range(5):
            require((self.key[i] in r) == (i in self.m), "contains", lambda: "%r: %r stored %r" % (self.cfg, self.key[i], sorted(self.m)))
            self.lookup(lambda: r.retrieve_by_indexes(self.key[i]), [i], "retrieve one")
            self.lookup(lambda: r.retrieve_by_indexes([self.key[i]]), [i], "retrieve list of one")
        for seq in ([0, 1], [1, 0], [3, 2, 1, 0], [2, 4, 0], [0, 1, 0], [1, 1], [3, 3, 0, 3, 0]):
            self.lookup(lambda: r.retrieve_by_indexes([self.key[i] for i in seq]), seq, "retrieve list")
            if self.ind == "int":
                self.lookup(lambda: r.retrieve_by_indexes(np.array([self.key[i] for i in seq])), seq, "retrieve array")
                c = IndexCollection([self.key[i] for i in dict.fromkeys(seq)])
                self.lookup(lambda: r.retrieve_by_indexes(c), [self.key.index(k) for k in c], "retrieve collection")
        if self.exa:
            for e in EXA["plain"] + ALT[:3]:
                owners = [j for j in self.m if self.m[j][1] == e]
                for arg in (list(e), np.array(e), [list(e)], np.array([e])):
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter("always")
                        res = r.retrieve_by_examples(arg)
                    if not owners:
                        require(w, "absent-example-unreported", lambda: "%r: %r -> %r" % (self.cfg, e, res))
                        require(res[1] is None or len(res[1]) == 0, "absent-example-answered", lambda: "%r: %r -> %r" % (self.cfg, e, res))
                        continue
                    X, y = res
                    if np.ndim(arg) == 1 and np.ndim(X) == 1:
                        X, y = [X], [y]
                    require(len(y) == 1 and eq(X[0], e) and any(eq(y[0], self.m[j][0]) for j in owners), "by-example",
                            lambda: "%r: example %r gave %r, stored %r" % (self.cfg, e, res, self.m))
            many = [i for i in (1, 0, 3) if i in self.m and sum(1 for j in self.m if self.m[j][1] == self.m[i][1]) == 1]
            if len(many) > 1:
                res = r.retrieve_by_examples([self.m[i][1] for i in many])
                self.rows(res[0], res[1], many, "retrieve examples")
                for seq in ([many[0]] * 2, [many[1], many[0], many[1]]):
                    res = r.retrieve_by_examples([self.m[i][1] for i in seq])
                    self.rows(res[0], res[1], seq, "retrieve repeated examples")
        X, y, ind = r.get_training_data()
        ks = [tuple(k) if self.ind == "tuple" else k for k in np.asarray(ind).tolist()]
        require(sorted(map(repr, ks)) == sorted(repr(self.key[i]) for i in self.m), "training-indexes",
                lambda: "%r: training set %r, stored %r" % (self.cfg, ks, [self.key[i] for i in self.m]))
        self.rows(X, y, [self.key.index(k) for k in ks], "training data")
        require(r.cost_inall == self.cost, "cost_inall", lambda: "%r: %r instead of %r" % (self.cfg, r.cost_inall, self.cost))
        require(r.num_of_queries == self.n, "num_of_queries", lambda: "%r: %r instead of %r" % (self.cfg, r.num_of_queries, self.n))
        h = r.full_history()
        require("number_of_queries:%d" % self.n in h and "cost:%s" % self.cost in h, "history", lambda: "%r\n%s" % (self.cfg, h))


def history(hist):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        w = World(hist[0])
        for op in hist[1:]:        # every prefix was checked as a history of its own
            k, a = op[0], op[1:]
            done = True
            if k == "add":
                w.add(*a)
            elif k == "update":
                done = w.update(*a)
            elif k == "bad":
                done = w.bad(*a)
            elif k == "discard":
                done = w.discard(*a)
            elif k == "clear":
                w.r.clear()
                w.m, w.cost, w.n = {}, 0, 0
            elif k == "pickle":
                w.r = pickle.loads(pickle.dumps(w.r))
            elif k == "copy":
                twin = copy.deepcopy(w.r)
                for i in list(w.m):
                    twin.discard(index=w.key[i])
            elif k == "spoil":
                for x in w.r.get_training_data():
                    x = np.asarray(x)
                    if x.size and x.dtype.kind in "iuf":
                        x[...] = -99
            if done is False:
                return None
        w.check()
    return hist[0], repr(sorted(w.m.items())), w.cost, w.n


def explore(ctx):
    q = ctx.quick
    cfgs = []
    for cls in "EM":
        for lab in ("scalar", "vec", "str", "float"):
            for ind in ("int", "str") + (("tuple",) if cls == "E" else ()):
                for exa in (None, "plain", "dup"):
                    for form in ("list", "arr", "ind"):
                        if ind != "int" and (form == "arr" or exa == "dup"):
                            continue
                        if q and (lab in ("str", "float") and form != "list" or exa == "dup" and form != "arr"):
                            continue
                        cfgs.append((cls, lab, ind, exa, form))

    def alphabet(cfg):
        items = (0, 1, 2, 3)
        ops = [("add", i, v, c, k) for i in items for v, c, k in ((0, 1, "list"), (1, 0, "arr"))]
        ops += [("update", [i], v, c, how) for i in (0, 2) for v, c, how in ((0, 1, "one"), (1, 1, "list"), (0, 0, "arr"))]
        ops += [("update", s, v, c, how) for s in ([2, 3], [3, 1], [0, 1]) for v, c, how in ((0, 1, "list"), (1, 1, "arr"), (0, 1, "ind"))]
        ops += [("update", [2, 2], 0, 1, "list")]
        ops += [("bad", h) for h in ("noexa", "noexa-add", "length", "cost-length", "shape", "scalar-shape", "exa-dim", "batch")]
        ops += [("discard", i, "index") for i in (0, 1, 2, 4)]
        ops += [("discard", i, h) for i in (0, 1, 3, 4) for h in ("list", "arr")][::1 if not q else 2]
        ops += [("clear",), ("pickle",), ("copy",), ("spoil",)]
        return ops
    jobs = []
    for cfg in cfgs:
        depth = 3 if not q else 2
        jobs.append((lambda c=cfg, d=depth: ctx.bfs(history, alphabet(c), d, prefix=[c]), ()))
        if q and cfg[1] in ("scalar", "vec") and cfg[2] == "int" and cfg[4] == "arr":
            few = [o for o in alphabet(cfg) if o[0] in ("clear", "discard") or o in (("add", 2, 0, 1, "list"), ("add", 0, 1, 0, "arr"))
                   or o[0] == "update" and o[1] in ([2, 3], [0]) and o[-1] == "arr"]
            jobs.append((lambda c=cfg, f=few: ctx.bfs(history, f, 4, prefix=[c]), ()))
    ctx.jobs(jobs)
