"""C11: oracles against a table of (label, cost), every history of queries and additions up to a depth."""
import itertools
import os
import pickle
import tempfile
import warnings

import numpy as np

from mc.core import require
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.oracle import Oracle, OracleQueryInstance, OracleQueryMultiLabel, OracleQueryFeatures

LEVEL = "model_checking"
RULE = ("breadth-first search over histories of queries (every index sequence up to a length, every spelling, by index and by "
        "example, known and unknown items), additions (single, batch, of items already there, rejected) and save/load, for every oracle class, label kind, "
        "index kind, cost and example option; after every operation every stored answer is read back and compared with a table")
ASSUMPTIONS = ("an item added again keeps its example; examples are distinct",)

ITEMS = {0: (0, 10, "a"), 1: (1, 7, "b"), 2: (2, 3, "c"), 3: (3, 12, "d"), 4: (4, 0, "e"), 5: (99, 99, "zz")}   # 5 is never stored
LABEL = {"int": [0, 1, 1, 2, 0], "str": ["x", "y", "y", "z", "x"], "float": [0.5, 1.5, -1.0, 2.25, 0.0],
         "vec": [[0, 1], [1, 1], [1, 0], [0, 0], [1, 1]], "neg": [-1, 1, 1, -1, -1]}
MULTI = [[0, 1, 1], [1, 0, 1], [1, 1, 0], [0, 0, 1], [1, 0, 0]]
FEAT = [[0.5, 1.5, -2.0], [1.25, 0.0, 3.0], [7.0, 6.0, 5.0], [0.125, 9.0, 8.0], [2.0, 4.0, 0.25]]
EXA = [[0.0, 1.0], [2.0, 3.0], [4.0, 5.5], [6.0, 7.0], [8.0, 9.0], [-1.0, -1.0]]
COSTS = {0: None, 1: [1, 3, 2, 5, 4], 2: [2, 0, 0.5, 0, 0]}
MCOST = [[1, 2, 3], [4, 0, 6], [7, 8, 9], [2, 4, 6], [0, 0, 0]]


def same(a, b):
    return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b))


class Plain(object):
    """An Oracle / OracleQueryInstance next to its table."""

    def __init__(self, cfg):
        cls, lab, ind, cost, exa, form = cfg
        self.cfg = cfg
        self.lab, self.ind, self.cost, self.exa = LABEL[lab], ind, cost, exa
        key = {"none": 0, "gap": 1, "np": 1, "str": 2}[ind]
        self.key = [ITEMS[i][key] for i in range(6)]
        arr = np.array if form == "arr" else list
        n = 3
        labels = arr([LABEL[lab][i] for i in range(n)])
        kw = {}
        if ind != "none":
            kw["indexes"] = np.array(self.key[:n]) if ind == "np" else list(self.key[:n])
        if cost:
            kw["cost"] = arr(COSTS[cost][:n])
        if exa:
            kw["examples"] = np.array(EXA[:n]) if form == "arr" else [list(e) for e in EXA[:n]]
        self.o = {"Oracle": Oracle, "Instance": OracleQueryInstance}[cls](labels, **kw)
        self.known = set(range(n))
        self.n = n
        self.cur = {i: (self.lab[i], COSTS[cost][i] if cost else 1) for i in range(5)}

    def expect(self, items):
        return [self.cur[i][0] for i in items], [self.cur[i][1] for i in items]

    def again(self, items, newlab, newcost, how):
        """The items are added once more, with another label and / or another cost: the last addition counts, as a whole."""
        for t, i in enumerate(items):
            self.cur[i] = (self.lab[(i + 1 + t) % 5] if newlab else self.cur[i][0],
                           COSTS[self.cost][i] + 7 + t if self.cost and newcost else self.cur[i][1])
            if t == 0:
                given = []
            given.append(self.cur[i])
        ks = [self.key[i] for i in items]
        lab, kw = [g[0] for g in given], {}
        if self.cost:
            kw["cost"] = [g[1] for g in given]
        if self.exa:
            kw["examples"] = [EXA[i] for i in items]
        if how == "one":
            lab, ks = lab[0], ks[0]
            kw = {k: v[0] for k, v in kw.items()}
        self.o.add_knowledge(lab, ks, **kw)
        self.known |= set(items)

    def form(self, items, how):
        ks = [self.key[i] for i in items]
        if how == "one":
            return ks[0]
        if how == "arr":
            return np.array(ks)
        if how == "ind":
            return IndexCollection(ks)
        return ks

    def query(self, items, how):
        arg = self.form(items, how)
        if how == "ind":
            order = [k for k in arg]
            items = [self.key.index(k) for k in order]
        before = list(arg) if how not in ("one",) else None
        ok = all(i in self.known for i in items)
        try:
            res = self.o.query_by_index(arg)
        except Exception as e:
            require(not ok, "query-raises", lambda: "%r: %r for known items %r" % (self.cfg, e, items))
            return
        require(ok, "unknown-answered", lambda: "%r: %r known %r answered %r" % (self.cfg, items, sorted(self.known), res))
        want = self.expect(items)
        require(len(res) == 2 and len(res[0]) == len(items) and all(same(a, b) for a, b in zip(res[0], want[0])), "label",
                lambda: "%r: query %r (%s) gave %r, expected %r" % (self.cfg, items, how, res, want))
        require(len(res[1]) == len(items) and all(same(a, b) for a, b in zip(res[1], want[1])), "cost",
                lambda: "%r: query %r (%s) gave %r, expected %r" % (self.cfg, items, how, res, want))
        if before is not None:
            require(list(arg) == before, "argument-changed", lambda: "%r -> %r" % (before, arg))

    def query_example(self, items, how):
        vec = [EXA[i] for i in items]
        arg = vec[0] if how == "one" else np.array(vec[0]) if how == "onearr" else np.array(vec) if how == "arr" else vec
        ok = all(i in self.known for i in items) and self.exa
        try:
            res = self.o.query_by_example(arg)
        except Exception as e:
            require(not ok, "query-example-raises", lambda: "%r: %r for %r" % (self.cfg, e, items))
            return
        require(ok, "unknown-example-answered", lambda: "%r: %r answered %r" % (self.cfg, items, res))
        want = self.expect(items)
        require(len(res[0]) == len(items) == len(res[1]) and all(same(a, b) for a, b in zip(res[0], want[0])) and
                all(same(a, b) for a, b in zip(res[1], want[1])), "example-answer",
                lambda: "%r: query %r gave %r, expected %r" % (self.cfg, items, res, want))

    def add(self, items, how):
        lab = [self.lab[i] for i in items]
        ks = [self.key[i] for i in items]
        kw = {}
        if self.cost:
            kw["cost"] = [COSTS[self.cost][i] for i in items]
        if self.exa:
            kw["examples"] = [EXA[i] for i in items]
        if how == "one":
            lab, ks = lab[0], ks[0]
            kw = {k: v[0] for k, v in kw.items()}
        elif how == "arr":
            lab, ks = np.array(lab), np.array(ks)
            kw = {k: np.array(v) for k, v in kw.items()}
        self.o.add_knowledge(lab, ks, **kw)
        self.known |= set(items)

    def reject(self, i, how):
        """An addition that must be refused, and then leaves no trace."""
        kw = {}
        if self.cost and how != "nocost":
            kw["cost"] = COSTS[self.cost or 1][i]
        if self.exa and how != "noexa":
            kw["examples"] = EXA[i]
        lab = {1} if how == "type" else self.lab[i]
        if how == "nocost" and not self.cost or how == "noexa" and not self.exa:
            return
        try:
            self.o.add_knowledge(lab, self.key[i], **kw)
        except Exception:
            return
        require(False, "bad-addition-accepted", "%r: %s accepted" % (self.cfg, how))

    def check(self):
        for i in range(6):
            self.query([i], "one")
            if self.exa:
                self.query_example([i], "one")
        require(set(self.o.index_keys) == {self.key[i] for i in self.known}, "index_keys",
                lambda: "%r, known %r" % (list(self.o.index_keys), self.known))
        if self.exa:
            got = sorted(tuple(float(v) for v in e) for e in self.o.example_keys)
            require(got == sorted(tuple(EXA[i]) for i in self.known), "example_keys", lambda: repr(self.o.example_keys))


class Multi(Plain):
    """OracleQueryMultiLabel / OracleQueryFeatures: queries are (item, labels)."""

    def __init__(self, cfg):
        cls, ind, cost, exa, form = cfg
        self.cfg = cfg
        self.ind, self.cost, self.exa = ind, cost, exa
        self.lab = MULTI if cls == "Multi" else FEAT
        key = {"none": 0, "gap": 1}[ind]
        self.key = [ITEMS[i][key] for i in range(6)]
        n = 2
        mk = np.array if form == "arr" else (lambda v: [list(r) if isinstance(r, list) else r for r in v])
        kw = {}
        if ind != "none":
            kw["indexes"] = list(self.key[:n])
        if cost == "per-label":
            kw["cost"] = mk(MCOST[0])
        elif cost == "fine":
            kw["cost"] = mk(MCOST[:n])
        if exa:
            kw["examples"] = mk(EXA[:n])
        if cls == "Multi":
            self.o = OracleQueryMultiLabel(mk(self.lab[:n]), **kw)
        else:
            self.o = OracleQueryFeatures(mk(self.lab[:n]), **kw)
        self.known = set(range(n))

    def costs(self, i):
        return MCOST[0] if self.cost == "per-label" else MCOST[i] if self.cost == "fine" else [1, 1, 1]

    def judge(self, what, call, items):
        """items: [(i, labels or None)]"""
        ok = all(i in self.known and (ls is None or all(0 <= j < 3 for j in ls)) for i, ls in items)
        try:
            res = call()
        except Exception as e:
            require(not ok, "query-raises", lambda: "%r: %s %r: %r" % (self.cfg, what, items, e))
            return
        require(ok, "unknown-answered", lambda: "%r: %s %r answered %r" % (self.cfg, what, items, res))
        require(len(res) == 2 and len(res[0]) == len(res[1]) == len(items), "length", lambda: "%r: %r -> %r" % (self.cfg, items, res))
        for (i, ls), got, c in zip(items, res[0], res[1]):
            js = [0, 1, 2] if ls is None else list(ls)
            require(same(got, [self.lab[i][j] for j in js]), "label", lambda: "%r: %s %r -> %r" % (self.cfg, what, items, res))
            require(same(c, [self.costs(i)[j] for j in js]), "cost", lambda: "%r: %s %r -> %r" % (self.cfg, what, items, res))

    def spell(self, i, ls, how, first=None):
        f = self.key[i] if first is None else first
        if ls is None:
            return (f,)
        if len(ls) == 1 and how in ("scalar", "one"):
            return (f, ls[0])
        return (f, list(ls) if how != "tuple" else tuple(ls))

    def query(self, items, how):
        arg = [self.spell(i, ls, how) for i, ls in items]
        if how == "one":
            arg = arg[0]
        elif how == "ind":
            if self.key != list(range(5)) + [99] or any(ls is None or len(ls) != 1 or not 0 <= ls[0] < 3 for _, ls in items):
                return
            arg = MultiLabelIndexCollection([(i, ls[0]) for i, ls in [(self.key[i], ls) for i, ls in items]], 3)
            items = [(self.key.index(a), [b]) for a, b in arg]
        self.judge("query_by_index", lambda: self.o.query_by_index(arg), items)

    def query_example(self, items, how):
        mk = {"arr": np.array, "tuple": tuple}.get(how, list)
        arg = [self.spell(i, ls, "list" if how == "list" else "scalar", mk(EXA[i])) for i, ls in items]
        if how == "one":
            arg = arg[0]
        if not self.exa:
            try:
                self.o.query_by_example(arg)
            except Exception:
                return
            require(False, "no-examples-answered", repr(arg))
        self.judge("query_by_example", lambda: self.o.query_by_example(arg), items)

    def add(self, items, how):
        lab = [self.lab[i] for i in items]
        ks = [self.key[i] for i in items]
        kw = {}
        if self.cost == "fine":
            kw["cost"] = [MCOST[i] for i in items]
        if self.exa:
            kw["examples"] = [EXA[i] for i in items]
        if how == "one":
            lab, ks = lab[0], ks[0]
            kw = {k: v[0] for k, v in kw.items()}
        elif how == "arr":
            lab, ks = np.array(lab), np.array(ks)
            kw = {k: np.array(v) for k, v in kw.items()}
        self.o.add_knowledge(lab, ks, **kw)
        self.known |= set(items)

    def again(self, items, newlab, newcost, how):
        """Adding a stored item once more is skipped, with a warning."""
        i = items[0]
        kw = {}
        if self.cost == "fine":
            kw["cost"] = [c + 5 for c in MCOST[i]]
        if self.exa:
            kw["examples"] = EXA[i]
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            self.o.add_knowledge([v + 1 for v in self.lab[i]], self.key[i], **kw)
        require(w, "silent-skip", lambda: repr(self.cfg))

    def reject(self, i, how):
        kw = {}
        if self.cost == "fine" and how != "nocost":
            kw["cost"] = MCOST[i] if how != "costdim" else [1, 2]
        if self.exa and how != "noexa":
            kw["examples"] = EXA[i]
        lab = [1, 0] if how == "dim" else self.lab[i]
        if how in ("nocost", "costdim") and self.cost != "fine" or how == "noexa" and not self.exa:
            return
        try:
            self.o.add_knowledge(lab, self.key[i], **kw)
        except Exception:
            return
        require(False, "bad-addition-accepted", "%r: %s accepted" % (self.cfg, how))

    def check(self):
        for i in range(6):
            self.query([(i, None)], "one")
            for j in range(3):
                self.query([(i, [j])], "scalar")
            if self.exa:
                self.query_example([(i, None)], "one")
                self.query_example([(i, [2, 0])], "list")
        require(set(self.o.index_keys) == {self.key[i] for i in self.known}, "index_keys",
                lambda: "%r, known %r" % (list(self.o.index_keys), self.known))


def history(hist):
    cfg = hist[0]
    w = (Multi if cfg[0] in ("Multi", "Features") else Plain)(cfg)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for op in hist[1:]:        # every prefix was checked as a history of its own
            k = op[0]
            if k == "q":
                w.query(op[1], op[2])
            elif k == "qe":
                w.query_example(op[1], op[2])
            elif k == "add":
                if set(op[1]) & w.known:
                    return None
                w.add(op[1], op[2])
            elif k == "again":
                if not op[1][0] in w.known:
                    return None
                w.again(*op[1:])
            elif k == "bad":
                if op[1] in w.known:
                    return None
                w.reject(op[1], op[2])
            elif k == "pickle":
                w.o = pickle.loads(pickle.dumps(w.o))
            elif k == "file":
                d = tempfile.mkdtemp(dir=os.environ.get("MC_SCRATCH"))
                p = os.path.join(d, "o.pkl") if op[1] else d
                w.o.save_oracle(p)
                w.o = type(w.o).load_oracle(os.path.join(d, "o.pkl" if op[1] else "oracle.pkl"))
            elif k == "repr":
                str(w.o)
        w.check()
    return cfg, tuple(sorted(w.known)), hist[-1][0] if hist[-1][0] == "bad" else "", repr(getattr(w, "cur", ""))


def explore(ctx):
    q = ctx.quick
    jobs = []

    def alphabet_plain(cfg):
        arrs = ("list", "arr", "ind") if cfg[2] != "str" else ("list", "ind")
        ops = []
        for n in (1, 2) if q else (1, 2, 3):
            for seq in itertools.product((0, 2, 3, 5) if n == 1 or not q else (0, 2, 3), repeat=n):
                for how in arrs:
                    if how == "ind" and len(set(seq)) < n:
                        continue
                    ops.append(("q", list(seq), how))
        if cfg[4]:
            for n in (1, 2):
                for seq in itertools.product((0, 2, 3, 5), repeat=n):
                    for how in ("list", "arr") + (("onearr",) if n == 1 else ()):
                        ops.append(("qe", list(seq), how))
        ops += [("add", [i], how) for i in (3, 4) for how in ("one", "list")] + [("add", [3, 4], "list"), ("add", [4, 3], "arr")]
        ops += [("again", [i], *new, "one") for i in (0, 3) for new in ((1, 1), (1, 0), (0, 1))]
        ops += [("again", s, 1, 1, "list") for s in ([0, 2], [1, 1], [2, 3])]
        ops += [("bad", i, how) for i in (3, 4) for how in ("nocost", "noexa", "type")]
        ops += [("pickle",), ("file", 0), ("file", 1), ("repr",)]
        return ops

    def alphabet_multi(cfg):
        ent = [(i, ls) for i in (0, 1, 2, 5) for ls in (None, [0], [2], [0, 2], [2, 1], [0, 1, 2], [1, 1])]
        bad = [(0, [3]), (0, [0, 3]), (1, [-1]), (1, [1, -1])]
        ops = [("q", [e], how) for e in ent + bad for how in ("one", "list", "tuple", "scalar", "ind")]
        few = ([ent[1], ent[8], ent[10], ent[22]] if q else [ent[1], ent[3], ent[8], ent[11], ent[14], ent[22]]) + bad[:1]
        for a in few:
            for b in few:
                ops += [("q", [a, b], how) for how in ("list", "scalar")]
        ops.append(("q", [(0, [1]), (1, [0]), (1, [2])], "ind"))
        for e in ent[::2] + bad:
            ops += [("qe", [e], how) for how in ("one", "list", "tuple", "arr")]
        for a in few:
            ops += [("qe", [a, (1, [2])], "list"), ("qe", [(0, None), a], "arr")]
        ops += [("add", [i], how) for i in (2, 3) for how in ("one", "list")] + [("add", [2, 3], "list"), ("add", [3, 2], "arr")]
        ops += [("again", [i], 1, 1, "one") for i in (0, 2)]
        ops += [("bad", i, how) for i in (2, 3) for how in ("nocost", "noexa", "dim", "costdim")]
        ops += [("pickle",), ("file", 0), ("file", 1), ("repr",)]
        return ops

    cfgs = []
    for cls in ("Oracle", "Instance"):
        for lab in LABEL:
            for ind in ("none", "gap", "np", "str"):
                for cost in (0, 1, 2):
                    for exa in (0, 1):
                        for form in ("list", "arr"):
                            if q and ((cls == "Instance") != (form == "arr") or (cls == "Instance" and lab in ("float", "neg"))):
                                continue
                            cfgs.append(((cls, lab, ind, cost, exa, form), alphabet_plain))
    for cls in ("Multi", "Features"):
        for ind in ("none", "gap"):
            for cost in ("none", "per-label", "fine"):
                for exa in ((0, 1) if cls == "Multi" else (0,)):
                    for form in ("list", "arr"):
                        cfgs.append(((cls, ind, cost, exa, form), alphabet_multi))
    for cfg, al in cfgs:
        jobs.append((lambda c=cfg, a=al: ctx.bfs(history, a(c), 2 if q else 3, prefix=[c]), ()))
    ctx.jobs(jobs)
