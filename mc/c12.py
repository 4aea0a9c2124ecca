"""C12: committees of oracles: answers, books and majority votes against direct bookkeeping."""
import copy
import itertools
import pickle
import random
import warnings

import numpy as np

from mc.core import require
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.oracle import Oracle, OracleQueryInstance, OracleQueryMultiLabel, Oracles
from alipy.query_strategy.noisy_oracles import majority_vote, get_query_results, get_majority_vote

LEVEL = "model_checking"
RULE = ("breadth-first search over histories of queries to one, several, all or a random oracle (instance and multi-label committees, "
        "known and unknown items, containers the caller changes afterwards), adding oracles, aggregated queries, reports and pickling; "
        "after every history the answers, the recorded history, the total cost and both reports are compared with direct bookkeeping; "
        "majority votes for every label tuple and weight tuple of the grid")
ASSUMPTIONS = ("costs are small integers or dyadic fractions, so that sums are exact",)

TAB = {"a": ([0, 1, 1, 0], [1, 2, 3, 4]), "b": ([1, 1, 0, 0], [0.5, 0.25, 8, 1]), "c": ([1, 0, 1, 0], None), "d": ([0, 0, 0, 0], [7, 7, 7, 7])}
MTAB = {"a": ([[0, 1, 1], [1, 0, 0], [1, 1, 1]], [1, 2, 4]), "b": ([[1, 1, 1], [0, 0, 0], [1, 0, 1]], None),
        "c": ([[0, 0, 1], [0, 1, 0], [1, 0, 0]], [[1, 2, 3], [4, 5, 6], [7, 8, 9]]), "d": ([[0, 0, 0]] * 3, [8, 8, 8])}


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(a, b))


class World(object):
    def __init__(self, kind):
        self.kind = kind
        self.o = Oracles()
        self.names = []
        for n in "ab":
            self.add(n)
        self.add("c")
        self.hist = []          # (names, [(labels, costs)], index as list)
        self.cost = 0

    def add(self, n):
        if self.kind == "multi":
            lab, cost = MTAB[n]
            self.o.add_oracle(n, OracleQueryMultiLabel(np.array(lab), cost=cost))
        else:
            lab, cost = TAB[n]
            cls = Oracle if n == "a" else OracleQueryInstance
            self.o.add_oracle(n, cls(labels=lab, cost=cost) if n != "d" else cls(labels=lab, cost=cost, indexes=[0, 1, 2, 3]))
        if n not in self.names:
            self.names.append(n)

    def answer(self, n, items):
        """What the oracle answers on its own, from the table; None if unknown."""
        if self.kind == "multi":
            lab, cost = MTAB[n]
            L, C = [], []
            for it in items:
                if not 0 <= it[0] < 3:
                    return None
                js = range(3) if len(it) == 1 else it[1] if isinstance(it[1], (list, tuple)) else [it[1]]
                L.append([lab[it[0]][j] for j in js])
                C.append([1 if cost is None else cost[j] if np.ndim(cost) == 1 else cost[it[0]][j] for j in js])
            return L, C
        lab, cost = TAB[n]
        if any(not 0 <= i < 4 for i in items):
            return None
        return [lab[i] for i in items], [1 if cost is None else cost[i] for i in items]

    def form(self, items, how):
        """(argument, items in the order it lists them)"""
        if how == "one":
            return items[0], items
        if how == "arr" and self.kind != "multi":
            return np.array(items), items
        if how == "ind":
            if self.kind == "multi":
                c = MultiLabelIndexCollection([(a, b) for a, b in items], 3)
                return c, [tuple(x) for x in c]
            c = IndexCollection(items)
            return c, list(c)
        return list(items), items

    def query(self, names, items, how, api):
        arg, items = self.form(items, how)
        asked = list(self.names) if names is None else list(names)
        want = [self.answer(n, items) if n in self.names else None for n in asked]
        ok = all(w is not None for w in want)
        given = None if names is None else list(names)
        try:
            if api == "from":
                res = [self.o.query_from(arg, oracle_name=names[0])]
            elif api == "random":
                res = [self.o.query_from(arg)]
            elif api == "results":
                lab, cost = get_query_results(arg, self.o, given)
                require(len(lab) == len(asked) == len(cost) and same(lab, [w[0][0] for w in want]) and
                        list(cost) == [float(np.sum([np.sum(x) for x in w[1]])) for w in want], "query-results",
                        lambda: "%r of %r gave %r %r" % (items, asked, lab, cost))
                res = want
            elif api == "vote":
                n, lab, cost = get_majority_vote(arg, self.o, given)
                votes = [w[0][0] for w in want]
                require(lab in votes and votes.count(lab) == n == max(votes.count(v) for v in votes), "majority-answer",
                        lambda: "votes %r gave %r" % (votes, (n, lab)))
                require(cost == sum(sum(w[1]) for w in want), "majority-cost", lambda: "%r gave %r" % (want, cost))
                res = want
            else:
                res = self.o.query_from_s(arg, oracles_name=given)
        except Exception as e:
            require(not ok, "query-raises", lambda: "%s %r of %r: %r" % (api, items, asked, e))
            return
        if api == "random":
            who = self.o.query_history[-1][0]
            require(len(who) == 1 and who[0] in self.names, "random-oracle", repr(who))
            asked = list(who)
            want = [self.answer(who[0], items)]
            ok = want[0] is not None
        require(ok, "unknown-answered", lambda: "%s %r of %r answered %r" % (api, items, asked, res))
        require(len(res) == len(want), "answers", lambda: "%r: %r" % (asked, res))
        for n, r, w in zip(asked, res, want):
            require(same(r[0], w[0]) and same(r[1], w[1]), "answer", lambda: "%r from %s gave %r, its own answer is %r" % (items, n, r, w))
        self.hist.append((asked, want, [tuple(i) if isinstance(i, tuple) else i for i in items]))
        self.cost += sum(np.sum([np.sum(x) for x in w[1]]) for w in want)
        # the caller goes on using his containers
        if isinstance(arg, list):
            arg.append("changed")
        elif isinstance(arg, IndexCollection):
            arg.add(77 if self.kind != "multi" else (9, 1))
        elif isinstance(arg, np.ndarray):
            arg[:] = 55
        if given is not None:
            given.append("changed")

    def check(self):
        o = self.o
        require(list(o.names()) == self.names and len(o) == len(self.names), "names", lambda: "%r" % list(o.names()))
        require(o.cost_inall == self.cost, "cost_inall", lambda: "%r instead of %r" % (o.cost_inall, self.cost))
        require(len(o.query_history) == len(self.hist), "history-length", lambda: "%d instead of %d" % (len(o.query_history), len(self.hist)))
        count = {n: 0 for n in self.names}
        cost = {n: 0 for n in self.names}
        for (names, res, idx), (wn, wr, wi) in zip(o.query_history, self.hist):
            idx = [idx] if isinstance(idx, (tuple, int, np.integer)) else [tuple(i) if isinstance(i, tuple) else i for i in idx]
            require(list(names) == wn and idx == wi, "history-entry", lambda: "%r %r instead of %r %r" % (names, idx, wn, wi))
            require(len(res) == len(wr) and all(same(r[0], w[0]) and same(r[1], w[1]) for r, w in zip(res, wr)), "history-result",
                    lambda: "%r instead of %r" % (res, wr))
            for n, w in zip(wn, wr):
                count[n] += 1
                cost[n] += float(np.sum([np.sum(x) for x in w[1]]))
        table = {}
        for line in str(o).split("\n"):
            f = [x.strip() for x in line.split("|")[1:-1]]
            if len(f) == 3 and f[0] in self.names:
                table[f[0]] = (int(f[1]), float(f[2]))
        require(table == {n: (count[n], cost[n]) for n in self.names}, "summary",
                lambda: "%s\nexpected %r %r" % (o, count, cost))
        text = o.full_history()
        rows, name = {}, None
        for line in text.split("\n"):
            f = [x.strip() for x in line.split("|")[1:-1]]
            if not f or f[0] == "oracles":
                continue
            name = f[0] or name           # an entry goes over several lines
            rows.setdefault(name, []).append(f[1:])
        require(set(rows) == set(self.names), "full_history-rows", lambda: text)
        for n in self.names:
            cells = ["".join(x) for x in zip(*rows[n])]
            require(len(cells) == len(self.hist) + 1 and cells[-1] == str(count[n]), "full_history",
                    lambda: "%s asked %d times\n%s" % (n, count[n], text))
            for k, ((wn, _, _), (_, res, idx)) in enumerate(zip(self.hist, o.query_history)):
                if n not in wn:
                    require(cells[k] == "\\", "full_history-cell", lambda: "%s in query %d: %r\n%s" % (n, k, cells[k], text))
                    continue
                r = [res[t] for t in range(len(wn)) if wn[t] == n][-1]
                expect = "query_index:%s response:%s cost:%s" % (idx, r[0], r[1])
                require("".join(cells[k].split()) == "".join(expect.split()), "full_history-cell",
                        lambda: "%s in query %d: %r instead of %r\n%s" % (n, k, cells[k], expect, text))


def history(hist):
    w = World(hist[0])
    random.seed(5)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for op in hist[1:]:
            if op[0] == "add":
                w.add(op[1])
            elif op[0] == "pickle":
                w.o = pickle.loads(pickle.dumps(w.o))
            elif op[0] == "copy":
                twin = copy.deepcopy(w.o)
                twin.query_from([0] if w.kind != "multi" else [(0, 1)], "a")
            elif op[0] == "direct":       # asking an oracle itself is not a query of the committee
                w.o.get_oracle(op[1]).query_by_index([0] if w.kind != "multi" else [(0, 1)])
                w.o[op[1]]
            elif op[0] == "random":
                random.seed(op[3])
                w.query(None, op[1], op[2], "random")
            else:
                w.query(op[1], op[2], op[3], op[0])
        w.check()
    return hist[0], tuple(w.names), w.cost, len(w.hist)


def vote(labels, weights, spell):
    ls = list(labels)
    if spell == "str":
        ls = ["s%d" % x for x in ls]
    elif spell == "np":
        ls = list(np.array(ls))
    elif spell == "arr":
        ls = np.array(ls)
    wt = weights if weights is None or spell == "int" else np.array(weights) if spell == "arr" else list(weights)
    keep = list(ls)
    n, lab = majority_vote(ls, wt)
    score = {}
    for l, x in zip(keep, weights or [1] * len(keep)):
        score[l] = score.get(l, 0) + x
    require(lab in score and score[lab] == max(score.values()), "majority", lambda: "labels %r weights %r gave %r" % (keep, weights, lab))
    require(n == score[lab], "vote-count", lambda: "labels %r weights %r gave %r votes for %r" % (keep, weights, n, lab))
    require(list(ls) == keep, "argument-changed", repr(ls))
    return n, str(lab)


def listed(votes, costs, names, how):
    """get_query_results / get_majority_vote over a plain list of oracles."""
    os_ = [Oracle(labels=[v, 9], cost=[c, 50]) if c is not None else Oracle(labels=[v, 9]) for v, c in zip(votes, costs)]
    arg = 0 if how == "one" else np.array([0]) if how == "arr" else [0]
    ask = range(len(votes)) if names is None else names
    lab, cost = get_query_results(arg, os_, names)
    wantc = [1 if costs[i] is None else costs[i] for i in ask]
    require(list(lab) == [votes[i] for i in ask] and list(cost) == wantc, "listed-results", lambda: "%r %r" % (lab, cost))
    n, l, c = get_majority_vote(arg, os_, names)
    v = [votes[i] for i in ask]
    require(l in v and n == v.count(l) == max(v.count(x) for x in v) and c == sum(wantc), "listed-vote", lambda: "%r gave %r" % (v, (n, l, c)))
    return n, l, c


def explore(ctx):
    q = ctx.quick
    inst = []
    for names in (["a"], ["b"], ["c"], ["d"]):
        for items, how in (([0], "one"), ([2, 1], "list"), ([3, 0], "arr"), ([1, 2], "ind"), ([1, 1], "list"), ([9], "one"), ([0, 9], "list")):
            inst.append(("from", names, items, how))
    for names in (None, ["a"], ["b", "a"], ["c", "b", "a"], ["a", "d"], ["a", "a"]):
        for items, how in (([0], "one"), ([2, 1], "list"), ([1, 3], "ind"), ([3, 0], "arr"), ([0, 9], "list")):
            inst.append(("s", names, items, how))
        inst += [("results", names, [2], "list"), ("vote", names, [1], "list"), ("vote", names, [3], "one")]
    inst += [("random", [i], how, s) for i in (0, 3) for how in ("one", "list") for s in range(4)]
    multi = []
    for names in (["a"], ["b"], ["c"], ["d"]):
        for items, how in (([(0, 1)], "one"), ([(1,)], "one"), ([(1,), (2, [0, 2])], "list"), ([(2, 1), (0, [2])], "list"),
                           ([(0, 1), (2, 2)], "ind"), ([(5, 0)], "list")):
            multi.append(("from", names, items, how))
    for names in (None, ["b", "a"], ["c"], ["a", "d"]):
        for items, how in (([(0, 1)], "one"), ([(1,), (2, [0, 2])], "list"), ([(0, 0), (1, 2)], "ind"), ([(0, 0), (7, 1)], "list")):
            multi.append(("s", names, items, how))
    multi += [("random", [(0, 1)], "one", s) for s in range(3)]
    extra = [("add", "d"), ("add", "a"), ("pickle",), ("copy",), ("direct", "b")]
    small = {"inst": [o for o in inst if o[0] != "random"][::4] + extra, "multi": multi[::4] + extra}
    jobs = []
    for kind, al in (("inst", inst + extra), ("multi", multi + extra)):
        for op in al:
            jobs.append((lambda k=kind, a=al, o=op: ctx.bfs(history, a, 1 if q else 2, prefix=[k, o]), ()))
        for op in small[kind]:
            jobs.append((lambda k=kind, o=op: ctx.bfs(history, small[k], 2 if q else 3, prefix=[k, o]), ()))
    ctx.jobs(jobs)
    cases = []
    for n in range(1, 5 if q else 6):
        for ls in itertools.product((0, 1, 2), repeat=n):
            for s in ("int", "str", "np", "arr"):
                cases.append((ls, None, s))
            for wt in itertools.product((0.25, 1, 2) if n < 4 or not q else (1, 2.5), repeat=n):
                cases.append((ls, wt, ("int", "str", "np", "arr")[int(sum(ls) + sum(wt)) % 4]))
    ctx.parallel(vote, cases)
    ctx.parallel(listed, [(v, c, nm, how) for v in itertools.product((0, 1, 2), repeat=3) for c in itertools.product((None, 2, 0.5), repeat=3)
                          for nm in (None, [0], [2, 1], [0, 1, 2]) for how in ("one", "list", "arr") if not q or (sum(v) + len(how)) % 3 == 0])
