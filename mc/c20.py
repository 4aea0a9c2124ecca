"""C20: noisy-oracle strategies ask the oracles their published rule yields, about items of the pool."""
import itertools
import math
import warnings

import numpy as np
import scipy.stats

from alipy.index import IndexCollection
from alipy.oracle import Oracle, Oracles
from alipy.query_strategy import noisy_oracles as no

from . import stubs
from .core import Chooser, Skip, explore_choices, require, subsets
from . import rng

LEVEL = "model_checking"
RULE = ("every answer pattern of one to three oracles over a pool of up to four items, several rounds of selection on one strategy object, cost and "
        "threshold grids, oracles given as a list or a committee, index sets as list / array / container, predictions from a table, a passed model or "
        "the default model; the selected item and oracles are compared with the rule evaluated directly (cost-effective score of every pair; interval "
        "estimate of every oracle from its recorded agreement with the majority, ties of the vote followed both ways); random choices enumerated")
ASSUMPTIONS = ["every oracle charges one price for all items, as the cost-effective rule assumes", "no two initial items are equally far from a pool item",
               "least-confident values that differ by less than 1e-9 count as ties"]

X6 = np.array([[0., 0.], [1., .15], [2.5, .4], [4.4, 1.1], [7., 1.9], [11., 3.], [3.3, 5.]])
NAMES = ("ann", "bob", "cid", "dee")
PRED = [[.5, .5], [.75, .25], [.4, .6], [.9, .1], [.55, .45], [.35, .65], [1., 0.]]


def quiet(f):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return f()


def form(ids, how):
    ids = list(ids)
    if how == "list":
        return ids
    if how == "arr":
        return np.array(ids, dtype=int)
    return IndexCollection(ids) if ids else IndexCollection()


def committee(answers, costs, how):
    """answers: one label per item for every oracle."""
    os_ = []
    for a, labels in enumerate(answers):
        cost = None if costs is None else [costs[a]] * len(labels)
        os_.append(Oracle(labels=list(labels), cost=cost))
    if how == "list":
        return os_, list(range(len(os_)))
    c = Oracles()
    for n, o in zip(NAMES, os_):
        c.add_oracle(n, o)
    return c, list(NAMES[:len(os_)])


def read(name, res, pool, names, one):
    require(isinstance(res, tuple) and len(res) == 2, "form:" + name, "returned %r" % (res,))
    ins, ora = res
    require(isinstance(ins, list) and isinstance(ora, list), "form:" + name, "returned %r" % (res,))
    if not pool:
        require(len(ins) == 0 and len(ora) == 0, "empty-pool:" + name, "nothing to select from, returned %r" % (res,))
        return None, []
    require(len(ins) == 1 and int(ins[0]) in pool, "foreign:" + name, "pool %r: selected %r" % (pool, ins))
    require(all(o in names for o in ora) and len(set(ora)) == len(ora) and ora, "oracle:" + name, "committee %r: selected %r" % (names, ora))
    if one:
        require(len(ora) == 1, "oracle-count:" + name, "selected %r" % (ora,))
    return int(ins[0]), list(ora)


class Guard(object):
    def __init__(self, name, X, y, *conts):
        self.name, self.X, self.y, self.conts = name, X, y, conts
        self.was = X.copy(), y.copy(), [(type(c), [int(i) for i in c]) for c in conts]

    def check(self):
        require(np.array_equal(self.X, self.was[0]) and np.array_equal(self.y, self.was[1]), "data-mutated:" + self.name, "X or y changed")
        now = [(type(c), [int(i) for i in c]) for c in self.conts]
        require(now == self.was[2], "index-mutated:" + self.name, "index sets %r became %r" % (self.was[2], now))


def predictions(how, X, y, label, pool):
    """(keyword arguments or matrix, the matrix)"""
    if how == "mat":
        p = np.array([PRED[i] for i in pool])
        return p, p.copy()
    if how == "model":
        m = stubs.Parzen().fit(X[list(label)], y[list(label)])
        return m, m.predict_proba(X[list(pool)])
    from sklearn.linear_model import LogisticRegression
    m = LogisticRegression(solver="liblinear").fit(X[list(label)], y[list(label)])
    return None, m.predict_proba(X[list(pool)])


def call(s, how, given, L, U, **kw):
    if how == "mat":
        g = given.copy()
        r = quiet(lambda: s.select_by_prediction_mat(L, U, g, **kw))
        require(np.array_equal(g, given), "prediction-mutated:" + type(s).__name__, "prediction matrix changed")
        return r
    if how == "model":
        return quiet(lambda: s.select(L, U, model=given, **kw))
    return quiet(lambda: s.select(L, U, **kw))


def ceal(answers, costs, chow, init, rounds, k, eval_cost, phow, how, ys):
    """rounds: [(labelled, pool)]"""
    X, y = X6.copy(), np.array(ys)
    oracles, names = committee(answers, costs, chow)
    s = quiet(lambda: no.QueryNoisyOraclesCEAL(X, y, oracles, initial_labeled_indexes=form(init, how)))
    out = []
    for label, pool in rounds:
        L, U = form(label, how), form(pool, how)
        order = [int(i) for i in U]
        kw = {}
        if k is not None:
            kw["n_neighbors"] = k
        if eval_cost is not None:
            kw["eval_cost"] = eval_cost
        if phow != "mat" and len(set(y[list(label)])) < 2:
            continue
        if order:
            given, P = predictions(phow, X, y, [int(i) for i in L], order)
        else:
            given, P = (np.zeros((0, 2)), None) if phow == "mat" else (None, None)
        g = Guard("ceal", X, y, L, U)
        res = call(s, phow, given, L, U, **kw)
        g.check()
        i, ora = read("ceal", res, order, names, True)
        if i is None:
            continue
        kk = min(10 if k is None else k, len(init))
        Q = {}
        for c, j in enumerate(order):
            near = sorted(init, key=lambda t: float(np.sum((X[t] - X[j]) ** 2)))[:kk]
            for a in range(len(answers)):
                q = sum(math.sqrt(float(np.sum((X[t] - X[j]) ** 2))) for t in near if answers[a][t] == y[t]) / float(kk)
                if eval_cost:
                    price = sum(1 for t in label if answers[a][t] == y[t]) / float(len(label))
                else:
                    price = 1 if costs is None else costs[a]
                Q[j, names[a]] = q * (1 - max(P[c])) / max(price, 0.0001)
        top = max(Q.values())
        require(Q[i, ora[0]] >= top - 1e-9 * max(1., top), "criterion:ceal",
                lambda: "selected %r with score %r, best %r" % ((i, ora[0]), Q[i, ora[0]], sorted((v, p) for p, v in Q.items())[-3:]))
        out.append((i, names.index(ora[0])))
    if not out and not any(not p for _, p in rounds):
        raise Skip()
    return out


def interval(rewards):
    n = len(rewards)
    mean = sum(rewards) / float(n)
    if n == 1:
        return mean
    sd = math.sqrt(sum((r - mean) ** 2 for r in rewards) / float(n))
    return mean + T95[n] * sd / math.sqrt(n)


# the upper 2.5% points of Student's t distribution with n - 1 degrees of freedom
T95 = {n: float(scipy.stats.t.ppf(0.975, n - 1)) for n in range(2, 150)}


def ieth(answers, chow, epsilon, items, phow, how, ys):
    """One selection after another over the same object; the pool shrinks by each selected item.

    items: "pool" (the strategy selects) or an explicit sequence for select_by_given_instance."""
    X, y = X6.copy(), np.array(ys)
    if len(ys) != len(X):
        X = np.arange(2. * len(ys)).reshape(len(ys), 2)
    n = len(answers)
    oracles, names = committee(answers, None, chow)
    kw = {} if epsilon is None else {"epsilon": epsilon}
    eps = 0.8 if epsilon is None else epsilon
    s = quiet(lambda: no.QueryNoisyOraclesIEthresh(X, y, oracles, form([0, 1], how), **kw))
    # every way to break the ties of the votes so far: (score of every oracle, rewards per item)
    states = [(tuple([1.] * n), tuple(() for _ in range(n)), ())]
    label, pool, out = [0, 1], [2, 3, 4, 5], []
    seq = range(len(pool)) if items == "pool" else items
    for step in seq:
        if items == "pool":
            L, U = form(label, how), form(pool, how)
            order = [int(i) for i in U]
            given, P = predictions(phow, X, y, label, order)
            g = Guard("iethresh", X, y, L, U)
            res = call(s, phow, given, L, U)
            g.check()
            i, ora = read("iethresh", res, order, names, False)
            unc = [1 - max(P[c]) for c in range(len(order))]
            require(unc[order.index(i)] >= max(unc) - 1e-9, "criterion:iethresh", "selected item %r with uncertainties %r" % (i, unc))
            label, pool = label + [i], [j for j in pool if j != i]
        else:
            i = step
            ora = quiet(lambda: s.select_by_given_instance(i))
            require(isinstance(ora, list) and set(ora) <= set(names) and len(ora) == len(set(ora)) and ora, "oracle:iethresh", "selected %r" % (ora,))
        got = tuple(a for a in range(n) if names[a] in ora)
        nxt, wanted = [], []
        for ui, hist, votes in states:
            top = max(ui)
            sure = tuple(a for a in range(n) if ui[a] >= eps * top + 1e-9)
            may = tuple(a for a in range(n) if ui[a] >= eps * top - 1e-9)
            wanted.append(may)
            if not (set(sure) <= set(got) <= set(may)):
                continue
            labs = [answers[a][i] for a in got]
            most = max(labs.count(v) for v in labs)
            for win in sorted({v for v in labs if labs.count(v) == most}):
                # histories are kept per item: asking about an item again replaces its record
                h2 = tuple(tuple(p for p in hist[a] if p[0] != i) + ((i, answers[a][i]),) if a in got else hist[a] for a in range(n))
                v2 = tuple(p for p in votes if p[0] != i) + ((i, win),)
                maj = dict(v2)
                u2 = tuple(interval([1 if lab == maj[t] else 0 for t, lab in h2[a]]) if a in got else ui[a] for a in range(n))
                st = (u2, h2, v2)
                if st not in nxt:
                    nxt.append(st)
        require(nxt, "rule:iethresh", lambda: "answers %r, threshold %r, so far %r: asked %r, the rule yields %r" % (answers, eps, out, got, wanted))
        states = nxt
        out.append((i, got))
        if len(states) > 24:
            break  # too many undecided votes: the rule no longer determines the answers
    return out


def plain(kind, answers, chow, label, pool, phow, how, ys, data):
    """Query all oracles / a random oracle, for every random outcome."""
    X, y = X6.copy(), np.array(ys)
    n = len(answers)
    oracles, names = committee(answers, None, chow)
    if phow != "mat" and (not data or len(set(y[list(label)])) < 2):
        raise Skip()
    outs = []

    def run(ch):
        def randint(low, high=None, size=None, *a, **k):
            lo, hi = (0, low) if high is None else (low, high)
            m = 1 if size is None else int(np.prod(size))
            r = [lo + ch(hi - lo) for _ in range(m)]
            return r[0] if size is None else np.array(r).reshape(size)

        def choice(a, size=None, *x, **k):
            m = int(a) if np.ndim(a) == 0 else len(a)
            r = ch(m)
            r = r if np.ndim(a) == 0 else a[r]
            return r if size is None else np.array([r])
        cls = no.QueryNoisyOraclesAll if kind == "all" else no.QueryNoisyOraclesRandom
        s = cls(oracles=oracles, X=X if data else None, y=y if data else None)
        L, U = form(label, how), form(pool, how)
        order = [int(i) for i in U]
        if order:
            given, P = predictions(phow, X, y, [int(i) for i in L], order)
        else:
            given, P = (np.zeros((0, 2)), None) if phow == "mat" else (None, None)
        g = Guard(kind, X, y, L, U)
        with rng.patched(randint=randint, choice=choice):
            res = call(s, phow, given, L, U)
        g.check()
        i, ora = read(kind, res, order, names, kind == "random")
        if i is None:
            outs.append(())
            return
        unc = [1 - max(p) for p in P]
        require(unc[order.index(i)] >= max(unc) - 1e-9, "criterion:" + kind, "selected item %r with uncertainties %r" % (i, unc))
        if kind == "all":
            require(sorted(ora) == sorted(names), "oracles:all", "asked %r of %r" % (ora, names))
        outs.append((i, tuple(ora)))
        for item in pool:
            o2 = s.select_by_given_instance(item)
            require(isinstance(o2, list) and set(o2) <= set(names) and (len(o2) == 1 if kind == "random" else sorted(o2) == sorted(names)),
                    "oracles:" + kind, "asked %r of %r" % (o2, names))
            break
    with rng.patched():
        explore_choices(run)
    if kind == "random" and pool:
        require({o for _, (o,) in outs} == set(names), "oracle-unreachable:random", "over all random outcomes only %r of %r were asked" % (outs, names))
    return sorted(set(outs), key=repr)


def aggregate(answers, costs, chow, item, chosen, named):
    """Answers and reported cost are those of the oracles asked."""
    oracles, names = committee(answers, costs, chow)
    who = [names[c] for c in chosen]
    arg = list(who) if named else None
    asked = list(chosen) if named else list(range(len(answers)))
    labs, cost = quiet(lambda: no.get_query_results(item, oracles, arg))
    want = [answers[a][item] for a in asked]
    prices = [1 if costs is None else costs[a] for a in asked]
    require([l for l in labs] == want, "answers", "asked %r: %r instead of %r" % (arg, labs, want))
    require([float(c) for c in cost] == [float(p) for p in prices], "costs", "asked %r: %r instead of %r" % (arg, cost, prices))
    n, lab, total = quiet(lambda: no.get_majority_vote(item, oracles, arg))
    require(n == max(want.count(v) for v in want) == want.count(lab), "majority", "%r gave %r with %r votes" % (want, lab, n))
    require(float(total) == float(sum(prices)), "total", "asked %r: total %r instead of %r" % (arg, total, sum(prices)))
    if arg is not None:
        require(arg == who, "names-mutated", "the list of names was changed")
    return [int(n), repr(lab), float(total)]


def explore(ctx):
    q = ctx.quick
    HOW = ("list", "arr", "ind")
    YS = [0, 1, 1, 0, 1, 0, 1]
    cases = []
    # CEAL: every pattern of right and wrong answers on the initial items
    for n in (1, 2, 3):
        for init in ([0, 1], [4, 1, 0], [1, 0, 5, 4], [4], [5, 0, 1, 4, 6]):
            pats = list(itertools.product((0, 1), repeat=len(init)))
            for c, combo in enumerate(itertools.product(pats, repeat=n)):
                bits = sum(sum(b) * (3 ** t) for t, b in enumerate(combo))
                if len(pats) ** n > 70 and (c + bits) % (len(pats) ** n // (40 if q else 250) or 1):
                    continue
                answers = []
                for b in combo:
                    lab = list(YS)
                    for t, v in zip(init, b):
                        if not v:
                            lab[t] = 1 - lab[t]
                    answers.append(lab)
                rest = [i for i in range(7) if i not in init]
                for v, costs in enumerate((None, (1, 2, .5)[:n], (3, .25, 1)[:n])):
                    k = (None, 1, 2, 3, 10)[(c + v) % 5]
                    ev = (None, False, True)[(c + 2 * v) % 3]
                    ph = ("mat", "model", "default", "mat")[(c + v + n) % 4]
                    extra = rest[(c + v) % len(rest)]
                    rounds = [(init, rest), (list(init) + [extra], [i for i in rest if i != extra]), (list(init) + rest[1:], rest[:1])]
                    if (c + v) % 6 == 0:
                        rounds.append((list(init) + rest, []))
                    cases.append((answers, costs, ("list", "committee")[(c + v) % 2], init, rounds, k, ev, ph, HOW[(c + v) % 3], YS))
    # very cheap and very dear oracles, larger committees
    for n in (2, 3, 5, 8):
        for u in range(24 if q else 90):
            init = ([1, 0, 5, 4], [5, 0, 1, 4, 6], [0, 1])[u % 3]
            answers = [[v if (i * (a + 2) + u) % (3 + a % 2) else 1 - v for i, v in enumerate(YS)] for a in range(n)]
            costs = [((.001, .002, .0005, .004, .003), (1000., 3e4, 5e6, 1e3, 2e3), (.05, .5, 5., 50., 500.), (0, 1, 2, 3, 4))[u % 4][(a + u) % 5] for a in range(n)]
            rest = [i for i in range(7) if i not in init]
            ks = (1, 2, None, 3, 10)
            for ph in ("mat", "model", "default"):
                cases.append((answers, tuple(costs), ("list", "committee")[u % 2] if n < 5 else "list", init,
                              [(init, rest), (list(init) + rest[:1], rest[1:])], ks[u % 5], None, ph, HOW[u % 3], YS))
    ctx.parallel(ceal, cases)

    cases = []
    for n in (1, 2, 3):
        for pat in itertools.product((0, 1), repeat=4 * n):
            h = sum(b << t for t, b in enumerate(pat))
            if n == 3 and q and h % 3:
                continue
            answers = []
            for a in range(n):
                lab = list(YS)
                lab[2:6] = pat[4 * a:4 * a + 4]
                answers.append(lab)
            for e, eps in enumerate((None, .1, .95, .5)):
                if (h + e) % 2:
                    continue
                cases.append((answers, ("list", "committee")[h % 2], eps, "pool", "mat", HOW[(h // 2 + e) % 3], YS))
            items = ([2, 3, 4, 5], [2, 2, 3], [5, 3, 5, 2, 4], [3, 2, 3, 4, 2, 5])[h % 4]
            cases.append((answers, ("committee", "list")[h % 2], (None, .5, .9, 1.)[(h // 3) % 4], items, "mat", HOW[h % 3], YS))
            if h % (9 if q else 3) == 0:
                cases.append((answers, "list", .8, "pool", ("model", "default")[h % 2], "arr", YS))
    # three labels, four oracles: ties of the vote
    for a, cols in enumerate(itertools.product(itertools.product((0, 1, 2), repeat=3), repeat=3)):
        if a % (37 if q else 7):
            continue
        answers = []
        for o in range(3):
            lab = list(YS)
            lab[2:6] = list(cols[o]) + [o]
            answers.append(lab)
        answers.append([2] * 7)
        cases.append((answers, "committee", (.3, .7)[a % 2], [2, 3, 4, 5, 3], "mat", "list", YS))
    # long histories: at every item nobody or one oracle dissents; oracles drop out and come back
    for depth, eps in ((6, .7), (6, .6)) if q else ((7, .8), (7, .7), (7, .6), (7, .5), (7, .9)):
        for t, who in enumerate(itertools.product(range(4), repeat=depth)):
            answers = [[1 if w == o + 1 else 0 for w in who] for o in range(3)]
            cases.append((answers, ("committee", "list")[t % 2], eps, list(range(depth)), "mat", "list", [0] * depth))
    for t, who in enumerate(itertools.product(range(5), repeat=6)):
        if not q and t % 2:
            answers = [[1 if w == o + 1 else 0 for w in who] for o in range(4)]
            cases.append((answers, "list", .6, list(range(6)), "mat", "list", [0] * 6))
    # many items, many oracles, items asked again and again
    for depth in (13, 30, 70) if q else (13, 20, 30, 70, 140):
        for n in (3, 5, 8):
            for e, eps in enumerate((.3, .6, .8, .95, 1., None)):
                for a in (1, 2, 5):
                    answers = [[int(i % (n + a) == o or (o == 0 and i % 2)) for i in range(depth)] for o in range(n)]
                    items = list(range(depth)) if (e + a) % 2 else [(i * 3) % (depth // 2) for i in range(depth)]
                    cases.append((answers, ("committee", "list")[e % 2] if n < 5 else "list", eps, items, "mat", "list", [0] * depth))
    ctx.parallel(ieth, cases)

    cases = []
    for kind in ("all", "random"):
        for n in (1, 2, 3, 4):
            answers = [[(a + i) % 2 for i in range(7)] for a in range(n)]
            for l, label in enumerate(subsets(range(7), 2, 6) if not q else list(subsets(range(7), 2, 6))[::3]):
                label = list(label)
                pool = [i for i in range(7) if i not in label]
                for ph in ("mat", "model", "default"):
                    cases.append((kind, answers, ("list", "committee")[l % 2], label, pool, ph, HOW[(l + n) % 3], YS, ph != "mat" or bool(l % 2)))
            for ph in ("mat", "default"):
                cases.append((kind, answers, "list", list(range(7)), [], ph, "list", YS, True))
    ctx.parallel(plain, cases)

    cases = []
    for n in (1, 2, 3):
        for pat in itertools.product((0, 1, 2), repeat=n):
            answers = [[v] * 2 + [(v + 1) % 3] for v in pat]
            for costs in (None, (1, 2, 4)[:n], (.5, .25, 3)[:n]):
                for chow in ("list", "committee"):
                    for item in (0, 2):
                        cases.append((answers, costs, chow, item, [], False))
                        for ch in subsets(range(n), 1):
                            for p in itertools.permutations(ch):
                                cases.append((answers, costs, chow, item, list(p), True))
    ctx.parallel(aggregate, cases)
    ctx.stats.states = len(ctx.stats.outcomes)
    ctx.stats.transitions = ctx.stats.evaluations
    ctx.stats.traces = ctx.stats.evaluations
