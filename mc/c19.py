"""C19: cost-sensitive selection is optimal within the budget; label hierarchies are completed exactly."""
import itertools
import math
import warnings

import numpy as np

from alipy.index import MultiLabelIndexCollection
from alipy.oracle import Oracle
from alipy.query_strategy import cost_sensitive as cs

from . import rng
from .core import Skip, explore_choices, require, subsets

LEVEL = "model_checking"
RULE = ("knapsack: every value vector over {-1,0,.5,1,2} and cost vector over {0,1,2,3} of up to four items and every capacity to 6, against brute "
        "force; POSS: every sequence of up to three mutations of up to three items; hierarchies: every rooted forest of up to four labels x every "
        "queried entry, sign and set of known entries; strategies: every known/unknown division of small grids x margins x cost vectors x budgets x "
        "spellings, against brute force over all affordable sets; the random strategy under every outcome of its draws")
ASSUMPTIONS = ["costs are integers (given as int or float), as the knapsack table requires", "labels are +1/-1 and label_tree[i, j] = 1 means that i is the parent of j, as documented",
               "models are one classifier per label with predict and decision_function, as the strategies use them"]


def quiet(f):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return f()


def best_total(values, costs, cap):
    """Greatest total value of an affordable subset, by brute force."""
    best = {0: 0.}
    for v, c in zip(values, costs):
        if v == -math.inf:
            continue
        for k, t in list(best.items()):
            if k + c <= cap and t + v > best.get(k + c, -math.inf):
                best[k + c] = t + v
    return max(best.values())


def knapsack(values, costs, cap, how):
    if how == "list":
        v, c = list(values), list(costs)
    elif how == "arr":
        v, c = np.array(values, dtype=float), np.array(costs, dtype=int)
    else:
        v, c, cap = tuple(values), np.array(costs, dtype=float), float(cap)
    v0, c0 = list(v), list(c)
    total, flag = quiet(lambda: cs.select_Knapsack_01(v, c, cap))
    require(list(v) == v0 and list(c) == c0, "mutated:knapsack", "the arguments were changed")
    flag = [int(f) for f in flag]
    require(len(flag) == len(values) and set(flag) <= {0, 1}, "form:knapsack", "flags %r" % (flag,))
    cost = sum(c for c, f in zip(costs, flag) if f)
    value = sum(v for v, f in zip(values, flag) if f)
    require(cost <= cap, "budget:knapsack", "chose %r costing %r of %r" % (flag, cost, cap))
    want = best_total(values, costs, cap)
    require(value == want or abs(value - want) < 1e-9, "optimum:knapsack", "chose %r worth %r, best is %r" % (flag, value, want))
    require(total == want or abs(float(total) - want) < 1e-9, "value:knapsack", "reported %r, best is %r" % (total, want))
    return flag


def poss(values, costs, budget, masks, parents):
    """POSS (minimising) under chosen mutations: the best affordable solution met is returned."""
    n = len(values)
    seq = [list(m) for m in masks]
    step = [0, 0]

    def choice(a, size=None, p=None, replace=True):
        step[0] += 1
        flip = seq[step[0] - 1] if step[0] <= len(seq) else [0] * n
        return np.array(flip)

    def randint(low, high=None, *a, **k):
        hi = low if high is None else high
        step[1] += 1
        return min(parents[step[1] - 1], hi - 1) if step[1] <= len(parents) else 0

    v, c = np.array(values, dtype=float), np.array(costs)
    v0, c0 = v.copy(), c.copy()
    with rng.patched(choice=choice, randint=randint):
        total, flag = quiet(lambda: cs.select_POSS(v, c, budget))
    require(np.array_equal(v, v0) and np.array_equal(c, c0), "mutated:poss", "the arguments were changed")
    flag = [int(f) for f in flag]
    cost = sum(c for c, f in zip(costs, flag) if f)
    value = sum(v for v, f in zip(values, flag) if f)
    require(set(flag) <= {0, 1} and len(flag) == n, "form:poss", "flags %r" % (flag,))
    require(cost <= budget, "budget:poss", "chose %r costing %r of %r" % (flag, cost, budget))
    if any(flag):
        require(abs(float(total) - value) < 1e-9, "value:poss", "reported %r, chosen %r is worth %r" % (total, flag, value))
    if not any(parents):
        # every mutation starts from the empty solution: the solutions met are the masks
        met = [sum(v for v, f in zip(values, m) if f) for m in seq
               if any(m) and sum(c for c, f in zip(costs, m) if f) <= budget]
        if met:
            require(any(flag) and abs(value - min(met)) < 1e-9, "optimum:poss", "met affordable solutions worth %r, returned %r worth %r" % (met, flag, value))
        else:
            require(not any(flag), "phantom:poss", "no affordable solution was met, returned %r" % (flag,))
    return flag


def poss_seed(values, costs, budget, seed):
    np.random.seed(seed)
    total, flag = quiet(lambda: cs.select_POSS(np.array(values, dtype=float), np.array(costs), budget))
    flag = [int(f) for f in flag]
    cost = sum(c for c, f in zip(costs, flag) if f)
    require(cost <= budget, "budget:poss", "chose %r costing %r of %r" % (flag, cost, budget))
    if any(flag):
        require(abs(float(total) - sum(v for v, f in zip(values, flag) if f)) < 1e-9, "value:poss", "reported %r for %r" % (total, flag))
    return flag


# ---- hierarchies ---------------------------------------------------------------------

def forests(k):
    """Every rooted forest on k labels as a tuple of parents (-1: root)."""
    for par in itertools.product(range(-1, k), repeat=k):
        ok = True
        for j in range(k):
            seen, x = set(), j
            while x != -1 and x not in seen:
                seen.add(x)
                x = par[x]
            if x != -1:
                ok = False
                break
        if ok:
            yield par


def tree_of(par, dtype):
    k = len(par)
    t = np.zeros((k, k), dtype=dtype)
    for j, p in enumerate(par):
        if p >= 0:
            t[p, j] = 1
    return t


def above(par, j):
    out = set()
    while par[j] != -1:
        j = par[j]
        out.add(j)
    return out


def below(par, j):
    return {i for i in range(len(par)) if j in above(par, i)}


def spell(pairs, n, k, how):
    pairs = list(pairs)
    if how == "ind":
        return MultiLabelIndexCollection(pairs, k) if pairs else MultiLabelIndexCollection(label_size=k)
    if not pairs:
        raise Skip()
    if how == "pairs":
        return pairs
    flat = [j * n + i for i, j in pairs]
    return np.array(flat) if how == "flat" else flat


def mark(par, queried, known, how, how2, dtype):
    """queried: {(instance, label): sign}."""
    n, k = max([2] + [e[0] + 1 for e, _ in queried] + [e[0] + 1 for e in known]), len(par)
    y = np.array([[1 if (i + j) % 2 else -1 for j in range(k)] for i in range(n)])
    for e, v in queried:
        y[e] = v
    entries = [e for e, _ in queried]
    Q, L = spell(entries, n, k, how), spell(known, n, k, how2)
    tree = tree_of(par, dtype)
    t0, y0 = tree.copy(), y.copy()
    Lwas, Qwas = sorted(tuple(e) if np.ndim(e) else int(e) for e in L), None if how == "ind" else [e for e in Q]
    got = quiet(lambda: cs.hierarchical_multilabel_mark(Q, L, tree, y))
    require(np.array_equal(tree, t0) and np.array_equal(y, y0), "data-mutated:mark", "tree or labels changed")
    require(sorted(tuple(e) if np.ndim(e) else int(e) for e in L) == Lwas, "known-mutated:mark", "the known entries were changed")
    if Qwas is not None:
        require([e for e in Q] == Qwas, "queried-mutated:mark", "the queried entries were changed")
    want = set(entries)
    for (i, j), v in queried:
        for r in (above(par, j) if v == 1 else below(par, j)):
            if (i, r) not in known:
                want.add((i, r))
    have = [(int(a), int(b)) for a, b in got]
    require(len(have) == len(set(have)) and set(have) == want, "closure:mark",
            "parents %r, queried %r, known %r: marked %r, expected %r" % (par, queried, known, sorted(have), sorted(want)))
    return sorted(have)


# ---- strategies ----------------------------------------------------------------------

class Margin(object):
    """Classifier of one label with given margins, rows found by their features."""

    def __init__(self, X, d):
        self._X, self._d = X.copy(), [float(v) for v in d]

    def _row(self, x):
        return [next(i for i in range(len(self._X)) if np.array_equal(self._X[i], r)) for r in np.asarray(x)]

    def decision_function(self, x):
        return np.array([self._d[i] for i in self._row(x)])

    def predict(self, x):
        return np.array([1 if self._d[i] > 0 else -1 for i in self._row(x)])


XY = np.array([[0., 0.], [1., .1], [2.3, .4], [3.9, 1.], [6., 2.5], [8.7, 3.], [12., 5.]])
XL = np.array([[math.sqrt(2) * i % 7.3, i * i * math.sqrt(3) % 11.1] for i in range(70)])


def informativeness(par, weights, X, y, known, margins):
    """Value of every unknown entry, from the definition in the class documentation."""
    n, k = y.shape
    U = {(i, j): abs(weights[j] / margins[j][i]) for i in range(n) for j in range(k) if (i, j) not in known}
    out = {}
    for (i, j), u in U.items():
        near = sorted(range(n), key=lambda t: float(np.sum((X[t] - X[i]) ** 2)))[:5]
        vote = sum(y[t, j] if (t, j) in known else (1 if margins[j][t] > 0 else -1) for t in near)
        if vote > 0:
            out[i, j] = 2 * u
        elif vote < 0:
            kids = below(par, j) or {j}
            out[i, j] = u + sum(U.get((i, r), 0.) for r in kids if not below(par, r))
        else:
            out[i, j] = 0.
    return out


def strategy(kind, par, n, known, ys, margins, cost, costform, budget, how, weights=None, models=True):
    k = len(ys[0])
    X = (XY if n <= len(XY) else XL)[:n].copy()
    entries = [(i, j) for i in range(n) for j in range(k)]
    known = [tuple(e) for e in known]
    unk = [e for e in entries if e not in known]
    picks = []
    for twin in (0, 1):
        y = np.array(ys)
        if twin:
            for e in unk:
                y[e] = -y[e]
        if kind == "halc":
            s = cs.QueryCostSensitiveHALC(X, y, label_tree=tree_of(par, (int, float)[n % 2]), weights=weights)
        else:
            s = cs.QueryCostSensitivePerformance(X, y)
        L, U = spell(known, n, k, how if known else "ind"), spell(unk, n, k, how)
        snap = [sorted(tuple(e) if np.ndim(e) else int(e) for e in c) for c in (L, U)]
        kw = {"budget": budget}
        if costform == "list":
            kw["cost"] = list(cost)
        elif costform == "row":
            kw["cost"] = np.array([cost])
        elif costform == "float":
            kw["cost"] = np.array(cost, dtype=float)
        elif costform == "oracle":
            kw["oracle"] = Oracle(labels=list(range(k)), cost=list(cost))
        elif costform == "none":
            require(all(c == 1 for c in cost), "harness", "")
        if models:
            kw["models"] = [Margin(X, m) for m in margins]
        X0, y0 = X.copy(), y.copy()
        sel = quiet(lambda: s.select(L, U, **kw))
        require(np.array_equal(X, X0) and np.array_equal(y, y0), "data-mutated:" + kind, "X or y changed")
        now = [sorted(tuple(e) if np.ndim(e) else int(e) for e in c) for c in (L, U)]
        require(now == snap, "index-mutated:" + kind, "index arguments changed %r -> %r" % (snap, now))
        require(isinstance(sel, list) and all(isinstance(e, tuple) and len(e) == 2 for e in sel), "form:" + kind, "returned %r" % (sel,))
        got = [(int(a), int(b)) for a, b in sel]
        require(len(set(got)) == len(got), "repeated:" + kind, "returned %r" % (got,))
        require(not set(got) & set(known), "known-bought:" + kind, "known %r, bought %r" % (known, got))
        require(set(got) <= set(unk), "foreign:" + kind, "unknown %r, bought %r" % (unk, got))
        spent = sum(cost[j] for _, j in got)
        require(spent <= budget, "budget:" + kind, "bought %r for %r of %r" % (got, spent, budget))
        mg = margins
        if not models:
            trained = s.train_models(MultiLabelIndexCollection(known, k), None)
            mg = [[float(m.decision_function(X[i:i + 1])[0]) for i in range(n)] for m in trained]
        if kind == "halc":
            value = informativeness(par, weights if weights is not None else [1.] * k, X, y, set(known), mg)
        else:
            value = {e: abs(1. / mg[e[1]][e[0]]) for e in unk}
        total, want = sum(value[e] for e in got), best_total([value[e] for e in unk], [cost[e[1]] for e in unk], budget)
        require(abs(total - want) <= 1e-9 * max(1., abs(want)), "optimum:" + kind,
                lambda: "known %r costs %r budget %r: bought %r worth %r, the best affordable choice is worth %r" % (known, cost, budget, got, total, want))
        picks.append(sorted(got))
    require(picks[0] == picks[1], "unknown-label-used:" + kind, "choice %r becomes %r when only unknown labels change" % tuple(picks))
    return picks[0]


def random_strategy(n, k, unknown, cost, costform, budget, how, limit):
    """The random strategy under every outcome of its draws."""
    X, y = (XY if n <= len(XY) else XL)[:n].copy(), np.array([[1 if (i + j) % 2 else -1 for j in range(k)] for i in range(n)])
    unknown = [tuple(e) for e in unknown]
    known = [(i, j) for i in range(n) for j in range(k) if (i, j) not in unknown]
    outs = set()
    real = np.random.choice

    def run(ch):
        def choice(a, size=None, replace=True, p=None):
            if size is not None or p is not None:
                return real(a, size, replace, p)
            m = int(a) if np.ndim(a) == 0 else len(a)
            if m == 0:
                raise ValueError("a must be greater than 0 unless no samples are taken")
            r = ch(m)
            return r if np.ndim(a) == 0 else a[r]

        def pick(m):
            return rng.nth_permutation(m, ch(math.factorial(m)) if m <= 4 else 0)
        L, U = spell(known, n, k, how if known else "ind"), spell(unknown, n, k, how)
        snap = [sorted(tuple(e) if np.ndim(e) else int(e) for e in c) for c in (L, U)]
        kw = {"budget": budget}
        if costform == "list":
            kw["cost"] = list(cost)
        elif costform == "row":
            kw["cost"] = np.array([cost], dtype=float)
        elif costform == "oracle":
            kw["oracle"] = Oracle(labels=list(range(k)), cost=list(cost))
        s = cs.QueryCostSensitiveRandom(X, y)
        with rng.patched(choice=choice), rng.chosen_shuffle(pick):
            sel = quiet(lambda: s.select(L, U, **kw))
        now = [sorted(tuple(e) if np.ndim(e) else int(e) for e in c) for c in (L, U)]
        require(now == snap, "index-mutated:random", "index arguments changed %r -> %r" % (snap, now))
        require(isinstance(sel, list) and all(isinstance(e, tuple) and len(e) == 2 for e in sel), "form:random", "returned %r" % (sel,))
        got = [(int(a), int(b)) for a, b in sel]
        require(len(set(got)) == len(got), "repeated:random", "returned %r" % (got,))
        require(set(got) <= set(unknown), "foreign:random", "unknown %r, bought %r" % (unknown, got))
        spent = sum(cost[j] for _, j in got)
        require(spent <= budget, "budget:random", "bought %r for %r of %r" % (got, spent, budget))
        if sum(cost[j] for _, j in unknown) <= budget:
            require(len(got) == len(unknown), "short:random", "everything is affordable, bought only %r of %r" % (got, unknown))
        elif min(cost[j] for _, j in unknown) > budget:
            require(not got, "budget:random", "nothing is affordable, bought %r" % (got,))
        outs.add(tuple(sorted(got)))
    explore_choices(run, limit)
    return sorted(outs)


def explore(ctx):
    q = ctx.quick
    V, C = (-1., 0., .5, 1., 2.), (0, 1, 2, 3)
    cases = []
    for m in range(0, 4):
        for v in itertools.product(V, repeat=m):
            for c in itertools.product(C, repeat=m):
                for cap in range(0, 7):
                    h = int(sum(v) * 2 + sum(c) + cap)
                    if m == 3 and q and (h + int(v[0] * 2) * 3 + c[0] * 5 + c[1] * 7) % 9:
                        continue
                    cases.append((v, c, cap, ("list", "arr", "float")[h % 3]))
    for v in itertools.product((.5, 1., 2.5), repeat=4):
        for c in itertools.product((1, 2, 3), repeat=4):
            for cap in range(2, 9):
                if (int(2 * sum(v)) + sum(c) * 3 + cap + c[1]) % (7 if q else 2):
                    continue
                cases.append((v, c, cap, ("list", "arr", "float")[cap % 3]))
    for v in itertools.product((1., math.inf, 2., -math.inf), repeat=3):
        for c in itertools.product((1, 2), repeat=3):
            cases.append((v, c, 3, "list"))
    ctx.parallel(knapsack, cases)

    # many items, large costs and capacities
    cases = []
    for n in (9, 17, 33) if q else (9, 12, 17, 24, 33, 64, 130):
        for a in (1, 2, 4, 5, 7):
            for scale in (1, 10, 37):
                v = [(i * a % n) / 4. - (.5 if a == 5 else 0) for i in range(n)]
                c = [1 + (i * (a + 3) % 6) * scale for i in range(n)]
                for cap in sorted({0, 1, scale, 5 * scale, n * scale, sum(c) // 2, sum(c) - 1, sum(c), sum(c) + 50}):
                    if cap <= (900 if q else 4000):
                        cases.append((v, c, cap, ("list", "arr", "float")[(cap + a) % 3]))
    ctx.parallel(knapsack, cases)

    cases = []
    for v, c in (((-1., -2.), (1, 2)), ((-3., -1.), (2, 1)), ((-1., -1., -2.), (1, 1, 2)), ((-2., -1., -4.), (1, 2, 3)), ((-1.,), (1,))):
        masks = [m for m in itertools.product((0, 1), repeat=len(v)) if any(m)]
        for budget in (1, 2, 3):
            for r in (1, 2, 3):
                for seq in itertools.product(masks, repeat=r):
                    if q and len(v) == 3 and (r == 3 and (sum(map(sum, seq)) + seq[0][0]) % 3):
                        continue
                    cases.append((v, c, budget, seq, ()))
                    if r > 1 and sum(map(sum, seq)) % 2:
                        cases.append((v, c, budget, seq, (0, 1, 2)[:r]))
    ctx.parallel(poss, cases)
    ctx.parallel(poss_seed, [(v, c, b, s) for v, c in (((-1., -2., -3.), (1, 2, 3)), ((-5., -1.), (3, 1))) for b in (1, 2, 3, 4) for s in range(3)])

    cases = []
    for k in (2, 3, 4):
        for f, par in enumerate(forests(k)):
            for j in range(k):
                others = [(0, r) for r in range(k) if r != j]
                for v in (1, -1):
                    for s, known in enumerate(subsets(others)):
                        h = f + j + s
                        known = list(known)
                        cases.append((par, [((0, j), v)], known + [(1, j)] if known or h % 2 else known,
                                      ("ind", "pairs", "flat", "flatlist")[h % 4], ("ind", "pairs", "flat")[(h // 2) % 3] if known or h % 2 else "ind",
                                      ("int", "float")[h % 2]))
                # two queries, in one or in two instances
                for j2 in range(k):
                    for v, v2 in itertools.product((1, -1), repeat=2):
                        i2 = 0 if j2 > j else 1
                        if q and k == 4 and (f + j + j2 + v) % 3:
                            continue
                        for known in ([], [(0, (j + 1) % k)] if j2 != (j + 1) % k else [(1, (j + 2) % k)]):
                            known = [e for e in known if e not in ((0, j), (i2, j2))]
                            cases.append((par, [((0, j), v), ((i2, j2), v2)], known, ("ind", "pairs", "flat")[(f + j2) % 3], "ind", "int"))
    # deep, wide and mixed hierarchies over many labels; many entries queried together
    for k in (5, 6, 8, 13, 25, 40) if q else (5, 6, 7, 8, 9, 13, 17, 25, 33, 40, 70):
        for p, par in enumerate((list(range(-1, k - 1)), list(range(1, k)) + [-1], [-1] + [0] * (k - 1), [-1] + [(j - 1) // 2 for j in range(1, k)],
                                 [-1 if j % 4 == 0 else j - 1 for j in range(k)], [j + 2 if j + 2 < k else -1 for j in range(k)])):
            par = tuple(par)
            for j in sorted({0, 1, 2, k // 2, k - 2, k - 1}):
                for v in (1, -1):
                    for m in (0, 3):
                        known = [(0, r) for r in range(k) if m and r != j and r % m == 1]
                        h = k + p + j
                        cases.append((par, [((0, j), v)], known, ("ind", "pairs", "flat", "flatlist")[h % 4], "ind" if not known else ("ind", "pairs", "flat")[h % 3],
                                      ("int", "float")[h % 2]))
            for step in (1, 2, 3):
                many = [((i, (i * step + p) % k), 1 if (i * 3 + step) % 5 < 3 else -1) for i in range(9 if k < 14 else 33)]
                known = [(i, (i * step + p + 1 + i % 3) % k) for i in range(0, 9, 2)]
                known = [e for e in known if e not in dict(many)]
                cases.append((par, many, known, ("ind", "pairs", "flat")[(p + step) % 3], ("ind", "pairs", "flat")[p % 3], "int"))
    ctx.parallel(mark, [c for c in cases])

    cases = []
    pars = {1: [(-1,)], 2: [(-1, 0), (1, -1), (-1, -1)], 3: [(-1, 0, 1), (-1, 0, 0), (2, 2, -1), (-1, -1, 1), (-1, -1, -1)]}
    costs = {2: [(1, 1), (1, 2), (3, 1), (2, 3), (0, 2)], 3: [(1, 1, 1), (1, 3, 2), (2, 2, 1), (4, 1, 3)]}
    MG = [[.5, -.8, 1.5, -.25, .3, -2., .7], [-.4, .9, -.6, 1.25, -.2, .35, -1.], [1.1, .2, -.75, -.3, .55, -.15, 2.]]
    MP = [[-.5, -.8, -1.5, -.25, -.3, -2., -.7], [.4, .9, .6, 1.25, .2, .35, 1.], [-1.1, -.2, -.75, -.3, -.55, -.15, -2.]]
    for n, k in ((2, 2), (3, 2), (2, 3)) + (() if q else ((4, 2), (3, 3), (6, 2))):
        ents = [(i, j) for i in range(n) for j in range(k)]
        for u, known in enumerate(subsets(ents, 0, n * k - 1)):
            if n * k > 8 and u % 11:
                continue
            for p, par in enumerate(pars[k]):
                for c, cost in enumerate(costs[k]):
                    for b in range(0, 8):
                        h = u + p + c * 2 + b
                        if h % (5 if q else 2):
                            continue
                        ys = [[1 if (i * 2 + j + u) % 3 else -1 for j in range(k)] for i in range(n)]
                        cf = ("list", "row", "oracle", "float")[(u + c + b) % 4]
                        if set(cost) == {1} and b % 2:
                            cf = "none"
                        how = ("ind", "pairs", "flat", "flatlist")[(u + b) % 4]
                        mg = (MG, MP)[(u + p) % 2][:k]
                        w = [None, [1., 2., .5][:k]][(p + b) % 2]
                        cases.append(("halc", par, n, list(known), ys, mg, cost, cf, b, how, w))
                        if p == 0:
                            cases.append(("perf", par, n, list(known), ys, mg, cost, cf, b, how))
    # the vote of the neighbours: seven instances, five nearest
    for n in (6, 7):
        ents = [(i, j) for i in range(n) for j in range(2)]
        for u in range(40 if q else 200):
            known = [e for t, e in enumerate(ents) if (u * 7 + t * (3 + u % 5)) % 11 < 5]
            if len(known) == len(ents):
                continue
            ys = [[1 if (i * 5 + j + u) % 4 < 2 else -1 for j in range(2)] for i in range(n)]
            cases.append(("halc", pars[2][u % 3], n, known, ys, (MG, MP)[u % 2][:2], (1 + u % 2, 1 + u % 3), "list", 2 + u % 5, "ind", None))
    # larger tables: many entries bought at once, margins close to each other and far apart
    for n, k in ((12, 2), (20, 3), (40, 2), (12, 6)) if q else ((12, 2), (20, 3), (40, 2), (12, 6), (70, 3), (30, 8)):
        for u in range(8 if q else 24):
            known = [(i, j) for i in range(n) for j in range(k) if (i * 7 + j * (3 + u % 5) + u) % 11 < (1, 4, 7)[u % 3]]
            ys = [[1 if (i * 5 + j + u) % 4 < 2 else -1 for j in range(k)] for i in range(n)]
            par = [-1] + [(j - 1) // (1 + u % 2) for j in range(1, k)] if u % 4 else [-1] * k
            mg = [[(1 if (i + j * u) % 3 else -1) * (.2 + ((i * 13 + j * 5) % (n * k)) * (.05, 1e-4, 3.)[u % 3]) for i in range(n)] for j in range(k)]
            cost = [1 + (j * (u + 1)) % 5 for j in range(k)] if u % 5 else [7 + j for j in range(k)]
            for b in (1, 7, 25, 64, 150):
                if (b + u) % 2:
                    continue
                for kind in ("halc", "perf"):
                    cases.append((kind, tuple(par), n, known, ys, mg, cost, ("list", "row", "oracle", "float")[(u + b) % 4], b, ("ind", "pairs", "flat")[u % 3],
                                  None if u % 2 else [1. + .25 * j for j in range(k)] if kind == "halc" else None))
    # the strategies' own models
    for u in range(6 if q else 30):
        known = [(0, 0), (1, 0), (4, 0), (0, 1), (2, 1), (5, 1)]
        ys = [[1, -1], [-1 if u % 2 else 1, 1], [1, 1], [-1, 1], [-1, -1], [1, 1]]
        for kind in ("halc", "perf"):
            cases.append((kind, pars[2][u % 3], 6, known, ys, None, (1, 2), "list", 1 + u, "ind", None, False))
    ctx.parallel(strategy, cases)

    cases = []
    for n, k in ((2, 2), (1, 3), (3, 1)):
        ents = [(i, j) for i in range(n) for j in range(k)]
        for u, unk in enumerate(subsets(ents, 1)):
            for cost in itertools.product((1, 2, 3), repeat=k):
                for b in (0, 1, 2, 3, 5, 8, 12):
                    how = ("ind", "pairs", "flat")[(u + b) % 3]
                    if k == 1 and how == "flat":
                        how = "ind"
                    cf = ("list", "row", "oracle")[(u + sum(cost)) % 3]
                    cases.append((n, k, list(unk), cost, cf, b, how, None))
    for n, k in ((30, 3), (12, 12), (70, 2), (40, 1)):
        for u in range(6):
            unk = [(i, j) for i in range(n) for j in range(k) if (i * 3 + j * 5) % 7 >= u]
            cost = [1 + (j * 3 + u) % 4 for j in range(k)]
            tot = sum(cost[j] for _, j in unk)
            for b in (0, 1, 10, 70, tot - 1, tot, tot + 5, 100000):
                cases.append((n, k, unk, cost, ("list", "row", "oracle")[u % 3], b, ("ind", "pairs", "flat")[u % 3] if k > 1 else "ind", 3))
    ctx.parallel(random_strategy, cases)
    ctx.stats.states = len(ctx.stats.outcomes)
    ctx.stats.transitions = ctx.stats.evaluations
    ctx.stats.traces = ctx.stats.evaluations
