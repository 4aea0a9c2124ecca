"""C26: random selections and splits, exact probabilities over the whole tree of draws."""
import contextlib
import io
import itertools
import math
import os
import random
import warnings
from fractions import Fraction as Fr

import numpy as np

from mc.core import require, subsets, Skip
from mc import draws
from alipy import ToolBox
from alipy.data_manipulate.al_split import split, split_features, split_multi_label
from alipy.experiment import AlExperiment
from alipy.index import FeatureIndexCollection, IndexCollection, MultiLabelIndexCollection
from alipy.oracle import Oracle, Oracles
from alipy.query_strategy import cost_sensitive as cs, multi_label as qm, noisy_oracles as no, query_features as qf, query_labels as ql
from alipy.utils.misc import randperm

LEVEL = "model_checking"
RULE = ("exhaustive probabilistic exploration: every draw from the random source is a branch of known probability, the whole tree is followed, and "
        "the exact distribution of the results must be uniform over all results possible; for all random strategies on every pool, batch size and "
        "container up to 5 candidates, repeated calls, sampling, committees and the splits of every type (rejected draws followed down to a probability)")
ASSUMPTIONS = ("the generators of numpy and of the standard library are themselves uniform and independent", "the order within a batch is not constrained",
               "all numbers of a split come from the sizes it actually has (C14 checks the sizes)")


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def own_directory():
    """Splits are saved in the working directory unless told otherwise."""
    d = os.path.join(os.environ["MC_SCRATCH"], "p%d" % os.getpid())
    if os.getcwd() != d:
        os.makedirs(d, exist_ok=True)
        os.chdir(d)


def uniform(what, run, space, limit=None):
    """The results of run are exactly those of space (a set, or a predicate with a number), each one equally likely."""
    own_directory()
    dist, paths, cut = draws.distribution(lambda: quiet(run), limit)
    require(dist, "no-result:" + what, "no path ended above probability %s" % limit)
    if not isinstance(space, (set, frozenset)):
        space = set(space)
    odd = [o for o in dist if o not in space]
    require(not odd, "foreign:" + what, lambda: "result %r is none of the %d expected" % (odd[0], len(space)))
    lost = [o for o in space if o not in dist]
    require(not lost, "unreachable:" + what, lambda: "%d of %d results can never occur, for instance %r" % (len(lost), len(space), lost[0]))
    lo, hi = min(dist.items(), key=lambda t: t[1]), max(dist.items(), key=lambda t: t[1])
    require(lo[1] == hi[1], "biased:" + what, lambda: "%r has probability %s, %r has %s (%d results)" % (lo[0], lo[1], hi[0], hi[1], len(dist)))
    require(cut or sum(dist.values()) == 1, "harness", "the probabilities sum to %s" % sum(dist.values()))
    return (len(dist), paths, str(lo[1]))


def combos(items, k):
    return {tuple(sorted(c)) for c in itertools.combinations(items, k)}


def key(sel):
    return tuple(sorted(tuple(int(v) for v in e) if isinstance(e, (tuple, list, np.ndarray)) else int(e) for e in sel))


# ---------------------------------------------------------------- helpers of the library
def perms(start, n, k, spell):
    lo, hi = start, start + n - 1
    arg = {"int": hi, "np": np.int64(hi), "tuple": (lo, hi), "none": (None, hi)}[spell]
    return uniform("randperm", lambda: tuple(int(v) for v in (randperm(arg) if k is None else randperm(arg, k))),
                   set(itertools.permutations(range(lo, hi + 1), n if k is None else k)))


def sampling(items, rate, kind):
    if kind == "ml":
        c = MultiLabelIndexCollection([(i, i % 2) for i in items], 2)
        pool = [(i, i % 2) for i in items]
    else:
        c, pool = IndexCollection(list(items)), list(items)
    sizes = {math.floor(rate * len(items)), math.ceil(rate * len(items))}
    k = min(sizes, key=lambda s: (abs(s - rate * len(items)), s))
    first = len(quiet(lambda: c.random_sampling(rate)))
    require(first in sizes, "size:sampling", "%d of %d sampled at rate %r" % (first, len(items), rate))
    require(abs(first - rate * len(items)) <= abs(k - rate * len(items)) + 1e-9, "size:sampling", "%d of %d sampled at rate %r" % (first, len(items), rate))
    return uniform("sampling", lambda: key(list(c.random_sampling(rate))), combos(pool, first))


# ---------------------------------------------------------------- strategies
def form(xs, how):
    return list(xs) if how == "list" else np.array(xs) if how == "array" else IndexCollection(list(xs))


def instances(name, pool, batch, how, calls):
    """calls > 1: consecutive selections by one object are independent."""
    X, y = np.arange(16.).reshape(8, 2), np.array([0, 1] * 4)
    cls = ql.QueryInstanceRandom if name == "new" else ql.QueryRandom
    lab = [i for i in range(8) if i not in pool]
    s = quiet(lambda: cls(X, y))
    b = min(batch, len(pool))
    one = combos(pool, b)

    def run():
        return tuple(key(s.select(form(lab, how), form(pool, how), batch_size=batch)) for _ in range(calls))
    return uniform("instances", run, set(itertools.product(one, repeat=calls)))


def shrinking(pool, batch, how):
    """The batches of a whole run: every sequence of disjoint batches."""
    X, y = np.arange(16.).reshape(8, 2), np.array([0, 1] * 4)
    s = quiet(lambda: ql.QueryInstanceRandom(X, y))

    def run():
        left, out = list(pool), []
        while left:
            b = key(s.select(form([7], how), form(left, how), batch_size=batch))
            out.append(b)
            left = [i for i in left if i not in b]
        return tuple(out)

    def all_(left):
        if not left:
            return {()}
        return {(c,) + r for c in combos(left, min(batch, len(left))) for r in all_([i for i in left if i not in c])}
    return uniform("run", run, all_(list(pool)))


def pairs(kind, n, k, unknown, batch, how):
    X, y = np.arange(2. * n).reshape(n, 2), np.array([[1 if (i + j) % 2 else -1 for j in range(k)] for i in range(n)])
    cls = FeatureIndexCollection if kind == "feature" and how == "ind" else MultiLabelIndexCollection
    known = [(i, j) for i in range(n) for j in range(k) if (i, j) not in unknown]
    L, U = cls(list(known), k), cls(list(unknown), k) if how == "ind" else list(unknown)
    if kind == "feature":
        s = quiet(lambda: qf.QueryFeatureRandom(np.arange(1. * n * k).reshape(n, k), y[:, 0]))
        run = lambda: key(s.select(L, U, batch_size=batch))
    elif kind == "cost":
        s = quiet(lambda: cs.QueryCostSensitiveRandom(X, y))
        run = lambda: key(s.select(L, U, cost=[1] * k, budget=batch))
    else:
        s = quiet(lambda: qm.QueryMultiLabelRandom(X, y))
        run = lambda: key(s.select(L, U, batch_size=batch, select_type=kind))
    items = sorted({(e[0],) for e in unknown}) if kind == "ins" else list(unknown)
    return uniform(kind, run, combos(items, min(batch, len(items))))


def committee(m, how):
    y = np.array([0, 1, 0, 1])
    ors = [Oracle(np.array(y)) for _ in range(m)]
    if how == "list":
        return ors, list(range(m))
    o = Oracles()
    for j, a in enumerate(ors):
        o.add_oracle("o%d" % j, a)
    return o, ["o%d" % j for j in range(m)]


def asked(m, how, pool, calls):
    """The oracle asked by the random strategy."""
    ors, names = committee(m, how)
    X, y = np.arange(8.).reshape(4, 2), np.array([0, 1, 0, 1])
    s = quiet(lambda: no.QueryNoisyOraclesRandom(oracles=ors, X=X, y=y))
    P = np.array([[.5 + .1 * i, .5 - .1 * i] for i in pool])

    def run():
        out = []
        for _ in range(calls):
            ins, o = s.select_by_prediction_mat([], list(pool), P.copy())
            out.append((int(np.ravel(ins)[0]), tuple(o)))
        for i in pool[:2] if calls == 1 else ():
            out.append(tuple(s.select_by_given_instance(i)))
        return tuple(out)
    first = min(pool)
    one = [((first, (n,)),) for n in names]
    space = set()
    for c in itertools.product(names, repeat=calls):
        head = tuple((first, (n,)) for n in c)
        tails = itertools.product(names, repeat=len(pool[:2]) if calls == 1 else 0)
        space |= {head + tuple((n,) for n in t) for t in tails}
    return uniform("oracle", run, space)


def answered(m, calls):
    """Oracles.query_from without a name."""
    def run():
        o = Oracles()
        for j in range(m):
            o.add_oracle("o%d" % j, Oracle(np.array([j, j, j])))
        return tuple(int(np.ravel(o.query_from(1)[0])[0]) for _ in range(calls))
    return uniform("committee", run, set(itertools.product(range(m), repeat=calls)))


# ---------------------------------------------------------------- splits
def cut(ids, test, lab):
    """Every (test, labelled) of the given sizes."""
    return {(te, la) for te in combos(ids, test) for la in combos([i for i in ids if i not in te], lab)}


def show(folds):
    return tuple((key(te), key(la)) for te, la in folds)


def single(n, t, r, ys, count, limit, how, named):
    """split: labels (None: no labels to cover), plain function or through the objects."""
    own_directory()
    y = None if ys is None else np.array(ys)
    X = np.arange(2. * n).reshape(n, 2)
    full = np.array([i % 2 for i in range(n)])
    ids = [3 * i + 1 for i in range(n)] if named else list(range(n))
    kw = dict(test_ratio=t, initial_label_rate=r, split_count=count, all_class=y is not None)

    def run():
        if how == "split":
            a = {} if not named else {"instance_indexes": list(ids)}
            res = split(X=X, y=y, **dict(kw, **a)) if y is not None else split(X=X, **dict(kw, **a))
        elif how == "toolbox":
            a = {} if not named else {"instance_indexes": np.array(ids)}
            res = ToolBox(y=full if y is None else y, X=X, saving_path=None, **a).split_AL(**kw)
        else:
            res = AlExperiment(X, full if y is None else y).split_AL(**kw)
        tr, te, la, un = res
        return show(zip(te, la))
    if limit is not None:
        limit = Fr(1, math.factorial(n) ** limit)           # that many whole draws
    probe = draws.distribution(lambda: quiet(run), limit)[0]
    if not probe:
        raise Skip()
    some = next(iter(probe))
    test, lab = len(some[0][0]), len(some[0][1])
    one = cut(ids, test, lab)
    if y is not None:
        at = {i: p for p, i in enumerate(ids)}
        one = {c for c in one if covers(y[[at[i] for i in c[1]]], y)}
    return uniform(how, run, set(itertools.product(one, repeat=count)), limit)


def covers(part, y):
    if y.ndim == 1:
        return set(part.tolist()) == set(y.tolist())
    return all((part[:, j] > 0).any() == (y[:, j] > 0).any() for j in range(y.shape[1]))


def entries(kind, n, k, t, r, all_, count, limit):
    """split_multi_label and split_features."""
    own_directory()
    Y = np.array([[(i + j) % 2 for j in range(k)] for i in range(n)])
    F = np.arange(1. * n * k).reshape(n, k)

    def run():
        if kind == "labels":
            tr, te, la, un = split_multi_label(y=Y, test_ratio=t, initial_label_rate=r, split_count=count, all_class=all_)
        elif kind == "labels-shape":
            tr, te, la, un = split_multi_label(label_shape=(n, k), test_ratio=t, initial_label_rate=r, split_count=count, all_class=all_)
        elif kind == "features":
            tr, te, la, un = split_features(feature_matrix=F, test_ratio=t, missing_rate=1 - r, split_count=count, all_features=all_)
        else:
            tr, te, la, un = split_features(feature_matrix_shape=(n, k), test_ratio=t, missing_rate=1 - r, split_count=count, all_features=all_)
        return show(zip(te, la))
    if limit is not None:
        m = int(round((1 - t) * n)) * k if kind.startswith("features") else 0
        limit = Fr(1, (math.factorial(n) * math.factorial(m)) ** limit)
    probe = draws.distribution(lambda: quiet(run), limit)[0]
    if not probe:
        raise Skip()
    some = next(iter(probe))
    test, lab = len(some[0][0]), len(some[0][1])
    one = set()
    for te in combos(range(n), test):
        tr = [i for i in range(n) if i not in te]
        cand = [(i,) for i in tr] if kind.startswith("labels") else [(i, j) for i in tr for j in range(k)]
        for la in combos(cand, lab):
            if all_ and kind.startswith("features") and len({e[1] for e in la}) < k:
                continue
            if all_ and kind == "labels" and not covers(Y[[e[0] for e in la]], Y):
                continue
            one.add((te, la))
    return uniform(kind, run, set(itertools.product(one, repeat=count)), limit)


def explore(ctx):
    q = ctx.quick
    jobs = []

    def add(*a):
        jobs.append((ctx.case, a))
    for n in range(1, 5 if q else 6):
        for k in [None] + list(range(0, n + 1)):
            for spell in ("int", "np", "tuple", "none"):
                add(perms, 0, n, k, spell)
            add(perms, 3, n, k, "tuple")
            add(perms, -2, n, k, "tuple")
    for n in range(1, 6):
        for rate in (.1, .25, .3, .5, .6, .75, .9):
            add(sampling, list(range(2, 2 + n)), rate, "ind")
            add(sampling, list(range(n)), rate, "ml")
    hows = ("list", "array", "coll")
    for c, pool in enumerate(subsets([0, 1, 2, 4, 6], 1)):
        for b in range(1, len(pool) + 1):
            for name in ("new", "old"):
                add(instances, name, list(pool), b, hows[(c + b) % 3], 1)
                if len(pool) <= 3 or len(pool) == 4 and b == 2:
                    add(instances, name, list(pool), b, hows[c % 3], 2 if len(pool) > 2 else 3)
            if len(pool) <= 3 or len(pool) == 4 and (b > 1 or not q):
                add(shrinking, list(pool), b, hows[c % 3])
    for n, k in ((2, 2), (3, 2), (2, 3)):
        es = [(i, j) for i in range(n) for j in range(k)]
        for c, unk in enumerate(subsets(es, 1, 5 if q else 6)):
            unk = list(unk)
            rows = len({e[0] for e in unk})
            for b in range(1, len(unk) + 1):
                for kind in ("ins", "ins-lab", "feature", "cost"):
                    if kind == "ins" and b > rows or kind == "cost" and (len(unk) > 4 and (b > 2 or c % 3)):
                        continue
                    if kind != "ins" and len(unk) > 4 and q and (b + c) % 2:
                        continue
                    add(pairs, kind, n, k, unk, b, "list" if (b + c) % 2 and kind != "cost" else "ind")
    for m in (1, 2, 3, 4):
        for how in ("list", "oracles"):
            for pool in ([2], [1, 3], [0, 1, 2]):
                add(asked, m, how, pool, 1)
                add(asked, m, how, pool, 2)
        add(answered, m, 1)
        add(answered, m, 3)
    for n in (3, 4, 5):
        ys = [None] + [v for v in itertools.product((0, 1), repeat=n) if v[0] == 0 and 0 < sum(v)] + ([[0, 1, 2, 0, 1][:n], [2, 1, 0, 0, 0][:n]] if n > 3 else [])
        for t, r in ((.3, .7), (.4, .5), (.2, .5), (.5, 1)):
            for c, y in enumerate(ys):
                for how in ("split", "toolbox", "exp"):
                    if n == 5 and (how != "split" or c % (4 if q else 2)):
                        continue
                    if y is not None and len(set(y)) > max(1, round(r * round((1 - t) * n))):
                        continue
                    named = how != "exp" and bool(c % 2)
                    add(single, n, t, r, y, 1, (1 if n == 5 else 2) if y is not None else None, how, named)
                    if n == 3:
                        add(single, n, t, r, y, 2, 4, how, named)
            two = [[[1, 0], [0, 1], [1, 1], [0, 0], [1, 0]][:n], [[1, -1], [1, -1], [-1, 1], [1, 1], [-1, -1]][:n]]
            for y in two:
                if 2 <= round(r * round((1 - t) * n)):
                    add(single, n, t, r, y, 1, 1 if n == 5 else 2, "split", n == 4)
    for n, k in ((3, 2), (4, 2), (2, 3), (3, 3)):
        for t, r in ((.3, .5), (.5, .5), (.4, .7)):
            for all_ in (False, True):
                for kind in ("labels", "labels-shape", "features", "features-shape"):
                    tr = int(round((1 - t) * n))
                    if all_ and (round(r * tr) < k):
                        continue
                    if kind.startswith("features") and tr * k > (5 if q else 6):
                        continue
                    add(entries, kind, n, k, t, r, all_, 1, (2 if n * k <= 4 or kind.startswith("labels") else 1) if all_ else None)
                    if n * k <= 4 or kind.startswith("labels") and n == 3:
                        add(entries, kind, n, k, t, r, all_, 2, 2 if all_ else None)
    ctx.jobs(jobs)
    ctx.stats.states = len(ctx.stats.outcomes)
    ctx.stats.transitions = ctx.stats.evaluations
    ctx.stats.traces = ctx.stats.evaluations
