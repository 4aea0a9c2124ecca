"""C18: multi-label, feature-acquisition and query-type strategies pick valid unknown entries only."""
import contextlib
import io
import itertools
import math
import warnings

import numpy as np
from sklearn.linear_model import LogisticRegression

from alipy.index import IndexCollection, MultiLabelIndexCollection, FeatureIndexCollection
from alipy.query_strategy import multi_label as qm, query_features as qf, query_type as qt

from . import rng
from .core import Skip, Violation, require, subsets

LEVEL = "model_checking"
RULE = ("every known/unknown division of 3x2, 2x3, 3x3 and 4x2 entry grids (and every labelled/unlabelled division of 5 instances for the "
        "whole-instance strategies) x container spellings (MultiLabelIndexCollection, list of pairs, whole-instance 1-tuples, column-major "
        "1-d array / list) x batch sizes; random strategies under every outcome of the shuffle; AUDI and AURO under enumerated prediction tables "
        "and under real trained models; feature strategies through histories of successive selections; every choice repeated after the entries "
        "still unknown (feature values; labels) were changed")
ASSUMPTIONS = ["QUIRE, AUDI and AURO are given labels +1/-1", "AURO: some instance has at least two unknown labels, as its request is a pair of labels",
               "the 1-d spelling is an array or list of column-major positions", "rank of every committee member is below min(X.shape), as documented"]

XS = {"a": [[0., 1.], [1., 3.], [2., .5], [5., 2.], [3., 3.]],
      "b": [[0., 1., 2.], [1., 3., 1.], [2., .5, -1.], [5., 2., .25], [3., 3., 1.5]]}


def grid_X(n, d):
    """n x d values, none repeated inside a column."""
    if n > 9:
        return np.array([[(i * math.sqrt(2 + j) + j * i * i * .1) % (3.7 + j) - j for j in range(d)] for i in range(n)])
    return np.array([[((3 * i + 2 * j + i * j) % 7) + 0.5 * i - j for j in range(d)] for i in range(n)], dtype=float)


def rows_of(layout, n):
    if n <= 5:
        return XS[layout][:n]
    return grid_X(max(n, 10), len(XS[layout][0]))[:n].tolist()


def entries(n, k):
    return [(i, j) for i in range(n) for j in range(k)]


def spell(pairs, n, k, how, cls=MultiLabelIndexCollection):
    """One set of (instance, label) entries in an accepted spelling."""
    pairs = list(pairs)
    if how == "ind":
        return cls(pairs, k) if pairs else MultiLabelIndexCollection(label_size=k)
    if not pairs and how != "flat":
        raise Skip()
    if how == "pairs":
        return pairs
    if how == "rows":
        rows = sorted({p[0] for p in pairs})
        if len(pairs) != len(rows) * k:
            raise Skip()
        return [(r,) for r in rows]
    flat = [j * n + i for i, j in pairs]
    if not flat:
        raise Skip()
    return np.array(flat) if how == "flat" else flat


def snap(c):
    return type(c), [tuple(int(v) for v in e) if np.ndim(e) else int(e) for e in c]


def quiet(f):
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return f()


def judge_pairs(name, sel, unknown, want):
    require(isinstance(sel, list), "form:" + name, "returned %r" % (sel,))
    require(all(isinstance(e, tuple) and len(e) == 2 for e in sel), "form:" + name, "returned %r" % (sel,))
    got = [(int(a), int(b)) for a, b in sel]
    require(all(a == x and b == y for (a, b), (x, y) in zip(got, sel)), "form:" + name, "returned %r" % (sel,))
    require(len(got) == want, "size:" + name, "unknown %r: asked %d, got %r" % (unknown, want, got))
    require(len(set(got)) == len(got), "repeated:" + name, "got %r" % (got,))
    require(set(got) <= set(unknown), "known-picked:" + name, "unknown %r: picked %r" % (sorted(unknown), got))
    return got


def judge_rows(name, sel, rows, want):
    require(isinstance(sel, list), "form:" + name, "returned %r" % (sel,))
    require(all(isinstance(e, tuple) and len(e) == 1 for e in sel), "form:" + name, "returned %r" % (sel,))
    got = [int(e[0]) for e in sel]
    require(len(got) == want, "size:" + name, "unlabelled %r: asked %d, got %r" % (rows, want, got))
    require(len(set(got)) == len(got), "repeated:" + name, "got %r" % (got,))
    require(set(got) <= set(rows), "known-picked:" + name, "unlabelled %r: picked %r" % (rows, got))
    return got


class Frozen(object):
    """Checks that select leaves data and index arguments alone."""

    def __init__(self, name, strat, X, y, *conts):
        self.name, self.strat, self.X, self.y, self.conts = name, strat, X, y, conts
        self.was = [snap(c) for c in conts], X.copy(), y.copy()

    def check(self):
        c, X, y = self.was
        now = [snap(k) for k in self.conts]
        require(now == c, "index-mutated:" + self.name, lambda: "index arguments changed: %r -> %r" % (c, now))
        require(np.array_equal(X, self.X) and np.array_equal(y, self.y), "data-mutated:" + self.name, "X or y changed")
        require(np.array_equal(np.asarray(self.strat.X), X) and np.array_equal(np.asarray(self.strat.y), y),
                "data-mutated:" + self.name, "the strategy's data changed")


# ---- random strategies ---------------------------------------------------------------

def rand(kind, n, k, unknown, batch, how, perm):
    """ML random / feature random under one outcome of the shuffle."""
    X, y = grid_X(n, k if kind == "feat" else 2), np.array([[1 if (i + j) % 2 else -1 for j in range(k)] for i in range(n)])
    cls = FeatureIndexCollection if kind == "feat" and how == "ind" else MultiLabelIndexCollection
    U = spell(unknown, n, k, how, cls)
    known = [e for e in entries(n, k) if e not in unknown]
    L = spell(known, n, k, "ind", cls)
    s = qf.QueryFeatureRandom(X, y[:, 0]) if kind == "feat" else qm.QueryMultiLabelRandom(X, y)
    fz = Frozen(kind, s, X, y[:, 0] if kind == "feat" else y, L, U)
    fz.y = s.y
    fz.was = fz.was[0], fz.was[1], s.y.copy()
    perm = list(perm)

    def pick(m):
        return perm if m == len(perm) else rng.nth_permutation(m, 0)
    with rng.chosen_shuffle(pick):
        if kind == "feat":
            sel = quiet(lambda: s.select(L, U, batch_size=batch))
        elif kind == "default":
            sel = quiet(lambda: s.select(L, U, batch_size=batch))
        else:
            sel = quiet(lambda: s.select(L, U, select_type=kind, batch_size=batch))
    fz.check()
    if kind in ("ins", ):
        rows = sorted({e[0] for e in unknown})
        return judge_rows(kind, sel, rows, min(batch, len(rows)))
    return judge_pairs(kind, sel, unknown, min(batch, len(unknown)))


def nothing(kind, how, batch):
    """An exhausted pool gives an empty request; an unknown kind of request is refused."""
    X, y = grid_X(2, 2), np.array([[1, -1], [-1, 1]])
    cls = FeatureIndexCollection if kind == "feat" else MultiLabelIndexCollection
    L = spell(entries(2, 2), 2, 2, "ind", cls)
    U = cls([], 2) if how == "ind" else [] if how == "list" else np.array([])
    s = qf.QueryFeatureRandom(X, y[:, 0]) if kind == "feat" else qm.QueryMultiLabelRandom(X, y)
    kw = {} if kind in ("feat", "default") else {"select_type": kind}
    if kind == "bad":
        try:
            sel = quiet(lambda: s.select(U, L, batch_size=batch, **kw))
        except ValueError:
            return "refused"
        raise Violation("bad-type:random", "select_type 'bad' gave %r" % (sel,))
    sel = quiet(lambda: s.select(L, U, batch_size=batch, **kw))
    require(len(sel) == 0, "empty:random", lambda: "%r from an empty pool" % (sel,))
    return 0


# ---- multi-label QUIRE, AUDI, AURO ---------------------------------------------------

class Ranker(qm.LabelRankingModel):
    """A trained label ranking model with given predictions (rows found by their features)."""

    def __init__(self, X, pres):
        self._X, self._p = np.array(X), np.array(pres, dtype=float)
        self._init_flag = True
        self.fits = 0

    def fit(self, X, y, n_repeat=10, is_incremental=False):
        self.fits += 1
        self._init_flag = True

    def predict(self, X):
        pos = [next(i for i in range(len(self._X)) if np.array_equal(self._X[i], r)) for r in np.asarray(X)]
        pres = self._p[pos]
        return pres.copy(), np.where(pres[:, :-1] > pres[:, -1:], 1., -1.)


def mlquire(n, k, unknown, ybits, how, layout="a", kernel="rbf", lam=1.):
    X = np.array(rows_of(layout, n))
    es = entries(n, k)
    y = np.array(ybits).reshape(n, k)
    known = [e for e in es if e not in unknown]
    out = []
    for twin in (0, 1):
        yy = y.copy()
        if twin:
            for e in unknown:
                yy[e] = -yy[e]
        s = qm.QueryMultiLabelQUIRE(X, yy, **{"lambda": lam, "kernel": kernel})
        L, U = spell(known, n, k, "ind" if how == "rows" or not known else how), spell(unknown, n, k, how)
        fz = Frozen("mlquire", s, X, yy, L, U)
        sel = quiet(lambda: s.select(L, U))
        fz.check()
        out.append(judge_pairs("mlquire", sel, unknown, 1)[0])
        again = quiet(lambda: s.select(L, U))
        require(again == sel, "repeat:mlquire", "the same call answered %r then %r" % (sel, again))
    require(out[0] == out[1], "unknown-label-used:mlquire", "choice %r becomes %r when only unknown labels change" % tuple(out))
    return out[0]


def pres_tables(n, k):
    """Prediction tables, label columns and the dummy label last."""
    base = [[0.] * (k + 1)] * n
    up = [[float(j + i) for j in range(k + 1)] for i in range(n)]
    down = [[float(-j * 2 + i % 2) for j in range(k + 1)] for i in range(n)]
    mixed = [[((i * 5 + j * 3) % 4) - 1.5 for j in range(k + 1)] for i in range(n)]
    far = [[-1e3 if (i + j) % 2 else 1e3 for j in range(k)] + [0.] for i in range(n)]
    near = [[1e-9 * (j - i) for j in range(k)] + [0.] for i in range(n)]
    return [base, up, down, mixed, far, near]


def ranked(kind, n, k, unknown, ybits, how, pres, first=True):
    """AUDI / AURO with an already trained model."""
    X = np.array(rows_of("a", n))
    y = np.array(ybits).reshape(n, k)
    known = [e for e in entries(n, k) if e not in unknown]
    s = qm.QueryMultiLabelAUDI(X, y) if kind == "audi" else qt.QueryTypeAURO(X, y)
    model = Ranker(X, pres)
    if not first:
        model._init_flag = False
        if not known:
            raise Skip()
    L, U = spell(known, n, k, "ind" if how == "rows" or not known else how), spell(unknown, n, k, how)
    fz = Frozen(kind, s, X, y, L, U)
    sel = quiet(lambda: s.select(L, U, model=model))
    fz.check()
    return judge_rank(kind, sel, unknown, k)


def judge_rank(kind, sel, unknown, k):
    if kind == "audi":
        return judge_pairs("audi", sel, unknown, 1)
    require(isinstance(sel, tuple) and len(sel) == 3, "form:auro", "returned %r" % (sel,))
    i, a, b = (int(v) for v in sel)
    require((i, a) in unknown and (i, b) in unknown, "known-picked:auro", "unknown %r: asked %r" % (sorted(unknown), sel))
    require(a != b, "same-label:auro", "asked to order label %d and itself" % a)
    return [i, a, b]


def trained(kind, n, k, unknown, ybits, how, own_model):
    """AUDI / AURO with a real model trained from the known entries; unknown labels do not matter."""
    X = np.array(rows_of("b", n)) / 5.
    known = [e for e in entries(n, k) if e not in unknown]
    out = []
    for twin in (0, 1):
        y = np.array(ybits).reshape(n, k)
        if twin:
            for e in unknown:
                y[e] = -y[e]
        s = qm.QueryMultiLabelAUDI(X, y) if kind == "audi" else qt.QueryTypeAURO(X, y)
        L, U = spell(known, n, k, how), spell(unknown, n, k, how)
        fz = Frozen(kind, s, X, y, L, U)
        np.random.seed(5)
        kw = {"model": qm.LabelRankingModel()} if own_model else {}
        sel = quiet(lambda: s.select(L, U, **kw))
        fz.check()
        out.append(judge_rank(kind, sel, unknown, k))
    require(out[0] == out[1], "unknown-label-used:" + kind, "choice %r becomes %r when only unknown labels change" % tuple(out))
    return out[0]


# ---- MMC and Adaptive ----------------------------------------------------------------

def whole(kind, labelled, ys, batch, how, pm, calls=1):
    n, k = len(ys), len(ys[0])
    X = np.array(rows_of("b", n))
    unl = [i for i in range(n) if i not in labelled]
    base = LogisticRegression(solver="liblinear")
    out = []

    def cont(rows):
        if how == "list":
            return list(rows)
        if how == "arr":
            return np.array(rows)
        if how == "ind":
            return IndexCollection(list(rows)) if rows else IndexCollection()
        return MultiLabelIndexCollection([(r,) for r in rows], k)
    for twin in (0, 1):
        y = np.array(ys)
        if twin:
            for r in unl:
                y[r] = 1 - y[r]
        if pm:
            y = 2 * y - 1
        cls = qm.QueryMultiLabelMMC if kind == "mmc" else qm.QueryMultiLabelAdaptive
        kw = {"random_state": 3, "base_clf": base}
        if kind == "adaptive":
            kw["betas"] = [0., .5, 1.]
        s = cls(X, y, **kw)
        res = []
        for c in range(calls):
            L, U = cont(labelled), cont(unl)
            fz = Frozen(kind, s, X, y, L, U)
            np.random.seed(3)
            sel = quiet(lambda: s.select(L, U, batch_size=batch))
            fz.check()
            res.append(judge_rows(kind, sel, unl, min(batch, len(unl))))
        out.append(res)
    # later members of a batch are chosen as if the earlier ones were answered, so only the
    # first is fixed by the known labels
    a, b = [o[0][:1] for o in out]
    require(a == b, "unknown-label-used:" + kind, "choice %r becomes %r when only unknown labels change" % (a, b))
    return out[0][0]


# ---- feature acquisition -------------------------------------------------------------

def make_feat(kind, X, y, train, rank):
    if kind == "afasmc":
        return qf.QueryFeatureAFASMC(X, y, train_idx=train), {"max_in_iter": 6, "max_out_iter": 2}
    return qf.QueryFeatureStability(X, y, train_idx=train, rank_arr=list(rank)), {}


def feature(kind, n, d, known, how, train, rank, steps, by_mask, total=5):
    """A history of selections, each answered, then again with the never observed values changed."""
    X = grid_X(total, d)
    y = np.array(([1., -1., -1., 1., 1., -1.] * total)[:total])
    rows = list(range(n)) if train is None else list(train[:n])
    known = {(rows[i], j) for i, j in known}
    allof = {(r, j) for r in rows for j in range(d)}

    def tr():
        if train is None:
            return None
        return np.array(rows) if how in ("flat", "ind") else list(rows)

    def play(XX):
        s, kw = make_feat(kind, XX, y, tr(), rank)
        obs, hist = set(known), []
        for st in range(steps):
            unk = sorted(allof - obs)
            if not unk:
                break
            np.random.seed(11)
            if by_mask:
                mask = np.array([[1 if (r, j) in obs else 0 for j in range(d)] for r in rows])
                m = mask.tolist() if how == "pairs" else mask
                m0 = mask.copy()
                was = XX.copy()
                sel = quiet(lambda: s.select_by_mask(m, **kw))
                require(np.array_equal(np.array(m), m0), "mask-mutated:" + kind, "the mask was changed")
                require(np.array_equal(XX, was), "data-mutated:" + kind, "X changed")
                got = judge_pairs(kind, sel, [(rows.index(r), j) for r, j in unk], 1)[0]
                got = (rows[got[0]], got[1])
            else:
                # FeatureIndexCollection is the feature name of the same container
                cls = FeatureIndexCollection if how == "ind" and st % 2 else MultiLabelIndexCollection
                L = spell(sorted(obs), total, d, "ind" if how == "rows" else how, cls)
                U = spell(unk, total, d, how, cls)
                fz = Frozen(kind, s, XX, y, L, U)
                sel = quiet(lambda: s.select(L, U, **kw))
                fz.check()
                got = judge_pairs(kind, sel, unk, 1)[0]
            hist.append(got)
            obs.add(got)
        return hist
    first = play(X)
    never = sorted(allof - known - set(first[:-1]))
    X2 = X.copy()
    for c, (r, j) in enumerate(never):
        X2[r, j] = [1000., -7.25, 0., 31.][c % 4]
    for r in range(total):
        if r not in rows:
            X2[r] = X2[r] * 3 + 1
    second = play(X2)
    require(first == second, "unobserved-used:" + kind, "selections %r become %r when only unobserved values change" % (first, second))
    return first


def small(kind, n, k, unknown, how):
    """Nothing or one entry left."""
    X = grid_X(n, max(k, 2) if kind in ("mlquire", "audi") else k)
    y = np.array([[1 if (i + j) % 2 else -1 for j in range(k)] for i in range(n)])
    known = [e for e in entries(n, k) if e not in unknown]
    if kind in ("mlquire", "audi"):
        s = {"mlquire": qm.QueryMultiLabelQUIRE, "audi": qm.QueryMultiLabelAUDI}[kind](X, y)
    else:
        s = make_feat(kind, X, y[:, 0], None, [1])[0]
    L, U = spell(known, n, k, "ind"), spell(unknown, n, k, how)
    fz = Frozen(kind, s, s.X, s.y, L, U)
    sel = quiet(lambda: s.select(L, U))
    fz.check()
    return judge_pairs(kind, sel, unknown, len(unknown))


# --------------------------------------------------------------------------------------

def explore(ctx):
    q = ctx.quick
    HOW = ("ind", "pairs", "flat", "rows", "flatlist")
    cases = []
    for n, k in ((2, 2), (3, 2), (2, 3)) + (() if q else ((2, 4), (4, 2))):
        for unk in subsets(entries(n, k), 1):
            unk = list(unk)
            rows = len({e[0] for e in unk})
            for h, how in enumerate(HOW):
                for kind in ("ins", "ins-lab", "default", "feat"):
                    m = rows if kind == "ins" else len(unk)
                    for b in range(1, m + 2):
                        perms = list(itertools.permutations(range(m))) if m <= (3 if q else 4) else \
                            [rng.nth_permutation(m, t) for t in range(0, 720 if m > 5 else 120 if m > 4 else 24, 41 if m > 5 else 7)]
                        if how == "ind" or m <= 2:
                            use = perms
                        else:
                            use = perms[(b + h) % len(perms)::5]
                        for p in use:
                            cases.append((kind, n, k, unk, b, how, tuple(p)))
    # many entries: every kind of batch, spread orders
    for n, k in ((30, 2), (70, 1), (12, 12), (100, 3), (300, 1)):
        for a in (1, 3, 5):
            unk = [(i, j) for i in range(n) for j in range(k) if (i * a + j) % 7 >= a - 1]
            rows = len({e[0] for e in unk})
            for t, (kind, how) in enumerate(itertools.product(("ins", "ins-lab", "default", "feat"), ("ind", "pairs", "flat"))):
                m = rows if kind == "ins" else len(unk)
                for b in sorted({1, 2, 40, 70, m // 2, m - 1, m, m + 3}):
                    if (b + t + a) % (2 if q else 1):
                        continue
                    st = next(v for v in (17, 13, 11, 7, 5) if math.gcd(v, m) == 1)
                    cases.append((kind, n, k, unk, b, how, tuple((st * i + b) % m for i in range(m))))
    ctx.parallel(rand, cases)
    ctx.parallel(nothing, list(itertools.product(("feat", "default", "ins", "ins-lab", "bad"), ("ind", "list", "arr"), (1, 3))))

    cases = []
    for n, k in ((2, 2), (3, 2)) if q else ((2, 2), (3, 2), (2, 3)):
        for u, unk in enumerate(subsets(entries(n, k), 1)):
            bits = [b for b in itertools.product((1, -1), repeat=n * k)]
            known = [e for e in entries(n, k) if e not in unk]
            seen = set()
            for b in bits:
                key = tuple(b[e[0] * k + e[1]] for e in known)
                if key in seen:
                    continue
                seen.add(key)
                h = HOW[(len(seen) + u) % len(HOW)] if len(seen) > 3 else None
                for how in (HOW if h is None else (h,)):
                    cases.append((n, k, list(unk), b, how, "ab"[u % 2], ("rbf", "linear", "poly")[len(seen) % 3], (1., .5)[u % 2]))
    for n, k in ((12, 2), (20, 3), (65, 2), (10, 8)) if q else ((12, 2), (20, 3), (65, 2), (10, 8), (100, 2), (40, 5)):
        for a in (1, 2, 5):
            unk = [(i, j) for i in range(n) for j in range(k) if (i * 3 + j * a) % 11 >= 2 * a - 1]
            bits = [1 if (i * a + i // 4) % 3 else -1 for i in range(n * k)]
            cases.append((n, k, unk, bits, HOW[a % 3], "ab"[a % 2], ("rbf", "linear", "poly")[a % 3], (1., .5)[a % 2]))
    ctx.parallel(mlquire, cases)

    cases = []
    for n, k in ((2, 2), (3, 2), (2, 3)) + (() if q else ((3, 3),)):
        tabs = pres_tables(n, k)
        for u, unk in enumerate(subsets(entries(n, k), 1)):
            unk = list(unk)
            rows = [sum(1 for e in unk if e[0] == i) for i in range(n)]
            for t, tab in enumerate(tabs):
                for y0, bits in enumerate(([1, -1] * (n * k), [1] * (n * k), [-1] * (n * k))):
                    bits = bits[:n * k]
                    for h, how in enumerate(HOW):
                        if y0 and (h + t + u) % (5 if q else 2):
                            continue
                        cases.append(("audi", n, k, unk, bits, how, tab, (t + h) % 4 != 0))
                        if max(rows) > 1:
                            cases.append(("auro", n, k, unk, bits, how, tab, (t + h) % 4 != 0))
    # every prediction table over three values for one row of two labels + dummy
    for row in itertools.product((-1., 0., 1.), repeat=3):
        for row2 in itertools.product((-1., 0., 1.), repeat=3):
            for unk in ([(0, 0), (0, 1)], [(0, 0), (0, 1), (1, 1)], [(0, 1), (1, 0)], [(0, 0), (0, 1), (1, 0), (1, 1)]):
                cases.append(("audi", 2, 2, unk, [1, -1, -1, 1], "ind", [row, row2], True))
                if sum(1 for e in unk if e[0] == 0) > 1:
                    cases.append(("auro", 2, 2, unk, [1, -1, -1, 1], "pairs", [row, row2], True))
    for row in itertools.product((-1., 0., 1.), repeat=4):
        for unk in subsets(entries(1, 3), 1):
            cases.append(("audi", 2, 3, list(unk), [1, -1, 1, -1, 1, 1], "ind", [row, (0., 0., 0., 0.)], True))
            if len(unk) > 1:
                cases.append(("auro", 2, 3, list(unk), [1, -1, 1, -1, 1, 1], "flat", [row, (0., 0., 0., 0.)], True))
    for n, k in ((12, 6), (30, 4), (70, 3), (9, 20)):
        tabs = pres_tables(n, k)
        for a in (1, 2, 4, 5):
            unk = [(i, j) for i in range(n) for j in range(k) if (i * 3 + j * a) % 11 >= 2 * a - 1]
            for t, tab in enumerate(tabs):
                bits = [1 if (i * a + i // 4 + t) % 3 else -1 for i in range(n * k)]
                for kind in ("audi", "auro"):
                    cases.append((kind, n, k, unk, bits, HOW[(a + t) % 3], tab, (t + a) % 3 != 0))
    ctx.parallel(ranked, cases)

    cases = []
    for u, unk in enumerate(subsets(entries(4, 2), 2, 6)):
        unk = list(unk)
        if u % (9 if q else 2):
            continue
        two = max(sum(1 for e in unk if e[0] == i) for i in range(4)) > 1
        for bits in ([1, -1, -1, 1, 1, 1, -1, 1], [1, -1, 1, -1, -1, 1, 1, -1]):
            cases.append(("audi", 4, 2, unk, bits, HOW[u % 3], bool(u % 2)))
            if two:
                cases.append(("auro", 4, 2, unk, bits, HOW[(u + 1) % 3], bool(u % 2)))
    ctx.parallel(trained, cases)

    cases = []
    YS = [[[1, 0], [0, 1], [1, 1], [0, 0], [1, 0]], [[1, 0], [1, 0], [1, 0], [1, 1], [0, 1]], [[1, 1], [1, 1], [1, 1], [0, 0], [0, 0]],
          [[1, 0, 1], [0, 1, 0], [0, 0, 1], [1, 1, 1], [0, 1, 1]], [[0, 0, 1], [0, 0, 1], [0, 0, 1], [1, 0, 0], [0, 1, 0]]]
    for kind in ("mmc", "adaptive"):
        for a, lab in enumerate(subsets(range(5), 1, 4)):
            for yi, ys in enumerate(YS):
                for h, how in enumerate(("list", "arr", "ind", "ml")):
                    if q and (a + yi + h) % 4:
                        continue
                    m = 5 - len(lab)
                    for b in ((1 + (a + h) % (m + 1),) if q else range(1, m + 2)):
                        for pm in ((yi + a + h // 2) % 2,) if q else (0, 1):
                            cases.append((kind, list(lab), ys, b, how, pm, 1 + (a % 3 == 0)))
    for n, k in ((12, 2), (30, 3), (20, 7)):
        for a in (1, 2, 3) if q else range(1, 9):
            ys = [[int((i * (a + 1) + j * 3 + i // 5) % (3 + j % 2) == 0) for j in range(k)] for i in range(n)]
            lab = [i for i in range(n) if (i * 5) % 13 < 3 + a]
            for kind in ("mmc", "adaptive"):
                for b in (1, 2, 5):
                    cases.append((kind, lab, ys, b, ("list", "arr", "ind", "ml")[(a + b) % 4], a % 2, 1))
    ctx.parallel(whole, cases)

    cases = []
    for kind in ("afasmc", "stability"):
        for n, d, rank in ((3, 2, (1,)), (2, 3, (1,)), (3, 3, (1, 2))):
            es = entries(n, d)
            for c, known in enumerate(subsets(es, 1, len(es) - 1)):
                if n * d == 9 and c % (19 if q else 4):
                    continue
                if kind == "stability" and q and c % 3:
                    continue
                hows = ("ind", "pairs", "flat", "rows", "flatlist")
                trains = (None, [1, 3, 4], [4, 0, 2], [0, 1, 2])
                for steps in (1, 2, 3):
                    cases.append((kind, n, d, list(known), hows[(c + steps) % 5], trains[(c // 2 + steps) % 4], rank, steps, False))
                    if (c + steps) % 2:
                        cases.append((kind, n, d, list(known), hows[c % 2], trains[1 + c % 3], rank, steps, True))
    for kind in ("afasmc", "stability"):
        for n, d, rank in ((8, 5, (1, 2)), (15, 4, (1, 2, 3)), (6, 9, (2, 3))):
            for a in (1, 2, 3):
                known = [(i, j) for i in range(n) for j in range(d) if (i * 3 + j * a) % 5 < a + 1]
                cases.append((kind, n, d, known, ("ind", "pairs", "flat")[a - 1], (None, list(range(n + 2, 2, -1)), [i + 1 for i in range(n)])[a - 1], rank, 5, a == 3, n + 4))
    ctx.parallel(feature, cases)

    cases = []
    for kind in ("mlquire", "audi", "afasmc", "stability"):
        for n, k in ((2, 2), (3, 2), (2, 3), (1, 2)):
            for how in ("ind", "pairs", "flat", "flatlist"):
                for e in entries(n, k):
                    cases.append((kind, n, k, [e], how))
                cases.append((kind, n, k, [], "ind"))
    ctx.parallel(small, cases)
    ctx.stats.states = len(ctx.stats.outcomes)
    ctx.stats.transitions = ctx.stats.evaluations
    ctx.stats.traces = ctx.stats.evaluations
