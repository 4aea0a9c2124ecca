"""C17: score-based strategies pick the items that the published criterion ranks best (exhaustive over small prediction grids)."""
import itertools
import math
import warnings

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.linear_model import LogisticRegression

from mc.core import require, Skip, subsets
from mc import stubs
from alipy.index import IndexCollection, MultiLabelIndexCollection
from alipy.query_strategy import query_labels as ql, multi_label as qm

LEVEL = "model_checking"
RULE = ("every prediction matrix over a grid of probability rows (2, 3 and 4 classes, with one-hot and almost-certain rows), every "
        "committee vote, every decision value and every placement of points on a small lattice, for every pool order, batch size and "
        "way of passing the predictions (model, matrix, list); the selected batch is compared with the criterion evaluated directly "
        "from its definition, ties allowed")
ASSUMPTIONS = ("criterion values that differ by less than the rounding constants of the implementation (1e-4 for entropy, 1e-7 "
               "otherwise) count as ties; the grids contain no such near-ties",)

ROWS = {2: [(.5, .5), (.25, .75), (.75, .25), (1., 0.), (0., 1.), (.001, .999), (.625, .375), (.98, .02)],
        3: [(.5, .5, 0.), (.5, 0., .5), (1 / 3., 1 / 3., 1 / 3.), (.4, .4, .2), (.6, .2, .2), (.45, .35, .2), (1., 0., 0.), (0., .9, .1),
            (.05, .15, .8), (.55, .45, 0.)],
        4: [(.25, .25, .25, .25), (.4, .3, .2, .1), (.1, .2, .3, .4), (.5, .5, 0., 0.), (.45, .05, .05, .45), (0., 0., 0., 1.),
            (.7, .1, .1, .1)]}


CERTAIN = [(.995, .005, 0.), (.0, .009, .991)]


def plog(p):
    return p * math.log(p) if p > 0 else 0.0


def entropy(r):
    return -sum(plog(float(p)) for p in r)


def margin(r):
    s = sorted(float(p) for p in r)
    return -(s[-1] - s[-2])


def least_confident(r):
    return 1 - max(float(p) for p in r)


MEASURE = {"entropy": entropy, "margin": margin, "least_confident": least_confident}


def best(sel, ids, value, batch, key, tol, largest=True):
    """The selected ids are a batch of the best values."""
    got = [int(i) for i in sel]
    want = min(batch, len(ids))
    require(len(got) == want and len(set(got)) == want and set(got) <= set(ids), "invalid:" + key,
            lambda: "pool %r batch %d: got %r" % (ids, batch, got))
    v = dict(zip(ids, value))
    if not largest:
        v = {k: -x for k, x in v.items()}
    out = [v[i] for i in ids if i not in got]
    if out:
        worst = min(v[i] for i in got)
        require(worst >= max(out) - tol, key,
                lambda: "values %r batch %d: got %r" % ({k: (x if largest else -x) for k, x in v.items()}, batch, got))
    return sorted(got)


IDS = [5, 2, 7, 0, 3, 1]


def pool(n, order, how):
    if n > len(IDS):
        m = n + 20 + (not (n + 20) % 7)
        ids = [(i * 7 + 3) % m for i in range(n)]
        ids = sorted(ids) if how == "ind" else ids
        return ids, (IndexCollection(ids) if how == "ind" else list(ids) if how == "list" else np.array(ids))
    ids = [IDS[i] for i in order][:n] if order else IDS[:n]
    if how == "ind":
        ids = sorted(ids)
        return ids, IndexCollection(ids)
    return ids, (list(ids) if how == "list" else np.array(ids))


def features(n=8):
    return np.array([[float(i), 1.0] for i in range(n)])


def uncertainty(measure, k, picks, order, batch, how, via):
    """picks: row number for each pool position."""
    ids, U = pool(len(picks), order, how)
    rows = [ROWS[k][p] for p in picks]
    f = MEASURE[measure]
    if measure == "entropy":
        e = ql.QueryInstanceUncertainty.calc_entropy([list(r) for r in rows] if via == "list" else np.array(rows))
        require(np.allclose(e, [f(r) for r in rows], atol=1e-6), "calc_entropy", lambda: "%r: %r" % (rows, e))
    X, y = features(), np.arange(8) % 2
    if via == "model":
        table = [ROWS[k][0]] * 8
        for i, r in zip(ids, rows):
            table[i] = r
        s = ql.QueryInstanceUncertainty(X, y, measure=measure)
        sel = s.select([i for i in range(8) if i not in ids], U, model=stubs.Table(table), batch_size=batch)
    else:
        s = ql.QueryInstanceUncertainty(measure=measure)
        P = [list(r) for r in rows] if via == "list" else np.array(rows)
        if via == "f32":
            P = P.astype(np.float32)
        sel = s.select_by_prediction_mat(U, P, batch_size=batch)
    return best(sel, ids, [f(r) for r in rows], batch, "uncertainty:" + measure, 1e-4 if measure == "entropy" else 1e-6)


def boundary(values, order, batch, how, via):
    ids, U = pool(len(values), order, how)
    if via in ("model", "model2"):
        table = [0.0] * 8
        for i, v in zip(ids, values):
            table[i] = v
        d = np.array(table)
        s = ql.QueryInstanceUncertainty(features(), np.arange(8) % 2, measure="distance_to_boundary")
        sel = s.select([], U, model=stubs.Table(decision=d if via == "model" else d.reshape(-1, 1)), batch_size=batch)
    else:
        s = ql.QueryInstanceUncertainty(measure="distance_to_boundary")
        P = np.array(values, dtype=float)
        P = P.reshape(-1, 1) if via == "col" else list(values) if via == "list" else P
        sel = s.select_by_prediction_mat(U, P, batch_size=batch)
    return best(sel, ids, [abs(v) for v in values], batch, "uncertainty:distance_to_boundary", 0, largest=False)


def vote_entropy(votes):
    c = len(votes)
    return -sum(plog(votes.count(v) / float(c)) for v in set(votes))


def avg_kl(rows):
    c = len(rows)
    mean = [sum(r[j] for r in rows) / float(c) for j in range(len(rows[0]))]
    return sum(sum(p * math.log(p / m) for p, m in zip(r, mean) if p > 0) for r in rows) / c


VOTES = {"int": [0, 1, 2], "pm": [-1, 1, 7], "str": ["a", "b", "c"]}


def committee_votes(members, kind, order, batch, how, onehot, hole):
    """members: tuple (per member) of votes (per pool item)."""
    n = len(members[0])
    ids, U = pool(n, order, how)
    s = ql.QueryInstanceQBC(disagreement="vote_entropy")
    if onehot:
        P = [np.array([[int(v == c) for c in range(3)] for v in m]) for m in members]
        value = [sum(-plog(sum(1 for m in members if m[i] == c) / float(len(members))) for c in range(3)) for i in range(n)]
    else:
        P = [[VOTES[kind][v] for v in m] for m in members]
        value = [vote_entropy([m[i] for m in members]) for i in range(n)]
        if hole != "list":
            P = [np.array(p) for p in P]
    if hole == "none":
        P.insert(1, None)
    sel = s.select_by_prediction_mat(U, P, batch_size=batch)
    score = ql.QueryInstanceQBC.calc_vote_entropy(P)
    require(np.allclose(score, value, atol=1e-6), "vote-entropy-value", lambda: "%r: %r instead of %r" % (P, score, value))
    return best(sel, ids, value, batch, "qbc:vote_entropy", 1e-7)


def committee_labelsets(members, order, batch):
    """0/1 label matrices with any number of ones per row (multi-label votes)."""
    n = len(members[0])
    ids, U = pool(n, order, "list")
    P = [np.array(m) for m in members]
    value = [sum(-plog(sum(m[i][c] for m in members) / float(len(members))) for c in range(len(members[0][0]))) for i in range(n)]
    sel = ql.QueryInstanceQBC(disagreement="vote_entropy").select_by_prediction_mat(U, P, batch_size=batch)
    return best(sel, ids, value, batch, "qbc:vote_entropy-labelsets", 1e-7)


def committee_kl(k, members, order, batch, how, hole):
    n = len(members[0])
    ids, U = pool(n, order, how)
    rows = [[ROWS[k][p] for p in m] for m in members]
    P = [np.array(m) for m in rows] if hole != "list" else [[list(r) for r in m] for m in rows]
    if hole == "none":
        P.append(None)
    value = [avg_kl([m[i] for m in rows]) for i in range(n)]
    sel = ql.QueryInstanceQBC(disagreement="KL_divergence").select_by_prediction_mat(U, P, batch_size=batch)
    score = np.asarray(ql.QueryInstanceQBC.calc_avg_KL_divergence(P))
    require(score.shape == (n,) and any(np.allclose(score, f * np.array(value), atol=1e-5) for f in (1, len(members))), "KL-value",
            lambda: "%r: %r, mean divergences %r" % (P, score, value))
    return best(sel, ids, value, batch, "qbc:KL_divergence", 1e-6)


class Member(BaseEstimator, ClassifierMixin):
    """Committee member whose answers are row (number of fits so far) of a table; records what it answered."""
    TABLES = []
    FITS = [0]
    LOG = {}

    def fit(self, X, y, sample_weight=None):
        self.classes_ = np.unique(y)
        self.serial = Member.FITS[0]
        Member.FITS[0] += 1
        return self

    def _rows(self, X):
        t = Member.TABLES[self.serial % len(Member.TABLES)]
        return [t[int(x[0])] for x in np.asarray(X)]

    def predict_proba(self, X):
        r = self._rows(X)
        Member.LOG.setdefault("proba", {})[self.serial] = {int(x[0]): q for x, q in zip(np.asarray(X), r)}
        return np.array(r)

    def predict(self, X):
        r = self._rows(X)
        Member.LOG.setdefault("vote", {})[self.serial] = {int(x[0]): int(np.argmax(q)) for x, q in zip(np.asarray(X), r)}
        return np.array([int(np.argmax(q)) for q in r])


def committee_model(dis, tables, order, batch, how):
    """select() with a model: the committee is whatever bagging trained; the scores are those of its recorded answers."""
    n = len(tables[0])
    ids, U = pool(n, order, how)
    Member.TABLES = []
    for t in tables:
        full = [ROWS[2][0]] * 8
        for i, p in zip(ids, t):
            full[i] = ROWS[2][p]
        Member.TABLES.append(full)
    Member.FITS[0] = 0
    Member.LOG = {}
    np.random.seed(1)
    label = [i for i in range(8) if i not in ids]
    s = ql.QueryInstanceQBC(features(), np.arange(8) % 2, disagreement=dis)
    sel = s.select(label, U, model=Member().fit(features(), np.arange(8) % 2), batch_size=batch)
    if len(ids) <= batch:
        return sorted(int(i) for i in sel)
    if dis == "vote_entropy":
        log = Member.LOG["vote"]
        value = [vote_entropy([m[i] for m in log.values()]) for i in ids]
    else:
        log = Member.LOG["proba"]
        value = [avg_kl([m[i] for m in log.values()]) for i in ids]
    require(len(log) > 1, "qbc:committee-size", "the committee has %d members" % len(log))
    return best(sel, ids, value, batch, "qbc-model:" + dis, 1e-6)


class Partial(BaseEstimator, ClassifierMixin):
    """Committee member without sample weights: knows only the classes of its bootstrap sample."""
    LOG = []

    def fit(self, X, y):
        self.classes_ = np.unique(y)
        self.shift = int(np.asarray(X)[:, 0].sum()) % len(ROWS[3])
        self.answers = {}
        Partial.LOG.append(self)
        return self

    def predict_proba(self, X):
        out = []
        for x in np.asarray(X):
            r = ROWS[3][(int(x[0]) + self.shift) % len(ROWS[3])]
            r = [r[int(c) % 3] + .01 for c in self.classes_]
            r = [v / sum(r) for v in r]
            self.answers[int(x[0])] = dict(zip([int(c) for c in self.classes_], r))
            out.append(r)
        return np.array(out)

    def predict(self, X):
        p = self.predict_proba(X)
        return self.classes_[np.argmax(p, axis=1)]


def committee_classes(dis, boots, alpha, default, batch):
    """Members trained on bootstrap samples that lack classes: a missing class has probability 0 for them."""
    import sklearn.ensemble._bagging as sb
    label, ids = [6, 1, 4], [5, 2, 7, 0, 3]
    y = np.array([alpha[i] for i in (0, 1, 2, 0, 2, 1, 0, 0)])      # labelled: classes 0, 1, 2
    plain, count = getattr(sb, "_generate_indices", None), [0]

    def chosen(random_state, bootstrap, n_population, n_samples):
        if not bootstrap or n_population != 3:
            return plain(random_state, bootstrap, n_population, n_samples)
        count[0] += 1
        return np.array(boots[(count[0] // 2) % len(boots)])
    Partial.LOG = []
    if plain is not None:
        sb._generate_indices = chosen
    try:
        model = None if default else Partial().fit(features(), y)
        s = ql.QueryInstanceQBC(features(), y, disagreement=dis)
        sel = s.select(list(label), list(ids), model=model, batch_size=batch)
    finally:
        if plain is not None:
            sb._generate_indices = plain
    key = "qbc-classes:" + dis
    if default:
        got = [int(i) for i in sel]
        require(len(got) == batch and len(set(got)) == batch and set(got) <= set(ids), "invalid:" + key, lambda: repr(got))
        return len(got)
    log = [m for m in Partial.LOG if set(m.answers) >= set(ids) and m is not model]
    require(len(log) > 1, "qbc:committee-size", "the committee has %d members" % len(log))
    every = sorted(set(c for m in log for c in m.answers[ids[0]]))
    if dis == "vote_entropy":
        value = [vote_entropy([max(m.answers[i], key=lambda c: m.answers[i][c]) for m in log]) for i in ids]
    else:
        value = [avg_kl([[m.answers[i].get(c, 0.) for c in every] for m in log]) for i in ids]
    return best(sel, ids, value, batch, key, 1e-6)


def points(n):
    if n > 8:
        return {"line": cloud(n), "near": [[v * .3 for v in r] for r in cloud(n)]}
    return {"line": [[0., 0.], [1., .5], [2., 2.], [3., 0.], [4., 1.], [5., 3.], [7., 1.], [8., 0.]][:n],
            "near": [[0., 0.], [0.125, 0.], [2., 0.], [2., 0.25], [4., 0.], [1., 1.], [3., 1.], [3., 3.]][:n]}


def eer(layout, ys, label, order, batch, model, how, default):
    n = len(ys)
    X, y = np.array(points(max(n, 8))[layout][:n]), np.array(ys)
    unl = [i for i in range(n) if i not in label]
    unl = [unl[i] for i in order if i < len(unl)]
    if len(set(y[label])) < 2:
        raise Skip()
    U = {"list": list, "arr": np.array, "ind": lambda v: IndexCollection(sorted(v))}[how](unl)
    make = {"parzen": stubs.Parzen, "nearest": stubs.Nearest}[model] if not default else (lambda: LogisticRegression(solver="liblinear"))
    m = make().fit(X[label], y[label])
    s = ql.QueryExpectedErrorReduction(X, y)
    sel = s.select(list(label), U, model=None if default else m, batch_size=batch)
    if len(unl) <= batch:
        return sorted(int(i) for i in sel)
    value = []
    for i in unl:
        p = m.predict_proba(X[[i]])[0]
        rest = [j for j in unl if j != i]
        e = 0
        for c, pc in zip(m.classes_, p):
            m2 = make().fit(X[list(label) + [i]], np.append(y[label], c))
            e += pc * sum(entropy(r) for r in m2.predict_proba(X[rest]))
        value.append(e)
    return best(sel, unl, value, batch, "eer", 1e-7, largest=False)


def dist(a, b, metric):
    d = [x - z for x, z in zip(a, b)]
    if metric in ("manhattan", "l1", "cityblock"):
        return sum(abs(x) for x in d)
    if metric in ("euclidean", "l2"):
        return math.sqrt(sum(x * x for x in d))
    na, nb = math.sqrt(sum(x * x for x in a)), math.sqrt(sum(x * x for x in b))
    return 1 - (sum(x * z for x, z in zip(a, b)) / (na * nb) if na and nb else 0.0)


def density(measure, metric, beta, layout, picks, order, batch, how, via):
    n = len(picks)
    ids, U = pool(n, order, how)
    X = np.array(points(8 if n <= 6 else max(ids) + 1)[layout]) + (1.0 if metric == "cosine" else 0.0)
    rows = [(ROWS[3] + CERTAIN)[p] for p in picks]
    s = ql.QueryInstanceDensityWeighted(X, np.arange(len(X)) % 2, uncertainty_meansure=measure, distance=metric, beta=beta)
    if via == "model":
        class M(object):
            def predict_proba(self, x):
                return np.array([rows[ids.index(next(i for i in ids if np.array_equal(X[i], r)))] for r in x])
        sel = s.select([], U, batch_size=batch, model=M())
    else:
        P = np.array(rows) if via == "mat" else [list(r) for r in rows]
        sel = s.select([], U, batch_size=batch, proba_prediction=P)
    phi = [MEASURE[measure](r) + (1 if measure == "margin" else 0) for r in rows]
    value = [f * (sum(dist(X[i], X[j], metric) for j in ids) / len(ids)) ** beta for f, i in zip(phi, ids)]
    return best(sel, ids, value, batch, "density:" + measure, 1e-6)


def greedy_order(X, label, unl, sel, metric):
    """Farthest first: the only order in which a batch can be greedy when there are no ties."""
    centers, left, out = list(label), list(sel), []
    while left:
        nxt = max(left, key=lambda j: min(dist(X[j], X[c], metric) for c in centers))
        out.append(nxt)
        centers.append(nxt)
        left.remove(nxt)
    return [out]


def coreset(layout, metric, train, rounds, how, tform):
    """rounds: [(labelled, batch)]: the batch is a k-center greedy sequence started from the labelled set."""
    X = np.array(points(8 if max(train) < 8 else max(train) + 1)[layout]) + (1.0 if metric == "cosine" else 0.0)
    s = ql.QueryInstanceCoresetGreedy(X, np.arange(len(X)) % 2, np.array(train) if tform == "arr" else list(train), distance=metric)
    out = []
    for label, batch in rounds:
        unl = [i for i in train if i not in label]
        f = {"list": list, "arr": lambda v: np.array(v, dtype=int), "ind": IndexCollection}[how]
        sel = [int(i) for i in s.select(f(list(label)), f(list(unl)), batch_size=batch)]
        want = min(batch, len(unl))
        require(len(sel) == want and len(set(sel)) == want and set(sel) <= set(unl), "invalid:coreset",
                lambda: "labelled %r batch %d: got %r" % (label, batch, sel))
        if len(unl) > batch and label:
            ok = False
            for perm in itertools.permutations(sel) if len(sel) < 4 else greedy_order(X, label, unl, sel, metric):
                centers = list(label)
                good = True
                for i in perm:
                    gap = {j: min(dist(X[j], X[c], metric) for c in centers) for j in unl if j not in centers}
                    if gap[i] < max(gap.values()) - 1e-7:
                        good = False
                        break
                    centers.append(i)
                if good:
                    ok = True
                    break
            require(ok, "coreset:not-greedy", lambda: "history %r, labelled %r batch %d: got %r, distances %r" % (
                rounds, label, batch, sel, {j: min(dist(X[j], X[c], metric) for c in label) for j in unl}))
        out.append(sorted(sel))
    return out


def quire(layout, ys, train, label, order, lam, kernel):
    """argmin of L_ss - det(L_aa)/L_ss + 2|(L_sl - L_su L_uu^-1 L_ul) y_l| with L = (K + lambda I)^-1."""
    X, y = np.array(points(len(ys))[layout]), np.array(ys)
    unl = [i for i in train if i not in label]
    unl = [unl[i] for i in order if i < len(unl)]
    if len(unl) < 2:
        raise Skip()
    s = ql.QueryInstanceQUIRE(X, y, list(train), **{"kernel": kernel, "lambda": lam})
    sel = [int(i) for i in s.select(list(label), np.array(unl))]
    n = len(train)
    K = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            u, v = X[train[a]], X[train[b]]
            K[a, b] = math.exp(-sum((u - v) ** 2)) if kernel == "rbf" else sum(u * v) if kernel == "linear" else (sum(u * v) + 1) ** 3
    L = np.linalg.inv(K + lam * np.eye(n))
    pos = {t: a for a, t in enumerate(train)}
    lab = [pos[i] for i in label]
    value = []
    for i in unl:
        a, u = [pos[j] for j in unl], [pos[j] for j in unl if j != i]
        t = pos[i]
        tmp = (L[t][lab] - L[t][u].dot(np.linalg.inv(L[np.ix_(u, u)])).dot(L[np.ix_(u, lab)])).dot(y[list(label)])
        value.append(float(L[t, t] - np.linalg.det(L[np.ix_(a, a)]) / L[t, t] + 2 * abs(tmp)))
    return best(sel, unl, value, 1, "quire", 1e-6 * max(1, max(abs(v) for v in value)), largest=False)


def mlquire(n, k, ybits, known, how, lam, kernel):
    """argmin over entries s of max over y_s = +-1 of min over the other unknown labels of y' (I kron (K + lambda I)^-1) y."""
    X = np.array(points(max(n, 8))["near"])[:n]
    y = np.array(ybits).reshape(n, k)
    es = [(i, j) for j in range(k) for i in range(n)]
    known = [tuple(e) for e in known]
    unk = [e for e in es if e not in known]
    s = qm.QueryMultiLabelQUIRE(X, y, **{"kernel": kernel, "lambda": lam})
    if how == "ind":
        L, U = MultiLabelIndexCollection(known, k), MultiLabelIndexCollection(unk, k)
    elif how == "pairs":
        L, U = known, unk
    else:
        L, U = [j * n + i for i, j in known], np.array([j * n + i for i, j in unk])
    sel = s.select(L, U)
    K = np.zeros((n, n))
    for a in range(n):
        for b in range(n):
            u, v = X[a], X[b]
            K[a, b] = math.exp(-sum((u - v) ** 2)) if kernel == "rbf" else sum(u * v) if kernel == "linear" else (sum(u * v) + 1) ** 3
    M = np.kron(np.eye(k), np.linalg.inv(K + lam * np.eye(n)))
    pos = {e: c for c, e in enumerate(es)}
    yl = np.array([y[e] for e in known], dtype=float)
    lab = [pos[e] for e in known]
    value = []
    for e in unk:
        r = [pos[u] for u in unk if u != e]
        t = pos[e]
        worst = []
        for ys in (1., -1.):
            lin = M[np.ix_(r, lab)].dot(yl) + ys * M[r, t]
            worst.append(M[t, t] + 2 * ys * M[t, lab].dot(yl) - lin.dot(np.linalg.solve(M[np.ix_(r, r)], lin)))
        value.append(float(max(worst)))
    got = [tuple(int(v) for v in p) for p in sel]
    require(len(got) == 1 and got[0] in unk, "size:mlquire", lambda: "selected %r of %r" % (sel, unk))
    low = min(value)
    tol = 1e-6 * max(1, max(abs(v) for v in value))
    require(value[unk.index(got[0])] <= low + tol, "criterion:mlquire",
            lambda: "selected %r with value %r, best are %r" % (got, value[unk.index(got[0])], [u for u, v in zip(unk, value) if v <= low + tol]))
    return got


def graph(pts, train, label, batches, metric, how, extra):
    """Rounds of one object: the densest unlabelled points, the neighbours of every pick being reduced by its density; what was
    picked (and further items) is labelled in the next round."""
    X = np.array(pts, dtype=float)
    n = len(X)
    f = {"list": list, "arr": np.array, "ind": IndexCollection}[how]
    s = ql.QueryInstanceGraphDensity(X, np.arange(n) % 2, np.array(train) if how == "arr" else list(train), metric=metric)
    k = min(10, len(train) - 1)
    near = {i: sorted((j for j in train if j != i), key=lambda j: sum(abs(X[i] - X[j])))[:k] for i in train}
    edge = {(i, j) for i in train for j in near[i]} | {(j, i) for i in train for j in near[i]}
    w = {e: math.exp(-dist(X[e[0]], X[e[1]], metric) / X.shape[1]) for e in edge}
    dens = {i: sum(w[i, j] for j in train if (i, j) in w) / sum(1 for j in train if (i, j) in w) for i in train}
    d0 = s.to_dict()
    require(np.allclose(d0["graph_density"], [dens[i] for i in train]), "graph-density-initial",
            lambda: "%r instead of %r" % (d0["graph_density"], dens))
    conn = np.asarray(d0["connectivity"].todense())
    require(np.allclose(conn, [[w.get((i, j), 0.) for j in train] for i in train]), "graph-weights", lambda: repr(conn))
    label = list(label)
    out = []
    for r, batch in enumerate(batches):
        unl = [i for i in train if i not in label]
        if not unl:
            break
        sel = [int(i) for i in s.select(f(list(label)) if label or how != "ind" else [], f(unl), batch_size=batch)]
        if len(unl) <= batch:
            require(sorted(sel) == sorted(unl), "graph-rest", lambda: "%r of %r" % (sel, unl))
            break
        want = []
        while len(want) < batch:
            c = max((i for i in unl if i not in want), key=lambda i: dens[i])
            rest = sorted((dens[i] for i in unl if i not in want), reverse=True)
            if len(rest) > 1 and rest[0] - rest[1] < 1e-7:
                if r == 0:
                    raise Skip()
                return out      # a tie: several continuations are right
            want.append(c)
            d = dens[c]
            for j in train:
                if (c, j) in w:
                    dens[j] -= d
        require(sorted(sel) == sorted(want), "graph-density", lambda: "train %r, labelled %r, round %d: got %r, expected %r" % (
            train, label, r, sel, want))
        out.append(sorted(sel))
        label += sel
        if extra:
            label += [i for i in unl if i not in sel][:1]
    require(np.allclose(s.to_dict()["graph_density"], d0["graph_density"]), "graph-density-starting", "the starting density changed")
    return out


class Tree(object):
    def __init__(self, table, depth):
        self.table = table
        self.tree_ = type("T", (), {"max_depth": depth})()

    def predict_proba(self, X):
        return np.array([[p, 1 - p] for p in (self.table[int(x[0])] for x in np.asarray(X))])


class Forest(object):
    """Stand-in for LAL's random forests: the trees of the classifier answer from tables, the regressor records and answers a
    chosen weighted sum of the state features."""
    TABLES, DEPTHS, WEIGHTS, LOG = [], [], [], []

    def __init__(self, **kwargs):
        self.kw = kwargs

    def fit(self, X, y):
        Forest.LOG.append(("fit", np.array(X), np.array(y)))
        self.estimators_ = [Tree(t, d) for t, d in zip(Forest.TABLES, Forest.DEPTHS)]
        self.oob_score_ = .125 * len(y)
        self.feature_importances_ = np.array([.75, .25])
        return self

    def predict(self, F):
        Forest.LOG.append(("features", np.array(F)))
        return np.array(F).dot(Forest.WEIGHTS)


def lal(mode, tables, depths, weights, alpha, label, order, batch, how, auto):
    """LAL: the instance with the largest error reduction predicted from the eight state features of its publication."""
    import contextlib
    import io
    import os
    import shutil
    import tempfile
    X = features()
    y = np.array([alpha[i] for i in (0, 1, 1, 0, 1, 0, 0, 1)])
    unl = [i for i in range(8) if i not in label][:4]
    unl = [unl[i] for i in order]
    f = {"list": list, "arr": np.array, "ind": lambda v: IndexCollection(list(v))}[how]
    U = f(unl)
    unl = [int(i) for i in U]
    d = tempfile.mkdtemp(prefix="c17")
    was = ql.RandomForestClassifier, ql.RandomForestRegressor
    Forest.TABLES, Forest.DEPTHS, Forest.WEIGHTS, Forest.LOG = tables, depths, np.array(weights), []
    ql.RandomForestClassifier = ql.RandomForestRegressor = Forest
    try:
        data = {"LAL_iterative": np.arange(16.).reshape(2, 8), "LAL_independent": np.arange(16.).reshape(2, 8)[::-1]}
        for m, name in (("LAL_iterative", "iterativetree"), ("LAL_independent", "randomtree")):
            np.savez(os.path.join(d, "LAL-%s-simulatedunbalanced-big.npz" % name), data[m], np.array([[1.], [2.]]) + len(m))
        with contextlib.redirect_stdout(io.StringIO()):
            s = ql.QueryInstanceLAL(X, y, mode=mode, data_path=d, cls_est=len(tables), train_slt=auto)
            if not auto:
                s.train_selector_from_file()
        _, FX, Fy = Forest.LOG[0]
        require(np.array_equal(FX, data[mode]) and np.array_equal(Fy, np.array([1., 2.]) + len(mode)), "lal:selector-data",
                lambda: "%s: the selector is trained from %r, %r" % (mode, FX, Fy))
        del Forest.LOG[:]
        sel = s.select(f(list(label)), U, batch_size=batch)
        if len(unl) <= batch:
            return sorted(int(i) for i in sel)
        fits = [e for e in Forest.LOG if e[0] == "fit"]
        require(len(fits) == 1 and sorted(zip(fits[0][1][:, 0].tolist(), fits[0][2].tolist())) ==
                sorted((float(i), y[i].item()) for i in label), "lal:trained-on", lambda: "labelled %r: %r" % (label, fits))
        rows = []
        share = sum(1 for i in label if y[i] > 0) / float(len(label))
        p = [[t[i] for t in tables] for i in unl]
        f2 = [float(np.std(r)) for r in p]
        for r, sd in zip(p, f2):
            rows.append([sum(r) / len(r), sd, share, .125 * len(label), float(np.std([.375, .125])), sum(f2) / len(f2),
                         sum(depths) / float(len(depths)), len(label)])
        got = [e[1] for e in Forest.LOG if e[0] == "features"]
        require(len(got) == 1 and got[0].shape == (len(unl), 8) and np.allclose(got[0], rows), "lal:features",
                lambda: "the selector is asked about %r, not %r" % (got, rows))
        return best(sel, unl, [float(np.dot(r, weights)) for r in rows], batch, "lal", 1e-9)
    finally:
        ql.RandomForestClassifier, ql.RandomForestRegressor = was
        shutil.rmtree(d)


def default_model(measure, ys, label, batch, how):
    """model=None: logistic regression on the labelled items."""
    X, y = np.array(points(8)["line"]), np.array(ys)
    if len(set(y[label])) < 2:
        raise Skip()
    unl = [i for i in range(8) if i not in label]
    f = {"list": list, "arr": np.array, "ind": IndexCollection}[how]
    sel = ql.QueryInstanceUncertainty(X, y, measure=measure).select(f(list(label)), f(unl), batch_size=batch)
    m = LogisticRegression(solver="liblinear").fit(X[label], y[label])
    if measure == "distance_to_boundary":
        return best(sel, unl, [abs(v) for v in m.decision_function(X[unl])], batch, "default:" + measure, 1e-7, largest=False)
    return best(sel, unl, [MEASURE[measure](r) for r in m.predict_proba(X[unl])], batch, "default:" + measure, 1e-6)


def spread(n, k, a, fine):
    """n probability rows over k classes, criterion values equal or clearly apart (fine: at rounding distance of the outputs of a model)."""
    out = []
    for i in range(n):
        w = [1 + (i * (a + j) + j * j * 3 + (i * i) % 5) % 23 for j in range(k)]
        if fine:
            w = [1000. + v for v in w]
        out.append([v / float(sum(w)) for v in w])
    return out


def long_uncertainty(measure, n, k, a, fine, batch, how, via):
    rows = spread(n, k, a, fine)
    ids, U = pool(n, (), how)
    f = MEASURE[measure]
    value = [f(r) for r in rows]
    tol = 1e-4 if measure == "entropy" else 1e-6
    if fine:
        tol = 1e-12        # plain arithmetic
    X, y = np.arange(2. * (max(ids) + 1)).reshape(-1, 2), np.arange(max(ids) + 1) % 2
    if via == "model":
        table = [rows[0]] * (max(ids) + 1)
        for i, r in zip(ids, rows):
            table[i] = r

        class M(object):
            def predict_proba(self, x):
                return np.array([table[int(v[0]) // 2] for v in np.asarray(x)])
        sel = ql.QueryInstanceUncertainty(X, y, measure=measure).select([i for i in range(max(ids)) if i not in ids], U, model=M(), batch_size=batch)
    else:
        s = ql.QueryInstanceUncertainty(measure=measure)
        sel = s.select_by_prediction_mat(U, rows if via == "list" else np.array(rows), batch_size=batch)
    best(sel, ids, value, batch, "uncertainty:" + measure, tol)
    return [measure, n, batch]


def long_boundary(n, a, scale, batch, how, col):
    ids, U = pool(n, (), how)
    v = [((i * a + 5) % (2 * n + 1) - n + .25) * scale for i in range(n)]
    P = np.array(v)
    s = ql.QueryInstanceUncertainty(measure="distance_to_boundary")
    sel = s.select_by_prediction_mat(U, P.reshape(-1, 1) if col else P, batch_size=batch)
    best(sel, ids, [abs(x) for x in v], batch, "uncertainty:distance_to_boundary", 0, largest=False)
    return [n, batch]


def long_votes(n, c, k, a, batch, how, kind):
    ids, U = pool(n, (), how)
    members = [[(i * (m + a) // (1 + i % 3) + m * m) % k for i in range(n)] for m in range(c)]
    value = [vote_entropy([m[i] for m in members]) for i in range(n)]
    if kind == "onehot":
        P = [np.array([[int(v == t) for t in range(k)] for v in m]) for m in members]
    elif kind == "str":
        P = [np.array(["c%02d" % v for v in m]) for m in members]
    else:
        P = [np.array(m) * 3 - 4 for m in members]
    sel = ql.QueryInstanceQBC(disagreement="vote_entropy").select_by_prediction_mat(U, P, batch_size=batch)
    score = ql.QueryInstanceQBC.calc_vote_entropy(P)
    require(np.allclose(score, value, atol=1e-6), "vote-entropy-value", lambda: "%r instead of %r" % (score, value))
    best(sel, ids, value, batch, "qbc:vote_entropy", 1e-7)
    return [n, c]


def long_kl(n, c, k, a, batch, how):
    ids, U = pool(n, (), how)
    rows = [spread(n, k, a + m * 3, False) for m in range(c)]
    value = [avg_kl([m[i] for m in rows]) for i in range(n)]
    P = [np.array(m) for m in rows]
    sel = ql.QueryInstanceQBC(disagreement="KL_divergence").select_by_prediction_mat(U, P, batch_size=batch)
    score = np.asarray(ql.QueryInstanceQBC.calc_avg_KL_divergence(P))
    require(score.shape == (n,) and any(np.allclose(score, f * np.array(value), atol=1e-5) for f in (1, len(rows))), "KL-value",
            lambda: "%r, mean divergences %r" % (score, value))
    best(sel, ids, value, batch, "qbc:KL_divergence", 1e-6)
    return [n, c]


def cloud(n):
    return [[(i * math.sqrt(2)) % 7.3 + .1, (i * i * math.sqrt(3)) % 11.1, (i * math.sqrt(5)) % 3.7] for i in range(n)]


def check_grids():
    """No near-ties on the grids: criterion values are equal (1e-9) or clearly apart."""
    for k in ROWS:
        for m, f in MEASURE.items():
            v = sorted(f(r) for r in ROWS[k])
            for a, b in zip(v, v[1:]):
                if 1e-9 < b - a < 2e-4:
                    raise RuntimeError("near-tie in grid %r %r" % (k, m))
    return True


def explore(ctx):
    q = ctx.quick
    np.seterr(all="ignore")
    warnings.simplefilter("ignore")
    check_grids()
    cases = []
    perms = {n: list(itertools.permutations(range(n))) for n in range(1, 6)}
    for m in MEASURE:
        for k in ROWS:
            rows = range(len(ROWS[k]))
            for picks in itertools.product(rows, repeat=3):
                h = sum(p * 11 ** i for i, p in enumerate(picks))
                how = ("list", "arr", "ind")[h % 3]
                cases.append((m, k, picks, (), 1 + h % 2, how, ("mat", "list", "model", "f32")[h % 4]))
                if not q:
                    for b in (1, 2):
                        for via in ("mat", "list", "model"):
                            cases.append((m, k, picks, (2, 0, 1), b, "list", via))
            for picks in itertools.combinations(rows, 4):
                for o in (perms[4][::5] if q else perms[4]):
                    cases.append((m, k, tuple(picks[i] for i in o), o, 1 + o[0] % 3, "arr", "mat" if o[1] % 2 else "model"))
            if not q:
                for picks in itertools.product(rows, repeat=4):
                    cases.append((m, k, picks, (), 1 + picks[0] % 3, "list", "mat"))
    ctx.parallel(uncertainty, cases)
    vals = (0., 1., -1., 2.5, -2.5, 1e-9)
    ctx.parallel(boundary, [(v, o, b, how, via) for v in itertools.product(vals, repeat=3) for o in ((), (1, 2, 0)) for b in (1, 2)
                            for how, via in (("list", "mat"), ("arr", "model"), ("ind", "col"), ("arr", "model2"), ("list", "list"))
                            if not q or b == 1 or o])
    cases = []
    for c in (2, 3):
        for flat in itertools.product(range(3), repeat=3 * c):
            members = tuple(tuple(flat[i * 3:i * 3 + 3]) for i in range(c))
            h = sum(x * 3 ** i for i, x in enumerate(flat))
            if c == 3 and q and h % 5:
                continue
            cases.append((members, ("int", "pm", "str")[h % 3], ((), (2, 1, 0))[h % 2], 1 + h % 2, ("list", "arr", "ind")[h % 3], False,
                          ("", "list", "none")[h % 3]))
            cases.append((members, "int", (1, 2, 0), 1 + h % 2, "list", True, ("", "none")[h % 2]))
    if not q:
        for flat in itertools.product(range(2), repeat=4 * 4):
            members = tuple(tuple(flat[i * 4:i * 4 + 4]) for i in range(4))
            cases.append((members, "int", (), 2, "arr", False, ""))
    ctx.parallel(committee_votes, cases)
    lab = list(itertools.product((0, 1), repeat=2))
    ctx.parallel(committee_labelsets, [((m1, m2), (2, 0, 1), b) for m1 in itertools.product(lab, repeat=3)
                                       for m2 in itertools.product(lab, repeat=3) for b in ((1,) if q else (1, 2))])
    cases = []
    for k in (2, 3):
        r = range(0, len(ROWS[k]), 2 if q else 1)
        for m1 in itertools.product(r, repeat=3):
            for m2 in itertools.product(r, repeat=3):
                h = sum(m1) * 7 + sum(m2)
                if m1 <= m2 and (k == 2 or not q or h % 3 == 0):
                    cases.append((k, (m1, m2), ((), (2, 0, 1))[h % 2], 1 + h % 2, ("list", "arr", "ind")[h % 3], ("", "list", "none")[h % 3]))
        for m in itertools.product(itertools.product(r, repeat=2), repeat=3):
            if q and (sum(map(sum, m)) % 4):
                continue
            cases.append((k, m, (1, 0), 1, "list", ""))
    ctx.parallel(committee_kl, cases)
    tabs = list(itertools.product(range(4), repeat=3))
    ctx.parallel(committee_model, [(d, (a, b), ((), (2, 0, 1))[(i + j) % 2], 1 + (i + j) % 2, ("list", "arr", "ind")[(i + j) % 3])
                                   for d in ("vote_entropy", "KL_divergence") for i, a in enumerate(tabs) for j, b in enumerate(tabs)
                                   if (i * 64 + j) % (17 if q else 3) == 0])
    draws = list(itertools.product(range(3), repeat=3))
    ctx.parallel(committee_classes, [(d, (a, b), (0, 1, 2) if (i + j) % 2 else ("x", "y", "z"), default, 1 + (i + j) % 2)
                                     for d in ("vote_entropy", "KL_divergence") for i, a in enumerate(draws) for j, b in enumerate(draws)
                                     for default in (False, True) if (i * 27 + j) % ((11 if default else 4) if q else 1) == 0])
    cases = []
    for layout in ("line", "near"):
        for alpha in ((0, 1), (1, 2), (-1, 1), (0, 1, 2), (2, 5, 9)):
            for ys in itertools.product(alpha, repeat=5):
                if len(alpha) == 3 and (q or layout == "near") and sum(ys) % 4:
                    continue
                for lab_ in subsets(range(5), 2, 3):
                    if len(set(ys[i] for i in lab_)) < 2:
                        continue
                    # the labels of unlabelled items only say which classes exist
                    h = hash((ys, lab_)) % 1000
                    if q and h % 12:
                        continue
                    cases.append((layout, ys, list(lab_), ((0, 1, 2, 3, 4), (2, 0, 1, 3, 4))[h % 2], 1 + h % 2, ("parzen", "nearest")[h % 2],
                                  ("list", "arr", "ind")[h % 3], h % 24 == 0))
    ctx.parallel(eer, cases)
    cases = []
    r = range(0, 9, 2) if q else range(10)
    for m in MEASURE:
        for metric in ("euclidean", "manhattan", "cosine", "l1", "l2", "cityblock"):
            for beta in (1.0, 2.0, 0.5):
                for layout in ("line", "near"):
                    for picks in itertools.product(r, repeat=3):
                        h = sum(p * 3 ** i for i, p in enumerate(picks)) + int(beta * 2)
                        if q and h % 8:
                            continue
                        cases.append((m, metric, beta, layout, picks, ((), (2, 0, 1), (5, 3, 1))[h % 3], 1 + h % 2,
                                      ("list", "arr", "ind")[h % 3], ("mat", "list", "model")[(h // 3) % 3]))
    ctx.parallel(density, cases)
    cases = []
    for layout in ("line", "near"):
        for metric in ("euclidean", "manhattan", "cosine", "l1", "l2", "cityblock"):
            for train in ([0, 1, 2, 3, 4, 5, 6], [6, 2, 5, 0, 3, 7]):
                for lab_ in subsets(train, 0, 4):
                    for b in (1, 2, 3):
                        if q and (sum(lab_) + b + len(lab_)) % 3:
                            continue
                        cases.append((layout, metric, train, [(list(lab_), b)], ("list", "arr", "ind")[sum(lab_) % 3], "arr" if b % 2 else "list"))
            small = [6, 2, 5, 0, 3]
            subs = [list(x) for x in subsets(small, 1, 4)]
            for i, a in enumerate(subs):
                for j, b in enumerate(subs):
                    if q and (i + j) % 4:
                        continue
                    cases.append((layout, metric, small, [(a, 1 + i % 2), (b, 1 + j % 2), (a, 2)], "list", "arr"))
    ctx.parallel(coreset, cases)
    cases = []
    for layout in ("line", "near"):
        for kernel in ("rbf", "linear", "poly"):
            for lam in (1.0, 0.5):
                for train in ([0, 1, 2, 3, 4], [4, 0, 5, 2, 1]):
                    for lab_ in subsets(train, 0, 3):
                        for bits in itertools.product((1, -1), repeat=len(lab_)):
                            ys = [1, -1, 1, -1, 1, 1, -1, -1]
                            for i, v in zip(lab_, bits):
                                ys[i] = v
                            o = (3, 1, 0, 2, 4) if sum(bits) % 2 else (0, 1, 2, 3, 4)
                            if q and (sum(lab_) + sum(bits)) % 3:
                                continue
                            cases.append((layout, tuple(ys), train, list(lab_), o, lam, kernel))
    ctx.parallel(quire, cases)
    cases = []
    for n, k in ((3, 2), (2, 3), (4, 2)) if q else ((3, 2), (2, 3), (4, 2), (3, 3)):
        es = [(i, j) for j in range(k) for i in range(n)]
        for c, known in enumerate(subsets(es, 1, n * k - 2)):
            if n * k > 6 and c % (7 if q else 2):
                continue
            for bits in itertools.product((1, -1), repeat=len(known)):
                if n * k > 6 and (sum(bits) + c) % 3:
                    continue
                ys = [1] * (n * k)
                for e, v in zip(known, bits):
                    ys[e[0] * k + e[1]] = v
                order = known if sum(bits) > 0 else known[::-1]
                cases.append((n, k, tuple(ys), list(order), ("ind", "pairs", "flat")[(c + bits[0]) % 3], (1., .5)[c % 2],
                              ("rbf", "linear", "poly")[(c + sum(bits)) % 3]))
    ctx.parallel(mlquire, cases)
    base = [(0, 0), (1, 0.13), (2.3, 0), (0.2, 1.7), (1.1, 1.9), (9, 9), (9.4, 9.9), (10.2, 9.3), (5, 5.2), (4.3, 6), (12, 0.7), (12.4, 2),
            (11, 3.1), (0.7, 12), (1.9, 13)]
    cases = []
    for n in (5, 12, 13, 15):
        for m, train in enumerate((list(range(n)), list(range(n))[::-2] + list(range(n))[n % 2::2], [(7 * i + 3) % n for i in range(n)][:n - 2])):
            if len(set(train)) < len(train):
                continue
            for lab_ in subsets(train, 0, 2):
                for b in (1, 2, 3):
                    if n > 5 and (sum(lab_) + b + m) % (14 if q else 2):
                        continue
                    bs = [(b,), (b, 1, 2), (b, 3, 1)][(sum(lab_) + m) % 3] if n > 5 else (b, 1, 1)
                    cases.append((base[:n], train, list(lab_), bs, ("manhattan", "euclidean")[(b + m) % 2],
                                  ("list", "arr", "ind")[(b + sum(lab_)) % 3], m == 1))
    ctx.parallel(graph, cases)
    cases = []
    grid = (0., .25, 1.)
    for i, (a, b) in enumerate(itertools.product(itertools.product(grid, repeat=4), repeat=2)):
        if i % (31 if q else 3):
            continue
        label = ([0, 1], [7, 2, 5], [4, 3, 6, 0])[i % 3]
        unl = [j for j in range(8) if j not in label][:4]
        tables = [dict(zip(unl, t)) for t in ((a, b) if i % 2 else (a, b, a[::-1]))]
        cases.append((("LAL_iterative", "LAL_independent")[(i // 3) % 2], tables, [1, 4, 2][:len(tables)],
                      ([1., 0, 0, 0, 0, 0, 0, 0], [0, 1., 0, 0, 0, 0, 0, 0], [-.5, 2., 1., 1., 1., 1., 1., 1.])[(i // 2) % 3],
                      ((0, 1), (-1, 1))[i % 2], label, ((0, 1, 2, 3), (2, 0, 3, 1))[(i // 5) % 2], 1 + i % 3,
                      ("list", "arr", "ind")[(i // 7) % 3], i % 4 < 2))
    ctx.parallel(lal, cases)
    # large pools, many classes, large committees and batches
    SZ = (7, 20, 65, 130, 300) if q else (7, 10, 20, 33, 65, 130, 300, 1100)
    BT = (1, 2, 3, 7, 10, 11, 16, 33, 100)
    ctx.parallel(long_uncertainty, [(m, n, k, a, fine, b, ("list", "arr", "ind")[(n + a + b) % 3], ("mat", "list", "model")[(b + a) % 3])
                                    for m in MEASURE for n in SZ for k in (2, 3, 12) for a in (1, 2, 5) for b in BT + (n - 1, n) if b <= n
                                    for fine in ((False, True) if m != "entropy" else (False,)) if (n + k + a + b) % (4 if q else 1) == 0])
    ctx.parallel(long_boundary, [(n, a, sc, b, ("list", "arr", "ind")[(n + b) % 3], (a + b) % 2) for n in SZ for a in (1, 2, 5) for sc in (1e-9, 1., 1e6)
                                 for b in BT + (n - 1, n) if b <= n])
    ctx.parallel(long_votes, [(n, c, k, a, b, ("list", "arr", "ind")[(n + b) % 3], kd) for n in SZ for c in (2, 4, 5, 9, 20) for k in (2, 3, 12) for a in (1, 4)
                              for b in (1, 5, 17) for kd in ("int", "str", "onehot") if b <= n and (n + c + k + a + b) % (4 if q else 1) == 0])
    ctx.parallel(long_kl, [(n, c, k, a, b, ("list", "arr", "ind")[(n + b) % 3]) for n in SZ for c in (2, 4, 5, 9) for k in (2, 3, 12) for a in (1, 4)
                           for b in (1, 5, 17) if b <= n and (n + c + k + a + b) % (6 if q else 2) == 0])
    ctx.parallel(density, [(m, metric, 1.0, "line", p, (), b, "list", "mat") for m in MEASURE for metric in ("euclidean", "cosine") for b in (1, 2)
                           for p in itertools.permutations((6, 10, 11)) if b == 1 or p[0] == 6])
    ctx.parallel(density, [(m, metric, beta, layout, tuple((i * a) % 10 for i in range(n)), (), b, ("list", "arr", "ind")[(n + b) % 3], ("mat", "list", "model")[a % 3])
                           for m in MEASURE for metric in ("euclidean", "manhattan", "cosine") for beta in (1.0, 2.0) for layout in ("line", "near") for n in (12, 33, 70)
                           for a in (1, 3) for b in (1, 4, 9) if (n + a + b + int(beta)) % (3 if q else 1) == 0])
    cases = []
    for n in (20, 45, 90, 200):
        for metric in ("euclidean", "manhattan", "cosine"):
            train = [(i * 7 + 3) % n for i in range(n)][:n - 3]
            for a in (1, 2, 3):
                lab_ = [i for i in train if (i * 5) % 11 < a + 3 * (n == 200)]
                more = [i for i in train if (i * 5) % 11 < a + 2 + 4 * (n == 200)]
                for b in (1, 2, 5, 12, n // 3):
                    cases.append((("line", "near")[a % 2], metric, train, [(lab_, b), (more, 3)], ("list", "arr", "ind")[(a + b) % 3], ("arr", "list")[b % 2]))
    ctx.parallel(coreset, cases)
    cases = []
    for n in (12, 25, 40):
        for a in (1, 2, 4):
            for kernel in ("rbf", "linear", "poly"):
                for lam in (1., .5):
                    train = [(i * 7 + 3) % n for i in range(n)][:n - 2]
                    lab_ = [i for i in train if (i * 5) % 11 < 2 * a]
                    if kernel == "poly":
                        continue    # badly conditioned on many points
                    cases.append(("near", tuple(1 if (i * (a + 2) + i // 3) % 5 < 2 else -1 for i in range(n)), train, lab_, tuple(range(n)), lam, kernel))
    ctx.parallel(quire, cases)
    ctx.parallel(eer, [("near", tuple((i * 5 + i // 4) % k for i in range(n)), [i for i in range(n) if (i * a) % 5 < 1], tuple(range(n)), b, "parzen", how, False)
                       for n, k, a, b, how in ((26, 2, 1, 1, "arr"), (33, 3, 2, 2, "list"), (40, 2, 3, 6, "ind"))])
    ctx.parallel(eer, [("near", tuple((i * 5 + i // 4) % k for i in range(n)), [i for i in range(n) if (i * a) % 5 < 2], tuple(range(n)), b, mdl, how, False)
                       for n in (12, 20) for k in (2, 3, 5) for a in (1, 2) for b, mdl, how in ((1, "parzen", "list"), (3, "nearest", "arr"), (5, "parzen", "ind"))])
    ctx.parallel(graph, [(cloud(n), [(i * 7 + 3) % n for i in range(n)][:n - 2], [i for i in range(0, n, 9) if i in [(t * 7 + 3) % n for t in range(n - 2)]],
                          bs, metric, how, ex) for n in (20, 45, 80) for bs in ((1, 4, 7), (10, 3), (5, 5, 5, 1)) for metric in ("manhattan", "euclidean")
                         for how in ("list", "arr", "ind") for ex in (False, True)])
    ctx.parallel(mlquire, [(n, k, tuple(1 if (t * (a + 2) + t // 3) % 5 < 2 else -1 for t in range(n * k)),
                            [(i, j) for i in range(n) for j in range(k) if (i * 3 + j * a) % 11 < 2 * a + 1], how, 1., kern)
                           for n, k in ((12, 2), (9, 4), (20, 3)) for a in (1, 2, 3) for how in ("ind", "pairs", "flat") for kern in ("rbf", "linear")])
    ctx.parallel(default_model, [(m, ys, list(l), b, ("list", "arr", "ind")[b % 3]) for m in list(MEASURE) + ["distance_to_boundary"]
                                 for ys in ((0, 1, 1, 0, 1, 0, 0, 1), (0, 0, 0, 0, 1, 1, 1, 1)) for l in subsets(range(8), 4, 4)
                                 for b in (1, 2, 3) if not q or sum(l) % 4 == 0])
    ctx.stats.states = len(ctx.stats.outcomes)
    ctx.stats.transitions = ctx.stats.evaluations
    ctx.stats.traces = ctx.stats.evaluations
