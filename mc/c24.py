"""C24: multi-label, query-type and feature strategies choose what their published criterion ranks best."""
import copy
import itertools
import warnings

import numpy as np
from sklearn.linear_model import LogisticRegression

from alipy.index import MultiLabelIndexCollection
from alipy.query_strategy import multi_label as qm, query_features as qf, query_type as qt

from .c18 import Ranker, entries, grid_X, quiet, spell
from .core import Skip, explore_choices, require, subsets
from .rng import chosen_shuffle, nth_permutation

LEVEL = "model_checking"
RULE = ("AUDI and AURO under every prediction table over a few values and every division of the entries into known and unknown (trained model, model "
        "still to be trained, own model, label matrix for training); MMC and adaptive selection under every label matrix of up to four labelled "
        "instances with a closed-form base classifier and both label encodings; every mask of small matrices for the two completion algorithms and every "
        "selection history over them; every sequence of up to three fits of the label ranking model. The choice is recomputed from the published formulas")
ASSUMPTIONS = ["the best choice is compared up to rounding; ties may be broken either way",
               "AUDI's inconsistency is divided by the number of unknown labels of the instance, as implemented",
               "the completion objective of AFASMC is compared to within 0.2 per cent of its optimum, found by an independent solver",
               "members of a batch after the first are not judged (they are chosen as if the earlier ones were answered)"]

TOL = 1e-9


def best(vals, tol=TOL):
    """Positions of the largest values up to rounding."""
    top = max(vals)
    return [i for i, v in enumerate(vals) if v >= top - tol * max(1., abs(top))]


# ---- AUDI, AURO ----------------------------------------------------------------------

class Recorder(Ranker):
    """A label ranking model with given predictions which records what it is trained from."""

    def __init__(self, X, pres, trained):
        Ranker.__init__(self, X, pres)
        self._init_flag = trained
        self.got = []

    def fit(self, X, y, n_repeat=10, is_incremental=False):
        self.got.append((np.array(X, dtype=float).tolist(), np.array(y, dtype=float).tolist()))
        self._init_flag = True


def ranked(kind, n, k, unknown, ybits, how, pres, eps, trained, ymat):
    X = grid_X(n, 2)
    y = np.array(ybits).reshape(n, k)
    unknown = list(unknown)
    known = [e for e in entries(n, k) if e not in unknown]
    model = Recorder(X, pres, trained)
    L, U = spell(known, n, k, "ind" if how == "rows" or not known else how), spell(unknown, n, k, how)
    kw = {}
    if kind == "audi":
        s = qm.QueryMultiLabelAUDI(X, y)
        if eps is not None:
            kw["epsilon"] = eps
    else:
        s = qt.QueryTypeAURO(X, y)
        if ymat:
            kw["y_mat"] = np.where(y > 0, 0.5, -1.)
    sel = quiet(lambda: s.select(L, U, model=model, **kw))
    if trained:
        require(not model.got, "refit:" + kind, "a trained model was trained again")
    else:
        src = kw.get("y_mat", y)
        rows = sorted({i for i, _ in known})
        want = sorted((X[i].tolist(), [float(src[i, j]) if (i, j) in known else 0. for j in range(k)]) for i in rows)
        require(len(model.got) == 1, "fit-count:" + kind, "the model was trained %d times" % len(model.got))
        got = sorted(zip(*model.got[0]))
        require([(a, b) for a, b in got] == want, "fit-data:" + kind, lambda: "known %r: trained from %r, not %r" % (known, got, want))
    left = {}
    for i, j in unknown:
        left.setdefault(i, []).append(j)
    P = np.array(pres, dtype=float)
    if kind == "audi":
        (i, j), = [(int(a), int(b)) for a, b in sel]
        full = [r for r in range(n) if r not in left]
        if full:
            avg = np.mean([sum(1 for v in y[r] if v == 1) for r in full])
            ids = sorted(left)
            vals = [abs(sum(1 for c in range(k) if P[r, c] > P[r, k]) - avg) / max(len(left[r]), .5 if eps is None else eps) for r in ids]
            require(ids.index(i) in best(vals), "instance:audi",
                    lambda: "average %r: instance %d was chosen, inconsistency of %r is %r" % (avg, i, ids, vals))
        dis = [-abs(P[i, c] - P[i, k]) for c in left[i]]
        require(left[i].index(j) in best(dis), "label:audi", lambda: "instance %d: label %d was chosen, distances of %r are %r" % (i, j, left[i], [-d for d in dis]))
        return i, j
    i, a, b = (int(v) for v in sel)
    cnt = max(len(v) for v in left.values())
    require(len(left[i]) == cnt, "instance:auro", "unknown %r: instance %d was chosen" % (left, i))
    top = [left[i][t] for t in best([P[i, c] for c in left[i]])]
    require(a in top, "label:auro", "instance %d: label %d was chosen first, %r of %r rank highest" % (i, a, top, P[i].tolist()))
    rest = [c for c in left[i] if c != a]
    near = [rest[t] for t in best([-abs(P[i, c] - P[i, k]) for c in rest])]
    require(b in near, "second-label:auro", "instance %d: label %d was compared, %r of %r are nearest to the threshold" % (i, b, near, P[i].tolist()))
    return i, a, b


# ---- the label ranking model ---------------------------------------------------------

def rank_predict(data, BV, subs):
    """Prediction = best of the sub models of every label; relevant when above the dummy label."""
    data, BV = np.array(data, dtype=float), np.array(BV, dtype=float)
    k = BV.shape[1] // subs
    pres, labels = quiet(lambda: qm.LabelRankingModel().lr_predict(BV, data, subs))
    require(np.shape(pres) == (len(data), k) and np.shape(labels) == (len(data), k - 1), "shape:rank", "shapes %r, %r" % (np.shape(pres), np.shape(labels)))
    for i in range(len(data)):
        f = [max(sum(data[i, t] * BV[t, c * subs + u] for t in range(data.shape[1])) for u in range(subs)) for c in range(k)]
        require(all(abs(a - b) <= 1e-9 for a, b in zip(f, pres[i])), "pres:rank", "predictions %r, expected %r" % (list(pres[i]), f))
        for c in range(k - 1):
            if abs(f[c] - f[-1]) > 1e-9 or f[c] == f[-1] == 0:
                want = 1 if f[c] > f[-1] else -1
                require(labels[i, c] == want, "label:rank", "predictions %r: label %d is %r" % (f, c, labels[i, c]))
    return np.asarray(labels).astype(int).tolist()


PROBE = [[0., .25], [.75, .5], [1., .75]]


def rank_train(targets, layout, subs, step, lmbda, before, begin, size, limit):
    """One pass of the ranking model's training for every order of the pairs and every irrelevant label drawn."""
    T = np.array(targets, dtype=float)
    n, k = T.shape[0], T.shape[1] + 1
    X = np.array(PROBE + [[.5, -1.]])[:n] if layout else np.array([[1., 0.], [0., 1.], [1., 1.]])[:n]
    B0 = np.array([[((3 * c + 2 * r) % 5 - 2) * .5 for c in range(k * subs)] for r in range(2)])
    V0 = np.array([[1., .25], [-.5, 1.]])
    costs = np.cumsum(1. / np.arange(1, k * 5 + 1))
    pairs = sorted([(i, c) for i in range(n) for c in range(k - 1) if T[i, c] >= 1] + [(i, k - 1) for i in range(n)])
    out = set()

    def one(ch):
        drawn = []

        def pick(m):
            f = 1
            for t in range(2, m + 1):
                f *= t
            p = nth_permutation(m, ch(f))
            drawn.append(p)
            return p
        with chosen_shuffle(pick):
            got = quiet(lambda: qm.LabelRankingModel().train_model(X.copy(), T.copy(), B0.copy(), V0.copy(), costs, np.inf, step, subs,
                                                                    before[0], before[1], before[2], before[3], lmbda, begin, size))
        it = iter(drawn)
        order = next(it)
        B, V, (AB, AV, num, rounds) = B0.copy(), V0.copy(), before
        for t in range(len(pairs)):
            i, c = pairs[order[t]]
            x = X[i]
            own = list(range(c * subs, c * subs + subs))
            emb = V.dot(x)
            f = [B[:, o].dot(emb) for o in own]
            sc = max(f)
            if any(abs(v - sc) < 1e-9 for o, v in enumerate(f) if o != f.index(sc)):
                return  # two sub models tie
            irr = [o for o in range(k - 1) if T[i, o] == -1] + ([k - 1] if c != k - 1 else [])
            for tries in range(1, len(irr) + 1):
                z = irr[next(it)[0]]
                fz = [B[:, z * subs + u].dot(emb) for u in range(subs)]
                if abs(max(fz) - sc + 1) < 1e-9 or any(abs(v - max(fz)) < 1e-9 for u, v in enumerate(fz) if u != fz.index(max(fz))):
                    return  # on the margin
                if max(fz) > sc - 1:
                    eta = step / (1 + lmbda * rounds * step) * costs[len(irr) // tries - 1]
                    rounds += 1
                    a, b = own[f.index(sc)], z * subs + fz.index(max(fz))
                    ba, bb = B[:, a].copy(), B[:, b].copy()
                    B[:, a] = ba + eta * emb
                    B[:, b] = bb - eta * emb
                    V = V - eta * np.outer(bb - ba, x)
                    break
            if t == 0 or rounds > begin and t % size == 0:
                AB, AV, num = AB + B, AV + V, num + 1
        for name, a, b in zip(("B", "V", "AB", "AV", "Anum", "rounds"), got, (B, V, AB, AV, num, rounds)):
            require(np.allclose(a, b, rtol=1e-9, atol=1e-9), "training:rank",
                    lambda: "targets %r, order %r, draws %r: %s is %r, expected %r" % (targets, order, drawn[1:], name, np.array(a).tolist(), np.array(b).tolist()))
        out.add(tuple(np.round(B.ravel(), 6)))
    explore_choices(one, limit)
    return sorted(out)[:3], len(out)


FITS = {"a": ([[0., .5], [.5, 1.], [1., .25]], [[1, -1], [-1, 1], [1, 1]]),
        "b": ([[.25, .75], [1., 1.]], [[-1, 1], [1, -1]]),
        "c": ([[.5, .5], [0., 1.]], [[0, 1], [-1, 0.5]])}


def rank_fits(init, ops):
    """ops: (data, incremental). A fit which is not incremental forgets everything but the initial parameters."""
    def fresh():
        np.random.seed(3)
        if init is None:
            return qm.LabelRankingModel()
        return qm.LabelRankingModel(np.array(FITS[init][0]), np.array(FITS[init][1], dtype=float), n_repeat=1)

    def fit(m, k, op):
        X, y = np.array(FITS[op[0]][0]), np.array(FITS[op[0]][1], dtype=float)
        X0, y0 = X.copy(), y.copy()
        np.random.seed(100 + k)
        m.fit(X, y, n_repeat=1, is_incremental=op[1])
        require(np.array_equal(X, X0) and np.array_equal(y, y0), "arguments:rank", "fit changed its arguments")

    def play(ops):
        m = fresh()
        if init is None:
            # the first fit also creates the initial parameters
            np.random.seed(7)
            X, y = FITS[ops[0][1][0]]
            m.fit(np.array(X), np.array(y, dtype=float), n_repeat=1)
        for k, op in ops:
            fit(m, k, op)
        p, lab = m.predict(np.array(PROBE))
        require(np.array_equal(np.where(p[:, :-1] > p[:, -1:], 1, -1), lab), "label:rank", "labels do not agree with the predictions")
        p2, _ = m.predict(np.array(PROBE))
        require(np.array_equal(p, p2), "predict:rank", "predicting changes the model")
        return p
    ops = list(enumerate(ops))
    got = quiet(lambda: play(ops))
    last = max(k for k, op in ops if not op[1]) if any(not op[1] for _, op in ops) else 0
    if init is None and last:
        # the initial parameters come from the first data set
        first = ops[0][1][0]

        def other():
            m = fresh()
            np.random.seed(7)
            m.fit(np.array(FITS[first][0]), np.array(FITS[first][1], dtype=float), n_repeat=1)
            for k, op in ops[last:]:
                fit(m, k, op)
            return m.predict(np.array(PROBE))[0]
        want = quiet(other)
    else:
        want = quiet(lambda: play(ops[last:]))
    require(np.allclose(got, want, rtol=1e-9, atol=1e-9), "restart:rank",
            lambda: "after %r the predictions are %r; without the fits before the last restart %r" % ([o for _, o in ops], got.tolist(), want.tolist()))
    return [round(float(v), 6) for v in np.ravel(got)]


# ---- MMC, adaptive -------------------------------------------------------------------

def margins(X, s, Q):
    """The closed-form base classifier: kernel votes of the training instances."""
    D = ((np.asarray(Q)[:, None, :] - np.asarray(X)[None, :, :]) ** 2).sum(axis=2)
    return np.exp(-D / 4.).dot(s)


class Parzen(LogisticRegression):
    def fit(self, X, y, sample_weight=None):
        self.X_, y = np.array(X, dtype=float), np.asarray(y)
        self.classes_ = np.unique(y)
        self.s_ = np.where(y > 0, 1., -1.)
        return self

    def decision_function(self, X):
        return margins(self.X_, self.s_, np.asarray(X, dtype=float))

    def predict(self, X):
        return self.classes_[(self.decision_function(X) > 0).astype(int)]

    def predict_proba(self, X):
        p = 1 / (1 + np.exp(-2 * self.decision_function(X)))
        return np.vstack((1 - p, p)).T


class Votes(object):
    """Not a classifier of scikit-learn, with signed confidences."""
    fit, predict, predict_proba, decision_function = Parzen.fit, Parzen.predict, Parzen.predict_proba, Parzen.decision_function


class Chances(object):
    """Probabilities only."""
    fit = Parzen.fit
    m_ = Parzen.decision_function

    def predict(self, X):
        return self.classes_[(self.m_(X) > 0).astype(int)]

    def predict_proba(self, X):
        p = 1 / (1 + np.exp(-2 * self.m_(X)))
        return np.vstack((1 - p, p)).T


BASE = {"sk": Parzen, "votes": Votes, "chances": Chances}


LAYOUT = {"a": [[0., 1.], [1., 3.], [2., .5], [4., 2.], [3., 3.]],
          "b": [[0., 0.], [1., .2], [2.1, .1], [.3, 1.2], [1.4, 1.1]]}


def br(X, Y, Q, real, squash=False):
    """One column per label; a label which is the same everywhere is predicted as it is."""
    out = np.zeros((len(Q), Y.shape[1]))
    for c in range(Y.shape[1]):
        s = np.where(Y[:, c] > 0, 1., -1.)
        if len(set(s)) == 1:
            out[:, c] = s[0] if real else (s[0] + 1) / 2
        else:
            m = margins(X, s, Q)
            out[:, c] = (np.tanh(m) if squash else m) if real else 1 / (1 + np.exp(-2 * m))
    return out


def mmc_range(X, Y, Q):
    """Smallest and largest expected loss reduction of every candidate (they differ on ties of the number of labels)."""
    P = br(X, Y, X, False)
    F = br(X, Y, Q, False)
    cnt = (Y > 0).sum(axis=1)
    if len(set(cnt.tolist())) == 1:
        guess = [[int(cnt[0])]] * len(Q)
    else:
        def norm(M):
            M = -np.sort(-M, axis=1)
            return M / M.sum(axis=1).reshape(-1, 1)
        lr = LogisticRegression(multi_class="multinomial", solver="newton-cg", random_state=3).fit(norm(P), cnt)
        pr = lr.predict_proba(norm(F))
        guess = [[int(lr.classes_[t]) for t in best(list(p), 1e-5)] for p in pr]
    out = []
    for f, g in zip(F, guess):
        f = sorted(f, reverse=True)
        vals = [sum(1 - v for v in f[:p]) + sum(v for v in f[p:]) for p in g]
        out.append((min(vals), max(vals)))
    return out


def adaptive_sets(X, Y, Q, betas, squash=False):
    """(certain candidates, possible candidates, approximated error of every candidate)."""
    real = br(X, Y, Q, True, squash)
    pos = np.where(real > 0, real, np.inf).min(axis=1)
    neg = np.where(real < 0, real, -np.inf).max(axis=1)
    unc = 1. / (pos - neg)
    card = (real > 0).sum(axis=1)
    inc = np.abs(card - (Y > 0).sum(axis=1).mean())
    sure, may = set(), set()
    for b in betas:
        b0 = best(list(unc ** b * inc ** (1 - b)))
        may |= set(b0)
        if len(b0) == 1:
            sure |= set(b0)
    err = []
    for c in range(len(Q)):
        R = br(np.vstack((X, Q[c])), np.vstack((Y, np.where(real[c] > 0, 1, -1))), Q, True, squash)
        e = 0.
        for r in R:
            e += max([max(0., 1 - v) for v in r if v >= 0] + [0.]) + max([max(0., 1 + v) for v in r if v <= 0] + [0.])
        err.append(e)
    return sure, may, err


def whole(kind, layout, labelled, rows, how, betas, batch, base="sk", size=None):
    """rows: label matrix of the labelled instances over {0, 1}."""
    k = len(rows[0])
    X = np.array(LAYOUT[layout]) if size is None else grid_X(size, 2) * 2
    n = len(X)
    labelled = list(labelled)
    pool = [i for i in range(n) if i not in labelled]
    batch = min(batch, len(pool) - 1)
    Y01 = np.array([[(i + c) % 2 for c in range(k)] for i in range(n)])
    Y01[labelled] = rows
    Y = 2 * Y01 - 1
    picks = []
    for y, direct in ((Y, False), (Y01, False), (Y, True)):
        seed = 3 if not direct else np.random.RandomState(3)

        def cont(r):
            return np.array(r) if how == "arr" else list(r) if how == "list" else MultiLabelIndexCollection([(i,) for i in r], k)
        if kind == "mmc":
            s = qm.QueryMultiLabelMMC(X, y.copy(), base_clf=BASE[base](), random_state=seed)
        else:
            s = qm.QueryMultiLabelAdaptive(X, y.copy(), base_clf=BASE[base](), betas=list(betas), random_state=seed)
        L, U = cont(labelled), cont(pool)
        before = (repr(list(L)), repr(list(U)))
        if direct:
            picks.append(int(quiet(lambda: s.sequential_select(L, U))))
        else:
            sel = quiet(lambda: s.select(L, U, batch_size=batch))
            picks.append(int(sel[0][0]))
        require((repr(list(L)), repr(list(U))) == before, "arguments:" + kind, "the containers became %r, %r" % (L, U))
        require(picks[-1] in pool, "batch:" + kind, "%r is not in the pool %r" % (picks[-1], pool))
    Yl = Y[labelled]
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        if kind == "mmc":
            rng_ = mmc_range(X[labelled], Yl, X[pool])
            for p in picks:
                c = pool.index(p)
                require(rng_[c][1] >= max(v[0] for v in rng_) - 1e-7, "criterion:mmc",
                        lambda: "labels %r: instance %d was chosen, loss reductions of %r are %r" % (rows, p, pool, [v[1] for v in rng_]))
        else:
            sure, may, err = adaptive_sets(X[labelled], Yl, X[pool], betas, base == "chances")
            for p in picks:
                c = pool.index(p)
                require(c in may, "candidate:adaptive", lambda: "labels %r: instance %d maximises the score for no beta; %r do" % (rows, p, [pool[t] for t in may]))
                require(err[c] <= min([err[t] for t in sure] + [err[c]]) + 1e-7, "criterion:adaptive",
                        lambda: "labels %r: instance %d was chosen, errors of the candidates %r" % (rows, p, [(pool[t], err[t]) for t in sorted(may)]))
    return picks


# ---- matrix completion ---------------------------------------------------------------

YS = [1., -1., -1., 1., 1.]


def svd_impute(X, M, rank, lo, hi, grad, iters=200, tol=1e-5, noise=None):
    Xo = np.where(M == 1, X, 0.)
    F = Xo if noise is None else Xo + noise
    for it in range(iters):
        r = min(2 ** it, rank) if grad else rank
        U, s, V = np.linalg.svd(F, full_matrices=False)
        R = (U[:, :r] * s[:r]).dot(V[:r])
        if lo is not None:
            R = np.maximum(R, lo)
        if hi is not None:
            R = np.minimum(R, hi)
        old, new = F * (1 - M), R * (1 - M)
        ssd, norm = ((old - new) ** 2).sum(), (old ** 2).sum()
        eps = np.finfo(np.float32).eps
        done = not (norm == 0 or (norm < eps and ssd > eps)) and ssd / norm < tol
        F = R * (1 - M) + Xo
        if done:
            break
    return F


def settled(X, M, rank, lo, hi, grad):
    """The completion, or None when it hangs on rounding (equal singular values, a convergence test on the edge)."""
    want = svd_impute(X, M, rank, lo, hi, grad)
    free = svd_impute(X, M, rank, None, None, grad)
    if np.abs(free[M == 0]).min() < 1e-6:
        # a saddle point: rows and columns which share no observed entry, rounding decides where the iteration goes
        return None
    for k, sign in ((1, 1), (2, 1), (1, -1), (2, -1)):
        noise = sign * 1e-7 * np.array([[((5 * i + 3 * j + k * (i + 2 * j)) % 7) - 3. for j in range(M.shape[1])] for i in range(M.shape[0])])
        if not np.allclose(want, svd_impute(X, M, rank, lo, hi, grad, noise=noise), rtol=1e-4, atol=1e-5):
            return None
    return want


def impute(n, d, known, rank, lo, hi, grad, fill, how):
    X = grid_X(n, d)
    M = np.zeros((n, d), dtype=int)
    for e in known:
        M[e] = 1
    XX = np.where(M == 1, X, np.nan) if fill == "nan" else np.where(M == 1, X, {"as is": X, "zero": 0., "large": 1e6}[fill])
    was = XX.copy()
    mask = M.tolist() if how == "list" else M.astype(float) if how == "float" else M.copy()
    obj = qf.IterativeSVD_mc(rank=rank, min_value=lo, max_value=hi, gradual_rank_increase=grad)
    np.random.seed(2)
    got = quiet(lambda: obj.impute(XX, mask))
    require(np.array_equal(XX, was, equal_nan=True), "arguments:svd", "impute changed its matrix")
    require(np.array_equal(np.array(mask), M), "arguments:svd", "impute changed the mask")
    require(np.shape(got) == (n, d), "shape:svd", "shape %r" % (np.shape(got),))
    require(np.array_equal(got[M == 1], X[M == 1]), "observed:svd", lambda: "observed values %r became %r" % (X[M == 1].tolist(), got[M == 1].tolist()))
    free = got[M == 0]
    require(np.all(np.isfinite(free)), "finite:svd", "completed %r" % free.tolist())
    require((lo is None or np.all(free >= lo)) and (hi is None or np.all(free <= hi)), "bounds:svd", "bounds %r, %r: %r" % (lo, hi, free.tolist()))
    want = settled(X, M, rank, lo, hi, grad)
    if want is None:
        return "hangs on rounding"
    require(np.allclose(free, want[M == 0], rtol=1e-4, atol=1e-5), "value:svd", lambda: "completed %r, expected %r" % (free.tolist(), want[M == 0].tolist()))
    return [round(float(v), 4) for v in free]


def objective(X, y, M, lam1, lam2):
    """The problem of one round: (objective, smooth part's gradient, Lipschitz constant)."""
    n, d = X.shape
    Xo = np.where(M == 1, X, 0.)
    E = np.hstack((Xo, np.ones((n, 1))))
    W = np.linalg.pinv(E.T.dot(E)).dot(E.T).dot(y)
    w, b = W[:-1], W[-1]
    l2 = lam2 / float(n)

    def obj(Z):
        return .5 * ((M * (Z - Xo)) ** 2).sum() + l2 * ((Z.dot(w) + b - y) ** 2).sum() + lam1 * np.linalg.svd(Z, compute_uv=False).sum()

    def grad(Z):
        return M * (Z - Xo) + 2 * l2 * np.outer(Z.dot(w) + b - y, w)
    return obj, grad, 1 + 2 * l2 * w.dot(w) + 1e-9


def optimum(X, y, M, lam1, lam2, iters=4000):
    obj, grad, L = objective(X, y, M, lam1, lam2)
    Z = np.zeros(X.shape)
    Y, t = Z, 1.
    for _ in range(iters):
        U, s, V = np.linalg.svd(Y - grad(Y) / L, full_matrices=False)
        Zn = (U * np.maximum(s - lam1 / L, 0)).dot(V)
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        Y = Zn + (t - 1) / tn * (Zn - Z)
        stop = np.abs(Zn - Z).max() < 1e-8
        Z, t = Zn, tn
        if stop:
            break
    return Z, obj


def complete(n, d, known, lam1, lam2, fill, how):
    X = grid_X(n, d)
    y = np.array((YS * n)[:n])
    M = np.zeros((n, d), dtype=int)
    for e in known:
        M[e] = 1
    XX = np.where(M == 1, X, np.nan) if fill == "nan" else np.where(M == 1, X, {"as is": X, "zero": 0., "large": 1e6}[fill])
    was = XX.copy()
    kw = {}
    if lam1 != 1:
        kw["lambda1"] = lam1
    if lam2 != 1:
        kw["lambda2"] = lam2
    if how == "mask":
        got = quiet(lambda: qf.AFASMC_mask_mc(XX, y, M.copy(), **kw))
    elif how == "masklist":
        got = quiet(lambda: qf.AFASMC_mask_mc(XX.tolist(), y.tolist(), M.tolist(), **kw))
    elif how == "flat":
        got = quiet(lambda: qf.AFASMC_mc(XX, y, [j * n + i for i, j in known], **kw))
    else:
        got = quiet(lambda: qf.AFASMC_mc(XX, y, list(known) if how == "pairs" else MultiLabelIndexCollection(list(known), d), **kw))
    require(np.array_equal(XX, was, equal_nan=True), "arguments:afasmc", "the completion changed its matrix")
    require(np.array_equal(got[M == 1], X[M == 1]), "observed:afasmc", lambda: "observed values %r became %r" % (X[M == 1].tolist(), got[M == 1].tolist()))
    require(np.all(np.isfinite(got)), "finite:afasmc", "completed %r" % got.tolist())
    Z, obj = optimum(X, y, M, lam1, lam2)
    a, b = obj(np.where(M == 1, Z, got)), obj(Z)
    require(a <= b * 1.002 + 1e-3, "objective:afasmc", lambda: "completed entries %r have objective %r, the optimum %r has %r" % (
        got[M == 0].tolist(), a, Z[M == 0].tolist(), b))
    return [round(float(v), 1) for v in got[M == 0]]


# ---- feature strategies --------------------------------------------------------------

def feature(kind, n, d, known, how, train, ranks, steps, by_mask, total=5):
    """A history of selections, each answered; every choice has the largest variance."""
    X, y = grid_X(total, d), np.array((YS * total)[:total])
    rows = list(range(n)) if train is None else list(train[:n])
    known = {(rows[i], j) for i, j in known}
    allof = {(r, j) for r in rows for j in range(d)}
    tr = None if train is None else list(rows)
    if kind == "afasmc":
        s, kw = qf.QueryFeatureAFASMC(X, y, train_idx=tr), {"max_in_iter": 20, "max_out_iter": 1}
    else:
        s, kw = qf.QueryFeatureStability(X, y, train_idx=tr, rank_arr=list(ranks)), {}
    order = sorted(rows) if train is None else rows
    obs, hist, mats = set(known), [], []
    for st in range(steps):
        unk = sorted(allof - obs)
        if len(unk) < 2:
            break
        mask = np.array([[1 if (r, j) in obs else 0 for j in range(d)] for r in order])
        np.random.seed(11)
        if by_mask:
            i, j = quiet(lambda: s.select_by_mask(mask.copy(), **kw))[0]
            got = (order[int(i)], int(j))
        else:
            L = spell(sorted(obs), total, d, "ind" if how == "rows" else how)
            U = spell(unk, total, d, how)
            i, j = quiet(lambda: s.select(L, U, **kw))[0]
            got = (int(i), int(j))
        np.random.seed(11)
        if kind == "afasmc":
            mats.append(quiet(lambda: qf.AFASMC_mask_mc(X[order], y[order], mask, **kw)))
        else:
            mats = [settled(X[order], mask, r, None, None, True) for r in ranks]
        require(got in unk, "known-picked:" + kind, "unknown %r: picked %r" % (unk, got))
        if len(mats) > 1 and all(m is not None for m in mats):
            var = {e: float(np.var([m[order.index(e[0]), e[1]] for m in mats])) for e in unk}
            top = max(var.values())
            require(var[got] >= top * (1 - 1e-3) - 1e-6, "criterion:" + kind, lambda: "step %d: %r was chosen, variances %r" % (st, got, var))
        hist.append(got)
        obs.add(got)
    return hist


# --------------------------------------------------------------------------------------

def explore(ctx):
    q = ctx.quick
    HOW = ("ind", "pairs", "flat", "rows", "flatlist")
    cases = []
    # AUDI / AURO: one fully known instance, every table for two others
    c = 0
    vals = (-1., 0., 2.)
    tails = [u for u in subsets([(1, 0), (1, 1), (2, 0), (2, 1)], 2)]
    for t, tab in enumerate(itertools.product(vals, repeat=6)):
        for u, unk in enumerate(tails):
            c += 1
            if q and (t + u) % 2:
                continue
            y0 = ([-1, -1], [1, -1], [1, 1])[(t + u // 2) % 3]
            bits = y0 + [1, -1, -1, 1]
            pres = [[0., 0., 0.], tab[:3], tab[3:]]
            eps = (None, .5, 2., 1.5)[c // 2 % 4]
            cases.append(("audi", 3, 2, list(unk), bits, HOW[c // 2 % 5], pres, eps, t % 7 != 0, False))
            if max(sum(1 for e in unk if e[0] == i) for i in (1, 2)) > 1:
                cases.append(("auro", 3, 2, list(unk), bits, HOW[c // 2 % 5], pres, None, t % 5 != 0, t % 2 == 1))
    for tab in itertools.product((-1., 0., 1., 3.) if not q else (-1., 0., 2.), repeat=4):
        for u, unk in enumerate(subsets(entries(1, 3), 2)):
            for other in ([], [(1, 0)], [(1, 0), (1, 2)], entries(2, 3)[3:]):
                c += 1
                pres = [tab, (.5, .25, -1., 0.), (0., 0., 0., 0.)]
                bits = [1, -1, 1, -1, 1, 1, -1, -1, 1]
                cases.append(("auro", 3, 3, list(unk) + other, bits, HOW[c % 5], pres, None, c % 3 != 0, c % 2 == 0))
                cases.append(("audi", 3, 3, list(unk) + other, bits, HOW[c % 5], pres, (None, 2.)[c % 2], c % 3 != 0, False))
    # many instances and labels
    for n, k in ((12, 6), (30, 4), (70, 3), (9, 20)):
        for a in (1, 2, 4, 5):
            unk = [(i, j) for i in range(n) for j in range(k) if (i * 3 + j * a) % 11 >= 2 * a - 1]
            for t in range(6 if q else 24):
                bits = [1 if (i * a + i // 4 + t) % 3 else -1 for i in range(n * k)]
                pres = [[((i * (5 + t) + j * 3 + i * j) % (7 + t)) * (1., .25, 1e-3, 40.)[t % 4] - 2 for j in range(k + 1)] for i in range(n)]
                cases.append(("audi", n, k, unk, bits, HOW[(a + t) % 3], pres, (None, 1.5)[t % 2], t % 3 != 0, False))
                cases.append(("auro", n, k, unk, bits, HOW[(a + t) % 3], pres, None, t % 3 != 0, t % 2 == 1))
    ctx.parallel(ranked, cases)

    cases = []
    for subs in (1, 2, 3):
        grid = (-1., 0., 2.) if subs < 3 else (0., 1.)
        for cols in itertools.product(grid, repeat=2 * subs):
            cases.append(([[1.], [-1.], [.5], [0.]], [list(cols)], subs))
            if subs < 3:
                cases.append(([[1., 0.], [1., 1.], [-2., .5]], [list(cols), list(cols[::-1])], subs))
        for cols in itertools.product((-1., 0., 1.), repeat=3):
            cases.append(([[1., -1.], [2., 1.]], [[v + .25 * (t % subs) for v in cols for t in range(subs)], [1.] * (3 * subs)], subs))
    for n, d, k, subs in ((40, 3, 7, 5), (5, 9, 30, 2), (130, 2, 3, 5), (3, 4, 12, 9)):
        for a in (1, 2, 3):
            cases.append((grid_X(max(n, 10), d)[:n].tolist(), [[((c * (a + 2) + r * 5 + c * c) % 13 - 6) * .37 for c in range(k * subs)] for r in range(d)], subs))
    ctx.parallel(rank_predict, cases)

    cases = []
    names = ("a", "b") if q else ("a", "b", "c")
    for init in (None, "a", "c"):
        for m in (1, 2, 3):
            for ds in itertools.product(names, repeat=m):
                for inc in itertools.product((False, True), repeat=m):
                    if init is None and inc[0]:
                        continue  # the first fit creates the parameters
                    if q and m == 3 and (len(set(ds)) < 2 or init == "c"):
                        continue
                    cases.append((init, list(zip(ds, inc))))
    ctx.parallel(rank_fits, cases)

    cases = []
    c = 0
    for n, k in ((1, 1), (1, 2), (2, 1), (1, 3), (2, 2)) + (() if q else ((3, 1),)):
        for t in itertools.product((-1, 1) if n * k > 2 else (-1, 0, 1, 1.5), repeat=n * k):
            for subs in (1, 2):
                c += 1
                cases.append(([list(t[i * k:i * k + k]) for i in range(n)], c % 2, subs, (.05, .5)[c // 2 % 2], (0, .25)[c // 4 % 2],
                              ((0, 0, 0, 0), (1., 2., 3, 11), (0, 0, 0, 2))[c % 3], (10, 0, 1)[c // 3 % 3], (5, 1, 2)[c % 3], 40 if q else 1500))
    for a in range(12):
        n, k = ((3, 3), (2, 6), (3, 5))[a % 3]
        cases.append(([[1 if (i * 2 + j * 3 + a) % 4 < 2 else -1 if (i + j) % 3 else 0 for j in range(k)] for i in range(n)], a % 2, 1 + a % 3, (.05, .5)[a % 2],
                      (0, .25)[a // 2 % 2], ((0, 0, 0, 0), (1., 2., 3, 11))[a % 2], (10, 0, 1)[a % 3], (5, 1, 2)[a // 3 % 3], 40 if q else 400))
    ctx.parallel(rank_train, cases)

    cases = []
    c = 0
    for k, sizes in ((2, (1, 2, 3)), (3, (1, 2))) if q else ((2, (1, 2, 3, 4)), (3, (1, 2, 3))):
        for m in sizes:
            for l, lab in enumerate(itertools.combinations(range(5), m)):
                for bits in itertools.product((0, 1), repeat=m * k):
                    c += 1
                    rows = [list(bits[i * k:i * k + k]) for i in range(m)]
                    if m * k >= 6 and c % (5 if q else 1 if m * k < 9 else 4):
                        continue
                    if 5 - m < 2:
                        continue
                    cases.append(("mmc", "ab"[c % 2], lab, rows, ("arr", "list", "ml")[c % 3], None, 1 + (c % 4 == 0), ("sk", "votes", "chances")[c // 3 % 3]))
                    betas = ([0., .1, .2, .3, .4, .5, .6, .7, .8, .9, 1.], [0.], [1.], [.5], [0., 1.])[c % 5]
                    cases.append(("adaptive", "ba"[c % 2], lab, rows, ("list", "ml", "arr")[c % 3], betas, 1 + (c % 7 == 0), ("sk", "chances", "votes")[c // 3 % 3]))
    # many instances and labels
    for n, k in ((12, 3), (30, 2), (20, 6), (64, 3)):
        for a in range(4 if q else 12):
            lab = [i for i in range(n) if (i * 5 + a) % 13 < 3 + a % 4]
            rows = [[int((i * (a + 1) + j * 3 + i // 5) % (3 + j % 2) < 1 + a % 2) for j in range(k)] for i in lab]
            cases.append(("mmc", "a", lab, rows, ("arr", "list", "ml")[a % 3], None, 1, ("sk", "votes", "chances")[a % 3], n))
            cases.append(("adaptive", "a", lab, rows, ("list", "ml", "arr")[a % 3], ([0., .1, .2, .3, .4, .5, .6, .7, .8, .9, 1.], [1.], [.5], [0.])[a % 4], 1,
                          ("sk", "chances", "votes")[a % 3], n))
    ctx.parallel(whole, cases)

    cases, comp = [], []
    FILL = ("nan", "as is", "zero", "large")
    c = 0
    for n, d in ((3, 2), (2, 3), (3, 3)) + (() if q else ((4, 3),)):
        for known in subsets(entries(n, d), 1, n * d - 1):
            c += 1
            if n * d == 9 and c % (7 if q else 1) or n * d == 12 and c % 29:
                continue
            ranks = range(1, min(n, d))
            for r in ranks:
                lo, hi = ((None, None), (-1., 2.), (0., None), (None, 1.))[(c + r) % 4]
                cases.append((n, d, list(known), r, lo, hi, (c + r) % 3 != 0, FILL[c % 4], ("arr", "list", "float")[c % 3]))
            if len(known) >= 2 and (n * d < 9 or not c % 3):
                comp.append((n, d, list(known), (1, .5, 2)[c % 3], (1, 3, .25)[c // 3 % 3], FILL[c % 4], ("mask", "masklist", "flat", "pairs", "ind")[c % 5]))
    # larger matrices
    for n, d in ((8, 5), (15, 4), (6, 9), (40, 3)):
        for a in range(6 if q else 20):
            known = [(i, j) for i in range(n) for j in range(d) if (i * 3 + j * (a + 1) + i // 3) % 7 < 3 + a % 4]
            lo, hi = ((None, None), (-1., 2.), (0., None), (None, 1.))[a % 4]
            for r in range(1, min(n, d)):
                cases.append((n, d, known, r, lo, hi, (a + r) % 3 != 0, FILL[a % 4], ("arr", "list", "float")[a % 3]))
            comp.append((n, d, known, (1, .5, 2)[a % 3], (1, 3, .25)[a // 3 % 3], FILL[a % 4], ("mask", "masklist", "flat", "pairs", "ind")[a % 5]))
    ctx.parallel(impute, cases)
    ctx.parallel(complete, comp)

    cases = []
    c = 0
    for kind in ("afasmc", "stability"):
        for n, d, ranks in ((3, 2, (1,)), (3, 3, (1, 2)), (4, 3, (1, 2)), (4, 4, (1, 2, 3))):
            if kind == "stability" and len(ranks) < 2:
                continue
            for known in subsets(entries(n, d), n * d // 3, n * d - 2):
                c += 1
                lim = {6: 3, 9: 9, 12: 97, 16: 1511}[n * d] if q else {6: 1, 9: 1, 12: 11, 16: 151}[n * d]
                if c % lim:
                    continue
                e = c // lim
                trains = (None, [1, 3, 4, 0], [4, 0, 2, 3], [0, 1, 2, 3])
                bm = e % 3 == 0
                cases.append((kind, n, d, list(known), HOW[e % 5], trains[1 + e % 3] if bm else trains[e % 4], ranks, 3, bm))
    for kind in ("afasmc", "stability"):
        for n, d, ranks in ((8, 5, (1, 2)), (12, 4, (1, 2, 3)), (6, 9, (1, 2, 3))):
            for a in (1, 2, 3):
                known = [(i, j) for i in range(n) for j in range(d) if (i * 3 + j * a) % 5 < a + 1]
                cases.append((kind, n, d, known, HOW[a - 1], (None, list(range(n + 2, 2, -1)), [i + 1 for i in range(n)])[a - 1], ranks, 6, a == 3, n + 4))
    ctx.parallel(feature, cases)
    ctx.stats.states = len(ctx.stats.outcomes)
    ctx.stats.transitions = ctx.stats.evaluations
    ctx.stats.traces = ctx.stats.evaluations
