"""C21: every metric equals its definition on every small input, with every option and form of the arguments."""
import bisect
import itertools
import math
import warnings
from fractions import Fraction as Fr

import numpy as np
import scipy.sparse as sp

from mc.core import require, Skip, Violation
from alipy import metrics
from alipy.metrics import performance

LEVEL = "model_checking"
RULE = ("exhaustive enumeration of the input space of every metric: all pairs of label vectors of up to 4 samples over alphabets of two and "
        "three labels (ints, {-1,1}, strings), all label matrices of up to 3 x 2 / 2 x 3 entries with all predictions; all binary truths of up to 5 "
        "samples (thorough 6; beyond 4, thorough 5, up to the order of the samples) with all score vectors over three levels; all label matrices with all score matrices over two to four levels; all weight "
        "vectors over a small grid; lists, arrays, columns, sparse matrices; all pairs of mismatched shapes and kinds. Each value is compared with the textbook "
        "definition evaluated in exact rational arithmetic")
ASSUMPTIONS = ("one-error with several top-ranked labels may use any one of them",
               "precision where nothing is retrieved, rates without positive or negative samples, and average precision of samples without relevant labels are undefined",
               "curves may contain thresholds beyond full recall")

warnings.simplefilter("ignore")
TOL = 1e-9


def near(a, b, tol=TOL):
    return abs(float(a) - float(b)) <= tol


def number(name, v):
    require(np.ndim(v) == 0, name + "-kind", "%s returned %r, not a number" % (name, v))
    f = float(v)
    require(not math.isnan(f), name, "%s returned NaN" % name)
    return f


def wavg(vals, w):
    w = [1] * len(vals) if w is None else w
    return sum(Fr(v) * Fr(x) for v, x in zip(vals, w)) / sum(Fr(x) for x in w)


def snap(x):
    return x.toarray().copy() if sp.issparse(x) else (x.copy() if isinstance(x, np.ndarray) else repr(x))


def same(x, s):
    if sp.issparse(x):
        return np.array_equal(x.toarray(), s)
    if isinstance(x, np.ndarray):
        return x.shape == s.shape and bool(np.all(x == s))
    return repr(x) == s


def call(fn, *args, **kw):
    """Call with fresh arguments, check they are not changed."""
    before = [snap(a) for a in args] + [snap(a) for a in kw.values()]
    out = fn(*args, **kw)
    for a, b in zip(list(args) + list(kw.values()), before):
        require(same(a, b), "arguments-changed", "%s changed its argument to %r" % (fn.__name__, a))
    return out


def form(v, how):
    """The same data in another container."""
    if how == "list":
        return np.asarray(v).tolist()
    a = np.asarray(v)
    if how == "column":
        return a.reshape(-1, 1)
    if how == "sparse":
        return sp.csr_matrix(a)
    if how == "int8":
        return a.astype(np.int8)
    if how == "F":
        return np.asfortranarray(a)
    return a


# ---------------------------------------------------------------- label vectors and label matrices
def run_labels(yt, yp, w, how, how2):
    n = len(yt)
    A, B = form(yt, how), form(yp, how2)
    wf = None if w is None else (list(w) if how == "list" else np.array(w, dtype=float))
    multi = np.ndim(yt) == 2
    wrong = [a != b for a, b in zip(yt, yp)]
    acc = wavg([1 - v for v in wrong], w)
    kw = {} if w is None else {"sample_weight": wf}
    got = number("accuracy_score", call(performance.accuracy_score, A, B, **kw))
    require(near(got, acc), "accuracy", "accuracy of %r for %r, weights %r is %r, not %s" % (yp, yt, w, got, acc))
    got = number("zero_one_loss", call(performance.zero_one_loss, A, B, **kw))
    require(near(got, 1 - acc), "zero-one", "zero_one_loss of %r for %r, weights %r is %r, not %s" % (yp, yt, w, got, 1 - acc))
    want = sum(Fr(x) for v, x in zip(wrong, w or [1] * n) if v)
    got = number("zero_one_loss", call(performance.zero_one_loss, A, B, normalize=False, **kw))
    require(near(got, want), "zero-one-count",
            "zero_one_loss(normalize=False) of %r for %r, weights %r is %r, not %s" % (yp, yt, w, got, want))
    if w is None:
        if multi:
            want = Fr(sum(a != b for r, s in zip(yt, yp) for a, b in zip(r, s)), n * len(yt[0]))
        else:
            want = Fr(sum(wrong), n)
        got = number("hamming_loss", call(performance.hamming_loss, A, B))
        require(near(got, want), "hamming", "hamming_loss of %r for %r is %r, not %s" % (yp, yt, got, want))
    return str(acc)


def f1_of(tp, fp, fn):
    return Fr(2 * tp, 2 * tp + fp + fn) if tp + fp + fn else Fr(0)


def run_f1(yt, yp, w):
    ww = w or [1] * len(yt)
    kw = {} if w is None else {"sample_weight": list(w)}
    classes = sorted(set(yt) | set(yp))
    cnt = {}
    for c in classes:
        tp = sum(x for a, b, x in zip(yt, yp, ww) if a == c and b == c)
        fp = sum(x for a, b, x in zip(yt, yp, ww) if a != c and b == c)
        fn = sum(x for a, b, x in zip(yt, yp, ww) if a == c and b != c)
        cnt[c] = (tp, fp, fn, f1_of(tp, fp, fn), tp + fn)
    res = []
    if set(classes) <= {0, 1}:
        want = cnt[1][3] if 1 in cnt else Fr(0)
        got = number("f1_score", call(performance.f1_score, np.array(yt), np.array(yp), **kw))
        require(near(got, want), "f1", "f1 of %r for %r is %r, not %s" % (yp, yt, got, want))
        if len(classes) == 2:
            got = number("f1_score", call(performance.f1_score, yt, yp, pos_label=0, **kw))
            require(near(got, cnt[0][3]), "f1-pos-label", "f1(pos_label=0) of %r for %r is %r, not %s" % (yp, yt, got, cnt[0][3]))
    for av in ("macro", "micro", "weighted"):
        if av == "macro":
            want = sum(v[3] for v in cnt.values()) / len(cnt)
        elif av == "micro":
            want = f1_of(*[sum(v[i] for v in cnt.values()) for i in range(3)])
        else:
            want = sum(v[3] * v[4] for v in cnt.values()) / sum(v[4] for v in cnt.values())
        got = number("f1_score", call(performance.f1_score, np.array(yt), np.array(yp), average=av, **kw))
        require(near(got, want), "f1-" + av, "f1(average=%r) of %r for %r, weights %r is %r, not %s" % (av, yp, yt, w, got, want))
        res.append(str(want))
    return res


# ---------------------------------------------------------------- binary scores
LEVELS = {"int": [0, 1, 2, 3], "float": [-1.5, 0.25, 0.3, 7.0], "close": [.5, .5 + 1e-9, .5 + 2e-9, .5 + 1e-6],
          "tiny": [1e-12, 2e-12, 3e-12, 1e-10], "below": [-3, -2.5, -2, -1e-7]}
LEVELS_LONG = {"int": list(range(1000)), "float": [0.25 * v - 3 for v in range(1000)], "close": [.5 + v * 1e-9 for v in range(1000)],
               "tiny": [v * 1e-12 for v in range(1000)], "below": [v - 1000.5 for v in range(1000)]}
CODES = {"01": ([0, 1], None), "-1": ([-1, 1], None), "str": (["n", "p"], "p"), "inv": ([1, 0], 0), "12": ([1, 2], 2), "col": ([0, 1], None)}


def run_rank(pos, lev, w, code, how, scale):
    """pos: 0/1 truth, lev: level of every score."""
    n = len(pos)
    names, plabel = CODES[code]
    yt = [names[p] for p in pos]
    ys = [(LEVELS if n < 10 else LEVELS_LONG)[scale][v] for v in lev]
    ww = [Fr(x) for x in w] if w is not None else [Fr(1)] * n
    hb = "column" if code == "col" else how
    A, B = form(yt, hb), form(ys, how)
    kw = {} if w is None else {"sample_weight": list(w) if how == "list" else np.array(w, dtype=float)}
    if plabel is not None:
        kw["pos_label"] = plabel
    P = sum(x for p, x in zip(pos, ww) if p)
    N = sum(x for p, x in zip(pos, ww) if not p)
    what = "truth %r, scores %r, weights %r" % (yt, ys, w)
    cuts = sorted(set(ys), reverse=True)
    tpc = {c: sum(x for p, s, x in zip(pos, ys, ww) if p and s >= c) for c in cuts}
    fpc = {c: sum(x for p, s, x in zip(pos, ys, ww) if not p and s >= c) for c in cuts}
    # counts
    fps, tps, th = call(performance.get_fps_tps_thresholds, A, B, **kw)
    th = list(np.asarray(th).tolist())
    require(th == cuts, "thresholds", "thresholds of %s are %r, not %r" % (what, th, cuts))
    require(len(fps) == len(tps) == len(th), "thresholds", "%d false, %d true positive counts for %d thresholds" % (len(fps), len(tps), len(th)))
    for i, c in enumerate(cuts):
        require(near(tps[i], tpc[c]) and near(fps[i], fpc[c]), "fps-tps",
                "%s, threshold %r: %r true and %r false positives, not %s and %s" % (what, c, tps[i], fps[i], tpc[c], fpc[c]))
    # precision and recall
    if P:
        pr, rc, th = call(performance.precision_recall_curve, A, B, **kw)
        th = np.asarray(th).tolist()
        require(len(pr) == len(rc) == len(th) + 1, "pr-length", "%s: %d precisions, %d recalls, %d thresholds" % (what, len(pr), len(rc), len(th)))
        require(all(a < b for a, b in zip(th, th[1:])), "pr-thresholds", "thresholds %r are not increasing" % (th,))
        need = [c for i, c in enumerate(cuts) if i == 0 or tpc[cuts[i - 1]] < P]
        require(set(need) <= set(th) <= set(cuts), "pr-thresholds", "%s: thresholds %r" % (what, th))
        for p_, r_, c in zip(pr, rc, th):
            require(near(r_, tpc[c] / P), "recall", "%s: recall %r at %r, not %s" % (what, r_, c, tpc[c] / P))
            if tpc[c] + fpc[c]:
                require(near(p_, tpc[c] / (tpc[c] + fpc[c])), "precision",
                        "%s: precision %r at %r, not %s" % (what, p_, c, tpc[c] / (tpc[c] + fpc[c])))
        require(pr[-1] == 1 and rc[-1] == 0, "pr-end", "%s: the curve ends at precision %r, recall %r" % (what, pr[-1], rc[-1]))
    # roc
    if P and N:
        fpr, tpr, th = call(performance.roc_curve, A, B, **kw)
        th = np.asarray(th).tolist()
        require(len(fpr) == len(tpr) == len(th), "roc-length", "%s: lengths %d %d %d" % (what, len(fpr), len(tpr), len(th)))
        require(near(fpr[0], 0) and near(tpr[0], 0), "roc-ends", "%s: the curve starts at (%r, %r)" % (what, fpr[0], tpr[0]))
        require(near(fpr[-1], 1) and near(tpr[-1], 1), "roc-ends", "%s: the curve ends at (%r, %r)" % (what, fpr[-1], tpr[-1]))
        require(all(a > b for a, b in zip(th, th[1:])), "roc-thresholds", "thresholds %r do not decrease" % (th,))
        if tpc[cuts[0]] or fpc[cuts[0]]:
            require(th[0] > cuts[0], "roc-thresholds", "%s: the first threshold %r retrieves samples" % (what, th[0]))
        require(set(cuts) <= set(th), "roc-thresholds", "%s: thresholds %r" % (what, th))
        for f_, t_, c in zip(fpr, tpr, th):
            t = sum((x for p, s, x in zip(pos, ys, ww) if p and s >= c), Fr(0))
            f = sum((x for p, s, x in zip(pos, ys, ww) if not p and s >= c), Fr(0))
            require(near(f_, f / N) and near(t_, t / P), "roc-point", "%s: (%r, %r) at %r, not (%s, %s)" % (what, f_, t_, c, f / N, t / P))
        auc = Fr(0)
        for i in range(n):
            for j in range(n):
                if pos[i] and not pos[j]:
                    auc += ww[i] * ww[j] * (2 if ys[i] > ys[j] else 1 if ys[i] == ys[j] else 0)
        auc = auc / (2 * P * N)
        got = number("roc_auc_score", call(performance.roc_auc_score, A, B, **kw))
        require(near(got, auc), "auc", "AUC of %s is %r, not %s" % (what, got, auc))
        return str(auc)
    for fn in (performance.roc_curve, performance.roc_auc_score):
        refused(fn, A, B, **kw)
    return "one class"


# ---------------------------------------------------------------- label rankings
def run_matrix(Y, L, w, code, how, scale):
    """Y: 0/1 rows, L: score levels."""
    n, q = len(Y), len(Y[0])
    S = [[(LEVELS if q < 5 else LEVELS_LONG)[scale][v] for v in row] for row in L]
    lo = -1 if code == "-1" else 0
    yt = [[1 if v else lo for v in row] for row in Y]
    A, B = form(yt, how), form(S, "array" if how == "sparse" else how)
    kw = {} if w is None else {"sample_weight": list(w) if how == "list" else np.array(w, dtype=float)}
    what = "truth %r, scores %r, weights %r" % (yt, S, w)
    rel = [[j for j in range(q) if r[j]] for r in Y]
    irr = [[j for j in range(q) if not r[j]] for r in Y]
    if q > 1:
        # one-error
        tops = [[j for j in range(q) if s[j] == max(s)] for s in S]
        lo_, hi_ = (wavg([f(0 if r[j] else 1 for j in t) for r, t in zip(Y, tops)], w) for f in (min, max))
        got = number("one_error", call(performance.one_error, A, B, **kw))
        require(lo_ - Fr(1, 10**9) <= Fr(got) <= hi_ + Fr(1, 10**9), "one-error",
                "one_error of %s is %r, not %s" % (what, got, lo_ if lo_ == hi_ else "in [%s, %s]" % (lo_, hi_)))
        # coverage
        cov = [sum(s[j] >= min(s[k] for k in r) for j in range(q)) if r else 0 for s, r in zip(S, rel)]
        got = number("coverage_error", call(performance.coverage_error, A, B, **kw))
        require(near(got, wavg(cov, w)), "coverage", "coverage_error of %s is %r, not %s" % (what, got, wavg(cov, w)))
        # ranking loss
        rl = [Fr(sum(s[a] <= s[b] for a in r for b in i), len(r) * len(i)) if r and i else Fr(0) for s, r, i in zip(S, rel, irr)]
        got = number("label_ranking_loss", call(performance.label_ranking_loss, A, B, **kw))
        require(near(got, wavg(rl, w)), "ranking-loss", "label_ranking_loss of %s is %r, not %s" % (what, got, wavg(rl, w)))
    ap = [sum(Fr(sum(s[b] >= s[a] for b in r), sum(s[b] >= s[a] for b in range(q))) for a in r) / len(r) if r else None
          for s, r in zip(S, rel)]
    want = wavg([1 if v is None else v for v in ap], w)
    got = number("label_ranking_average_precision_score", call(performance.label_ranking_average_precision_score, A, B, **kw))
    require(near(got, want), "lrap", "label_ranking_average_precision_score of %s is %r, not %s" % (what, got, want))
    ww = w or [1] * n
    defined = [(v, x) for v, x in zip(ap, ww) if v is not None]
    if sum(x for _, x in defined):
        want = sum(v * Fr(x) for v, x in defined) / sum(Fr(x) for _, x in defined)
        got = number("average_precision_score", call(performance.average_precision_score, A, B, **kw))
        require(near(got, want), "average-precision", "average_precision_score of %s is %r, not %s" % (what, got, want))
    num = den = Fr(0)
    if n * q > 60 and w is None:
        neg = sorted(S[k][b] for k in range(n) for b in irr[k])
        for i in range(n):
            for a in rel[i]:
                den += 2 * len(neg)
                num += bisect.bisect_left(neg, S[i][a]) + bisect.bisect_right(neg, S[i][a])
    for i in range(n) if not den else ():
        for a in rel[i]:
            for k in range(n):
                for b in irr[k]:
                    den += 2 * Fr(ww[i]) * Fr(ww[k])
                    num += Fr(ww[i]) * Fr(ww[k]) * (2 if S[i][a] > S[k][b] else 1 if S[i][a] == S[k][b] else 0)
    if den:
        got = number("micro_auc_score", call(performance.micro_auc_score, A, B, **kw))
        require(near(got, num / den), "micro-auc", "micro_auc_score of %s is %r, not %s" % (what, got, num / den))
    return str(want)


# ---------------------------------------------------------------- refusals
def refused(fn, *args, **kw):
    try:
        out = fn(*args, **kw)
    except Exception:
        return
    raise Violation("not-refused", "%s(%s, %r) returned %r" % (fn.__name__, ", ".join(map(repr, args)), kw, out))


def run_refuse(name, yt, ys, kw):
    refused(getattr(performance, name), yt, ys, **kw)
    return "refused"


def run_names():
    for name in ("accuracy_score", "zero_one_loss", "roc_auc_score", "get_fps_tps_thresholds", "f1_score", "hamming_loss", "one_error",
                 "coverage_error", "label_ranking_loss", "label_ranking_average_precision_score", "micro_auc_score", "average_precision_score",
                 "precision_recall_curve", "roc_curve"):
        require(getattr(metrics, name) is getattr(performance, name), "package", "alipy.metrics.%s is not the metric" % name)


VEC = ("accuracy_score", "zero_one_loss", "hamming_loss")
RANK = ("get_fps_tps_thresholds", "precision_recall_curve", "roc_curve", "roc_auc_score")
MAT = ("one_error", "coverage_error", "label_ranking_loss", "label_ranking_average_precision_score", "micro_auc_score", "average_precision_score")


def mismatches():
    out = []
    vec = {n: [i % 2 for i in range(n)] for n in (1, 2, 3, 4)}
    tri = {n: [i % 3 for i in range(n)] for n in (3, 4)}
    mats = {(n, q): [[(i + j) % 2 for j in range(q)] for i in range(n)] for n in (1, 2, 3) for q in (2, 3, 4)}
    for name in VEC:
        for a in vec:
            for b in vec:
                if a != b:
                    out.append((name, vec[a], vec[b], {}))
                    out.append((name, np.array(vec[a]), np.array(vec[b]), {}))
                    if name != "hamming_loss":
                        out.append((name, vec[a], vec[a], {"sample_weight": [1] * b}))
        out.append((name, tri[3], tri[4], {}))
        for s, m in mats.items():
            for b in vec:
                out.append((name, np.array(m), np.array(vec[b]), {}))
                out.append((name, np.array(vec[b]), np.array(m), {}))
            for s2, m2 in mats.items():
                if s != s2:
                    out.append((name, np.array(m), np.array(m2), {}))
                    out.append((name, m, m2, {}))
            if s[0] > 1:
                m3 = np.array(m) + np.arange(s[0])[:, None]
                out.append((name, m3, m3, {}))
                out.append((name, m3, np.array(m), {}))
                out.append((name, np.array(m), np.array(tri[3][:s[0]]), {}))
    for name in RANK:
        for a in vec:
            for b in vec:
                if a != b:
                    out.append((name, np.array(vec[a]), np.arange(b), {}))
                    out.append((name, np.array(vec[a]), np.arange(a), {"sample_weight": [1.0] * b}))
        for y in ([0, 1, 2], [1, 2, 2], [0, 2], ["a", "b"], [-1, 0, 1]):
            out.append((name, np.array(y), np.arange(len(y)), {}))
            out.append((name, y, list(range(len(y))), {}))
    for name in MAT:
        for s, m in mats.items():
            for s2, m2 in mats.items():
                if s != s2:
                    out.append((name, np.array(m), np.array(m2, dtype=float), {}))
            for b in vec:
                out.append((name, np.array(m), np.arange(b), {}))
                out.append((name, np.array(vec[b]), np.array(m), {}))
                if b != s[0]:
                    out.append((name, np.array(m), np.array(m, dtype=float), {"sample_weight": [1.0] * b}))
            if s[0] > 1:
                m3 = np.array(m) + np.arange(s[0])[:, None]
                out.append((name, m3, np.array(m, dtype=float), {}))
        for b in vec:
            out.append((name, np.array(vec[b]), np.arange(b), {}))
        out.append((name, np.array(tri[3]), np.arange(3), {}))
    return out


# ---------------------------------------------------------------- the space
def explore(ctx):
    q = ctx.tier == "quick"
    cases = []

    def add(fn, *a):
        cases.append((fn, a))

    ctx.case(run_names)
    for m in mismatches():
        add(run_refuse, *m)
    forms = [("array", "array"), ("list", "list"), ("column", "array"), ("array", "column"), ("list", "array"), ("F", "column")]
    # label vectors
    k = 0
    for n in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for alpha in ([0, 1], [-1, 1], ["a", "b"], [0, 1, 2]) if n < 4 else ([0, 1], [0, 1, 2]) if n == 4 else ([0, 1],):
            for yt in itertools.product(alpha, repeat=n):
                for yp in itertools.product(alpha, repeat=n):
                    k += 1
                    add(run_labels, list(yt), list(yp), None, *forms[k % len(forms)])
    for n in (1, 2, 3):
        for alpha in ([0, 1], [0, 1, 2]) if n < 3 else ([0, 1],):
            for yt in itertools.product(alpha, repeat=n):
                for yp in itertools.product(alpha, repeat=n):
                    for w in itertools.product((0, 1, 2.5), repeat=n):
                        if sum(w) and w != (1,) * n:
                            k += 1
                            add(run_labels, list(yt), list(yp), list(w), *forms[k % len(forms)])
    mforms = [("array", "array"), ("list", "list"), ("sparse", "sparse"), ("sparse", "array"), ("F", "array"), ("int8", "array")]
    for n, c in ((1, 2), (2, 2), (1, 3), (3, 2), (2, 3)):
        for yt in itertools.product((0, 1), repeat=n * c):
            for yp in itertools.product((0, 1), repeat=n * c):
                if q and n * c == 6 and yt[:c] > yt[-c:]:
                    continue  # symmetric under exchange of the samples
                k += 1
                a = [[v for v in yt[i * c:i * c + c]] for i in range(n)]
                b = [[v for v in yp[i * c:i * c + c]] for i in range(n)]
                add(run_labels, a, b, None, *mforms[k % len(mforms)])
                if n * c == 4:
                    for w in ((2, 1), (0, 1), (0.5, 3)):
                        add(run_labels, a, b, w, *mforms[k % len(mforms)])
                    add(run_labels, [[2 * v - 1 for v in r] for r in a], [[2 * v - 1 for v in r] for r in b], None, "array", "array")
    for n in (1, 2, 3):
        for alpha in ([0, 1], [0, 1, 2]):
            for yt in itertools.product(alpha, repeat=n):
                for yp in itertools.product(alpha, repeat=n):
                    add(run_f1, list(yt), list(yp), None)
                    if n == 2:
                        add(run_f1, list(yt), list(yp), (2, 3))
    # binary scores
    opts = list(itertools.product(CODES, ("array", "list"), LEVELS))
    for n in (5,) if q else (5, 6):
        # up to the order of the samples; both sorted orders
        for s in itertools.combinations_with_replacement(list(itertools.product((0, 1), range(3 if n == 5 else 4))), n):
            for t in (s, s[::-1]):
                k += 1
                add(run_rank, [v[0] for v in t], [v[1] for v in t], None, *opts[k % len(opts)])
    for n in range(1, 5 if q else 6):
        for pos in itertools.product((0, 1), repeat=n):
            for lev in itertools.product(range(3), repeat=n):
                k += 1
                add(run_rank, pos, lev, None, *opts[k % len(opts)])
                if n <= 3:
                    for o in opts:
                        add(run_rank, pos, lev, None, *o)
    for n in (2, 3):
        kinds = list(itertools.product((0, 1), range(3), (0, 1, 2, 0.5)))
        for s in itertools.combinations_with_replacement(kinds, n) if q and n == 3 else itertools.product(kinds, repeat=n):
            if sum(v[2] for v in s):
                k += 1
                add(run_rank, [v[0] for v in s], [v[1] for v in s], [v[2] for v in s], *opts[k % len(opts)])
    # long inputs: every affine arrangement of distinct or grouped scores
    for n in (17, 24, 64) if q else (17, 20, 24, 33, 64, 90):
        truths = [[int(2 * i < n) for i in range(n)], [i % 2 for i in range(n)], [int(i % 5 == 0) for i in range(n)], [int(i == n - 1) for i in range(n)]]
        for a in range(1, n):
            if math.gcd(a, n) > 1:
                continue
            for b in range(0, n, 5 if n < 30 else 21):
                for group in (1, 3):
                    k += 1
                    lev = [((a * i + b) % n) // group for i in range(n)]
                    pos = truths[k % 4]
                    w = [((i * 3) % 4) / 2. for i in range(n)] if k % 3 == 0 else None
                    add(run_rank, pos, lev, w, *opts[k // 3 % len(opts)])
    # many samples, many classes, many labels
    sizes = (9, 17, 33, 130, 257, 300) if q else (9, 17, 33, 65, 100, 130, 257, 300, 1025)
    for n in sizes:
        for c in (2, 3, 11, 30):
            for a in (1, 2, 5, 7):
                for miss in (0, 1, 2, 3, n // 2, n - 1, n):
                    k += 1
                    yt = [(a * i + i // 7) % c for i in range(n)]
                    yp = [(v + (1 if (i * a) % n < miss else 0)) % c for i, v in enumerate(yt)]
                    w = [((i * 3) % 4) / 2. for i in range(n)] if k % 3 == 0 else None
                    add(run_labels, yt, yp, w, *forms[k % len(forms)])
                    if n < 140:
                        add(run_f1, yt, yp, [(i * 5) % 7 + 1 for i in range(n)] if k % 3 == 1 else None)
    for n, c in ((5, 5), (3, 9), (17, 6), (33, 4), (2, 40), (130, 3), (4, 130)):
        for a in (1, 2, 3, 5, 8):
            for miss in (0, 1, 3, n * c // 2, n * c):
                k += 1
                yt = [[(a * (i * c + j) + i) % 3 % 2 for j in range(c)] for i in range(n)]
                yp = [[(v + ((i * c + j) * a % (n * c) < miss)) % 2 for j, v in enumerate(r)] for i, r in enumerate(yt)]
                w = [((i * 3) % 4) / 2. + .5 for i in range(n)] if k % 3 == 0 else None
                add(run_labels, yt, yp, w, *mforms[k % len(mforms)])
    # label rankings
    mopts = list(itertools.product(("01", "-1"), ("array", "list", "F", "int8"), LEVELS)) + [("01", "sparse", v) for v in LEVELS]
    for n, c, levels in ((1, 1, 2), (2, 1, 2), (1, 2, 2), (1, 3, 3), (1, 4, 4), (2, 2, 3), (2, 3, 2), (3, 2, 2)) + \
            (() if q else ((2, 3, 3), (3, 2, 3), (4, 2, 2), (2, 4, 2))):
        for Y in itertools.product((0, 1), repeat=n * c):
            for L in itertools.product(range(levels), repeat=n * c):
                if (n, c, levels) in ((2, 3, 3), (3, 2, 3), (4, 2, 2), (2, 4, 2)) and Y[:c] > Y[-c:]:
                    continue  # symmetric under exchange of the samples
                k += 1
                o = mopts[k % len(mopts)]
                if o[1] == "int8" and o[2] != "int":
                    o = (o[0], "array", o[2])
                rows = [Y[i * c:i * c + c] for i in range(n)]
                lev = [L[i * c:i * c + c] for i in range(n)]
                add(run_matrix, rows, lev, None, *o)
                if n == 2 and c == 2 and levels == 3:
                    for w in ((2, 1), (0, 1), (0.5, 3)) if not q else ((2, 0.5),):
                        add(run_matrix, rows, lev, w, *o)
    # many labels: every arrangement of the ranking by multiplication, every density of relevant labels, grouped scores
    for n, c in ((1, 5), (1, 9), (1, 12), (2, 7), (1, 17), (3, 33), (17, 5), (2, 40), (1, 130), (2, 257), (40, 6)) + (() if q else ((1, 31), (70, 5), (5, 64), (2, 400))):
        for a in range(1, min(c, 14 if q else 30)):
            if math.gcd(a, c) > 1:
                continue
            for group in (1, 2, 5, c):
                for dens in (0, 1, 2, 3, c // 2, c - 1, c):
                    k += 1
                    if n * c > 60 and (a + k) % (4 if q else 2):
                        continue
                    o = mopts[k % len(mopts)]
                    if o[1] == "int8" and (o[2] != "int" or c > 100):
                        o = (o[0], "array", o[2])
                    lev = [[((a * j + i) % c) // group for j in range(c)] for i in range(n)]
                    rows = [[int((j * 3 + i * 5) % c < (dens if i % 2 == 0 else c - dens)) for j in range(c)] for i in range(n)]
                    w = [((i * 3) % 4) / 2. + .5 for i in range(n)] if k % 5 == 0 and n * c <= 60 else None
                    add(run_matrix, rows, lev, w, *o)
    ctx.notes["inputs"] = len(cases)

    def work(w):
        for i in range(w, len(cases), 8):
            fn, a = cases[i]
            ctx.case(fn, *a)
    ctx.fork_map(work, 8)
    ctx.stats.states = ctx.stats.evaluations
    ctx.stats.transitions = ctx.stats.evaluations
    ctx.stats.traces = ctx.stats.evaluations
