"""C14: every outcome of the shuffle gives a correct partition of the requested sizes."""
import itertools
import math

import numpy as np

from mc.core import require, Skip, Violation, Chooser, explore_choices
from mc import rng
from alipy.data_manipulate.al_split import split, split_multi_label, split_features

LEVEL = "model_checking"
RULE = ("stateless search over every outcome of the shuffles (all n! permutations of up to 5 instances, thorough 6; after a rejected "
        "draw all permutations again, up to three draws, then every permutation in turn) x all label vectors over up to three classes "
        "(all label matrices of up to 4 x 2 entries) x rate grid, for split (labels, names, gapped indexes, no labels), "
        "split_multi_label ({0,1} and {-1,1}) and split_features (every order of up to 6 entries, every entry subset beyond); "
        "sizes for all n <= 14 on the whole rate grid")
ASSUMPTIONS = ("a size that falls exactly between two integers may be rounded either way",
               "a label is covered by an initially labelled instance that has it (positive entry); labels no instance has cannot be covered")

RATES = [0, 0.05, 0.25, 0.3, 0.5, 0.6, 0.75, 0.9, 1]


def rounds(x):
    """Integers x may be rounded to."""
    f = math.floor(x)
    d = x - f
    if abs(d - 0.5) < 1e-9:
        return [f, f + 1]
    return [f] if d < 0.5 else [f + 1]


class Draws(object):
    """Supplies the permutations: the first `free` draws of each run are chosen, the others sweep all of them."""

    def __init__(self, ch, free, space=None):
        self.ch, self.free, self.space = ch, free, space
        self.n = 0
        self.sweep = 0

    def __call__(self, m):
        self.n += 1
        total = math.factorial(m)
        if self.n <= self.free:
            if self.space is not None:
                return self.space(self.ch, m)
            return rng.nth_permutation(m, self.ch(total))
        if self.space is not None:
            if self.n > self.free + 2000:
                raise Violation("never-ends", "no split accepted in 2000 further draws")
            self.sweep += 1
            s = self.sweep * 7919 % total
            return rng.nth_permutation(m, s)
        k = self.sweep % total
        self.sweep += 1
        if self.sweep > 3 * total + 20:
            raise Violation("never-ends", "every permutation was drawn three times and rejected")
        return rng.nth_permutation(m, k)


def check_parts(k, got, ids, t, r, all_rows):
    """train/test/label/unlabel of one fold, label/unlabel already as lists of instance ids."""
    train, test, lab, unl = got
    n = len(ids)
    require(sorted(list(train) + list(test)) == sorted(ids), "train-test",
            "fold %d: training %r and test %r are not a partition of %r" % (k, train, test, ids))
    require(len(train) in rounds((1 - t) * n), "train-size", "%d training instances of %d, test_ratio %r" % (len(train), n, t))
    require(sorted(list(lab) + list(unl)) == sorted(train), "label-unlabel",
            "fold %d: labelled %r and unlabelled %r are not a partition of %r" % (k, lab, unl, train))
    if all_rows:
        want = [min(max(1, s), len(train)) for s in rounds(r * len(train))]
        require(len(lab) in want, "label-size", "%d labelled of %d training instances, initial_label_rate %r" % (len(lab), len(train), r))


def sizes(n, t, r):
    """Possible numbers of initially labelled instances."""
    return [min(max(1, s), tr) for tr in rounds((1 - t) * n) for s in rounds(r * tr)]


def ids_of(kind, n):
    if kind == "names":
        return ["img%d.png" % (n - i) for i in range(n)]
    if kind == "gap":
        return [3 * i + 10 for i in range(n)]
    if kind == "rot":
        return [(i + 1) % n for i in range(n)]
    return None


def plain(x):
    return [v.item() if isinstance(v, np.generic) else v for v in x]


def run_split(n, y, ids, t, r, all_class, count, free, with_x, forms):
    """All shuffle outcomes of split."""
    runs = [0]
    accepted = set()

    def one(ch):
        runs[0] += 1
        X = np.arange(2.0 * n).reshape(n, 2) if with_x else None
        yy = y if y is None or forms == "list" else np.array(y)
        given = ids_of(ids, n)
        arg = given if given is None or forms == "list" else np.array(given)
        keep = (None if yy is None else np.array(yy).copy(), None if arg is None else np.array(arg).copy())
        names = given if given is not None else list(range(n))
        draws = Draws(ch, free)
        try:
            with rng.chosen_shuffle(draws):
                out = split(X=X, y=yy, instance_indexes=arg, test_ratio=t, initial_label_rate=r, split_count=count,
                            all_class=all_class, saving_path=None)
        except ValueError:
            if all_class and y is not None and min(sizes(n, t, r)) < len(set(y)):
                accepted.add("refused")
                return
            raise
        require(keep[0] is None or np.array_equal(keep[0], np.array(yy)), "arguments", "y changed")
        require(keep[1] is None or np.array_equal(keep[1], np.array(arg)), "arguments", "instance_indexes changed")
        require(len(out) == 4 and all(len(o) == count for o in out), "count", "not %d folds" % count)
        for k in range(count):
            tr, te, la, un = [plain(o[k]) for o in out]
            check_parts(k, (tr, te, la, un), names, t, r, True)
            if all_class and y is not None:
                got = set(y[names.index(i)] for i in la)
                require(got == set(y), "all-class", "labels %r, initially labelled %r have only %r" % (y, la, sorted(got)))
            accepted.add((tuple(tr), tuple(la)))
        if draws.n > draws.free:
            accepted.add("retried")
    explore_choices(one)
    return runs[0], len(accepted)


def run_multi(y, t, r, all_class, count, free, how):
    """All shuffle outcomes of split_multi_label; y is a matrix, how: y / shape / both."""
    n, L = len(y), len(y[0])
    runs = [0]
    accepted = set()

    def one(ch):
        runs[0] += 1
        yy = np.array(y)
        draws = Draws(ch, free)
        try:
            with rng.chosen_shuffle(draws):
                out = split_multi_label(y=None if how == "shape" else yy, label_shape=(n, L) if how != "y" else None, test_ratio=t,
                                        initial_label_rate=r, split_count=count, all_class=all_class, saving_path=None)
        except ValueError:
            if all_class and how != "shape" and min(sizes(n, t, r)) < L:
                accepted.add("refused")
                return
            raise
        require(np.array_equal(yy, np.array(y)), "arguments", "y changed")
        require(len(out) == 4 and all(len(o) == count for o in out), "count", "not %d folds" % count)
        for k in range(count):
            tr, te = plain(out[0][k]), plain(out[1][k])
            for o in (out[2][k], out[3][k]):
                require(all(isinstance(i, tuple) and len(i) == 1 for i in o), "form", "entries %r are not 1-tuples" % (o,))
            la, un = [int(i[0]) for i in out[2][k]], [int(i[0]) for i in out[3][k]]
            check_parts(k, (tr, te, la, un), list(range(n)), t, r, True)
            if all_class and how != "shape":
                for j in range(L):
                    if any(y[i][j] > 0 for i in range(n)):
                        require(any(y[i][j] > 0 for i in la), "all-class",
                                "label %d has no initially labelled instance: y %r labelled %r" % (j, y, la))
            accepted.add((tuple(tr), tuple(la)))
    explore_choices(one)
    return runs[0], len(accepted)


def run_feat(n, F, t, miss, all_f, count, free, how, space):
    """All shuffle outcomes of split_features."""
    runs = [0]
    accepted = set()
    X = np.arange(float(n * F)).reshape(n, F)

    def choose_space(ch, m):
        if space == "all" or m == n:
            if space == "entries" and m == n and m != 1:
                return list(range(m))[::-1] if m % 2 else list(range(m))
            return rng.nth_permutation(m, ch(math.factorial(m)))
        k = int(round((1 - miss) * m))
        combos = COMB.setdefault((m, k), list(itertools.combinations(range(m), k)))
        c = combos[ch(len(combos))]
        return list(c) + [i for i in range(m) if i not in c]

    def one(ch):
        runs[0] += 1
        mat = X.copy()
        draws = Draws(ch, free, choose_space)
        try:
            with rng.chosen_shuffle(draws):
                out = split_features(feature_matrix=None if how == "shape" else mat, feature_matrix_shape=(n, F) if how != "y" else None,
                                     test_ratio=t, missing_rate=miss, split_count=count, all_features=all_f, saving_path=None)
        except ValueError:
            if all_f and min(s for tr in rounds((1 - t) * n) for s in rounds((1 - miss) * tr)) < F:
                accepted.add("refused")
                return
            raise
        require(np.array_equal(mat, X), "arguments", "features changed")
        for k in range(count):
            tr, te = plain(out[0][k]), plain(out[1][k])
            check_parts(k, (tr, te, tr, []), list(range(n)), t, 1, False)
            for o in (out[2][k], out[3][k]):
                require(all(isinstance(i, tuple) and len(i) == 2 for i in o), "form", "entries %r are not pairs" % (o,))
            la = [(int(a), int(b)) for a, b in out[2][k]]
            un = [(int(a), int(b)) for a, b in out[3][k]]
            require(sorted(la + un) == sorted((i, f) for i in tr for f in range(F)), "entries",
                    "observed %r and missing %r are not a partition of the training entries of %r" % (la, un, tr))
            require(len(la) in rounds((1 - miss) * len(tr) * F), "observed-size",
                    "%d of %d entries observed, missing_rate %r" % (len(la), len(tr) * F, miss))
            if all_f:
                require(set(b for _, b in la) == set(range(F)), "all-features", "observed entries %r miss a feature" % (la,))
            accepted.add((tuple(tr), tuple(sorted(la))))
    explore_choices(one)
    return runs[0], len(accepted)


COMB = {}


def run_refuse():
    """Arguments that cannot be split are refused."""
    for f in (lambda: split(saving_path=None), lambda: split_multi_label(saving_path=None), lambda: split_features(saving_path=None)):
        try:
            f()
        except Exception as e:
            require(not isinstance(e, Violation), "refuse", "")
            continue
        raise Violation("refuse", "nothing given, but a split returned")
    for kw in (dict(X=np.zeros((3, 2)), y=[0, 1]), dict(y=[0, 1, 1], instance_indexes=["a", "b"]),
               dict(X=np.zeros((3, 2)), y=[0, 1, 1], instance_indexes=[1, 2, 3, 4])):
        try:
            split(saving_path=None, all_class=False, **kw)
        except ValueError:
            continue
        raise Violation("refuse", "different lengths accepted: %r" % (kw,))
    return True


def vectors(n, alphabet):
    return [list(v) for v in itertools.product(alphabet, repeat=n)]


def canon(n, alphabet):
    """Label vectors up to renaming of the classes (first occurrences in alphabet order)."""
    out = []
    for v in itertools.product(range(len(alphabet)), repeat=n):
        top = -1
        ok = True
        for x in v:
            if x > top + 1:
                ok = False
                break
            top = max(top, x)
        if ok:
            out.append([alphabet[x] for x in v])
    return out


def explore(ctx):
    q = ctx.quick
    jobs = []
    S, M, Fe = [], [], []
    # split: all label vectors, all shuffles
    for n in (2, 3, 4) if q else (2, 3, 4, 5):
        for alpha in ([0, 1, 2], [1, -1], ["b", "a"], [2.5, 1.0, 7.0]) if n <= 4 else ([0, 1, 2],):
            if not (alpha in ([0, 1, 2], [1, -1])) and n > 3:
                continue
            for y in vectors(n, alpha) if n <= 3 else canon(n, alpha):
                for t in (0, 0.25, 0.5):
                    for r in (0.5, 0.75, 1) if n > 2 else (0.5, 1):
                        S.append((n, y, None, t, r, True, 1, 2, n % 2 == 0, "arr"))
    for n in (3, 4):
        for ids in ("names", "gap", "rot"):
            for y in canon(n, [0, 1, 2]):
                for t in (0, 0.3):
                    for r in (0.6, 0.75):
                        S.append((n, y, ids, t, r, True, 1, 2, ids == "rot", "list" if r == 0.6 else "arr"))
            S.append((n, None, ids, 0.3, 0.5, True, 1, 1, False, "list"))
            S.append((n, None, ids, 0.3, 0.5, False, 2, 2, True, "arr"))
    for n in (1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6):
        for t in RATES:
            for r in (0.05, 0.3, 0.5, 1):
                S.append((n, None, None, t, r, False, 1, 1, True, "arr"))
                S.append((n, [0] * n, None, t, r, False, 1, 1, False, "list"))
    for n in (5,) if q else (5, 6):
        for y in canon(n, [0, 1, 2]):
            S.append((n, y, None, 0.3, 0.75, True, 1, 1, True, "arr"))
            S.append((n, y, None, 0.2, 0.6, True, 1, 1, True, "arr"))
    for y in canon(3, [0, 1]):
        S.append((3, y, None, 0, 0.75, True, 3, 3, False, "arr"))
    for n in range(2, 15):
        for t in RATES:
            for r in RATES:
                S.append((n, None, None, t, r, False, 1, 0, True, "arr"))
                S.append((n, [i % 2 for i in range(n)], None, t, r, True, 1, 0, True, "arr"))
                M.append(([[i % 2, 1] for i in range(n)], t, r, False, 1, 0, "y"))
                M.append(([[i % 2, 1] for i in range(n)], t, r, True, 1, 0, "both"))
                Fe.append((n, 3, t, 1 - r, False, 1, 0, "y", "entries"))
    # multi-label
    for n, L in ((2, 2), (3, 2), (4, 2), (4, 3), (3, 1)) if q else ((2, 2), (3, 2), (4, 2), (4, 3), (5, 2), (3, 1)):
        cols = list(itertools.product((0, 1), repeat=n))
        for cs in itertools.combinations_with_replacement(cols, L):
            y = [list(row) for row in zip(*cs)]
            if L == 3 and q and sum(map(sum, y)) > 5:
                continue
            for t, r in ((0, 0.75), (0.25, 0.75), (0, 1)) if n < 5 and L < 3 else ((0, 0.75),):
                M.append((y, t, r, True, 1, 2 if n < 4 else 1, "y"))
                if n < 4:
                    M.append(([[2 * v - 1 for v in row] for row in y], t, r, True, 1, 2, "both"))
    for n in (2, 3, 4):
        for t in (0, 0.3, 0.5):
            for r in (0.3, 0.75):
                M.append(([[1, 0]] * n, t, r, False, 1, 1, "y"))
                M.append(([[1, 0]] * n, t, r, True, 1, 1, "shape"))
                M.append(([[1, 0]] * n, t, r, False, 2, 2, "shape" if n < 4 else "both"))
    # features: order of all entries / all entry subsets
    for n, F in ((2, 2), (3, 2), (2, 3)):
        for t in (0, 0.3, 0.5):
            for miss in (0, 0.25, 0.5, 0.75, 1):
                for af in (True, False):
                    if math.factorial(n) * math.factorial(n * F) > 5000 and not (t == 0.3 or miss in (0.25, 0.5)):
                        continue
                    Fe.append((n, F, t, miss, af, 1, 2, "y", "all"))
    for n, F in ((3, 3), (4, 2), (5, 2)):
        for t in (0, 0.3):
            for miss in (0.1, 0.25, 0.5, 0.75):
                for af in (True, False):
                    for how in ("y", "shape") if F == 3 else ("both",):
                        Fe.append((n, F, t, miss, af, 1, 4 if af and n < 5 else 2, how, "entries"))
    Fe.append((2, 2, 0, 0.25, True, 2, 4, "y", "entries"))
    # large data: one order each (near the identity, which covers every class), the arithmetic of the sizes and the entries is checked
    for n in (17, 20, 33, 64, 100, 150, 257) + (() if q else (400, 512, 600, 1000)):
        for t, r in ((0, 0.5), (0.3, 0.05), (0.3, 0.4), (0.5, 0.125), (0.1, 1), (0.9, 0.3)):
            for ids in (None, "names", "gap"):
                S.append((n, None, ids, t, r, False, 1 + n % 2, 0, ids is None, "arr"))
            for C in (2, 9, 11, 13, 30):
                S.append((n, [i % C for i in range(n)], "names" if C == 9 else None, t, r, True, 1, 0, True, "arr"))
                S.append((n, [(0 if i >= C - 1 and C < 13 else i % C) for i in range(n)], None, t, r, True, 1, 0, False, "list" if C == 11 else "arr"))
                if n <= 100 or C == 11:
                    M.append(([[int(i % C == j) for j in range(C)] for i in range(n)], t, r, True, 1, 0, "y"))
                    M.append(([[int(i % C == j) for j in range(C)] for i in range(n)], t, r, False, 2, 0, "shape" if C == 9 else "both"))
            for F in (3, 7, 12):
                Fe.append((n, F, t, 1 - r, False, 1, 0, "y", "entries"))
                if n <= 64:
                    Fe.append((n, F, t, 1 - r, True, 2, 0, "shape", "entries"))
    ctx.case(run_refuse)
    import random
    random.Random(1).shuffle(S)
    random.Random(1).shuffle(M)
    random.Random(1).shuffle(Fe)
    for fn, args in ((run_split, S), (run_multi, M), (run_feat, Fe)):
        def work(w, fn=fn, args=args):
            for a in args[w::8]:
                res = ctx.case(fn, *a)
                if res:
                    ctx.stats.transitions += res[0]
                    ctx.stats.traces += res[0]
                    ctx.stats.states += res[1]
        ctx.fork_map(work, 8)
    ctx.notes["configurations"] = len(S) + len(M) + len(Fe)
