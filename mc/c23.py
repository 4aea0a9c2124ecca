"""C23: scaling, kernels, best-n, permutations and argument checks on every small input and every outcome of the shuffle."""
import itertools
import math
import warnings
from fractions import Fraction as Fr

import numpy as np
import scipy.sparse as sp

from mc.core import require, Violation
from mc import rng
from alipy.data_manipulate import minmax_scale, StandardScale
from alipy.utils import misc
from alipy.index import IndexCollection, MultiLabelIndexCollection

LEVEL = "model_checking"
RULE = ("exhaustive enumeration: all matrices of up to 4 x 1, 3 x 2 (thorough also 5 x 1, 4 x 2) entries over small value grids (negative, fractional, tied, huge, missing) "
        "in every container and integer width, every feature range; all vectors of up to 5 (thorough 6) values with every n; "
        "every range and count of randperm with all outcomes of the shuffle (uniformity counted); all argument tuples of up to 3 (thorough 4) arguments of 16 kinds; "
        "all small matrices for the kernels. Results are compared with the documented formulas in exact arithmetic")
ASSUMPTIONS = ("missing entries (NaN) stay missing and the others are scaled by the present entries",
               "a constant column is mapped to the lower bound by min-max scaling and to zero by standardisation")

warnings.simplefilter("ignore")


def close(a, b, tol=1e-9):
    a = float(a)
    b = float(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def snap(x):
    return x.copy() if isinstance(x, np.ndarray) else repr(x)


def unchanged(x, s, what):
    ok = (x.shape == s.shape and x.dtype == s.dtype and np.array_equal(x, s, equal_nan=x.dtype.kind == "f")) if isinstance(x, np.ndarray) else repr(x) == s
    require(ok, "arguments-changed", "%s changed its argument to %r" % (what, x))


def container(M, how):
    if how == "list":
        return [list(r) for r in M] if np.ndim(M) == 2 else list(M)
    if how == "F":
        return np.asfortranarray(np.array(M, dtype=float))
    if how in ("int8", "uint8", "int64", "bool", "float32"):
        return np.array(M, dtype=how)
    return np.array(M, dtype=float)


def columns(M):
    return list(zip(*M)) if np.ndim(M) == 2 else [tuple(M)]


def out_columns(out, M):
    out = np.asarray(out)
    require(out.shape == np.shape(M), "shape", "result of shape %r for %r" % (out.shape, M))
    return [tuple(c) for c in out.T] if out.ndim == 2 else [tuple(out)]


# ---------------------------------------------------------------- scaling
def run_minmax(M, rg, how):
    X = container(M, how)
    s = snap(X)
    out = minmax_scale(X) if rg is None else minmax_scale(X, feature_range=rg)
    unchanged(X, s, "minmax_scale")
    lo, hi = rg or (0, 1)
    tol = 1e-5 if how == "float32" else 1e-9
    for c, o in zip(columns(M), out_columns(out, M)):
        have = [Fr(v) for v in c if v == v]
        mn, mx = min(have), max(have)
        for v, r in zip(c, o):
            if v != v:
                require(r != r, "minmax-missing", "minmax_scale(%r): a missing entry became %r" % (M, r))
                continue
            require(math.isfinite(r), "minmax-finite", "minmax_scale(%r) contains %r" % (M, r))
            want = Fr(lo) if mn == mx else (Fr(v) - mn) / (mx - mn) * (Fr(hi) - Fr(lo)) + Fr(lo)
            require(close(r, want, tol), "minmax", "minmax_scale(%r, %r) as %s: %r becomes %r, not %s" % (M, rg, how, v, r, float(want)))
            require(lo - tol * max(1, abs(lo)) <= r <= hi + tol * max(1, abs(hi)), "minmax-range", "minmax_scale(%r, %r) contains %r" % (M, rg, r))
    return repr(np.asarray(out).tolist())


def run_standard(M, how):
    X = container(M, how)
    s = snap(X)
    out = StandardScale(X)
    unchanged(X, s, "StandardScale")
    tol = 1e-5 if how == "float32" else 1e-7
    for c, o in zip(columns(M), out_columns(out, M)):
        c = [Fr(v) for v in c]
        mean = sum(c) / len(c)
        var = sum((v - mean) ** 2 for v in c) / len(c)
        for v, r in zip(c, o):
            require(math.isfinite(r), "standard-finite", "StandardScale(%r) contains %r" % (M, r))
            if var == 0:
                require(abs(r) <= 1e-6 * max(1, abs(float(v))), "standard-constant", "StandardScale(%r): a constant column becomes %r" % (M, o))
            else:
                want = (v - mean) / var
                require(close(r, want, tol), "standard", "StandardScale(%r) as %s: %r becomes %r, not %s" % (M, how, float(v), r, float(want)))
    return repr(np.asarray(out).tolist())


def run_scale_refuse():
    for rg in ((1, 0), (1, 1), (0, -1), (0.5, 0.5)):
        try:
            out = minmax_scale([[1, 2], [3, 4]], feature_range=rg)
        except ValueError:
            continue
        raise Violation("minmax-range-accepted", "minmax_scale with range %r returned %r" % (rg, out))
    for fn in (minmax_scale, StandardScale):
        try:
            out = fn(sp.csr_matrix(np.eye(3)))
        except TypeError:
            continue
        raise Violation("sparse-accepted", "%s of a sparse matrix returned %r" % (fn.__name__, out))
    return "refused"


# ---------------------------------------------------------------- best n
def run_best(vals, how):
    a = list(vals) if how == "list" else np.array(vals)
    s = snap(a)
    m = len(vals)
    res = []
    for n in range(1, m + 3):
        for fn, rev in ((misc.nlargestarg, True), (misc.nsmallestarg, False)):
            got = np.asarray(fn(a, n))
            require(got.ndim == 1 and got.dtype.kind in "iu", "best-kind", "%s(%r, %d) returned %r" % (fn.__name__, vals, n, got))
            got = [int(v) for v in got]
            require(len(got) == min(n, m), "best-count", "%s(%r, %d) returned %r" % (fn.__name__, vals, n, got))
            require(len(set(got)) == len(got) and all(0 <= v < m for v in got), "best-positions", "%s(%r, %d) returned %r" % (fn.__name__, vals, n, got))
            want = sorted(vals, reverse=rev)[:n]
            require(sorted((vals[v] for v in got), reverse=rev) == want, "best-values",
                    "%s(%r, %d) returned positions %r of the values %r" % (fn.__name__, vals, n, got, [vals[v] for v in got]))
            res.append(sorted(got))
    for n in (0, -1):
        for fn in (misc.nlargestarg, misc.nsmallestarg):
            try:
                out = fn(a, n)
            except Exception:
                continue
            raise Violation("best-none", "%s(%r, %d) returned %r" % (fn.__name__, vals, n, out))
    unchanged(a, s, "nlargestarg/nsmallestarg")
    return res


# ---------------------------------------------------------------- permutations
def run_randperm(n, k):
    lo, hi = (n[0] or 0, n[1]) if isinstance(n, tuple) else (0, n)
    lo, hi = int(lo), int(hi)
    m = hi - lo + 1
    count = {}
    runs = 0
    for p in itertools.permutations(range(m)):
        def choice(a, size=None, replace=True, p=None, perm=p):
            a = np.arange(a) if isinstance(a, (int, np.integer)) else np.array(a)
            return a[list(perm)][:size]
        with rng.fixed_shuffle(p), rng.patched(choice=choice):
            out = misc.randperm(n) if k is None else misc.randperm(n, k)
        got = tuple(int(v) for v in out)
        runs += 1
        require(len(got) == (m if k is None else k), "perm-count", "randperm(%r, %r) returned %r" % (n, k, got))
        require(len(set(got)) == len(got), "perm-repeats", "randperm(%r, %r) returned %r" % (n, k, got))
        require(all(lo <= v <= hi for v in got), "perm-range", "randperm(%r, %r) returned %r" % (n, k, got))
        count[got] = count.get(got, 0) + 1
    total = math.factorial(m) // math.factorial(m - (m if k is None else int(k)))
    require(len(count) == total and len(set(count.values())) == 1, "perm-uniform",
            "randperm(%r, %r): %d different outcomes of %d, frequencies %r" % (n, k, len(count), total, sorted(set(count.values()))))
    return (len(count), runs)


def run_perm_refuse(n, k):
    try:
        out = misc.randperm(n, k)
    except (ValueError, TypeError):
        return "refused"
    raise Violation("perm-accepted", "randperm(%r, %r) returned %r" % (n, k, out))


# ---------------------------------------------------------------- argument checks
def kinds():
    """name -> (object, size, the single element or None)"""
    ic = {n: IndexCollection(list(range(5, 5 + n))) for n in range(3)}
    mi = {n: MultiLabelIndexCollection([(i, 1) for i in range(n)], label_size=2) for n in range(1, 3)}
    return [(None, None), (3, 1), ("ab", 1), ((1, 2), 1), (2.5, 1), ({}, 1), ([], 0), ([7], 1), ([1, 2], 2), ([[1, 2]], 1), (np.array([4]), 1),
            (np.array([1, 2]), 2), (np.array([[1, 2], [3, 4]]), 2), (ic[0], 0), (ic[1], 1), (ic[2], 2), (mi[1], 1), (mi[2], 2), ([1, 2, 3], 3)]


def run_checker(idx):
    ks = kinds()
    args = [ks[i][0] for i in idx]
    sizes = [ks[i][1] for i in idx if ks[i][1] is not None]
    want = len(set(sizes)) <= 1
    got = misc.check_one_to_one_correspondence(*args)
    require(bool(got) == want, "one-to-one", "check_one_to_one_correspondence%r returned %r" % (tuple(args), got))
    un = misc.unpack(*args)
    require(isinstance(un, tuple) and len(un) == len(args), "unpack", "unpack%r returned %r" % (tuple(args), un))
    for a, u in zip(args, un):
        if isinstance(a, (list, np.ndarray)) and len(a) == 1:
            require(u is a[0] or np.array_equal(u, a[0]), "unpack", "unpack of %r is %r" % (a, u))
        elif isinstance(a, (IndexCollection, MultiLabelIndexCollection)) and len(a) == 1:
            require(u == next(iter(a)), "unpack", "unpack of %r is %r" % (a, u))
        else:
            require(u is a, "unpack", "unpack of %r is %r" % (a, u))
    return want


def run_check_matrix(shape, how):
    n = 1
    for v in shape:
        n *= v
    a = np.arange(1, n + 1, dtype=float).reshape(shape)
    x = a.tolist() if how == "list" else sp.csr_matrix(a) if how == "sparse" else a
    try:
        out = misc.check_matrix(x)
    except (TypeError, ValueError):
        require(len(shape) != 2 and shape != (1,), "matrix-refused", "check_matrix of shape %r was refused" % (shape,))
        return "refused"
    require(len(shape) == 2 or shape == (1,), "matrix-accepted", "check_matrix of shape %r returned %r" % (shape, out))
    d = out.toarray() if sp.issparse(out) else np.asarray(out)
    require(d.ndim == 2 and np.array_equal(d, a.reshape(1, -1) if len(shape) == 1 else a), "matrix-values", "check_matrix(%r) returned %r" % (x, out))
    return "ok"


# ---------------------------------------------------------------- kernels
def run_kernel(M, how):
    X = sp.csr_matrix(np.array(M, dtype=float)) if how == "sparse" else container(M, how)
    s = snap(X)
    n = len(M)
    dot = [[sum(Fr(a) * Fr(b) for a, b in zip(M[i], M[j])) for j in range(n)] for i in range(n)]
    sq = [[dot[i][i] + dot[j][j] - 2 * dot[i][j] for j in range(n)] for i in range(n)]

    def compare(name, K, want):
        K = np.asarray(K)
        require(K.shape == (n, n), "kernel-shape", "%s of %r has shape %r" % (name, M, K.shape))
        for i in range(n):
            for j in range(n):
                require(close(K[i, j], want(i, j)), "kernel-" + name.split("(")[0],
                        "%s of %r as %s: entry %d,%d is %r, not %r" % (name, M, how, i, j, K[i, j], want(i, j)))

    for sigma in (None, 0.5, 2):
        K = misc.get_gaussian_kernel_mat(X) if sigma is None else misc.get_gaussian_kernel_mat(X, sigma=sigma)
        compare("gaussian(sigma=%r)" % sigma, K, lambda i, j: math.exp(-float(sq[i][j]) / (2 * (sigma or 1.0) ** 2)))
    if how != "sparse":
        compare("gaussian(unchecked)", misc.get_gaussian_kernel_mat(X, 1.0, False), lambda i, j: math.exp(-float(sq[i][j]) / 2))
    for g in (None, 0.5, 2.0):
        kw = {} if g is None else {"gamma": g}
        gg = g or 1.0
        compare("rbf(gamma=%r)" % g, misc.calc_kernel_matrix(X, "rbf", **kw), lambda i, j: math.exp(-gg * float(sq[i][j])))
        for d, c in ((None, None), (2, 0), (1, 0.5)):
            kw2 = dict(kw)
            if d is not None:
                kw2.update(degree=d, coef0=c)
            dd, cc = (3, 1) if d is None else (d, c)
            K = misc.calc_kernel_matrix(X, "poly", **kw2)
            compare("poly(%r)" % kw2, K.toarray() if sp.issparse(K) else K, lambda i, j: (gg * float(dot[i][j]) + cc) ** dd)
    K = misc.calc_kernel_matrix(X, "linear")
    compare("linear", K.toarray() if sp.issparse(K) else K, lambda i, j: float(dot[i][j]))
    if how != "sparse":
        compare("callable", misc.calc_kernel_matrix(X, lambda X, Y: 2 * X.dot(Y.T)), lambda i, j: 2 * float(dot[i][j]))
        unchanged(X, s, "kernel")
    try:
        misc.calc_kernel_matrix(X, "unknown")
    except Exception:
        return repr(dot)
    raise Violation("kernel-unknown", "an unknown kernel name was accepted")


def explore(ctx):
    q = ctx.tier == "quick"
    cases = []

    def add(fn, *a):
        cases.append((fn, a))

    nan = float("nan")
    ranges = (None, (0, 1), (-1, 1), (2, 5), (-0.5, -0.25), (-1e3, 1e3))
    k = 0
    dims = ((1, 1), (2, 1), (3, 1), (4, 1), (1, 2), (2, 2), (3, 2), (2, 3)) if q else ((1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (1, 2), (2, 2), (3, 2), (2, 3), (4, 2))
    for n, c in dims:
        for grid in ((-2, 0, 0.1, 3), (0, 1)) if n * c < 5 else ((-2, 0, 0.1),) if n * c < 7 else ((0, 0.1, 3),):
            for e in itertools.product(grid, repeat=n * c):
                M = [list(e[i * c:i * c + c]) for i in range(n)]
                for rg in ranges if n * c < 5 else ranges[k % 6:k % 6 + 1]:
                    k += 1
                    add(run_minmax, M, rg, ("array", "list", "F", "float32")[k % 4])
                add(run_standard, M, ("array", "list", "F")[k % 3])
    for n in (1, 2, 3):
        for e in itertools.product((-128, -1, 0, 127), repeat=n):
            for how in ("int8", "int64"):
                for rg in ranges:
                    add(run_minmax, [[v, 0] for v in e], rg, how)
                    add(run_minmax, list(e), rg, how)
                add(run_standard, [[v, 1] for v in e], how)
                add(run_standard, list(e), how)
        for e in itertools.product((0, 1, 200, 255), repeat=n):
            add(run_minmax, [[v, 3] for v in e], (-1, 1), "uint8")
            add(run_standard, [[v, 3] for v in e], "uint8")
        for e in itertools.product((0, 1), repeat=n):
            add(run_minmax, [[v, 1] for v in e], (-1, 1), "bool")
            add(run_standard, [[v, 1] for v in e], "bool")
        for e in itertools.product((0.1, 1e-3, 1e8, -1e8, 1 / 3.0), repeat=n):
            add(run_minmax, list(e), None, "array")
            add(run_standard, [[v, 0.1] for v in e], "array")
        for e in itertools.product((nan, -1.5, 0, 2), repeat=n):
            if any(v == v for v in e):
                for rg in ranges[1:3]:
                    add(run_minmax, [[v, 1] for v in e], rg, "array")
    # columns in very small and very large units beside an ordinary one
    for unit in (1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1e5, 1e12):
        for n in (2, 3):
            for e in itertools.product((-1, 0, 0.5, 2), repeat=n):
                for rg in ((0, 1), (-0.5, -0.25)):
                    k += 1
                    add(run_minmax, [[v * unit, i] for i, v in enumerate(e)], rg, ("array", "list", "F")[k % 3])
        for v in (1, -2):
            add(run_minmax, [[v * unit, i] for i in range(3)], (-1, 1), "array")
    for v in (0.1, 0.7, 1e-9, 1e9, -3.3, 1 / 3.0):
        for n in range(1, 12):
            add(run_standard, [[v, i] for i in range(n)], "array")
            add(run_minmax, [[v, i] for i in range(n)], (-1, 1), "array")
    add(run_scale_refuse)
    for n in range(1, 6 if q else 7):
        for e in itertools.product((0, 1, 2), repeat=n):
            add(run_best, e, ("list", "array")[sum(e) % 2])
        if n < 5:
            for e in itertools.product((float("-inf"), -0.5, 0.25, float("inf")), repeat=n):
                add(run_best, e, "array")
    for n in range(0, 5 if q else 6):
        for k in [None] + list(range(n + 2)):
            add(run_randperm, n, k)
            add(run_randperm, np.int64(n), k)
            add(run_randperm, (None, n), k)
            add(run_randperm, (3, 3 + n), k)
            add(run_randperm, (-1, n - 1), k)
            add(run_randperm, (np.int64(2), np.int64(2 + n)), k if k is None else np.int64(k))
        add(run_perm_refuse, n, n + 2)
        add(run_perm_refuse, (4, 4 + n), n + 2)
        add(run_perm_refuse, n, -1)
        add(run_perm_refuse, n, 1.0)
        add(run_perm_refuse, n, "1")
    for n in (1.5, "3", [0, 3], None):
        add(run_perm_refuse, n, None)
    K = len(kinds())
    for m in range(0, 4 if q else 5):
        for idx in itertools.product(range(K), repeat=m):
            if m == 4 and idx[0] > idx[3]:
                continue
            add(run_checker, idx)
    for shape in ((1,), (2,), (3,), (1, 1), (1, 2), (2, 1), (2, 3), (1, 2, 1), (2, 2, 2)):
        for how in ("list", "array") + (("sparse",) if len(shape) == 2 else ()):
            add(run_check_matrix, shape, how)
    for n, c in ((1, 1), (2, 1), (3, 1), (1, 2), (2, 2)) + (() if q else ((3, 2), (2, 3))):
        for e in itertools.product((-1, 0, 0.5, 2) if n * c < 5 else (-1, 0, 2), repeat=n * c):
            k = k + 1 if k else 1
            add(run_kernel, [list(e[i * c:i * c + c]) for i in range(n)], ("array", "list", "F", "sparse")[k % 4])
    for e in itertools.product((-100, 3, 20), repeat=2):
        add(run_kernel, [[v, 1] for v in e], "int64")
    for e in itertools.product((0, 20, 100), repeat=2):
        add(run_gauss_int, [[v, 1] for v in e])
    ctx.notes["inputs"] = len(cases)

    def work(w):
        for i in range(w, len(cases), 8):
            fn, a = cases[i]
            ctx.case(fn, *a)
    ctx.fork_map(work, 8)
    ctx.stats.states = ctx.stats.evaluations
    ctx.stats.transitions = ctx.stats.evaluations
    ctx.stats.traces = ctx.stats.evaluations


def run_gauss_int(M):
    """Small integer types: the squares do not fit."""
    K = misc.get_gaussian_kernel_mat(np.array(M, dtype=np.int8), sigma=50.0)
    for i, a in enumerate(M):
        for j, b in enumerate(M):
            d = sum((x - y) ** 2 for x, y in zip(a, b))
            require(close(K[i, j], math.exp(-d / 5000.0)), "kernel-gaussian", "gaussian kernel of int8 %r: %r, not %r" % (M, K[i, j], math.exp(-d / 5000.0)))
    return "ok"
