"""C03: every spelling of an entry set denotes the same entries (all masks of small shapes)."""
import itertools

import numpy as np
import scipy.sparse as sp

from mc.core import require, Violation
from mc.c02 import pl, expand
from alipy.index import MultiLabelIndexCollection, IndexCollection, map_whole_index_to_train
from alipy.index.index_collections import FeatureIndexCollection
from alipy.index.multi_label_tools import (integrate_multilabel_index, flattern_multilabel_index,
                                           get_Xy_in_multilabel, get_labelmatrix_in_multilabel,
                                           infer_label_size_multilabel)

LEVEL = "exploration"
RULE = ("every boolean mask of the listed shapes through every conversion path, both memory orders, every sparse format; "
        "every bounded list of index spellings for flatten / integrate / extraction; a case is distinct by its resulting entry set")
ASSUMPTIONS = ("shapes up to 3x3 (quick) / 3x4 and 4x3 (thorough)",)
FORMATS = ["bsr_matrix", "coo_matrix", "csc_matrix", "csr_matrix", "dia_matrix", "dok_matrix", "lil_matrix"]


def entries(mask):
    return {(i, j) for i, r in enumerate(mask) for j, v in enumerate(r) if v}


def as_set(c):
    items = [pl(x) for x in c]
    require(len(items) == len(set(items)), "duplicates", repr(items))
    return set(items)


def check_mask(m, want, shape, fill, where):
    d = np.asarray(m.todense()) if sp.issparse(m) else np.asarray(m)
    require(d.shape == shape, "mask-shape:" + where, str(d.shape))
    for i in range(shape[0]):
        for j in range(shape[1]):
            exp = fill if (i, j) in want else 0
            require(d[i, j] == exp, "mask-entry:" + where, lambda: "(%d,%d) is %r, expected %r, set %r" % (i, j, d[i, j], exp, sorted(want)))


def masks(mask, kind):
    """conversions between pairs, flat positions and masks"""
    I, L = len(mask), len(mask[0])
    want = entries(mask)
    cls = MultiLabelIndexCollection if kind == "ml" else FeatureIndexCollection
    order_pairs = sorted(want, key=lambda t: (t[1], -t[0]))
    mc = cls(order_pairs, L)
    require(as_set(mc) == want, "contents:pairs")
    # flat positions
    for order in ("C", "F"):
        exp = {i * L + j if order == "C" else i + j * I for i, j in want}
        got = mc.get_onedim_index(order=order, ins_num=I)
        require(len(got) == len(want) and {int(g) for g in got} == exp, "onedim:" + order, lambda: "%r expected %r" % (got, sorted(exp)))
        for arg in (sorted(exp), sorted(exp, reverse=True), np.array(sorted(exp), dtype=int), [np.int64(e) for e in sorted(exp)]):
            c = cls.construct_by_1d_array(arg, label_mat_shape=(I, L), order=order)
            require(as_set(c) == want, "from-1d:" + order, lambda: "%r -> %r" % (arg, sorted(as_set(c))))
            c.update((0,))
            require(as_set(c) == want | {(0, j) for j in range(L)}, "from-1d-size:" + order)
            require(isinstance(c, cls), "from-1d-class")
    expF = sorted(i + j * I for i, j in want)
    require(as_set(cls.construct_by_1d_array(expF, (I, L))) == want, "from-1d:default")
    require({int(g) for g in mc.get_onedim_index()} == {i * L + j for i, j in want}, "onedim:default")
    # element mask
    for arg in (np.array(mask), np.array(mask, dtype=bool), [list(r) for r in mask], np.array(mask, dtype=float)):
        c = cls.construct_by_element_mask(arg)
        require(as_set(c) == want, "from-mask", lambda: repr(sorted(as_set(c))))
        c.update((0,))
        require(as_set(c) == want | {(0, j) for j in range(L)}, "from-mask-size")
    # masks out, also into a larger matrix
    for shape in ((I, L), (I + 1, L + 2)):
        for fill in (1, True, 5, -2, 0.5):
            check_mask(mc.get_matrix_mask(shape, fill_value=fill, sparse=False), want, shape, fill, "dense")
        check_mask(mc.get_matrix_mask(shape, sparse=False), want, shape, 1, "dense-default")
        check_mask(mc.get_matrix_mask(shape), want, shape, 1, "sparse-default")
        for f in FORMATS:
            m = mc.get_matrix_mask(shape, fill_value=3, sparse=True, sparse_format=f)
            require(sp.issparse(m) and m.format == f[:3], "mask-format", lambda: "%s gives %r" % (f, type(m)))
            check_mask(m, want, shape, 3, "sparse-" + f)
    require(as_set(mc) == want, "source-changed")
    return tuple(sorted(want)), I, L, kind


def spellings(sp_, L, I):
    """flatten / integrate / extraction of one list of index spellings"""
    want = set()
    for s in sp_:
        want |= expand(s, L)
    arg = [s for s in sp_]
    fl = [pl(x) for x in flattern_multilabel_index(arg, L)]
    require(set(fl) == want, "flatten", lambda: "%r" % (fl,))
    require(arg == list(sp_), "argument-changed:flatten")
    for src in (arg, fl, MultiLabelIndexCollection(arg, L)):
        it = integrate_multilabel_index(src, L)
        ins = [pl(x[0]) for x in it]
        require(len(ins) == len(set(ins)), "integrate-duplicate-instance", repr(it))
        back = set()
        for x in it:
            back |= expand(pl(x) if len(x) == 1 else (pl(x[0]), tuple(pl(k) for k in x[1])), L)
            require((len(x) == 1) == all((pl(x[0]), j) in want for j in range(L)), "integrate-whole", lambda: repr(it))
        require(back == want, "integrate", lambda: "%r -> %r" % (src, it))
    # extraction
    X = np.array([[100. * i + k for k in range(2)] for i in range(I)])
    Y = np.array([[10 * i + j + 1 for j in range(L)] for i in range(I)])
    X0, Y0 = X.copy(), Y.copy()
    for unk in (0, -7):
        for src in (arg, fl, MultiLabelIndexCollection(arg, L)):
            for yy in (Y, Y.tolist()):
                mat, rows = get_labelmatrix_in_multilabel(src, yy, unknown_element=unk)
                check_extract(mat, rows, want, Y, unk, L, "labelmatrix")
            xs, mat, rows = get_Xy_in_multilabel(src, X, Y, unknown_element=unk)
            check_extract(mat, rows, want, Y, unk, L, "Xy")
            require(np.array_equal(np.asarray(xs), X[[int(r) for r in rows]]), "Xy-rows", lambda: "%r for rows %r" % (xs, rows))
    mat, rows = get_labelmatrix_in_multilabel(arg, Y)
    check_extract(mat, rows, want, Y, 0, L, "labelmatrix-default")
    if len(sp_) == 1:
        mat, rows = get_labelmatrix_in_multilabel(sp_[0], Y)
        check_extract(mat, rows, want, Y, 0, L, "labelmatrix-single")
    require(np.array_equal(X, X0) and np.array_equal(Y, Y0), "data-changed")
    return tuple(sorted(want))


def check_extract(mat, rows, want, Y, unk, L, where):
    mat = np.asarray(mat)
    rows = [int(r) for r in rows]
    require(sorted(rows) == sorted({i for i, _ in want}), "extract-rows:" + where, lambda: "%r for %r" % (rows, sorted(want)))
    require(mat.shape == (len(rows), L), "extract-shape:" + where, lambda: str(mat.shape))
    for k, i in enumerate(rows):
        for j in range(L):
            exp = Y[i, j] if (i, j) in want else unk
            require(mat[k, j] == exp, "extract-entry:" + where, lambda: "row %d label %d is %r expected %r" % (i, j, mat[k, j], exp))


def badspell(sp_, L):
    """Unusable spellings are errors, never silently a different set."""
    try:
        r = flattern_multilabel_index(list(sp_), L)
    except (TypeError, ValueError, AssertionError):
        return "rejected"
    raise Violation("bad-spelling-accepted", repr(r))


def mapping(train, sub, form, ml, L):
    """map_whole_index_to_train: position of every entry's instance in the training list"""
    tr = list(train) if form == "list" else (np.array(train) if form == "array" else IndexCollection(list(train)))
    seq = [pl(x) for x in tr]
    if ml:
        src = MultiLabelIndexCollection([(t, j) for t in sub for j in range(L) if (t + j) % 2 or t == sub[0]], L)
        want = {(seq.index(i), j) for i, j in as_set(src)}
        got = map_whole_index_to_train(tr, src)
        require(isinstance(got, MultiLabelIndexCollection), "map-type")
        require(as_set(got) == want, "map-multilabel", lambda: "%r -> %r, expected %r" % (sorted(as_set(src)), sorted(as_set(got)), sorted(want)))
        got.update((0,))
        require(as_set(got) == want | {(0, j) for j in range(L)}, "map-label-size", lambda: repr(sorted(as_set(got))))
    else:
        src = IndexCollection(list(sub))
        want = [seq.index(i) for i in sub]
        got = map_whole_index_to_train(tr, src)
        require(type(got) is IndexCollection, "map-type")
        require(sorted(pl(x) for x in got) == sorted(want), "map-index", lambda: "%r -> %r" % (sub, list(got)))
    require([pl(x) for x in tr] == seq, "train-changed")
    return tuple(sorted(map(repr, want)))


def map_missing(train, bad, ml):
    src = MultiLabelIndexCollection([(bad, 0), (train[0], 1)], 2) if ml else IndexCollection([train[0], bad])
    try:
        r = map_whole_index_to_train(np.array(train), src)
    except Exception:
        return "rejected"
    raise Violation("map-missing-accepted", repr(r))


def explore(ctx):
    q = ctx.quick
    shapes = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)] + ([] if q else [(3, 3), (1, 6), (2, 4), (4, 2), (3, 4)])
    cs = []
    for I, L in shapes:
        for bits in itertools.product((0, 1), repeat=I * L):
            m = tuple(tuple(bits[i * L:(i + 1) * L]) for i in range(I))
            cs.append((m, "ml"))
            if I * L <= 6:
                cs.append((m, "fea"))
    # a few full-size irregular masks (position arithmetic with large strides)
    for I, L, st in ((17, 11, 7), (11, 17, 5), (1, 130, 3), (130, 1, 3), (9, 9, 2)):
        cs.append((tuple(tuple(1 if (i * L + j) % st == 1 else 0 for j in range(L)) for i in range(I)), "ml"))
    ctx.parallel(masks, cs)
    I, L = 3, 3
    alpha = [(i, j) for i in (0, 2) for j in (0, 2)] + [(1, 1), (0,), (2,), (0, (0, 1)), (2, (2,)), (1, (2, 0)), (2, (0, 1, 2)), (0, [1, 2])]
    cs = []
    for k in (1, 2) if q else (1, 2, 3):
        for c in itertools.product(alpha, repeat=k):
            cs.append((list(c), L, I))
    ctx.parallel(spellings, cs)
    ctx.each(badspell, [([(0, 3)], 3), ([(0, -1)], 3), ([3], 3), ([(0, 1), 4], 3), ([[0, 1]], 3)])
    trains = [(231, 333, 423), (5, 2, 9, 0), (0, 1, 2, 3), (3, 2, 1, 0), (7,)]
    cs = []
    for t in trains:
        for n in range(1, len(t) + 1):
            for sub in itertools.permutations(t, n):
                for form in ("list", "array") + (("coll",)):
                    cs.append((t, sub, form, False, 0))
                    for L in (2, 3):
                        cs.append((t, sub, form, True, L))
    ctx.parallel(mapping, cs)
    ctx.each(map_missing, [(t, 77, ml) for t in trains for ml in (False, True)])
