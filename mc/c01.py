"""C01: IndexCollection against an ordered-set model, every operation history up to a depth."""
import copy
import itertools
import pickle

import numpy as np

from mc.core import require, Violation
from mc import rng
from alipy.index import IndexCollection

LEVEL = "model_checking"
RULE = ("breadth-first search over operation histories on a real container next to an ordered-set model; a history is "
        "non-trivial when it reaches a new (contents, order, element type) state or outcome; batches of every size up to 35 (and around powers "
        "of two) in every arrangement of repeated and known items")
ASSUMPTIONS = ("element order after construction is whatever the container reports; later additions are appended",
               "element universes of 3-4 values (small and large integers, pairs)")

INTS = [0, 7, 1000]
TUPS = [(0, 1), (1, 0), (0, 0)]


def plain(x):
    """Normalised element (numpy scalars -> python, tuples of numpy -> tuples)."""
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, tuple):
        return tuple(plain(i) for i in x)
    if isinstance(x, np.ndarray):
        raise Violation("element-changed-type", "element became %r" % (x,))
    return x


def observe(ic, model, universe, where):
    n = len(ic)
    it = [plain(x) for x in ic]
    require(it == model, "contents:" + where, lambda: "iteration %r, model %r" % (it, model))
    require(n == len(model), "len:" + where, lambda: "len %r, model %r" % (n, model))
    idx = ic.index
    require(isinstance(idx, list) and [plain(x) for x in idx] == model, "index:" + where, lambda: "%r vs %r" % (idx, model))
    for v in universe:
        require((v in ic) == (v in model), "contains:" + where, lambda: "%r in container: %r, model %r" % (v, v in ic, model))
    for i in range(n):
        require(plain(ic[i]) == model[i], "getitem:" + where, lambda: "[%d] = %r" % (i, ic[i]))
    if n:
        require(plain(ic[-1]) == model[-1], "getitem:" + where, "last")
        require([plain(x) for x in ic[:]] == model, "getitem-slice:" + where, "slice")
    # the list handed out is not the container's own
    idx.append("x")
    require(len(ic) == n, "index-aliased:" + where, "changing .index changed the container")


def as_arg(form, vals):
    if form == "list":
        return list(vals)
    if form == "npscalars":
        return [np.int64(v) for v in vals]
    if form == "array":
        return np.array(vals, dtype=int) if vals else np.array([], dtype=int)
    if form == "array32":
        return np.array(vals, dtype=np.int32)
    if form == "collection":
        return IndexCollection(list(vals))
    if form == "built":
        c = IndexCollection()
        for v in vals:
            c.add(v)
        return c
    if form == "one":
        return vals[0]
    if form == "np":
        return np.int64(vals[0])
    if form == "np32":
        return np.int32(vals[0])
    raise AssertionError(form)


def freeze(a):
    if isinstance(a, IndexCollection):
        return ("ic", tuple(plain(x) for x in a))
    if isinstance(a, np.ndarray):
        return ("nd", str(a.dtype), tuple(a.tolist()))
    if isinstance(a, list):
        return ("list", tuple((type(x).__name__, plain(x)) for x in a))
    return plain(a)


def history(hist):
    kind, init = hist[0][1], hist[0]
    universe = INTS + [3] if kind == "int" else TUPS + [(5, 5)]
    form, vals = init[2], list(init[3])
    if form == "none":
        ic = IndexCollection()
    else:
        arg = as_arg(form, vals)
        before = freeze(arg)
        ic = IndexCollection(arg)
        require(freeze(arg) == before, "argument-changed:init", form)
    first = [plain(x) for x in ic]
    require(len(first) == len(set(first)) and set(first) == set(vals), "contents:init", lambda: "%r from %r" % (first, vals))
    model = list(first)
    observe(ic, model, universe, "init")
    copies = []
    for op in hist[1:]:
        name = op[0]
        if name in ("add", "discard"):
            arg = as_arg(op[1], [op[2]])
            before = freeze(arg)
            r = getattr(ic, name)(arg)
            require(freeze(arg) == before, "argument-changed:" + name)
            require(r is ic, "return:" + name, "does not return the container")
            if name == "add" and op[2] not in model:
                model.append(op[2])
            if name == "discard" and op[2] in model:
                model.remove(op[2])
        elif name in ("update", "difference_update"):
            if op[1] == "self":
                vs = list(model)
                arg = ic
            else:
                vs = list(op[2])
                arg = as_arg(op[1], vs)
                if op[1] == "collection":
                    vs = [plain(x) for x in arg]
            before = freeze(arg)
            r = getattr(ic, name)(arg)
            if op[1] != "self":
                require(freeze(arg) == before, "argument-changed:" + name)
            require(r is ic, "return:" + name, "does not return the container")
            for v in vs:
                if name == "update":
                    if v not in model:
                        model.append(v)
                elif v in model:
                    model.remove(v)
        elif name == "pop":
            if model:
                v = plain(ic.pop())
                require(v in model, "pop", lambda: "popped %r from %r" % (v, model))
                model.remove(v)
            else:
                try:
                    v = ic.pop()
                except Exception:
                    pass
                else:
                    raise Violation("pop-empty", "pop on empty returned %r" % (v,))
        elif name == "bad":
            if model:   # an empty container accepts any type as its first element
                try:
                    ic.add(op[1])
                except TypeError:
                    pass
                else:
                    raise Violation("bad-type-accepted", repr(op[1]))
        elif name == "copy":
            copies.append((copy.deepcopy(ic), list(model)))
            copies.append((IndexCollection(ic), list(model)))
            copies.append((ic.index, list(model)))
            copies.append((pickle.loads(pickle.dumps(ic)), list(model)))
        elif name == "fork":
            # continue on a copy: the original must not be affected by the rest of the history
            orig = ic
            copies.append((orig, list(model)))
            ic = copy.deepcopy(ic) if op[1] == "deepcopy" else IndexCollection(ic)
        observe(ic, model, universe, name)
        for c, m in copies:
            got = [plain(x) for x in c]
            require(got == m, "copy-changed:" + name, lambda: "%r, was %r" % (got, m))
    return (kind, tuple(model), tuple(type(x).__name__ for x in ic), repr(getattr(ic, "_element_type", None)),
            len(copies) > 0)


def sampling(n, rate, prefix):
    """random_sampling for one outcome of the shuffle."""
    ic = IndexCollection([3 * i + 1 for i in range(n)])
    before = [plain(x) for x in ic]
    with rng.fixed_shuffle(prefix):
        s = ic.random_sampling(rate)
    got = [plain(x) for x in s]
    want = round(rate * n)
    require(len(got) == want and len(set(got)) == want, "sampling-size", lambda: "%r of %d at %r" % (got, n, rate))
    require(set(got) <= set(before), "sampling-subset", lambda: repr(got))
    require([plain(x) for x in ic] == before, "sampling-changes")
    return tuple(got)


def long_run(seed):
    """A long deterministic mixed history (size regimes the short histories do not reach)."""
    ic = IndexCollection(list(range(0, 300, 3)))
    model = [plain(x) for x in ic]
    x = seed
    for step in range(400):
        x = (x * 1103515245 + 12345) % (1 << 31)
        v = (x >> 8) % 320
        k = (x >> 4) % 5
        if k in (0, 1):
            ic.add(v)
            if v not in model:
                model.append(v)
        elif k == 2:
            ic.discard(v)
            if v in model:
                model.remove(v)
        elif k == 3:
            vs = [(v + 7 * j) % 320 for j in range(5)]
            ic.update(np.array(vs))
            for u in vs:
                if u not in model:
                    model.append(u)
        else:
            vs = [(v + 11 * j) % 320 for j in range(5)]
            ic.difference_update(IndexCollection(sorted(set(vs))))
            for u in vs:
                if u in model:
                    model.remove(u)
        got = [plain(i) for i in ic]
        require(got == model, "contents:long", lambda: "step %d: %r vs %r" % (step, got, model))
        require(len(ic) == len(model), "len:long", str(step))
    return tuple(model)


def sized(n, size, form, shape):
    """One batch of `size` items on a container of n: items twice in a row, again at the end, among those already there, out of order."""
    def val(k):
        return 5 * k + 2
    ic = IndexCollection([val(k) for k in range(n)])
    model = [plain(x) for x in ic]
    base = [val(n + (k * 7) % size) if size % 7 else val(n + k) for k in range(size)]
    batch = {"new": base, "twice": [v for v in base for _ in (0, 1)], "back": base + base[::-1], "half": [val(n - 1 - k) if k % 2 else v for k, v in enumerate(base)][:size],
             "last": base + base[:1], "mixed": [val(0)] + base + [base[size // 2], val(n - 1)], "old": [val(k % n) for k in range(size)],
             "down": base[::-1]}[shape]
    batch = [v for v in batch if v >= val(0)]
    for name, other in (("update", batch), ("difference_update", batch[1::2] + batch[1::4] + [val(9999)]), ("update", batch[::3] + batch[::-1]),
                        ("difference_update", batch)):
        if form in ("collection", "built"):
            other = list(dict.fromkeys(other))
        arg = as_arg(form, other)
        if form == "collection":
            other = [plain(x) for x in arg]
        before = freeze(arg)
        getattr(ic, name)(arg)
        require(freeze(arg) == before, "argument-changed:" + name)
        for v in other:
            if name == "update" and v not in model:
                model.append(v)
            elif name != "update" and v in model:
                model.remove(v)
        got = [plain(x) for x in ic]
        require(got == model, "contents:sized", lambda: "%s of %r: %r, model %r" % (name, other, got, model))
        require(len(ic) == len(model) and (val(n) in ic) == (val(n) in model), "len:sized")
    # the constructor over the same batch
    c = IndexCollection(as_arg(form, batch if form not in ("collection", "built") else list(dict.fromkeys(batch))))
    got = [plain(x) for x in c]
    require(sorted(got) == sorted(set(batch)), "contents:sized-init", lambda: "%r from %r" % (got, batch))
    return n, size, tuple(model)


def explore(ctx):
    q = ctx.quick
    for kind, U in (("int", INTS), ("tup", TUPS)):
        inits = [("init", kind, "none", ())]
        forms = ["list", "array", "collection", "npscalars", "built"] if kind == "int" else ["list", "built", "collection"]
        seqs = [(), (U[2],), (U[1], U[0]), (U[2], U[0], U[1]), (U[1], U[0], U[1])]
        for f in forms:
            for s in seqs:
                if not (f == "npscalars" and not s):
                    inits.append(("init", kind, f, s))
        inits.append(("init", kind, "one", (U[1],)))
        a = []
        for v in U:
            scal = ["one", "np", "np32"] if kind == "int" else ["one"]
            for sform in scal:
                a.append(("add", sform, v))
                a.append(("discard", sform, v))
        batch = ["list", "array", "collection", "npscalars", "array32"] if kind == "int" else ["list", "built", "collection"]
        for f in batch:
            for s in [(U[0], U[1]), (U[2], U[1], U[2]), (U[1],)]:
                a.append(("update", f, s))
                a.append(("difference_update", f, s))
        for name in ("update", "difference_update"):
            a += [(name, "self"), (name, "list", ()), (name, "one", (U[0],))]
        a += [("pop",), ("copy",), ("fork", "deepcopy"), ("fork", "ctor")]
        a += [("bad", x) for x in ((0.5, "s", (1, 2)) if kind == "int" else (3, "s", 0.5))]
        jobs = []
        for i in inits:
            jobs.append((lambda i=i: ctx.bfs(history, a, 3 if q else 5, prefix=[i]), ()))
        ctx.jobs(jobs)
    for n in range(2, 5 if q else 6):
        for rate in (0.3, 0.5, 0.66, 0.9):
            for perm in itertools.permutations(range(n)):
                ctx.case(sampling, n, rate, perm)
    sizes = list(range(1, 36)) + [48, 63, 64, 65, 66, 100, 128, 129] + ([] if q else list(range(36, 101)) + [255, 256, 257, 500, 512, 1000, 1025])
    ctx.parallel(sized, [(n, size, form, shape) for size in sizes for n in (1, 3, 20) + (() if q else (2, 40, 200))
                         for form in ("list", "array", "collection", "npscalars", "built")
                         for shape in ("new", "twice", "back", "half", "last", "mixed", "old", "down")])
    ctx.each(long_run, [(s,) for s in range(1, 4 if q else 40)])
