"""C02: MultiLabelIndexCollection / FeatureIndexCollection against a set-of-pairs model."""
import copy
import itertools
import pickle

import numpy as np

from mc.core import require, Violation
from alipy.index import MultiLabelIndexCollection
from alipy.index.index_collections import FeatureIndexCollection, IndexCollection

LEVEL = "model_checking"
RULE = ("breadth-first search over operation histories on a real pair container next to a set-of-pairs model, every "
        "spelling of an index; distinct outcomes are distinct (contents, label count) states")
ASSUMPTIONS = ("instance x label grids of 2x2, 2x3 and 3x2; iteration order of the container is not constrained",)


def pl(x):
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, tuple):
        return tuple(pl(i) for i in x)
    return x


def expand(spelling, L):
    """set of pairs denoted by one spelled index; labels outside the range denote nothing."""
    if len(spelling) == 1:
        return {(spelling[0], j) for j in range(L)}
    labs = spelling[1]
    if isinstance(labs, (tuple, list)):
        return {(spelling[0], j) for j in labs if 0 <= j < L}
    return {(spelling[0], labs)} if 0 <= labs < L else set()


def observe(mc, model, I, L, where):
    items = [pl(x) for x in mc]
    for it in items:
        require(isinstance(it, tuple) and len(it) == 2 and all(isinstance(k, int) for k in it),
                "element-form:" + where, lambda: "stored element %r" % (it,))
    require(len(items) == len(set(items)), "duplicates:" + where, lambda: repr(items))
    require(set(items) == model, "contents:" + where, lambda: "%r, model %r" % (sorted(items), sorted(model)))
    require(len(mc) == len(model), "len:" + where, lambda: "%r vs %r" % (len(mc), len(model)))
    idx = mc.index
    require(sorted(pl(x) for x in idx) == sorted(model), "index:" + where, lambda: repr(idx))
    for i in range(I + 1):
        for j in range(-1, L + 1):
            require(((i, j) in mc) == ((i, j) in model), "contains:" + where, lambda: "(%d,%d)" % (i, j))
    ins = [pl(x) for x in mc.get_instance_index()]
    require(sorted(ins) == sorted({i for i, _ in model}), "get_instance_index:" + where, lambda: repr(ins))
    if True:
        full = [pl(x) for x in mc.get_unbroken_instances()]
        part = [pl(x) for x in mc.get_break_instances()]
        cnt = {i: sum(1 for a, _ in model if a == i) for i, _ in model}
        require(sorted(full) == sorted(i for i in cnt if cnt[i] == L), "get_unbroken_instances:" + where, lambda: "%r of %r" % (full, sorted(model)))
        require(sorted(part) == sorted(i for i in cnt if cnt[i] < L), "get_break_instances:" + where, lambda: "%r of %r" % (part, sorted(model)))
    idx.append((99, 99))
    require(len(mc) == len(model), "index-aliased:" + where)


def make(kind, data, L):
    if kind == "ml":
        return MultiLabelIndexCollection(data, label_size=L)
    return FeatureIndexCollection(data, feature_size=L)


def to_arg(form, spell, kind, L):
    if form == "list":
        return list(spell)
    if form == "coll":
        return make(kind, list(spell), L)
    if form == "np":
        return [tuple(np.int64(k) if isinstance(k, int) else tuple(np.int64(z) for z in k) for k in s) for s in spell]
    if form == "objarray":
        a = np.empty(len(spell), dtype=object)
        for i, s in enumerate(spell):
            a[i] = s
        return a
    raise AssertionError(form)


def frz(a):
    if isinstance(a, MultiLabelIndexCollection):
        return sorted(pl(x) for x in a)
    if isinstance(a, np.ndarray):
        return [repr(x) for x in a]
    return repr(a)


def history(hist):
    _, kind, I, L, form, spell = hist[0]
    if form == "none":
        mc = make(kind, None, L)
        model = set()
    else:
        arg = to_arg(form, spell, kind, L)
        b = frz(arg)
        mc = make(kind, arg, L)
        require(frz(arg) == b, "argument-changed:init")
        model = set()
        for s in spell:
            model |= expand(s, L)
    observe(mc, model, I, L, "init")
    copies = []
    for op in hist[1:]:
        name = op[0]
        if name in ("add", "discard"):
            v = op[1]
            ok = len(v) == 1 or isinstance(v[1], (tuple, list)) or 0 <= v[1] < L
            tupbad = len(v) == 2 and isinstance(v[1], (tuple, list)) and any(not 0 <= k < L for k in v[1])
            try:
                r = getattr(mc, name)(v)
                if name == "add":
                    require(ok, "out-of-bound-accepted:add", repr(v))
                    model |= expand(v, L)
                else:
                    model -= expand(v, L)
                require(r is mc, "return:" + name)
            except (ValueError, AssertionError):
                require(not ok or tupbad, "rejected:" + name, repr(v))
        elif name in ("update", "difference_update"):
            if op[1] == "self":
                arg, denotes = mc, set(model)
            elif op[1] == "tuple":
                arg, denotes = op[2], expand(op[2], L)
            else:
                arg = to_arg(op[1], op[2], kind, L)
                denotes = set()
                for s in op[2]:
                    denotes |= expand(s, L)
            b = frz(arg)
            r = getattr(mc, name)(arg)
            if op[1] != "self":
                require(frz(arg) == b, "argument-changed:" + name)
            require(r is mc, "return:" + name)
            model = model | denotes if name == "update" else model - denotes
        elif name == "badupdate":
            # contains a label outside the range: whatever happens, nothing outside the range is stored
            # and the container ends as the set before or with the valid pairs added
            valid = set()
            for s in op[1]:
                valid |= expand(s, L)
            try:
                mc.update(list(op[1]))
            except (ValueError, AssertionError):
                pass
            got = {pl(x) for x in mc}
            require(model <= got <= (model | valid), "out-of-bound-accepted:update", lambda: repr(sorted(got)))
            model = got
        elif name == "badtype":
            try:
                mc.update(op[1]) if op[2] == "update" else mc.add(op[1])
            except (TypeError, AssertionError, ValueError):
                pass
            else:
                raise Violation("bad-type-accepted", repr(op[1]))
        elif name == "copy":
            copies.append((copy.deepcopy(mc), set(model)))
            copies.append((make(kind, mc, None), set(model)))
            copies.append((pickle.loads(pickle.dumps(mc)), set(model)))
        elif name == "fork":
            copies.append((mc, set(model)))
            mc = {"deepcopy": copy.deepcopy, "ctor": lambda m: make(kind, m, None),
                  "pickle": lambda m: pickle.loads(pickle.dumps(m))}[op[1]](mc)
        elif name == "pop":
            if model:
                v = pl(mc.pop())
                require(v in model, "pop", repr(v))
                model = model - {v}
        observe(mc, model, I, L, name)
        for c, m in copies:
            require({pl(x) for x in c} == m and len(c) == len(m), "copy-changed:" + name, lambda: "%r was %r" % (sorted(c), sorted(m)))
    return (kind, I, L, tuple(sorted(model)), len(copies) > 0,
            tuple(sorted({type(x).__name__ for t in mc for x in t})))


def alphabet(I, L):
    tl = tuple(range(L))
    sp = [(i, j) for i in range(I) for j in range(L)] + [(i,) for i in range(I)]
    sp += [(0, (0, 1)), (I - 1, tl), (1, (L - 1,)), (1, [0, L - 1]), (0, (1, L))]
    bad = [(0, L), (1, -1), (0, L + 5)]
    a = []
    for s in sp + bad:
        a += [("add", s), ("discard", s)]
    for s in [(0, 1), (1,), (0, (0, 1)), (1, [0, 1])]:
        for n in ("update", "difference_update"):
            a += [(n, "tuple", s)]
    batches = [[(0, 0), (1, 1)], [(0,), (1, 0)], [(0, (0, 1)), (0, 1)], [(I - 1, L - 1)]]
    for b in batches:
        for n in ("update", "difference_update"):
            a += [(n, "list", b), (n, "np", b)]
            if b is batches[0] or b is batches[1]:
                a += [(n, "coll", b), (n, "objarray", b)]
    for n in ("update", "difference_update"):
        a += [(n, "self"), (n, "list", [])]
    a += [("badupdate", [(0, 0), (1, L)]), ("badupdate", [(1, -1), (0, 1)]), ("badupdate", [(1, (0, L))])]
    a += [("badtype", {1: 1}, "update"), ("badtype", [0, 1], "add"), ("badtype", (0, 1, 2), "add"), ("badtype", 3, "update")]
    a += [("copy",), ("fork", "deepcopy"), ("fork", "ctor"), ("fork", "pickle"), ("pop",)]
    return a


def wide(kind, L, seed):
    """One long history on a wide label space."""
    mc = make(kind, [(0, 1)], L)
    model = {(0, 1)}
    x = seed
    for step in range(150):
        x = (x * 1103515245 + 12345) % (1 << 31)
        i, j, k = (x >> 7) % 40, (x >> 13) % L, (x >> 3) % 6
        if k == 0:
            mc.add((i, j)); model.add((i, j))
        elif k == 1:
            mc.discard((i, j)); model.discard((i, j))
        elif k == 2:
            mc.update([(i,), (i + 1, j)]); model |= expand((i,), L) | {(i + 1, j)}
        elif k == 3:
            mc.difference_update([(i, tuple(range(j)) or (0,))]); model -= expand((i, tuple(range(j)) or (0,)), L)
        elif k == 4:
            mc.update((i, (j, L - 1))); model |= {(i, j), (i, L - 1)}
        else:
            mc.difference_update((i,)); model -= expand((i,), L)
        require({pl(t) for t in mc} == model, "contents:wide", "step %d" % step)
        cnt = {}
        for a, _ in model:
            cnt[a] = cnt.get(a, 0) + 1
        require(sorted(pl(t) for t in mc.get_unbroken_instances()) == sorted(a for a in cnt if cnt[a] == L), "get_unbroken_instances:wide")
        require(sorted(pl(t) for t in mc.get_break_instances()) == sorted(a for a in cnt if cnt[a] < L), "get_break_instances:wide")
    return len(model), L


def sized(kind, n, size, form, shape):
    """One batch of `size` pairs on a container with n whole instances: repeats, whole instances between pairs, known pairs."""
    L = 4
    mc = make(kind, [(i,) for i in range(n)] or None, L)
    model = {(i, j) for i in range(n) for j in range(L)}
    base = [(n + (k * 3) % size, (k * 7 + k // 4) % L) for k in range(size)]
    batch = {"new": base, "twice": [b for b in base for _ in (0, 1)], "back": base + base[::-1], "last": base + base[:1],
             "whole": [x for b in base for x in (b, (b[0],))][::2] + [base[0], (base[0][0],)], "old": base + [(0, 1), (n - 1, 2)] if n else base,
             "sets": [(b[0], (b[1], (b[1] + 1) % L)) for b in base]}[shape]
    for name, other in (("update", batch), ("difference_update", batch[1::2] + batch[1::4] + [(9999, 0)]), ("update", batch[::3] + batch[::-1]),
                        ("difference_update", batch)):
        arg = to_arg(form, list(dict.fromkeys(other)) if form == "coll" else other, kind, L)
        b = frz(arg)
        getattr(mc, name)(arg)
        require(frz(arg) == b, "argument-changed:" + name)
        denotes = set()
        for x in other:
            denotes |= expand(x, L)
        model = model | denotes if name == "update" else model - denotes
        got = [pl(x) for x in mc]
        require(len(got) == len(mc) == len(set(got)) and set(got) == model, "contents:sized",
                lambda: "%s of %r: %r, model %r" % (name, other, sorted(got), sorted(model)))
        cnt = {}
        for a, _ in model:
            cnt[a] = cnt.get(a, 0) + 1
        require(sorted(pl(t) for t in mc.get_unbroken_instances()) == sorted(a for a in cnt if cnt[a] == L), "get_unbroken_instances:sized")
        require(sorted(pl(t) for t in mc.get_instance_index()) == sorted(cnt), "get_instance_index:sized")
    return kind, n, tuple(sorted(model))


def infer(entries):
    """Label count inferred from the data when not given: the largest label present, plus one."""
    mc = MultiLabelIndexCollection(list(entries))
    L = max(j for _, j in entries) + 1
    require({pl(t) for t in mc} == set(entries), "contents:infer")
    mc.update((5,))
    require({pl(t) for t in mc} == set(entries) | {(5, j) for j in range(L)}, "label-size:infer", lambda: repr(sorted(mc)))
    try:
        mc.add((0, L))
    except (ValueError, AssertionError):
        pass
    else:
        raise Violation("out-of-bound-accepted:infer")
    return tuple(sorted(entries)), L


def badinit(kind, form, spell, I, L):
    """Construction from data naming a label outside the range: refused, or nothing outside the range is stored."""
    valid = set()
    for s in spell:
        valid |= expand(s, L)
    try:
        mc = make(kind, to_arg(form, spell, kind, L), L)
    except Exception as e:
        require(type(e) in (ValueError, AssertionError, Exception), "exception:init", repr(e))
        return "refused"
    got = {pl(x) for x in mc}
    require(got <= valid, "out-of-bound-accepted:init", lambda: repr(sorted(got)))
    return tuple(sorted(got))


def explore(ctx):
    q = ctx.quick
    jobs = []
    for kind in ("ml", "fea"):
        for I, L in ((2, 2), (2, 3), (3, 2)):
            a = alphabet(I, L)
            inits = [("none", []), ("list", [(0, 1), (1,)]), ("np", [(0, 0), (1, 1)]), ("list", [(0, (0, 1)), (1, 0)]),
                     ("list", [(i,) for i in range(I)]), ("objarray", [(1, 0)])]
            for form, spell in inits:
                p = ("init", kind, I, L, form, spell)
                jobs.append((lambda p=p, a=a: ctx.bfs(history, a, (3 if kind == "fea" else 4) if not q else (2 if kind == "fea" or p[2] * p[3] > 4 else 3), prefix=[p]), ()))
    for kind in ("ml", "fea"):
        for L in (2, 5, 70):
            for s in range(1, 3 if q else 10):
                jobs.append((lambda k=kind, L=L, s=s: ctx.case(wide, k, L, s), ()))
    sizes = list(range(1, 36)) + [63, 64, 65, 100, 129] + ([] if q else list(range(36, 80)) + [255, 256, 257, 513])
    jobs += [(lambda a=a: ctx.case(sized, *a), ()) for a in itertools.product(("ml", "fea"), (0, 2, 9), sizes, ("list", "np", "coll", "objarray"),
                                                                             ("new", "twice", "back", "last", "whole", "old", "sets"))]
    from mc.core import subsets
    for kind in ("ml", "fea"):
        for L in (2, 3):
            sp = [(i, j) for i in range(2) for j in (-L, -1, 0, L - 1, L, L + 4)] + [(1, (0, L)), (0, (-1, 1)), (1,), (0, [L - 1, -L])]
            for form in ("list", "np", "objarray"):
                for n in (1, 2):
                    for seq in itertools.permutations(sp, n):
                        jobs.append((lambda k=kind, f=form, s=seq, L=L: ctx.case(badinit, k, f, list(s), 2, L), ()))
    for sub in subsets([(i, j) for i in range(2) for j in range(3)], 1):
        jobs.append((lambda s=sub: ctx.case(infer, s), ()))
    ctx.jobs(jobs)
