"""The random source as a choice point: every draw of the code under test is answered by the explorer, with its probability."""
import contextlib
import math
import random
from fractions import Fraction as Fr

import numpy as np

from mc.core import Chooser, Skip
from mc.rng import nth_permutation


class Cut(Exception):
    """A path less likely than the bound of this run."""


class Source(object):
    """Answers draws from a chooser; p is the probability of the path so far."""

    def __init__(self, ch, limit):
        # limit: smallest probability of a path that is followed, None for all
        self.ch, self.limit, self.p, self.seeded = ch, limit, Fr(1), False

    def pick(self, k):
        if k <= 1 or self.seeded:           # after a fixed seed nothing is left to chance
            return 0
        if self.limit is not None and self.p / k < self.limit:
            raise Cut()
        self.p /= k
        return self.ch(k)

    def perm(self, m):
        return nth_permutation(m, self.pick(math.factorial(m)))

    def arrangement(self, m, k):
        """k of m items in order."""
        out, left = [], list(range(m))
        c = self.pick(math.factorial(m) // math.factorial(m - k))
        for j in range(k):
            c, i = divmod(c, len(left))
            out.append(left.pop(i))
        return out


class Gen(object):
    """The interface of numpy's generators on a source."""
    source = None

    def __init__(self, seed=None, *a):
        self.s = self.source
        self.fixed = seed is not None

    def _pick(self, k):
        return 0 if self.fixed else self.s.pick(k)

    def _perm(self, m):
        return list(range(m)) if self.fixed else self.s.perm(m)

    def seed(self, *a):
        if a and a[0] is not None:
            if self is GLOBAL[0]:
                self.s.seeded = True
            self.fixed = True

    def shuffle(self, x, *a, **kw):
        p = self._perm(len(x))
        if isinstance(x, np.ndarray):
            x[...] = x[p]
        else:
            x[:] = [x[i] for i in p]

    def permutation(self, x, *a, **kw):
        x = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        return x[self._perm(len(x))]

    def randint(self, low, high=None, size=None, *a, **kw):
        if high is None:
            low, high = 0, low
        return self._sized(lambda: low + self._pick(int(high) - int(low)), size)
    integers = randint

    def _sized(self, one, size):
        if size is None:
            return one()
        n = int(np.prod(size))
        return np.array([one() for _ in range(n)]).reshape(size)

    def choice(self, a, size=None, replace=True, p=None, *_, **kw):
        a = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if p is not None:
            raise Skip()
        if size is None or replace:
            return self._sized(lambda: a[self._pick(len(a))], size)
        n = int(np.prod(size))
        at = list(range(n)) if self.fixed else self.s.arrangement(len(a), n)
        return a[at].reshape((size,) + a.shape[1:] if isinstance(size, int) else tuple(size) + a.shape[1:])

    def random(self, size=None):
        """Only the order of several such numbers can be enumerated."""
        if size is None or int(np.prod(size)) < 2:
            raise Skip()
        n = int(np.prod(size))
        return ((np.array(self._perm(n)) + .5) / n).reshape(size)
    random_sample = sample = ranf = random

    def rand(self, *shape):
        return self.random(shape or None)

    def uniform(self, low=0., high=1., size=None):
        return low + (high - low) * self.random(size)


GLOBAL = [None]


@contextlib.contextmanager
def controlled(source):
    """numpy.random and random draw from the source."""
    cls = type("RandomState", (Gen,), {"source": source})
    g = cls()
    GLOBAL[0] = g
    np_names = [k for k in ("shuffle", "permutation", "randint", "choice", "random", "random_sample", "sample", "ranf", "rand", "uniform", "seed")]
    old = {k: getattr(np.random, k) for k in np_names + ["RandomState", "default_rng"] if hasattr(np.random, k)}

    def shuffle(x, *a):
        x[:] = [x[i] for i in g._perm(len(x))]
    py = {"shuffle": shuffle, "choice": lambda x: x[g._pick(len(x))], "randint": lambda a, b: a + g._pick(b - a + 1), "seed": g.seed,
          "randrange": lambda a, b=None: g._pick(a) if b is None else a + g._pick(b - a),
          "sample": lambda x, k: [list(x)[i] for i in source.arrangement(len(x), k)],
          "choices": lambda x, k=1: [x[g._pick(len(x))] for _ in range(k)]}
    oldpy = {k: getattr(random, k) for k in py}
    try:
        for k in old:
            setattr(np.random, k, cls if k in ("RandomState", "default_rng") else getattr(g, k))
        for k, f in py.items():
            setattr(random, k, f)
        yield
    finally:
        for k, f in old.items():
            setattr(np.random, k, f)
        for k, f in oldpy.items():
            setattr(random, k, f)


def distribution(run, limit=None, cap=200000):
    """{outcome: exact probability} over every path of the random source, with the number of paths and the mass cut off."""
    dist, paths, cut = {}, 0, Fr(0)
    stack = [[]]
    while stack:
        ch = Chooser(stack.pop())
        s = Source(ch, limit)
        try:
            with controlled(s):
                out = run()
        except Cut:
            cut += s.p
        else:
            dist[out] = dist.get(out, Fr(0)) + s.p
        paths += 1
        if paths > cap:
            raise RuntimeError("more than %d paths" % cap)
        pre = len(ch.prefix)
        for i in range(len(ch.trace) - 1, pre - 1, -1):
            for alt in range(ch.trace[i][1] - 1, 0, -1):
                stack.append([c for c, _ in ch.trace[:i]] + [alt])
    return dist, paths, cut
