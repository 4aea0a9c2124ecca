"""Control of the random source: numpy's global generator replaced by chosen outcomes."""
import contextlib

import numpy as np


@contextlib.contextmanager
def patched(**fns):
    """Replace functions of numpy.random (np.random.NAME) for the duration."""
    old = {k: getattr(np.random, k) for k in fns}
    for k, f in fns.items():
        setattr(np.random, k, f)
    try:
        yield
    finally:
        for k, f in old.items():
            setattr(np.random, k, f)


def apply_perm(x, perm):
    if isinstance(x, list):
        x[:] = [x[i] for i in perm]
    else:
        x[...] = x[list(perm)]


def fixed_shuffle(perm):
    """np.random.shuffle applies perm (a permutation of range(len)); np.random.permutation likewise."""
    perm = list(perm)

    def shuffle(x):
        if len(x) == len(perm):
            apply_perm(x, perm)
        else:
            apply_perm(x, [p for p in perm if p < len(x)] + list(range(len(perm), len(x))))

    def permutation(x):
        x = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        shuffle(x)
        return x
    return patched(shuffle=shuffle, permutation=permutation)


def nth_permutation(m, k):
    """The k-th permutation of range(m) in lexicographic order."""
    items = list(range(m))
    out = []
    f = 1
    for i in range(1, m):
        f *= i
    for i in range(m - 1, -1, -1):
        out.append(items.pop(k // f))
        k %= f
        if i:
            f //= i
    return out


def chosen_shuffle(pick):
    """Every shuffle/permutation asks pick(length) for the permutation to apply."""

    def shuffle(x):
        apply_perm(x, pick(len(x)))

    def permutation(x):
        x = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        shuffle(x)
        return x
    return patched(shuffle=shuffle, permutation=permutation)
