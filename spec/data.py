"""What data sets and loaders have to deliver."""
import numpy as np


def rows1(x0, b):
    return x0[b]


def rows_by_shard2(x0, x1, n0, b):
    return np.concatenate([x0[b[b < n0]], x1[b[b >= n0] - n0]], 0)


def cat(*xs):
    return np.concatenate(list(xs), 0)


def part(b, lo, hi):
    return b[lo:hi]


def arange(n):
    return np.arange(n)


def lowest(*xs):
    r = np.min(xs[0], axis=0)
    for x in xs[1:]:
        r = np.minimum(r, np.min(x, axis=0))
    return r


def highest(*xs):
    r = np.max(xs[0], axis=0)
    for x in xs[1:]:
        r = np.maximum(r, np.max(x, axis=0))
    return r


def mean(*xs):
    return sum([np.sum(x, axis=0) for x in xs]) / sum([x.shape[0] for x in xs])


def var(*xs):
    m = mean(*xs)
    return sum([np.sum((x - m) ** 2, axis=0) for x in xs]) / sum([x.shape[0] for x in xs])


def std(*xs):
    return np.sqrt(var(*xs))


def quantile(q, *xs):
    return np.percentile(np.concatenate(list(xs), 0), q * 100.0, axis=0)


def msq(x, z):
    return np.mean(z ** 2) + np.mean(x[:, 0] * z)


def msq_all(x, z):
    return np.sum(z ** 2 + x[:, 0] * z) / z.shape[0]


def n_batches(n, bs):
    return (n + bs - 1) // bs


def n_full_batches(n, bs):
    return n // bs


class Turns:
    """A flag that is true n times, then false."""

    def __init__(self, n):
        self.left = n

    def __bool__(self):
        self.left = self.left - 1
        return self.left >= 0
