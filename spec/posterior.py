"""Targets of the posterior samplers and Stein variational updates."""
import numpy as np


def outside(p, lo, hi):
    return np.any(p < lo) or np.any(p > hi)


def target(J, p, lo, hi, temp):
    if lo is not None:
        if outside(p, lo, hi):
            return -np.inf
    return -J(p) / temp


def targets(J, x, n, lo, hi, temp):
    r = np.zeros(n)
    for i in range(n):
        r[i] = target(J, x[i], lo, hi, temp)
    return r


def clip(x, lo, hi):
    if lo is None:
        return x
    return np.minimum(np.maximum(x, lo), hi)


def uniform(u, lo, hi):
    return lo + u * (hi - lo)


def bandwidth(h, scale, least, jitter):
    h = scale * h
    if h <= jitter:
        h = np.maximum(scale, jitter)
    if least is not None:
        h = np.maximum(h, least)
    return h


def stein(x, lp, score, alive, step, h, pre, lo, hi):
    """Particles after one update; dead particles neither move nor act."""
    n = x.shape[0]
    d = x.shape[1]
    out = np.zeros((n, d))
    m = 0
    for i in range(n):
        m = m + (1 if alive[i] else 0)
    for i in range(n):
        for k in range(d):
            v = 0.0
            if alive[i]:
                for j in range(n):
                    if alive[j]:
                        s = 0.0
                        for l in range(d):
                            s = s + (x[i, l] - x[j, l]) ** 2
                        v = v + np.exp(-s / h) * (score[j, k] + 2 / h * (x[i, k] - x[j, k]))
                v = v / m
            out[i, k] = x[i, k] + step * pre[k] * v
    return out


def temperature(t, n, t0, t1, geometric):
    if n <= 1:
        return t1
    u = t / (n - 1)
    if geometric:
        return t0 * (t1 / t0) ** u
    return t0 + u * (t1 - t0)


class Info:
    """Report of a selection: estimated parameters and criteria."""

    def __init__(self, covparam, selection_criterion, selection_criterion_nograd):
        self.covparam = covparam
        self.selection_criterion = selection_criterion
        self.selection_criterion_nograd = selection_criterion_nograd
