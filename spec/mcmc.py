"""Rules of the Monte Carlo samplers."""
import math
import numpy as np


# Metropolis-Hastings acceptance: equivalent ways of comparing a uniform draw with the ratio
def accept_log(u, r):
    return np.log(u) < r


def accept_log_le(u, r):
    return np.log(u) <= r


def accept_exp(u, r):
    return u < np.exp(r)


def accept_exp_le(u, r):
    return u <= np.exp(r)


def accept_log_min(u, r):
    return np.log(u) < np.minimum(0.0, r)


def accept_exp_min(u, r):
    return u < np.minimum(1.0, np.exp(r))


def next_state(a, y, x):
    return np.where(a, y, x)


# proposals
def step_full(x, cov, z):
    return x + np.linalg.cholesky(cov) @ z


def step_diag(x, p, z):
    return x + np.sqrt(p) * z


def diag_cov(p):
    return np.diag(p)


# adaptation
def cosine_gain(n, n_total, base):
    return base * (0.1 + (1 - 0.1) * 0.5 * (1 + math.cos(math.pi * n / n_total)))


def rm_update(p, gain, rate, target):
    return p * np.exp(gain * (rate - target))


def haario_scale(s, factor, rate, target):
    return s * np.exp(factor * (rate - target))


def haario_cov(s, block, eps):
    return s * np.cov(block.T, ddof=1) + eps * np.eye(2)


def block_mean(a):
    return np.mean(a)


# diagnostics
def rhat(block):
    n = block.shape[1]
    W = np.mean(np.var(block, axis=1, ddof=1), axis=0)
    B = n * np.var(np.mean(block, axis=1), axis=0, ddof=1)
    return np.sqrt(((n - 1) / n * W + B / n) / W)


def sliding(a, width):
    n = a.shape[1]
    rows = []
    for c in range(a.shape[0]):
        row = []
        for t in range(n):
            lo = max(0, t + 1 - width)
            row.append(sum(a[c, k] for k in range(lo, t + 1)) / (t + 1 - lo))
        rows.append(row)
    return np.array(rows)


# particles
def uniform_in_box(u, box):
    return box[0] + u * (box[1] - box[0])


def reweighted(w, new, old):
    return w * np.exp(new - old)


def ess(w):
    return np.sum(w) ** 2 / np.sum(w ** 2)


def normalised(w):
    return w / np.sum(w)


def particle_cov(s, x):
    return s * np.cov(x.T)


def moved_rows(a, y, x):
    return np.where(a.reshape(-1, 1), y, x)


def rate(a):
    return np.sum(a) / a.shape[0]


def scaled(s, rate, low, high, factor):
    if rate < low:
        return s / factor
    if rate > high:
        return s * factor
    return s


def chains_cov(x):
    """Covariance of all the states x (chain, iteration, coordinate), with n - 1 in the denominator."""
    n = x.shape[0] * x.shape[1]
    m = np.einsum("cti->i", x) / n
    y = x - m
    return np.einsum("cti,ctj->ij", y, y) / (n - 1)


def haario(c, scaling, epsilon):
    return scaling * c + epsilon * np.eye(c.shape[0])
