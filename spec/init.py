"""Starting values, empirical bounds and length-scale floors."""
import numpy as np
from scipy.special import gammaln
from spec.core import norm_zero, norm_lin, kinv


def rho(x, d):
    return np.exp(gammaln(d / 2 + 1) / d) / np.sqrt(np.pi) * (np.max(x, axis=0) - np.min(x, axis=0))


def unit(x, d):
    return np.concatenate(([0.0], -np.log(rho(x, d))))


def pack(s2, x, d):
    return np.concatenate((np.log(s2).reshape(1), -np.log(rho(x, d))))


def guess_zero(k, X, x, z, d):
    return norm_zero(k, unit(X, d), x, z) / x.shape[0]


def guess_lin(k, m, mp, X, x, z, d):
    return norm_lin(k, unit(X, d), m, mp, x, z) / x.shape[0]


def guess_const_mean(k, X, x, z, d):
    q = kinv(k, unit(X, d), x, z)
    return np.sum(q[2]) / np.sum(q[1])


def guess_const_var(k, X, x, z, d):
    return kinv(k, unit(X, d), x, z)[0] / x.shape[0]


def var_bounds(z, lo, hi):
    v = np.sum((z - np.mean(z)) ** 2) / z.shape[0]
    return np.log(lo * v), np.log(hi * v)


def min_gap(xj):
    g = np.diff(np.sort(xj))
    g = g[g > 0]
    return np.min(g)


def gap_upper(xj, f):
    return -np.log(f * min_gap(xj))


def floor_range(xj, f):
    q = (np.max(xj) - np.min(xj)) * f
    return np.where(q > 0, np.log(np.where(q > 0, q, 1.0)), -np.inf)


def floor_both(xj, f):
    return np.maximum(np.log(min_gap(xj)), floor_range(xj, f))
