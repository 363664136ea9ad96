"""What the figures display."""
import numpy as np
from scipy.stats import norm


def band(mean, var, level):
    h = norm.ppf((1 + level) / 2) * np.sqrt(var)
    return mean - h, mean + h


def sweep(lo, hi, n, a):
    return np.sort(np.concatenate((np.linspace(lo, hi, n - 1), np.array([a]))))


def grid(lo, hi, n):
    return np.linspace(lo, hi, n)


def positive(v):
    return np.maximum(v, 0.0)


def half(v, c):
    return c * np.sqrt(v)


def exact_half(v):
    return norm.ppf(0.975) * np.sqrt(v)


def sorted_(v):
    return np.sort(v)


def coordinate(x, is_scale):
    return np.log((10.0 ** x) ** 2) if is_scale else np.log(1.0 / 10.0 ** x)


def displayed(p, is_scale):
    return 0.5 * np.log10(np.exp(p)) if is_scale else -np.log10(np.exp(p))


def displayed_end(p, is_scale, factor, sign):
    return displayed(p, is_scale) + sign * np.log10(factor)


def shown(v, shift):
    return np.log10(np.maximum(1e-2, v - np.min(v) if shift else v))


def over_chains(v):
    return np.mean(v, axis=1)
