"""Specification of the covariance functions (parsed, never executed)."""
import math
import numpy as np


def dist(l, x, y):
    a = np.exp(l) * x
    b = np.exp(l) * y
    return np.sqrt(np.sum((a[:, None, :] - b[None, :, :]) ** 2, axis=2))


def dist_clamped(l, x, y):
    a = np.exp(l) * x
    b = np.exp(l) * y
    return np.sqrt(np.maximum(np.sum((a[:, None, :] - b[None, :, :]) ** 2, axis=2), 0.0))


def dist_diag(l, x, y):
    return dist(l, x, y) * (1 - np.eye(x.shape[0]))


def dist_pairs(l, x, y):
    return np.sqrt(np.sum((np.exp(l) * (x - y)) ** 2, axis=1))


def matern(p, h):
    c = 2 * math.sqrt(p + 0.5)
    s = 0.0
    for i in range(p + 1):
        w = math.factorial(p) * math.factorial(p + i) / (math.factorial(2 * p) * math.factorial(i) * math.factorial(p - i))
        s = s + w * (2 * c * h) ** (p - i)
    return np.exp(-c * h) * s


def matern_any(p, h):
    """Same sum for an unknown p; its last term is 1."""
    c = 2 * math.sqrt(p + 0.5)
    s = 1.0
    for i in range(p):
        w = math.factorial(p) * math.factorial(p + i) / (math.factorial(2 * p) * math.factorial(i) * math.factorial(p - i))
        s = s + w * (2 * c * h) ** (p - i)
    return np.exp(-c * h) * s


def matern32(h):
    c = 2 * math.sqrt(1.5)
    return (1 + c * h) * np.exp(-c * h)


def cov(p, th, d):
    return np.exp(th[0]) * matern(p, d)


def var(th, x):
    return np.exp(th[0]) * np.ones((x.shape[0],))


def expo(h):
    return np.exp(-h)
