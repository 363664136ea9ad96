"""Location and spread of each scaler (specification graphs)."""
import numpy as np


def normalizer(x):
    n = x.shape[0]
    m = np.sum(x, axis=0) / n
    return m, np.sqrt(np.sum((x - m) ** 2, axis=0) / n)


def robust(x):
    return np.percentile(x, 50.0, axis=0), np.percentile(x, 75.0, axis=0) - np.percentile(x, 25.0, axis=0)


def robust_q(x, lo, hi):
    return np.percentile(x, 50.0, axis=0), np.percentile(x, hi, axis=0) - np.percentile(x, lo, axis=0)


def minmax(x):
    return np.min(x, axis=0), np.max(x, axis=0) - np.min(x, axis=0)


def observation(z):
    n = z.shape[0]
    m = np.sum(z) / n
    return m, np.sqrt(np.sum((z - m) ** 2) / n)
