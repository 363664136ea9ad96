"""Derived optimisation bounds."""
import numpy as np


def auto_bounds(p, delta):
    return max(p - delta, -500), min(p + delta, 500)


def user_criterion(mp, cp, x, z):
    return np.sum(mp ** 2) + cp[0] * np.sum(z) + cp[2] * np.sum(x[:, 1])
