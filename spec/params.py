"""Representation of parameters: normalised value and natural value."""
import numpy as np


def natural(v):
    return np.array([np.exp(v[0]), np.exp(-v[1]), v[2], np.exp(v[3])])


def normalised(u):
    return np.array([np.log(u[0]), -np.log(u[1]), u[2], np.log(u[3])])


def put(v, k, x):
    r = v.copy()
    r[k] = x
    return r


def inside(x, lo, hi):
    return (lo <= x) & (x <= hi)
