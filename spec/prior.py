"""Specification of the priors and posterior criteria (parsed, never executed)."""
import math
from statistics import NormalDist
import numpy as np
from spec.core import nlrl


def jeffreys(th, lam):
    return -lam * th[0]


def power_law(th, lv, cv, ll, lo, hi, pf):
    l = th[1:]
    return (-lv * th[0] - pf * np.maximum(th[0] - cv, 0) - ll * np.sum(l)
            - pf * np.sum(np.maximum(lo - l, 0)) - pf * np.sum(np.maximum(l - hi, 0)))


def power_law_default(th):
    return power_law(th, 1.0, 9.21, 0.0, -9.21, 9.21, 100)


def gauss(th, s0, gamma, cover):
    sd = np.log(gamma) / NormalDist().inv_cdf(0.5 * (1.0 + cover))
    return -0.5 * ((th[0] - s0) / sd) ** 2


def pen(logrho, lmin, l0, alpha):
    s = logrho - lmin
    return np.where(s > 0, alpha * s - alpha * (l0 - lmin) * np.log(np.where(s > 0, s, 1.0)), np.inf)


def barrier(th, lmin, l0, alpha):
    return -np.sum(pen(-th[1:], lmin, l0, alpha))


def post_jeffreys(k, th, m, mp, xi, zi, lam):
    return nlrl(k, th, m, mp, xi, zi) - jeffreys(th, lam)


def post_power(k, th, m, mp, xi, zi):
    return nlrl(k, th, m, mp, xi, zi) - power_law_default(th)


def post_gauss(k, th, m, mp, xi, zi, s0, gamma, cover):
    return nlrl(k, th, m, mp, xi, zi) - gauss(th, s0, gamma, cover)


def post_barrier(k, th, m, mp, xi, zi, lmin, l0, alpha):
    return nlrl(k, th, m, mp, xi, zi) - barrier(th, lmin, l0, alpha)


def post_both(k, th, m, mp, xi, zi, s0, gamma, cover, lmin, l0, alpha):
    return nlrl(k, th, m, mp, xi, zi) - gauss(th, s0, gamma, cover) - barrier(th, lmin, l0, alpha)


def half_logdet(F):
    return 0.5 * np.linalg.slogdet(F)[1]
