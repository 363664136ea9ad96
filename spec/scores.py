"""Scoring rules and performance metrics (specification graphs)."""
import numpy as np
from scipy.stats import norm, multivariate_normal


def crps(mu, sigma, z):
    t = (z - mu) / sigma
    return sigma * (t * (2 * norm.cdf(t) - 1) + 2 * norm.pdf(t) - 1 / np.sqrt(np.pi))


def ei1(mu, sigma, z):
    """E (X - z)_+ for X ~ N(mu, sigma^2)."""
    t = (mu - z) / sigma
    return (mu - z) * norm.cdf(t) + sigma * norm.pdf(t)


def ei2(mu, sigma, z):
    """E (max(X1, X2) - z)_+ for independent X1, X2 ~ N(mu, sigma^2)."""
    t = (mu - z) / sigma
    p = np.stack((t, np.zeros(t.shape[0])), axis=1)
    q = multivariate_normal.cdf(p, mean=np.zeros(2), cov=np.array([[1.0, 1.0], [1.0, 2.0]]))
    return sigma * (2 * t * q + 2 * norm.pdf(t) * norm.cdf(-t) + norm.cdf(np.sqrt(2) * t) / np.sqrt(np.pi))


def tcrps_ab(mu, sigma, z, a, b):
    m = np.maximum(np.minimum(b, z) - a, 0.0)
    return m + ei2(mu, sigma, b) - ei2(mu, sigma, a) - 2 * np.where(z <= b, ei1(mu, sigma, b) - ei1(mu, sigma, np.maximum(a, z)), 0.0)


def tcrps_b(mu, sigma, z, b):
    m = np.minimum(b, z)
    return m + ei2(mu, sigma, b) - (mu + sigma / np.sqrt(np.pi)) - 2 * np.where(z <= b, ei1(mu, sigma, b) - ei1(mu, sigma, z), 0.0)


def tcrps_a(mu, sigma, z, a):
    return tcrps_b(-mu, sigma, -z, -a)


def metrics(z, e):
    """n, std, tss, press, press/tss, log10, rmse, rmse/std, 1 - press/tss."""
    n = z.shape[0]
    m = np.sum(z) / n
    tss = np.sum((z - m) ** 2)
    std = np.sqrt(tss / n)
    press = np.sum(e ** 2)
    rmse = np.sqrt(press / n)
    r = press / tss
    return n, std, tss, press, r, np.log(r) / np.log(10.0), rmse, rmse / std, 1 - r


def pit(z, m, v):
    return norm.cdf((z - m) / np.sqrt(np.maximum(v, 0.0)))
