"""Specification of the Gaussian-process core: textbook formulas on symbolic arrays (parsed, never executed)."""
import numpy as np


# ------------------------------------------------------------------ kriging
def weights_zero(k, th, xi, xt):
    return np.linalg.inv(k(xi, xi, th)) @ k(xi, xt, th)


def var_zero(k, th, xi, xt):
    lam = weights_zero(k, th, xi, xt)
    return k(xt, None, th, pairwise=True) - np.einsum("ij,ij->j", lam, k(xi, xt, th))


def cov_zero(k, th, xi, xt):
    lam = weights_zero(k, th, xi, xt)
    return k(xt, None, th) - lam.T @ k(xi, xt, th)


def mean_zero(k, th, xi, zi, xt):
    return weights_zero(k, th, xi, xt).T @ zi


def mean_param(k, th, m, mp, xi, zi, xt):
    c = zi - m(xi, mp)[:, 0]
    return weights_zero(k, th, xi, xt).T @ c + m(xt, mp)[:, 0]


def _system(k, th, m, mp, xi, xt):
    P = m(xi, mp)
    q = P.shape[1]
    A = np.vstack((np.hstack((k(xi, xi, th), P)), np.hstack((P.T, np.zeros((q, q))))))
    b = np.vstack((k(xi, xt, th), m(xt, mp).T))
    return A, b


def weights_lin(k, th, m, mp, xi, xt):
    A, b = _system(k, th, m, mp, xi, xt)
    return (np.linalg.inv(A) @ b)[0:xi.shape[0], :]


def var_lin(k, th, m, mp, xi, xt):
    A, b = _system(k, th, m, mp, xi, xt)
    return k(xt, None, th, pairwise=True) - np.einsum("ij,ij->j", np.linalg.inv(A) @ b, b)


def cov_lin(k, th, m, mp, xi, xt):
    A, b = _system(k, th, m, mp, xi, xt)
    return k(xt, None, th) - (np.linalg.inv(A) @ b).T @ b


def mean_lin(k, th, m, mp, xi, zi, xt):
    return weights_lin(k, th, m, mp, xi, xt).T @ zi


# the same system solved in an orthonormal basis (P = Q1 R, W spans the null space of P')
def _nullspace(k, th, m, mp, xi, xt):
    K = k(xi, xi, th)
    P = m(xi, mp)
    q = P.shape[1]
    Q, R = np.linalg.qr(P, mode="complete")
    Q1 = Q[:, :q]
    W = Q[:, q:]
    Rq = R[:q, :q]
    kt = k(xi, xt, th)
    pt = m(xt, mp).T
    b = Q1 @ (np.linalg.inv(Rq.T) @ pt)
    lam = W @ (np.linalg.inv(W.T @ K @ W) @ (W.T @ (kt - K @ b))) + b
    mu = np.linalg.inv(Rq) @ (Q1.T @ (kt - K @ lam))
    return lam, mu, kt, pt


def weights_null(k, th, m, mp, xi, xt):
    lam, mu, kt, pt = _nullspace(k, th, m, mp, xi, xt)
    return lam


def var_null(k, th, m, mp, xi, xt):
    lam, mu, kt, pt = _nullspace(k, th, m, mp, xi, xt)
    return k(xt, None, th, pairwise=True) - np.einsum("ij,ij->j", lam, kt) - np.einsum("ij,ij->j", mu, pt)


def cov_null(k, th, m, mp, xi, xt):
    lam, mu, kt, pt = _nullspace(k, th, m, mp, xi, xt)
    return k(xt, None, th) - lam.T @ kt - mu.T @ pt


def mean_null(k, th, m, mp, xi, zi, xt):
    lam, mu, kt, pt = _nullspace(k, th, m, mp, xi, xt)
    return lam.T @ zi


def clamp(v):
    return np.maximum(v, 0.0)


# ------------------------------------------------------------------ likelihoods
def _gauss_nll(K, z, n):
    return 0.5 * (n * np.log(2.0 * np.pi) + np.linalg.slogdet(K)[1] + z @ np.linalg.inv(K) @ z)


def nll_zero(k, th, xi, zi):
    return _gauss_nll(k(xi, xi, th), zi, xi.shape[0])


def nll_param(k, th, m, mp, xi, zi):
    return _gauss_nll(k(xi, xi, th), zi - m(xi, mp)[:, 0], xi.shape[0])


def _contrasts(P):
    q = P.shape[1]
    Q, R = np.linalg.qr(P, mode="complete")
    return Q[:, q:]


def nlrl(k, th, m, mp, xi, zi):
    P = m(xi, mp)
    W = _contrasts(P)
    return _gauss_nll(W.T @ k(xi, xi, th) @ W, W.T @ zi, P.shape[0] - P.shape[1])


# ------------------------------------------------------------------ leave-one-out
def _loo(Q, z):
    d = np.diag(Q)
    e = (Q @ z) / d
    return z - e, 1.0 / d, e


def loo_zero(k, th, xi, zi):
    return _loo(np.linalg.inv(k(xi, xi, th)), zi)


def loo_param(k, th, m, mp, xi, zi):
    mu = m(xi, mp)[:, 0]
    z, v, e = _loo(np.linalg.inv(k(xi, xi, th)), zi - mu)
    return z + mu, v, e


def loo_lin(k, th, m, mp, xi, zi):
    W = _contrasts(m(xi, mp))
    return _loo(W @ np.linalg.inv(W.T @ k(xi, xi, th) @ W) @ W.T, zi)


def loo_lin_spd(k, th, m, mp, xi, zi):
    P = m(xi, mp)
    Ki = np.linalg.inv(k(xi, xi, th))
    return _loo(Ki - Ki @ P @ np.linalg.inv(P.T @ Ki @ P) @ P.T @ Ki, zi)


# ------------------------------------------------------------------ norms
def norm_zero(k, th, xi, zi):
    return zi @ np.linalg.inv(k(xi, xi, th)) @ zi


def kinv(k, th, xi, zi):
    Ki = np.linalg.inv(k(xi, xi, th))
    return zi @ Ki @ zi, Ki @ np.ones((xi.shape[0],)), Ki @ zi


def norm_lin(k, th, m, mp, xi, zi):
    W = _contrasts(m(xi, mp))
    w = W.T @ zi
    return w @ np.linalg.inv(W.T @ k(xi, xi, th) @ W) @ w


# ------------------------------------------------------------------ Fisher information
def _shift(th, i, h):
    p = th.shape[0]
    return th + h * np.eye(p)[i]


def dcov(k, th, xi, i, h):
    """Five-point central difference of the covariance in parameter i."""
    f1, f2 = k(xi, xi, _shift(th, i, h)), k(xi, xi, _shift(th, i, 2.0 * h))
    g1, g2 = k(xi, xi, _shift(th, i, -h)), k(xi, xi, _shift(th, i, -2.0 * h))
    return (8.0 * (f1 - g1) - (f2 - g2)) / (12.0 * h)


def dcov3(k, th, xi, i, h):
    return (k(xi, xi, _shift(th, i, h)) - k(xi, xi, _shift(th, i, -h))) / (2.0 * h)


def fisher(k, th, xi, i, j, h):
    Ki = np.linalg.inv(k(xi, xi, th))
    return 0.5 * np.trace(Ki @ dcov(k, th, xi, i, h) @ Ki @ dcov(k, th, xi, j, h))


def deviance(k, th, th0, xi):
    """Expected deviance at th of data with parameters th0."""
    K = k(xi, xi, th)
    K0 = k(xi, xi, th0)
    return np.linalg.slogdet(K)[1] + np.trace(np.linalg.inv(K) @ K0)


def fisher_lin(k, th, m, mp, xi, i, j, h):
    W = _contrasts(m(xi, mp))
    G = np.linalg.inv(W.T @ k(xi, xi, th) @ W)
    return 0.5 * np.trace(G @ (W.T @ dcov(k, th, xi, i, h) @ W) @ G @ (W.T @ dcov(k, th, xi, j, h) @ W))


# ------------------------------------------------------------------ sample paths
def cond_paths(zs, xi_ind, zi, xt_ind, lam):
    return zs[xt_ind, :] + lam.T @ (zi.reshape(-1, 1) - zs[xi_ind, :])


def cond_paths_param(m, mp, zs, xi, xi_ind, zi, xt, xt_ind, lam):
    return zs[xt_ind, :] + lam.T @ ((zi - m(xi, mp)[:, 0]).reshape(-1, 1) - zs[xi_ind, :]) + m(xt, mp)


def paths_chol(k, th, xt, eps):
    return np.linalg.cholesky(k(xt, xt, th)) @ eps


def paths_svd(k, th, xt, eps):
    U, s, Vt = np.linalg.svd(k(xt, xt, th))
    return (U * np.sqrt(s)) @ Vt @ eps


def paths_svd_root(k, th, xt, eps):
    U, s, Vt = np.linalg.svd(k(xt, xt, th))
    return (U * np.sqrt(s)) @ eps
