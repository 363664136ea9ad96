"""No-U-turn sampler with a slice variable (Hoffman and Gelman), diagonal metric."""
import math
import numpy as np


def kinetic(p, im):
    return np.sum(p * p * im) / 2


def leapfrog(dU, q, p, g, eps, im):
    ph = p - eps / 2 * g
    q1 = q + eps * im * ph
    g1 = dU(q1)
    return q1, ph - eps / 2 * g1, g1


def uturn(qm, qp, pm, pp, im):
    d = qp - qm
    return np.sum(d * im * pm) < 0 or np.sum(d * im * pp) < 0


def leaf(U, dU, q, p, g, logu, v, eps, im, H0, dmax):
    q1, p1, g1 = leapfrog(dU, q, p, g, v * eps, im)
    H = U(q1) + kinetic(p1, im)
    n = 1 if logu <= -H else 0
    div = H - H0 > dmax
    s = logu < dmax - H and not div
    a = np.exp(np.minimum(H0 - H, 0.0))
    return (q1, p1, g1), (q1, p1, g1), q1, n, s, a, 1, 1, div


def tree(U, dU, q, p, g, logu, v, depth, eps, im, H0, dmax, sel):
    if depth == 0:
        return leaf(U, dU, q, p, g, logu, v, eps, im, H0, dmax)
    lo, hi, c, n, s, a, na, nl, div = tree(U, dU, q, p, g, logu, v, depth - 1, eps, im, H0, dmax, sel[1:])
    if s and not div:
        e = lo if v == -1 else hi
        lo2, hi2, c2, n2, s2, a2, na2, nl2, div2 = tree(U, dU, e[0], e[1], e[2], logu, v, depth - 1, eps, im, H0, dmax, sel[1:])
        if v == -1:
            lo = lo2
        else:
            hi = hi2
        if n + n2 > 0:
            if sel[0] < n2 / (n + n2):
                c = c2
        n = n + n2
        s = s2 and not uturn(lo[0], hi[0], lo[1], hi[1], im)
        a = a + a2
        na = na + na2
        nl = nl + nl2
        div = div or div2
    return lo, hi, c, n, s, a, na, nl, div


def transition(U, dU, q0, z, u, dirs, sels, inner, eps, im, dmax):
    p0 = z * np.sqrt(1 / im)
    g0 = dU(q0)
    H0 = U(q0) + kinetic(p0, im)
    logu = np.log(u) - H0
    lo = (q0, p0, g0)
    hi = (q0, p0, g0)
    c = q0
    n = 1
    go = True
    a = 0.0
    na = 0
    nl = 0
    div = False
    depth = 0
    for k in range(len(dirs)):
        if go:
            v = dirs[k]
            e = lo if v == -1 else hi
            lo2, hi2, c2, n2, s2, a2, na2, nl2, div2 = tree(U, dU, e[0], e[1], e[2], logu, v, k, eps, im, H0, dmax, inner)
            if v == -1:
                lo = lo2
            else:
                hi = hi2
            if s2 and not div2:
                if sels[k] < n2 / (n + n2):
                    c = c2
            n = n + n2
            go = s2 and not uturn(lo[0], hi[0], lo[1], hi[1], im)
            a = a + a2
            na = na + na2
            nl = nl + nl2
            div = div or div2
            depth = depth + 1
    return c, a / max(1, na), nl, depth, div


# adaptation
def clamp(x, lo, hi):
    return np.minimum(np.maximum(x, lo), hi)


def da_start(eps, factor, lo):
    return np.log(np.maximum(lo, factor * eps)), np.log(eps), 0.0


def da_step(mu, h, leb, t, a, target, gamma, t0, kappa):
    h = (1 - 1 / (t + t0)) * h + (target - a) / (t + t0)
    le = mu - np.sqrt(t) / gamma * h
    w = t ** (-kappa)
    return h, w * le + (1 - w) * leb, np.exp(le)


def run(q0, acc, pos, mass0, nw, ns, chains, eps0, windows, target, gamma, t0, kappa, factor, jitter, lo, hi):
    """Step sizes, inverse metrics and starting points of every transition, final step size and metric."""
    mass = np.ones(1) if mass0 is None else np.maximum(mass0, jitter)
    eps = clamp(eps0, lo, hi)
    mu, leb, h = da_start(eps, factor, lo)
    k = 0
    steps = ()
    metrics = ()
    starts = ()
    for t in range(nw + ns):
        steps = steps + (eps,)
        metrics = metrics + (1 / mass,)
        for c in range(chains):
            starts = starts + (q0[c] if t == 0 else pos[t - 1, c:c + 1],)
        if t < nw:
            k = k + 1
            h, leb, eps = da_step(mu, h, leb, k, np.mean(acc[t, :]), target, gamma, t0, kappa)
            eps = clamp(eps, lo, hi)
            for w in windows:
                if t + 1 == w[1]:
                    x = pos[w[0]:w[1], :]
                    n = (w[1] - w[0]) * chains
                    mass = np.maximum(np.sum((x - np.sum(x) / n) ** 2) / (n - 1), jitter) * np.ones(1)
                    mu, leb, h = da_start(eps, factor, lo)
                    k = 0
        if t == nw - 1 or nw == 0:
            eps = clamp(np.exp(leb), lo, hi)
    return steps, metrics, starts, eps, mass


def trial(x, z, mass, jitter):
    """Position reached with unit step size is x + v where the density is flat."""
    m = np.maximum(mass, jitter)
    return x, z * np.sqrt(m) / m
