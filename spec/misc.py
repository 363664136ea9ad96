"""Benchmark functions, from their publications and documentation."""
import numpy as np


def twobumps(x):
    return -(0.7 * x + np.sin(5 * x + 1) + 0.1 * np.sin(10 * x))


def wave(x):
    x1, x2 = x[:, 0], x[:, 1]
    return np.exp(1.8 * (x1 + x2)) + 3 * x1 + 6 * x2**2 + 3 * np.sin(4 * np.pi * x1)


def braninhoo(x):
    x1, x2 = x[:, 0], x[:, 1]
    return (x2 - 5.1 / (4 * np.pi**2) * x1**2 + 5 / np.pi * x1 - 6) ** 2 + 10 * (1 - 1 / (8 * np.pi)) * np.cos(x1) + 10


def hartmann_sum(x, d):
    alpha = [1.0, 1.2, 3.0, 3.2]
    a = [[10, 3, 17, 3.5, 1.7, 8], [0.05, 10, 17, 0.1, 8, 14], [3, 3.5, 1.7, 10, 17, 8], [17, 8, 0.05, 10, 0.1, 14]]
    p = [[1312, 1696, 5569, 124, 8283, 5886], [2329, 4135, 8307, 3736, 1004, 9991], [2348, 1451, 3522, 2883, 3047, 6650], [4047, 8828, 8732, 5743, 1091, 381]]
    s = 0
    for i in range(4):
        q = 0
        for j in range(d):
            q = q + a[i][j] * (x[:, j] - p[i][j] / 10000) ** 2
        s = s + alpha[i] * np.exp(-q)
    return s


def hartmann4(x):
    return (1.1 - hartmann_sum(x, 4)) / 0.839


def hartmann6(x):
    return -hartmann_sum(x, 6)


def borehole(x):
    rw, r, tu, hu, tl, hl, length, kw = x[:, 0], x[:, 1], x[:, 2], x[:, 3], x[:, 4], x[:, 5], x[:, 6], x[:, 7]
    lg = np.log(r / rw)
    return 2 * np.pi * tu * (hu - hl) / (lg * (1 + 2 * length * tu / (lg * rw**2 * kw) + tu / tl))


def detpep8d(x):
    x1, x2, x3 = x[:, 0], x[:, 1], x[:, 2]
    s = 4 * (x1 - 2 + 8 * x2 - 8 * x2**2) ** 2 + (3 - 4 * x2) ** 2 + 16 * np.sqrt(x3 + 1) * (2 * x3 - 1) ** 2
    for i in range(4, 9):
        t = 0
        for j in range(3, i + 1):
            t = t + x[:, j - 1]
        s = s + i * np.log(1 + t)
    return s


def ishigami(x):
    return np.sin(x[:, 0]) + 5 * np.sin(x[:, 1]) ** 2 + 0.1 * x[:, 2] ** 4 * np.sin(x[:, 0])
