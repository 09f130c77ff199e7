"""Workload generators: boundary rich, every draw from the rng of the case."""
import numpy as np

PI = np.pi


def scale(rng):
    """rotor size: order 1, realistic, very small, very large"""
    return float(rng.choice([1.0, rng.uniform(0.3, 3), rng.uniform(20, 120), 10 ** rng.uniform(-3, 4)]))


def rotor(rng):
    """rotor radius: unit, wind tunnel, real"""
    return float(rng.choice([1.0, rng.uniform(1, 100), logu(rng, .05, 5)]))


def sgn(rng):
    return 1.0 if rng.random() < 0.5 else -1.0


def strength(rng):
    return float(sgn(rng) * rng.choice([1.0, rng.uniform(0.1, 5), 10 ** rng.uniform(-3, 3), 10 ** rng.uniform(-9, 8)]))


def logu(rng, lo, hi, n=None):
    return 10 ** rng.uniform(np.log10(lo), np.log10(hi), n)


def slog(rng, lo, hi, n):
    return logu(rng, lo, hi, n) * np.where(rng.random(n) < 0.5, 1, -1)


def count(rng, hi, many=15, p=.12):
    """1..hi, once in a while up to `many`"""
    return int(rng.integers(1, hi + 1)) if rng.random() > p else int(rng.integers(hi + 1, many + 1))


def place(rng, n, h, far=1e3, p=.15):
    """n coordinates within +-h, once in a while far away"""
    return rng.uniform(-h, h, n) if rng.random() > p else slog(rng, h, far, n)


def shaped(rng, n=None, empty=False):
    """a random array shape, with its number of elements"""
    if rng.random() < .02:
        return (int(rng.integers(250, 2600)),)
    k = rng.integers(0, 8)
    if k == 7:
        q = int(rng.integers(2, 7))
        s = (q, q)
    elif k == 0:
        s = (1,)
    elif k == 1:
        s = (int(rng.integers(2, 30)),)
    elif k == 2:
        s = (int(rng.integers(1, 6)), int(rng.integers(1, 7)))
    elif k == 3:
        s = (int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4)))
    elif k == 4:
        s = (int(rng.integers(2, 40)), 1)
    elif k == 5:
        s = (1, int(rng.integers(2, 40)))
    else:
        s = (int(rng.integers(30, 80)),)
    return s


def rz_cloud(rng, n, R=1.0, sheet=True):
    """(r,z)/R mixing bulk, near axis, near sheet, near edge, rotor plane, far field"""
    kind = rng.integers(0, 12, n)
    r = rng.uniform(0, 3, n)
    z = rng.uniform(-4, 6, n)
    # near axis, from 1e-9 to 0.1
    b = kind == 1
    r[b] = logu(rng, 1e-9, 1e-1, b.sum())
    b = kind == 2
    r[b] = 0
    # near sheet
    b = kind == 3
    r[b] = 1 + slog(rng, 1e-9, 1e-1, b.sum())
    # near edge, both
    b = kind == 4
    r[b] = 1 + slog(rng, 1e-7, 1e-1, b.sum())
    z[b] = slog(rng, 1e-7, 1e-1, b.sum())
    # rotor plane
    b = kind == 5
    z[b] = 0
    # near rotor plane
    b = kind == 6
    z[b] = slog(rng, 1e-9, 1e-1, b.sum())
    # far field, every direction
    b = kind == 7
    D = logu(rng, 5, 1e3, b.sum())
    th = np.arccos(rng.uniform(-1, 1, b.sum()))
    r[b], z[b] = D * np.sin(th), D * np.cos(th)
    # far downstream inside
    b = kind == 8
    r[b] = rng.uniform(0, 0.98, b.sum())
    z[b] = logu(rng, 5, 1e4, b.sum())
    # far upstream
    b = kind == 9
    z[b] = -logu(rng, 5, 1e3, b.sum())
    # same r as R with z upstream (exact r==R possible)
    b = kind == 10
    r[b] = 1.0
    z[b] = slog(rng, rng.choice([1e-3, 1e-7]), 10, b.sum())
    return r * R, z * R, kind


def polar_to_xy(rng, r, R):
    """random azimuth, a part of them on the coordinate axes"""
    psi = rng.uniform(-PI, PI, r.shape)
    ax = rng.random(r.shape) < 0.35
    x = np.where(ax, 0.0, r * np.cos(psi))
    y = np.where(ax, 0.0, r * np.sin(psi))
    k = rng.integers(0, 4, r.shape)
    x = np.where(ax & (k == 0), r, np.where(ax & (k == 1), -r, x))
    y = np.where(ax & (k == 2), r, np.where(ax & (k == 3), -r, y))
    return x, y


def unit(rng):
    while True:
        v = rng.normal(size=3)
        n = np.linalg.norm(v)
        if n > 1e-3:
            return v / n


def frame(rng, special=0.3):
    """orthonormal (shaft, vert)"""
    if rng.random() < special:
        A = np.eye(3)[rng.permutation(3)] * np.where(rng.random(3) < 0.5, 1, -1)[:, None]
        return A[0], A[1]
    s = unit(rng)
    while True:
        v = unit(rng)
        v = v - np.dot(v, s) * s
        if np.linalg.norm(v) > 0.1:
            v /= np.linalg.norm(v)
            v -= np.dot(v, s) * s
            return s, v / np.linalg.norm(v)


def skew_angle(rng, lo=1e-6, hi=1.1):
    """skew angle, from hardly any to strong, both signs"""
    k = rng.integers(0, 3)
    a = logu(rng, lo, hi) if k == 0 else rng.uniform(0.02, hi)
    return float(a * sgn(rng))


def ct(rng, hi=1.3):
    """thrust coefficient, concentrated around the Spera switch"""
    k = rng.integers(0, 4)
    if k == 0:
        return float(rng.uniform(0.02, 0.88))
    if k == 1:
        return float(min(hi, 0.8976 + slog(rng, 1e-4, 5e-2, 1)[0]))
    if k == 2:
        return float(rng.uniform(0.9, hi))
    return float(rng.uniform(0.3, 0.89))


def lam(rng):
    """tip-speed ratio, on both sides of the switch (20) where swirl is neglected"""
    k = rng.integers(0, 6)
    if k == 0:
        return np.inf
    if k == 1:
        return float(rng.uniform(20.001, 60))
    if k == 2:
        return float(rng.uniform(12, 19.99))
    return float(rng.uniform(1.5, 12))
